TECH = "deterministic simulation with fault injection: seeded search over schedules and faults, recorded history against a reference model"
NOTES = ("Every check: cmake+ninja build of the harness from /repo's working tree, seeded simulation batch on 8 workers, fresh-process replay gate, "
         "minimisation, evidence. No hooks in /repo are needed: system calls, clocks, locks, thread scheduling and the counter library are intercepted from outside.")
HOOKS = None


def q(over, text):
    return {"over": over, "text": text}


def anchors(files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return a


INSTR = "rtl/src/instrumentation.cpp"
INSTR_H = "rtl/include/daisy_rtl/daisy_rtl.h"
NOTE_T = ("Sampled assurance from a seeded search: real runtime library, simulated counter library, clock, file system and scheduler. "
          "Trusts the simulator and the counter-library model; assumes sequentially consistent memory.")

CURLU = "rpc/src/util/utils_curl.cpp"
RPCC = "rpc/src/passes/rpc/rpc_context.cpp"
RPCD = "rpc/src/passes/rpc/daisytuner_rpc_context.cpp"
NOTE_R = ("Sampled assurance from a seeded search: real client code and real libcurl over a simulated TCP network, server, clock and disk. No TLS and no name resolution; "
          "trusts the simulator and libcurl.")

CLAIMED = [
    dict(
        id="T01", title="Instrumentation trace is valid, complete and correctly labelled",
        statement="A program that uses the instrumentation API and ends normally leaves a trace that is well-formed JSON and contains exactly one event "
        "for every execution of a region (in aggregate mode: exactly one event per initialised region) and no other event. Each event carries "
        "exactly the metadata given for that region, unaltered, whatever characters the strings contain and whichever optional fields are absent.",
        quantifier=q(["programs", "histories", "configurations", "schedules"],
                     "all sequences and interleavings of init/enter/exit/metric/finalize over any set of regions, all metadata contents, both output modes, any counter configuration"),
        why_tests_cant="No stable test runs the instrumentation library end to end; the RTL tests need PAPI and look at a single region with plain strings and one execution.",
        anchors=anchors([INSTR, INSTR_H], [("event serialisation", INSTR + ": append_event, append_event_aggregated"), ("per-region records", INSTR + ": DaisyRegion"),
                                          ("trace written at process end", INSTR + ": destructor of the instrumentation state")],
                        ["the trace file after process exit"]),
        level_note=NOTE_T),
    dict(
        id="T02", title="Every recorded execution has its own start, duration and counter values",
        statement="In event mode each trace event reports, up to the printed precision, the start time and duration of one actual execution of its region and, for "
        "each configured counter of that region's class, how much the counter advanced during that execution. Other regions, nested or repeated executions and "
        "concurrent threads never change these values, and counters of the other class never appear.",
        quantifier=q(["histories", "schedules", "programs"], "all nestings, repetitions and interleavings of region executions on any number of threads, any clock granularity, any counter set"),
        why_tests_cant="Measured values depend on clock, counters and schedule, which tests cannot control; existing tests only assert that a file appears.",
        anchors=anchors([INSTR], [("time stamps at enter/exit", INSTR + ": __daisy_instrumentation_enter/exit"), ("counter delta between enter and exit", INSTR + ": enter_region/exit_region"),
                                  ("open executions matched per thread", INSTR + ": open_executions")], ["trace events' ts, dur, args.metrics"]),
        level_note=NOTE_T),
    dict(
        id="T03", title="Aggregated statistics equal the statistics of the real executions",
        statement="In aggregate mode each region's event reports count, mean, population variance, minimum and maximum (runtime in microseconds, every configured counter, "
        "every static metric and increment passed in) equal, up to the printed precision, to those of the multiset of values that actually occurred, plus their total "
        "duration and the start of the first execution. This holds for zero, one or many executions from any number of threads.",
        quantifier=q(["histories", "schedules", "inputs"], "all multisets of durations, counter deltas and metric values, in every order and interleaving"),
        why_tests_cant="Running statistics are only wrong for particular sequences (first value, negative values, large offsets, concurrent updates); no test computes a reference.",
        anchors=anchors([INSTR], [("running statistics", INSTR + ": exit_region aggregate branch, metric()"), ("printing", INSTR + ": append_event_aggregated")],
                        ["aggregated events' args.metrics"]),
        level_note=NOTE_T),
    dict(
        id="T04", title="Hardware counter resources follow their protocol and are bounded",
        statement="From the end of its initialisation until its last finalisation begins, a region's own counters are set up with exactly the configured events and running; no call ever uses a "
        "counter set that does not exist, is not running, or belongs to another region. A set is destroyed only when its region is unused, at most ten sets of unused regions are kept "
        "around, and none is left at the end of a program that finalised all its regions.",
        quantifier=q(["histories", "schedules", "programs"], "all init/finalize histories over any number of regions, including re-initialisation, recursion and concurrent use"),
        why_tests_cant="Needs long histories over many regions against a counter library that checks every transition; tests use one region and the real (absent) PAPI.",
        anchors=anchors([INSTR], [("set creation and start", INSTR + ": __daisy_instrumentation_init"), ("bounded pool of finished regions", INSTR + ": __daisy_instrumentation_finalize"),
                                  ("final cleanup", INSTR + ": destructor")], ["every call into the counter library"]),
        level_note=NOTE_T),
    dict(
        id="T05", title="Instrumentation failures are never silent",
        statement="If the counter library cannot be loaded or initialised, lacks a needed function, reports another version, or fails to create, fill, clean up or destroy a "
        "counter set, or if the trace cannot be opened or completely written, the program ends with a non-zero status and a diagnostic on standard error. Partial or interrupted "
        "writes that succeed in the end leave a complete trace, and failures of start, stop or read of counters never damage anything but the affected counter values.",
        quantifier=q(["fault_sequences"], "every position of every counter-library failure, every failing, short, interrupted or out-of-space file operation"),
        why_tests_cant="Requires failing calls inside a third-party library and the file system at chosen points; no test injects any.",
        anchors=anchors([INSTR], [("fatal exits", INSTR + ": checks after every counter-library call"), ("output error check", INSTR + ": destructor, fclose/ferror")],
                        ["exit status, standard error, trace file"]),
        level_note=NOTE_T),
    dict(
        id="T06", title="Concurrent and recursive instrumentation is safe and loses nothing",
        statement="Any number of threads may initialise, enter, exit, annotate and finalise the same or different regions concurrently, nested and recursively. No interleaving deadlocks, hangs, "
        "aborts or ends the program, and every execution and metric is recorded exactly once with its own values as if the calls had been made one at a time.",
        quantifier=q(["schedules", "histories"], "all interleavings of the calls of any number of threads, at the granularity of individual memory accesses"),
        why_tests_cant="Unit tests run one schedule on one thread; races need a preemption at a particular instruction.",
        anchors=anchors([INSTR], [("one mutex around all shared state", INSTR + ": std::mutex members/lock_guard"), ("reference count of users", INSTR + ": users")],
                        ["process outcome, the trace file, counter-library calls"]),
        level_note=NOTE_T),
]

CAP = "rtl/src/capture.cpp"
CAPIO = "arg-capture-io/src/arg_capture_io.cpp"
CAPIO_H = "arg-capture-io/include/daisy_rtl/arg_capture_io.h"
NOTE_C = ("Sampled assurance from a seeded search: real capture library and runtime on a real file tree whose system calls, failures and crashes the simulator decides. "
          "Trusts the simulator; a crash keeps the data of completed system calls (no power-loss model).")

CLAIMED += [
    dict(
        id="C01", title="A captured invocation reads back exactly as it was captured",
        statement="For every invocation of a target whose capture ended normally, reading its index back yields exactly the captured arguments and results: target name, element, "
        "invocation number, argument position, input/output side, element type, dimensions, and byte for byte the contents the argument had at the moment of the capture call. If one argument was captured "
        "more than once in an invocation, the last capture counts. Other invocations, elements, targets and threads never change what is read back.",
        quantifier=q(["programs", "inputs", "histories", "schedules"], "all sequences of captures of any arguments (scalars and 1 to 3 dimensions, empty ones included) of any number of elements, targets, invocations and threads, all contents"),
        why_tests_cant="The stable tests of the capture library round-trip a few fixed arrays and never run the capture runtime; interference needs histories over several elements, invocations and contexts.",
        anchors=anchors([CAP, CAPIO, CAPIO_H], [("capture calls", CAP + ": __daisy_capture_*"), ("data files", CAPIO + ": write_data_to_raw_file"), ("index", CAPIO + ": write_index, from_index, serialize_into, parse_from")],
                        ["ArgCaptureIO::from_index, get_captures, read_data_from_raw_file"]),
        level_note=NOTE_C),
    dict(
        id="C02", title="Captures select, number and place invocations as configured",
        statement="Under the strategy 'all' every invocation is captured, under 'never' none, and otherwise exactly the first one of each element. Invocations are numbered per target and element, "
        "from 0, in call order, whether captured or not. The output directory is the one in the environment, else the one given by the program, else 'arg_captures'; nothing outside it is created, changed or removed.",
        quantifier=q(["configurations", "histories", "schedules"], "all strategy and directory settings, all interleavings of invocations of several elements and targets"),
        why_tests_cant="Selection and numbering show only over long histories of several elements under each configuration; tests use one element and one setting.",
        anchors=anchors([CAP, CAPIO], [("strategy and directory", CAP + ": __daisy_capture_init"), ("selection", CAP + ": DaisyRtlCapture::enter"), ("numbering", CAPIO + ": invocation")],
                        ["return value of __daisy_capture_enter, set of index files, every path opened for writing"]),
        level_note=NOTE_C),
    dict(
        id="C03", title="A failed capture is never silent and never harms other captures",
        statement="If a file operation or an allocation fails while an argument is captured or an index written, so that the capture cannot be completed, the caller gets an exception. Short, interrupted and "
        "retried operations leave a complete capture. Whatever failed, captures that were reported as successful read back exactly, and the readable index of the affected invocation describes nothing but data that is there.",
        quantifier=q(["fault_sequences", "histories"], "every failing, short, interrupted or out-of-space file operation and every failing allocation, at every point of every capture history, followed by continued use or a new run"),
        why_tests_cant="Tests do not make file operations or allocations fail at chosen points.",
        anchors=anchors([CAP, CAPIO], [("failure reporting", CAPIO + ": write_data_to_raw_file, write_index"), ("exceptions to the program", CAP + ": capture_*")],
                        ["exceptions out of the capture calls, files read back"]),
        level_note=NOTE_C),
    dict(
        id="C04", title="A crash never leaves a readable index that lies",
        statement="If the process dies at any point of a capture, also while it overwrites the captures of an earlier run in the same directory, every index that can be read afterwards describes only data that was "
        "completely captured in one and the same run of that invocation; everything else is detected on reading. Running the program again restores complete captures.",
        quantifier=q(["crash_points", "histories"], "a crash before, during (after any number of bytes) or after every file operation, in a first or repeated run, and again during recovery"),
        why_tests_cant="Tests cannot stop the process between two system calls.",
        anchors=anchors([CAP, CAPIO], [("data files are written before the index", CAP + ": exit"), ("stale index is dropped on entry", CAP + ": enter"), ("short data is rejected", CAPIO + ": read_data_from_raw_file")],
                        ["everything the reader reports after the crash"]),
        level_note=NOTE_C),
    dict(
        id="C05", title="Damaged or unreadable captures are rejected, never returned as data",
        statement="Reading a capture whose index is cut off or lacks required fields, or whose data file is missing, shorter than described or unreadable, or during which a read or an allocation fails, ends in an exception. It never "
        "returns made-up contents, never writes beyond the buffer it was given and never ends the reading program; undamaged captures next to it stay readable.",
        quantifier=q(["inputs", "fault_sequences"], "every truncation point, every missing or mistyped field, every flipped bit of an index, every failing or short read"),
        why_tests_cant="The stable tests read only well-formed captures.",
        anchors=anchors([CAPIO], [("index parsing", CAPIO + ": from_index, parse_from"), ("data files", CAPIO + ": read_data_from_raw_file")],
                        ["exceptions, reported captures, buffer contents"]),
        level_note=NOTE_C),
    dict(
        id="C06", title="Threads that capture with their own contexts do not disturb each other",
        statement="Threads that each use their own capture contexts, also in the same output directory, at the same time with any interleaving, leave exactly the captures, numbers and selection decisions that each of them would have left alone, "
        "without failures, deadlock or crash.",
        quantifier=q(["schedules", "programs"], "all interleavings of captures by up to four threads, at the granularity of memory accesses and file operations"),
        why_tests_cant="Tests use one thread; interference through hidden shared state or directory creation needs a particular interleaving.",
        anchors=anchors([CAP, CAPIO], [("state per context", CAP + ": DaisyRtlCapture"), ("shared output directory", CAPIO + ": create_directories")],
                        ["results of the calls, captures read back"]),
        level_note=NOTE_C),
    dict(
        id="R01", title="A query's reported outcome is what the server really answered",
        statement="A query to the optimisation service is reported as successful exactly when a complete answer with a success status (200-203) to this query arrived; body and status are then "
        "exactly those the server sent. In every other case - refused, unreachable, reset, truncated, malformed, timed out, error status - it is reported as failed, with an error message and never with "
        "a status no server sent. Segmentation, delays, interrupted or partial socket operations and interim answers never change the outcome.",
        quantifier=q(["fault_sequences", "inputs", "histories"], "all answers, all their segmentations, every failure of connection or socket call at any point, fresh and reused connections"),
        why_tests_cant="The only RPC tests need the live service; no test has a server that is slow, broken or cut off at a chosen byte.",
        anchors=anchors([CURLU, RPCC], [("HTTP exchange", CURLU + ": post_json"), ("collecting the answer", CURLU + ": write_callback")], ["HttpResult of every query"]),
        level_note=NOTE_R),
    dict(
        id="R02", title="A query to the service always comes to an end",
        statement="Whatever the network and the server do - refuse, accept and stay silent, stall in the middle of request or answer, trickle, partition - a query returns; once nothing is received or "
        "accepted any more it returns, reporting failure, within thirty minutes.",
        quantifier=q(["fault_sequences", "schedules"], "every point at which network or server stop, any delays before"),
        why_tests_cant="Needs a peer that stops at a chosen point, and hours of waiting; simulated time makes it immediate.",
        anchors=anchors([CURLU], [("stall detection", CURLU + ": post_json, CURLOPT_LOW_SPEED_*")], ["simulated time from the last progress to the return of the query"]),
        level_note=NOTE_R),
    dict(
        id="R03", title="The service receives exactly the query that was made, once",
        statement="Every query reaches the server as one POST to the configured address with the given headers and exactly the given payload, whatever bytes and length it has and however the "
        "connection splits it; headers and payloads of other queries never appear in it, and as long as no connection fails it is sent only once.",
        quantifier=q(["inputs", "histories", "fault_sequences"], "all payloads and headers, all sequences of queries on reused connections, all partial sends and interruptions"),
        why_tests_cant="No test looks at what the server receives.",
        anchors=anchors([CURLU], [("request options", CURLU + ": post_json")], ["requests as parsed by the simulated server"]),
        level_note=NOTE_R),
    dict(
        id="R04", title="The right credential is used, whole, and only in its own form",
        statement="The credential used for the service is the first one available of: job token from the environment, access token from the environment, the user's token file, the machine's session file. It is sent "
        "unaltered except for trailing white space, as a job token exactly if it is one, to the service's server. A credential that cannot be read completely is never used, and without any credential none is sent.",
        quantifier=q(["configurations", "fault_sequences"], "all combinations of sources, contents and lengths, every failing or short file operation while reading"),
        why_tests_cant="Tests read the developer's real home directory at most; precedence and read failures are not tested.",
        anchors=anchors([RPCD], [("look-up order", RPCD + ": find_docc_auth"), ("headers", RPCD + ": from_docc_config")], ["token and kind found, address and headers of the context built"]),
        level_note=NOTE_R),
    dict(
        id="R05", title="Client configuration is applied as written or rejected",
        statement="Server, endpoint and headers are those of the last configuration step that sets them (defaults, configuration file, environment, explicit headers), everything else keeps its previous value. A configuration "
        "file that is missing, unreadable, damaged or of the wrong shape is reported as an error and is never applied in part.",
        quantifier=q(["configurations", "fault_sequences", "histories"], "all sequences of configuration steps, all file contents and damages, every failing or short file operation"),
        why_tests_cant="Tests load one well-formed file.",
        anchors=anchors([RPCC], [("configuration steps", RPCC + ": SimpleRpcContextBuilder")], ["address and headers of the context built, exceptions"]),
        level_note=NOTE_R),
]

NOTE_RT = ("Sampled assurance from a seeded search: real scheduling pass, remote scheduler, cutout, serializer, replayer, transformations and HTTP client over a simulated network and a scripted tuning service. "
           "SymEngine and ISL are absent and replaced by a small stand-in (DESIGN.md); whether a loop transformation itself preserves semantics is not covered (S01).")
RPCT = "rpc/src/transformations/rpc_node_transform.cpp"
RPCS = "rpc/src/passes/rpc/rpc_scheduler.cpp"
LSP = "opt/src/passes/scheduler/loop_scheduling_pass.cpp"
SREG = "opt/include/sdfg/passes/scheduler/scheduler_registry.h"
CLAIMED += [
    dict(
        id="R06", title="A tuning answer is applied exactly as received or not at all",
        statement="Remote tuning changes a program only by replacing the loop nest that was asked about with the complete program of a complete, well-formed, successful answer to that very request, or by carrying out the "
        "transformations such an answer lists. Everything of the answer is taken over; containers it introduces are new ones of the program, never other data that happens to have the same name; the rest of the program, its containers "
        "and its interface stay as they are, element numbers stay unique, and the program stays valid. Any other answer - error, incomplete, unreadable, damaged, empty, describing transformations that do not apply - or no answer leaves the program "
        "as it was (up to listed transformations carried out before one that failed), is reported as not applied, and never ends the compilation.",
        quantifier=q(["inputs", "programs", "fault_sequences", "histories"], "all programs of loops, all well-formed, damaged and cut-off answers, all failures of connection and socket calls, all sequences of compilations in one process"),
        why_tests_cant="The only RPC tests need the live service, which answers correctly; none has an answer with several statements, with names of its own, or a damaged one.",
        anchors=anchors([RPCT, "sdfg/src/serializer/json_serializer.cpp", "sdfg/src/transformations/replayer.cpp", "sdfg/src/cutouts/cutouts.cpp"],
                        [("reading the answer", RPCT + ": parse_rpc_response"), ("taking it over", RPCT + ": apply"), ("listed transformations", "sdfg/src/transformations/replayer.cpp: replay")],
                        ["program (serialised) before and after each loop nest, outcomes reported to the pass report"]),
        level_note=NOTE_RT),
    dict(
        id="R07", title="Each tunable loop nest is submitted once, as it is, under the current configuration",
        statement="A compilation with remote tuning submits every outermost loop nest that can be tuned - a for or map loop without side effects that is not purely element-wise and contains no loop already scheduled otherwise - exactly once, "
        "and none that has side effects or contains loops scheduled otherwise. The request carries exactly that loop nest as it is in the program at that moment with the containers it uses and up-to-date loop information, and the target, category, server, "
        "endpoint and headers of the current compilation, whatever earlier compilations in the process used. For every submitted loop nest exactly one outcome, with a reason if it was refused, is reported.",
        quantifier=q(["programs", "histories", "fault_sequences"], "all programs of loops, all sequences of compilations with changing configurations in one process, all answers and network failures"),
        why_tests_cant="Tests compile one program per process with one configuration and look at no request.",
        anchors=anchors([RPCS, LSP, SREG, RPCT], [("which loops", LSP + ": run_pass_target"), ("which configuration", SREG + ": register_loop_scheduler"), ("the request", RPCT + ": can_be_applied, query_rpc_server"),
                                                  ("cutout", "sdfg/src/cutouts/cutout_serializer.cpp")],
                        ["requests as received by the service, loop information of a fresh analysis, pass report"]),
        level_note=NOTE_RT),
]

PSD = "python/bindings/py_structured_sdfg.cpp"
CSB = "sdfg/src/codegen/code_generators/c_style_base_code_generator.cpp"
NOTE_W = ("Sampled assurance from a seeded search: the real compile driver, code generators and serializer over a simulated disk and a simulated compiler and linker. "
          "What the generated code computes is not covered (S03), nor are compilers' own bugs. SymEngine and ISL are replaced by a small stand-in (DESIGN.md).")
CLAIMED += [
    dict(
        id="W01", title="A build that is reported as done is a build of the program, the whole program, with what it needs",
        statement="When compiling a program to a native library is reported as successful, the library at the path returned was linked from objects compiled in this build from exactly the program's current generated code - every source, header, kernel and "
        "model of it, complete, all parts agreeing on how they call each other, and nothing else - with the options and libraries this code needs (position independence, OpenMP wherever it has parallel pragmas, vector and GPU libraries, runtime), and the paths built into it are "
        "those of the program. Otherwise an exception is raised: for any file or compiler failure, partial output, leftovers of earlier or killed builds in the folder. Without a failure, building succeeds for every program that code can be generated for, "
        "in every folder the file system allows, and the shell is never given a file name as anything but a file name. No other file is touched.",
        quantifier=q(["programs", "configurations", "fault_sequences", "histories"], "all programs, targets, options and folder names; all failures of files, compiler and linker; all leftovers of earlier and killed builds"),
        why_tests_cant="Tests build well-formed programs in fresh temporary folders with a working compiler and a healthy disk, or only look at the generated text.",
        anchors=anchors([PSD, CSB, "targets/et/src/et/target.cpp", "opt/src/targets", "sdfg/src/codegen"],
                        [("build steps and their results", PSD + ": compile"), ("sources", CSB + ": as_source"), ("device kernels", "targets/et/src/et/target.cpp: et_build_kernel"), ("paths built in", "sdfg/src/codegen/instrumentation/instrumentation_plan.cpp")],
                        ["commands given to the shell, what the simulated compiler read and linked, files in the folder, exceptions"]),
        level_note=NOTE_W),
    dict(
        id="W02", title="Programs, recipes and sources on disk are complete, or their failure is reported",
        statement="dump() leaves exactly the program in its JSON file, a saved recipe is exactly the recorded history, generated sources and library files contain all the code, or the failure is reported (exception, false; on stderr for the DOT picture, a by-product). "
        "Reading a program file gives exactly the program the file holds, or an exception if the file is missing, unreadable, cut off or damaged so that it holds none; it never ends the process and never gives part of a program.",
        quantifier=q(["programs", "fault_sequences", "inputs"], "all programs and recipes, all file-system failures at any operation, full disk, kills, all damage to the files read"),
        why_tests_cant="Tests serialise in memory; none runs out of disk, and none reads a damaged file.",
        anchors=anchors([PSD, CSB, "sdfg/src/transformations/recorder.cpp", "sdfg/src/visualizer/dot_visualizer.cpp", "opt/src/targets/offloading/utils.cpp", "sdfg/src/serializer/json_serializer.cpp"],
                        [("program files", PSD + ": dump, from_file"), ("recipes", "sdfg/src/transformations/recorder.cpp: save"), ("sources", CSB + ": as_source; opt/src/targets/offloading/utils.cpp")],
                        ["files on disk after each operation, programs read back, exceptions"]),
        level_note=NOTE_W),
]

ETR = "targets/et/rt/src/runtime.cpp"
ETG = "targets/et/src/et/blas/gemm.cpp"
NOTE_E = ("Sampled assurance from a seeded search: the real mapper, dispatcher, code generator and runtime wrapper; the host code and kernels they generate are compiled and run over a simulated device (streams whose work "
          "happens at seeded moments, device memory, kernel images, traces, failing calls). The vendor's runtime is a model of its documented interface; 15 programs are generated, their sizes and data vary.")
CLAIMED += [
    dict(
        id="E01", title="Work offloaded to the accelerator gives exactly the result of the program, or an exception",
        statement="A function whose matrix products were mapped to the accelerator leaves in its arguments what the program says - for all sizes, strides, views into larger arrays, scalars, loops around the product, and output arrays whose old content does not matter - "
        "reads and writes no memory but the elements the program accesses, on host and device, whatever order and moment the device chooses for the queued work and whatever other threads offload at the same time; the device runs the complete current "
        "kernel file from the folder configured; what kernels print is shown; when a call returns nothing is running any more. If the device, its runtime or the kernel file fails, the call raises an exception, the inputs are unchanged and later calls work; "
        "without such a failure every call succeeds.",
        quantifier=q(["inputs", "schedules", "fault_sequences", "programs"], "all sizes, strides and data; all orders and moments in which the device may do queued work; all interleavings of calling threads; all failures of device calls and kernel files"),
        why_tests_cant="Tests only look at which library nodes were mapped; nothing generated is ever run, since it needs the vendor's runtime and a card or its emulator.",
        anchors=anchors([ETG, ETR, "targets/et/src/et/et_lib_node_mapper.cpp", "targets/et/src/et/target.cpp"],
                        [("host code: sizes, transfers, launch, waiting", ETG + ": dispatch"), ("kernel", ETG + ": gemm_s_kernel"), ("what may be offloaded", "targets/et/src/et/et_lib_node_mapper.cpp: try_map"),
                         ("kernel loading, trace output", ETR + ": load_kernel_binary_blocking, dump_trace_outputs")],
                        ["arguments after each call, guarded host and device memory, device calls, stderr, exceptions"]),
        level_note=NOTE_E),
    dict(
        id="E02", title="The accelerator is opened once and everything taken from it is returned",
        statement="A process opens the accelerator once, in the mode and with the emulator files configured, however many threads make the first call at the same time; a failed attempt is repeated by the next call. "
        "Repeating the same successful calls holds no more device memory, streams or kernels than before, so any number of calls succeeds on a device that suffices for one per thread.",
        quantifier=q(["histories", "schedules", "configurations"], "all sequences of calls from all threads, all modes, all sets of emulator files, all failures of earlier calls"),
        why_tests_cant="Tests have no device; leaks and a second opening need repeated calls on one with limits.",
        anchors=anchors([ETR, ETG], [("opening", ETR + ": get_instance, get_mode"), ("returning", ETG + ": kernel_cleanup; " + ETR + ": dump_trace_outputs")],
                        ["device layers and runtimes opened, resources held after each round of calls"]),
        level_note=NOTE_E),
]

F2M = "sdfg/src/passes/structured_control_flow/for2map.cpp"
OMPD = "opt/src/targets/omp/codegen/omp_map_dispatcher.cpp"
NOTE_P = ("Sampled assurance from a seeded search: the real analyses, parallelisation, schedulers and code generator; the code they generate is compiled and run by simulated threads over a simulated OpenMP runtime. "
          "SymEngine is a small stand-in and ISL a stand-in whose integer sets are decided by Z3 (DESIGN.md). Programs are drawn from a grammar of loop nests; sequentially consistent memory.")
CLAIMED += [
    dict(
        id="P01", title="A loop made parallel gives the sequential program's result under every schedule",
        statement="A loop is only made parallel, and only generated as a parallel OpenMP loop, if running its iterations in any order, on any number of threads and in any distribution and interleaving, leaves exactly what the program as written leaves: "
        "in all arrays, also when accesses of different iterations go through strided, linearised, shifted or indirect subscripts, several arrays or pointers that may name the same memory, and in everything read later (scalars, symbols, the loop counter, local arrays). "
        "What an iteration computes for itself is private to the thread that runs it. The parallel code compiles with an OpenMP compiler, for every loop condition, step, schedule kind and number of threads the program may ask for.",
        quantifier=q(["programs", "schedules", "inputs"], "all programs of nested loops, conditions, exits, scalar and array accesses; all team sizes, distributions of iterations and interleavings of threads; all data and sizes"),
        why_tests_cant="Tests look at whether a given loop was converted or at the generated text; no test runs generated code on threads, and a race shows only for some programs under some interleavings.",
        anchors=anchors([F2M, OMPD, "sdfg/src/analysis/data_dependency_analysis.cpp", "sdfg/src/symbolic/maps.cpp", "opt/src/passes/scheduler/omp_scheduler.cpp"],
                        [("which loops are independent", F2M + ": can_be_applied; sdfg/src/analysis/data_dependency_analysis.cpp, users.cpp, assumptions_analysis.cpp"), ("disjoint accesses", "sdfg/src/symbolic/maps.cpp: is_disjoint_isl, is_disjoint_monotonic, intersects"),
                         ("parallel code", OMPD + ": dispatch_node"), ("which loops get threads", "opt/src/passes/scheduler/omp_scheduler.cpp, loop_scheduling_pass.cpp")],
                        ["memory after each simulated parallel run of the generated code, compiler result"]),
        level_note=NOTE_P),
]

PYP = "python/docc/python/python_program.py"
PYC = "python/docc/compiler/compiled_sdfg.py"
PYD = "python/docc/compiler/docc_program.py"
PYT = "mlir/docc/torch/__init__.py"
NOTE_J = ("Sampled assurance from a seeded search: the real Python modules run in simulated processes and threads; the native SDFG module, AST lowering, C++ compiler and loader are stand-ins that record what "
          "the front end asks for and execute exactly that on the memory it passes. What the generated code itself computes is not covered (S03, S06).")

CLAIMED += [
    dict(
        id="J01", title="A compiled Python function behaves like the Python function, call after call",
        statement="Whatever sequence of calls was made before, a call of a compiled function returns what the Python function returns, leaves its array arguments as Python would, and touches no memory but that of its arguments. "
        "This holds for every mix of element types, shapes, memory layouts, scalar and structure arguments, for functions that share a name, a file or a closure's code, for functions redefined or edited and loaded again, and for "
        "Torch models of one class with different parameters: no earlier compilation, cached or left in an output folder, is ever run for something it was not compiled for.",
        quantifier=q(["histories", "inputs", "programs"], "all sequences of definitions, edits, compilations (default or given folder) and calls with all argument types, shapes, layouts and values the front end accepts"),
        why_tests_cant="Each test compiles one function for one kind of argument in a fresh process, so nothing is ever found in a cache or folder that belongs to something else.",
        anchors=anchors([PYP, PYC, PYT, "python/docc/python/types/__init__.py"],
                        [("signature and cache", PYP + ": compile, _infer_type, _type_to_str"), ("argument and result conversion", PYC + ": __call__, _convert_inputs"),
                         ("library loading", PYC + ": __init__"), ("model cache", PYT + ": compile, _get_cache_key")],
                        ["results and arguments after each call", "memory accessed by the compiled function"]),
        level_note=NOTE_J),
    dict(
        id="J02", title="The options asked for are the options of the code that runs",
        statement="Every compilation uses instrumentation and argument capture as given to compile(), else to the decorator, else by the DOCC_CI environment variable (Python functions), else none, and target, category and remote tuning "
        "as given to the decorator; code of a custom target is scheduled and compiled by the functions registered for it. Code compiled earlier with other options is never used in its place.",
        quantifier=q(["configurations", "histories"], "all combinations of explicit options, decorator options and environment, changed between calls, over several functions"),
        why_tests_cant="Tests set one option in a fresh process; a stale choice needs two compilations that differ in nothing else.",
        anchors=anchors([PYP, PYD, PYT, "python/docc/python/target_registry.py"],
                        [("option resolution", PYP + ": compile"), ("cache key and folder", PYP + ": compile; " + PYT + ": compile"), ("target overrides", "python/docc/python/target_registry.py")],
                        ["options recorded with the library whose function ran"]),
        level_note=NOTE_J),
    dict(
        id="J03", title="Processes and threads compiling the same function do not disturb each other",
        statement="Any number of processes and threads may define, compile and call the same functions and models at the same time with the same output folder: every call succeeds and returns what Python returns, as if it were alone.",
        quantifier=q(["schedules", "programs"], "all interleavings of 1-4 processes with 1-3 threads each, first and repeated calls, functions, structures and models shared or not"),
        why_tests_cant="Tests use one process and one thread; the folder is shared by name, and the window is a few lines wide.",
        anchors=anchors([PYP, PYD, PYC, PYT], [("folder removed and rebuilt", PYP + ": compile; " + PYT + ": compile"), ("library loading", PYC + ": __init__"), ("structure members", PYP + ": _build_sdfg")],
                        ["outcome of every call in every process"]),
        level_note=NOTE_J),
    dict(
        id="J04", title="A failed or killed compilation harms nobody else and nothing else",
        statement="If a step of a compilation fails (folder, file, parser, scheduler, compiler, loader) the caller gets an exception or still the right result, never a wrong one; if a process is killed at any point, nobody waits for it. "
        "Other callers are unaffected, and the next attempt works as soon as the fault is gone. No file that does not belong to the compilation is changed or removed.",
        quantifier=q(["crash_points", "fault_sequences", "schedules"], "every file operation and build step failing with any error, kill at every line and file operation, concurrently running and later processes"),
        why_tests_cant="No test injects a failure; what a killed compilation leaves behind depends on the exact point.",
        anchors=anchors([PYP, PYD, PYC, PYT], [("build steps", PYP + ": compile"), ("lock around the folder", PYD), ("library loading", PYC + ": __init__")],
                        ["outcome of every call", "files outside the output folders"]),
        level_note=NOTE_J),
]

PURE = "pure function of its input: no schedule, clock, I/O fault or interleaving takes part in it, so simulation with fault injection has nothing to inject; "

NOT_APPLICABLE = [
    dict(
        id="S01", title="Transformations and passes preserve program semantics",
        statement="For every program and every transformation or optimisation pass whose applicability check accepts it, the transformed program computes the same results as the original for all inputs.",
        quantifier=q(["programs", "inputs"], "all programs accepted by the applicability checks, all inputs"),
        why_tests_cant="Tests cover hand-picked programs per transformation.",
        anchors=anchors(["sdfg/src/transformations", "sdfg/src/passes"], [("can_be_applied/apply", "sdfg/src/transformations")]),
        reason=PURE + "moreover it rests on SymEngine and ISL, absent here; the stand-in built for R06/R07 carries programs through unchanged but is no ground truth for what the transformations conclude from it."),
    dict(
        id="S02", title="Serialisation round trip preserves every program",
        statement="Writing any program representation to JSON and reading it back yields an equivalent program with the same identities, types and debug information.",
        quantifier=q(["programs"], "all well-formed programs"),
        why_tests_cant="Tests round-trip individual node kinds.",
        anchors=anchors(["sdfg/src/serializer"], [("serializer dispatch", "sdfg/src/serializer/json_serializer.cpp")]),
        reason=PURE + "and it needs SymEngine, absent here (a stand-in exists for R06/R07, see DESIGN.md)."),
    dict(
        id="S03", title="Generated code computes what the program representation means",
        statement="For every well-formed program, target and supported type, the generated C/C++/CUDA code compiles and computes the result defined by the representation.",
        quantifier=q(["programs", "inputs"], "all programs, targets, inputs"),
        why_tests_cant="Tests compare generated text for single nodes.",
        anchors=anchors(["sdfg/src/codegen"], [("dispatchers", "sdfg/src/codegen/dispatchers")]),
        reason=PURE + "and it needs SymEngine, absent here (a stand-in exists for R06/R07, see DESIGN.md)."),
    dict(
        id="S04", title="Analyses are sound",
        statement="Every fact reported by the data-flow, users, assumptions, memory-layout and dependence analyses holds in every execution of the analysed program.",
        quantifier=q(["programs", "inputs"], "all programs and executions"),
        why_tests_cant="Tests check chosen facts on chosen programs.",
        anchors=anchors(["sdfg/src/analysis"], [("analysis manager and analyses", "sdfg/src/analysis")]),
        reason=PURE + "and it needs SymEngine/ISL, absent here; a stand-in cannot vouch for their results."),
    dict(
        id="S05", title="Symbolic reasoning is sound",
        statement="Symbolic simplification, comparison, extremes and set/map operations only return results that hold for every assignment satisfying the assumptions.",
        quantifier=q(["inputs"], "all expressions and assignments"),
        why_tests_cant="Tests use chosen expressions.",
        anchors=anchors(["sdfg/src/symbolic"], [("symbolic layer", "sdfg/src/symbolic")]),
        reason=PURE + "and it needs SymEngine/ISL, absent here; a stand-in cannot vouch for their results."),
    dict(
        id="S06", title="Frontends translate source programs faithfully",
        statement="The Python, MLIR and LLVM frontends produce a program whose behaviour equals that of the source for every accepted source program, and reject what they cannot translate.",
        quantifier=q(["programs", "inputs"], "all accepted source programs"),
        why_tests_cant="Tests translate sample kernels.",
        anchors=anchors(["python/docc/python", "mlir", "opt"], [("AST/IR lowering", "python/docc/python")]),
        reason=PURE + "the translators need the native sdfg module (symengine) or MLIR/LLVM development packages, absent here."),
    dict(
        id="S07", title="Graph algorithms return correct orders, dominators and components",
        statement="Topological order, reachability, dominators, components and simple-path queries are correct for every graph.",
        quantifier=q(["inputs"], "all graphs"),
        why_tests_cant="Tests use a few small graphs.",
        anchors=anchors(["sdfg/src/graph/graph.cpp"], [("boost graph wrappers", "sdfg/src/graph/graph.cpp")]),
        reason=PURE + "property-based testing or proof would be the tool, not simulation."),
    dict(
        id="S08", title="Offloaded kernels see and return the right data",
        statement="For accelerator targets every kernel sees the current contents of its inputs, and results are visible on the host before their first use, whatever transfers were eliminated.",
        quantifier=q(["programs", "schedules"], "all programs mapped to an accelerator, all overlap of transfers and kernels"),
        why_tests_cant="Tests check the inserted transfer nodes on single programs.",
        anchors=anchors(["sdfg/src/targets", "rtl"], [("transfer insertion and codegen", "sdfg/src/targets")]),
        reason="the transfer logic is a compile-time transformation in code that needs symengine, and the run-time side needs a vendor SDK and device; neither can be built or run here, so no simulator can host it."),
]
