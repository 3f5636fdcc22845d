"""Which harness decides which property, and what is real in it."""

ASSUMPTIONS = [
    "seeded search samples schedules and faults; a clean batch is evidence, not proof",
    "threads interleave at instrumented basic blocks, loads/stores and system calls of the code under test; "
    "sequentially consistent memory (no weak-memory reorderings)",
]

INSTR_RULE = (
    "seed -> instrumented program (regions with metadata, 1-4 threads of nested/overlapping executions, static metrics, counters, "
    "output mode, injected faults) + schedule; non-trivial: at least one region execution took place; distinct: hash over the complete "
    "event log (context switches, counter-library calls, file operations, output)"
)

HARNESSES = {
    "instr": {
        "cmd": ["@BIN@/harness_instr"],
        "targets": ["harness_instr"],
        "keep": ["papi_lib"],
        "real": ["rtl instrumentation library (built from /repo/rtl by its own build file)", "libstdc++ streams, std::mutex, std::thread primitives"],
        "stub": ["PAPI counter library (state machine model loaded through dlopen)", "kernel: file system calls with faults, futex, clocks, pids",
                 "thread scheduler"],
        "assumptions": ["the simulated counter library follows the documented PAPI state machine"],
    },
}

HARNESSES["capture"] = {
    "cmd": ["@BIN@/harness_capture"],
    "targets": ["harness_capture"],
    "keep": [],
    "real": ["argument capture library and capture runtime (built from /repo by their own build files)", "libstdc++ file streams and std::filesystem, nlohmann::json"],
    "stub": ["kernel: file system calls with faults and crashes (data of completed calls survives), environment", "operator new with injected failures",
             "thread scheduler"],
    "assumptions": ["a crash is the death of the process: data of completed system calls survives it"],
}

CAPTURE_RULE = (
    "seed -> sequence of process lifetimes on one disk: programs capturing arguments of 1-3 elements (1-4 threads, several contexts, strategies, directories, "
    "all argument shapes), reruns, injected faults or crashes, then a reader of every index; non-trivial: at least one invocation was captured "
    "(C02: always); distinct: hash over the event log (context switches, file operations) and everything the reader reported"
)

HARNESSES["rpc"] = {
    "cmd": ["@BIN@/harness_rpc"],
    "targets": ["harness_rpc"],
    "keep": [],
    "real": ["RPC client of /repo: rpc_context.cpp, daisytuner_rpc_context.cpp, utils_curl.cpp", "libcurl (HTTP engine, timeouts, connection reuse)", "nlohmann::json, libstdc++ file streams"],
    "stub": ["TCP network (connections, segmentation, delays, resets, partitions)", "HTTP server (scripted answers)", "clocks and timeouts (simulated time)",
             "kernel: file system calls with faults, environment"],
    "assumptions": ["plain HTTP to numeric addresses: no TLS and no name resolution in the simulation",
                    "an answer cut off within its header or without any announced length is indistinguishable from a complete one for libcurl; such cases are accepted either way"],
}

RPC_RULE = (
    "seed -> 1-3 queries (payload, headers, fresh or reused connection), scripted answers (status, framing, size, segmentation, delays, early or damaged answers), connection and socket-call "
    "faults, partition; non-trivial: a request reached the server or a fault fired; distinct: hash over the network event log, outcomes and requests as the server saw them"
)
CONF_RULE = (
    "seed -> environment, token and configuration files on a simulated disk with damage and injected I/O faults, 1-2 look-ups; non-trivial: a look-up was made; "
    "distinct: hash over file operations and the outcome"
)

HARNESSES["tune"] = {
    "cmd": ["@BIN@/harness_tune"],
    "targets": ["harness_tune"],
    "keep": [],
    "real": ["rpc_scheduler.cpp, rpc_node_transform.cpp, rpc_context.cpp, utils_curl.cpp, LoopSchedulingPass, SchedulerRegistry, cutouts, JSON serializer, Replayer and the transformations it knows, builders, analyses (all of sdfg/src and opt/src, built from /repo)",
             "libcurl", "nlohmann::json"],
    "stub": ["SymEngine and ISL (small stand-in, sim/minisym)", "TCP network", "tuning service (answers made from the request it received)", "clocks and timeouts (simulated time)"],
    "assumptions": ["plain HTTP to numeric addresses", "an answer that is damaged yet a well-formed program may be applied or refused"],
}

TUNE_RULE = (
    "seed -> 1-3 compilations in one process (program of nested for/map/while/if with blocks, target, category, server, endpoint, headers, scheduling pass or the transformation itself), service answers (tuned program with 0-3 "
    "rewrites, recipe, error, damaged at a random place, raw garbage), network and socket faults; non-trivial: a request was sent; distinct: hash over network events, requests and serialised programs"
)

HARNESSES["native"] = {
    "cmd": ["@BIN@/harness_native"],
    "targets": ["harness_native"],
    "keep": [],
    "real": ["compile driver, dump and from_file of the Python bindings (py_structured_sdfg.cpp)", "C, C++, OpenMP, Highway, CUDA, ONNX and ET code generators, instrumentation and capture plans, DOT writer, Recorder, library file writer, "
             "JSON serializer, expansion passes (all of sdfg/src and opt/src, built from /repo)", "libstdc++ file streams"],
    "stub": ["C++ and RISC-V compiler and linker (a simulated tool that reads its inputs and writes its output over the simulated disk, through an interposed system())", "dladdr", "pybind11 (empty stand-in)",
             "SymEngine and ISL (small stand-in, sim/minisym)", "disk (faults, full disk, kills over a real scratch directory)", "clocks"],
    "assumptions": ["the compiler reads exactly the files named on its command line and those they include by a bare name", "a killed process leaves completed writes behind"],
}

NATIVE_RULE = (
    "seed -> 1-3 processes of 1-4 operations: compile (6 targets, instrumentation, capture, folders with awkward names, shared and reused), dump, load (intact or damaged files), recipes saved, sources written by a generator used directly; "
    "compiler failures (refused, killed with partial output, not found, no fork), file-system faults, full disk, kills; non-trivial: an operation was completed and its outcome judged; distinct: hash over operations' outcomes and file operations"
)

HARNESSES["et"] = {
    "cmd": ["@BIN@/harness_et"],
    "targets": ["harness_et"],
    "keep": [],
    "real": ["accelerator mapper, dispatcher and kernel source (targets/et/src), mapping pass, code generator (all of sdfg/src and opt/src, built from /repo); the generated host functions and kernels, compiled and executed",
             "runtime wrapper (targets/et/rt/src/runtime.cpp)", "libstdc++ file streams"],
    "stub": ["vendor runtime, device layer, trace decoder and device (streams, memory, kernel images, traces)", "CBLAS for products that stay on the host", "SymEngine and ISL (small stand-in, sim/minisym)", "thread scheduler, disk with faults, clocks, environment"],
    "assumptions": ["the device performs whatever it accepted, in any order its stream barriers allow; a call whose exception reached the caller leaves no work behind", "calls of the vendor runtime are atomic and may come from any thread"],
}

ET_RULE = (
    "seed -> 1-3 threads of 1-4 calls of 15 generated functions with sizes, strides, offsets and data, several rounds, mode, emulator files, kernel folder, order and moments of device work, limits of the device, failing device calls, "
    "file faults, damaged kernel files; non-trivial: a kernel ran; distinct: hash over results, device calls and file operations"
)

HARNESSES["par"] = {
    "cmd": ["@BIN@/harness_par"],
    "targets": ["harness_par"],
    "keep": ["prog"],
    "real": ["loop parallelisation (For2Map, loop scheduling, OpenMP scheduler) with all analyses it uses, code generator and OpenMP dispatcher (all of sdfg/src and opt/src, built from /repo)",
             "the generated code, compiled by clang with OpenMP and executed"],
    "stub": ["OpenMP runtime (team sizes, distribution of iterations, dispatch, barriers), thread scheduler", "SymEngine (small stand-in, sim/minisym)", "ISL (exact integer sets and maps decided by Z3, sim/minisym/isl_z3.cpp)"],
    "assumptions": ["the compiler's OpenMP lowering is right", "programs with uninitialised reads or accesses out of bounds are discarded"],
}

PAR_RULE = (
    "seed -> program (nests of counted loops, conditions, endless loops with exits, scalars, one- and two-dimensional, linearised and local arrays, pointers into arrays, symbols, schedule kinds and thread counts) and its data; every program is executed under several seeds: team sizes, "
    "distribution of iterations, interleaving at every load, store and basic block of the generated code; non-trivial: a parallel region ran with more than one thread; distinct: hash over the code and the memory it leaves"
)

HARNESSES["jit"] = {
    "cmd": ["python3-vt", "@VERIF@/sim_py/harness.py"],
    "targets": [],
    "keep": ["files"],
    "recheck": 10, "hashes": 8,
    "real": ["Python JIT of /repo: python_program.py, docc_program.py, compiled_sdfg.py, target_registry.py, python types, torch/__init__.py", "ctypes and numpy on real memory",
             "tempfile/shutil/os on a real scratch directory"],
    "stub": ["native sdfg module, AST lowering, scheduler and code generator (recorded program, interpreted on the memory it is given)", "C++ compiler, linker and dynamic loader (with the loader's "
             "cache by path)", "torch, torch_mlir and the MLIR module", "processes and threads (one simulated interpreter lock per process), file locks, clock, process ids, temporary names", "file system faults, process kills"],
    "assumptions": ["switches between threads of one process happen at Python source lines; the native bindings keep the interpreter lock, as they do",
                    "a killed process leaves completed file operations behind"],
}

JIT_RULE = (
    "seed -> user program files (functions of 20 forms bound to closures, globals or literals; Torch models), 1-4 processes with 1-3 threads of definitions, calls, compilations, source edits and environment changes, "
    "options, file-system and compiler faults, kills; non-trivial: at least one compiled function ran or a fault fired; distinct: hash over the event log (context switches, file operations, outcomes)"
)

PROPS = {
    p: {"harness": "instr", "rule": INSTR_RULE} for p in ("T01", "T02", "T03", "T04", "T05", "T06")
}
PROPS.update({p: {"harness": "capture", "rule": CAPTURE_RULE} for p in ("C01", "C02", "C03", "C04", "C05", "C06")})
PROPS.update({p: {"harness": "rpc", "rule": RPC_RULE} for p in ("R01", "R02", "R03")})
PROPS.update({p: {"harness": "rpc", "rule": CONF_RULE} for p in ("R04", "R05")})
PROPS.update({p: {"harness": "jit", "rule": JIT_RULE} for p in ("J01", "J02", "J03", "J04")})
PROPS.update({p: {"harness": "tune", "rule": TUNE_RULE} for p in ("R06", "R07")})
PROPS.update({p: {"harness": "native", "rule": NATIVE_RULE} for p in ("W01", "W02")})
PROPS.update({p: {"harness": "et", "rule": ET_RULE} for p in ("E01", "E02")})
PROPS.update({p: {"harness": "par", "rule": PAR_RULE} for p in ("P01",)})
