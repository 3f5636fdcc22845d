"""Planted bugs: edits against /repo plus a demonstration each (see mkseed.py)."""
INSTR = "rtl/src/instrumentation.cpp"
CAP = "rtl/src/capture.cpp"
CAPIO = "arg-capture-io/src/arg_capture_io.cpp"
CAPIO_H = "arg-capture-io/include/daisy_rtl/arg_capture_io.h"
CURLU = "rpc/src/util/utils_curl.cpp"
RPCC = "rpc/src/passes/rpc/rpc_context.cpp"
RPCD = "rpc/src/passes/rpc/daisytuner_rpc_context.cpp"

HEAD = '''#!/bin/bash
# Run with cwd /repo after the build. Exit 0: behaviour is right, else wrong.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
CXX=$(command -v clang++-19 || command -v clang++ || command -v g++)
CC=$(command -v clang-19 || command -v clang || command -v gcc)
'''
T_BUILD = HEAD + '''
"$CC" -shared -fPIC -o "$W/libfake.so" "$D/fakepapi.c" || exit 99
"$CXX" -std=c++20 -I"$R/rtl/include" -I"$D" "$D/demo.cpp" -o "$W/demo" "$R/_build/rtl/libdaisy_rtl.a" "$R/_build/arg-capture-io/libarg_capture_io.a" -ldl -lpthread || exit 99
export DAISY_PAPI_PATH="$W/libfake.so" __DAISY_PAPI_VERSION=0x07020000 __DAISY_INSTRUMENTATION_FILE="$W/trace.json"
cd "$W" || exit 99
'''
# instrumentation library itself under ThreadSanitizer
T_TSAN = HEAD + '''
"$CC" -shared -fPIC -o "$W/libfake.so" "$D/fakepapi.c" || exit 99
"$CXX" -std=c++20 -g -O1 -fsanitize=thread -I"$R/rtl/include" -I"$R/arg-capture-io/include" -I"$D" "$D/demo.cpp" "$R/rtl/src/instrumentation.cpp" -o "$W/demo" -ldl -lpthread || exit 99
export DAISY_PAPI_PATH="$W/libfake.so" __DAISY_PAPI_VERSION=0x07020000 __DAISY_INSTRUMENTATION_FILE="$W/trace.json"
export TSAN_OPTIONS="exitcode=66 halt_on_error=0"
cd "$W" || exit 99
'''
C_BUILD = HEAD + '''
"$CXX" -std=c++20 -I"$R/rtl/include" -I"$R/arg-capture-io/include" "$D/demo.cpp" -o "$W/demo" "$R/_build/rtl/libdaisy_rtl.a" "$R/_build/arg-capture-io/libarg_capture_io.a" -ldl -lpthread || exit 99
unset __DAISY_CAPTURE_STRATEGY_DEFAULT __DAISY_CAPTURE_BASE_DIR
cd "$W" || exit 99
'''
C_TSAN = HEAD + '''
"$CXX" -std=c++20 -g -O1 -DNDEBUG -fsanitize=thread -I"$R/rtl/include" -I"$R/arg-capture-io/include" "$D/demo.cpp" "$R/rtl/src/capture.cpp" "$R"/arg-capture-io/src/*.cpp -o "$W/demo" -lpthread || exit 99
export __DAISY_CAPTURE_STRATEGY_DEFAULT=all TSAN_OPTIONS="exitcode=66"
unset __DAISY_CAPTURE_BASE_DIR
cd "$W" || exit 99
'''
R_BUILD = HEAD + '''
"$CXX" -std=c++20 -I"$R/rpc/include" -I"$R/sdfg/include" "$D/demo.cpp" -o "$W/demo" "$R/_build/librpc_part.a" -lcurl || exit 99
unset DOCC_JOB_TOKEN DOCC_ACCESS_TOKEN RPC_SERVER SDFG_RPC_CONFIG RPC_HEADER http_proxy https_proxy all_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY
export NO_PROXY='*'
cd "$W" || exit 99
'''

SEEDS = []


def seed(**kw):
    SEEDS.append(kw)


# ---------------------------------------------------------------------------------------- instrumentation
seed(id="T01-elementwise", property="T01", libs=["fakepapi.c", "fake.h"],
     needs="aggregate mode and a region that is element-wise but not perfectly parallel (or the reverse)",
     breaks="the aggregated event reports is_perfectly_parallel as is_elementwise, i.e. metadata of the region is altered",
     edits=[(INSTR, ('entry << "\\"is_elementwise\\":" << (md.is_elementwise ? "true" : "false") << ",";', 1),
             'entry << "\\"is_elementwise\\":" << (md.is_perfectly_parallel ? "true" : "false") << ",";')],
     files={"demo.cpp": '''#include "fake.h"
int main() {
    auto m = md("r1");
    m.sdfg_name = "s"; m.sdfg_file = "s.json"; m.element_type = "for"; m.is_elementwise = true; m.is_perfectly_parallel = false;
    size_t r = __daisy_instrumentation_init(&m, __DAISY_EVENT_SET_CPU);
    __daisy_instrumentation_enter(r);
    __daisy_instrumentation_exit(r);
    __daisy_instrumentation_finalize(r);
}
'''},
     demo=T_BUILD + '''
__DAISY_INSTRUMENTATION_MODE=aggregate ./demo || exit 1
python3 -c "
import json
i = json.load(open('trace.json'))['traceEvents'][0]['args']['docc']['loop_info']
assert i['is_elementwise'] is True and i['is_perfectly_parallel'] is False, i
"
''')

seed(id="T02-cuda-names", property="T02", libs=["fakepapi.c", "fake.h"],
     needs="a CUDA region in event mode while CPU events are configured too",
     breaks="counter values of CUDA regions are reported under the names of CPU counters",
     edits=[(INSTR, ('''                if (region.event_set == __DAISY_EVENT_SET_CPU) {
                    event_names = this->event_names_cpu;
                } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                    event_names = this->event_names_cuda;
                }
                if (!first_event) {
                    std::fprintf(f, ",\\n");
                }
                first_event = false;
                append_event(f''', 0), '''                if (!this->event_names_cpu.empty()) {
                    event_names = this->event_names_cpu;
                } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                    event_names = this->event_names_cuda;
                }
                if (!first_event) {
                    std::fprintf(f, ",\\n");
                }
                first_event = false;
                append_event(f''')],
     files={"demo.cpp": '''#include "fake.h"
int main() {
    auto m = md("g1");
    size_t r = __daisy_instrumentation_init(&m, __DAISY_EVENT_SET_CUDA);
    set_counter("gpu_a", 5);
    __daisy_instrumentation_enter(r);
    set_counter("gpu_a", 12);
    __daisy_instrumentation_exit(r);
    __daisy_instrumentation_finalize(r);
}
'''},
     demo=T_BUILD + '''
__DAISY_INSTRUMENTATION_EVENTS=cpu_a,cpu_b __DAISY_INSTRUMENTATION_EVENTS_CUDA=gpu_a ./demo || exit 1
python3 -c "
import json
m = json.load(open('trace.json'))['traceEvents'][0]['args']['metrics']
assert m == {'gpu_a': 7}, m
"
''')

seed(id="T03-restart-at-zero", property="T03", libs=["fakepapi.c", "fake.h"],
     needs="a sequence of metric values whose running mean becomes exactly zero before the last value",
     breaks="the statistics of a static metric start over whenever their mean is zero: count, mean, variance and extremes are wrong",
     edits=[(INSTR, "if (region.static_counters_n.find(name) == region.static_counters_n.end()) {",
             "if (region.static_counters_mean[name] == 0.0) {")],
     files={"demo.cpp": '''#include "fake.h"
int main() {
    auto m = md("r1");
    size_t r = __daisy_instrumentation_init(&m, __DAISY_EVENT_SET_NONE);
    __daisy_instrumentation_enter(r);
    __daisy_instrumentation_metric(r, "x", 4.0);
    __daisy_instrumentation_metric(r, "x", -4.0);
    __daisy_instrumentation_metric(r, "x", 3.0);
    __daisy_instrumentation_exit(r);
    __daisy_instrumentation_finalize(r);
}
'''},
     demo=T_BUILD + '''
__DAISY_INSTRUMENTATION_MODE=aggregate ./demo || exit 1
python3 -c "
import json
m = json.load(open('trace.json'))['traceEvents'][0]['args']['metrics']['static:::x']
assert m['count'] == 3 and m['min'] == -4 and m['max'] == 4 and m['mean'] == 1, m
"
''')

seed(id="T04-pool-bound", property="T04", libs=["fakepapi.c", "fake.h"],
     needs="more than ten regions that are finalised and then unused",
     breaks="one counter set more than allowed is kept alive for unused regions",
     edits=[(INSTR, "if (this->sleeping_regions_by_name.size() > REGION_CACHE_SIZE) {",
             "if (this->sleeping_regions_by_name.size() - 1 > REGION_CACHE_SIZE) {")],
     files={"demo.cpp": '''#include "fake.h"
#include <string>
#include <vector>
int main() {
    std::vector<std::string> names;
    for (int i = 0; i < 14; i++) names.push_back("r" + std::to_string(i));
    int worst = 0;
    for (auto& n : names) {
        auto m = md(n.c_str());
        size_t r = __daisy_instrumentation_init(&m, __DAISY_EVENT_SET_CPU);
        __daisy_instrumentation_enter(r);
        __daisy_instrumentation_exit(r);
        __daisy_instrumentation_finalize(r);
        int k = FAKE_CALL_INT("fake_live_sets");
        if (k > worst) worst = k;
    }
    return worst <= 10 ? 0 : 1;
}
'''},
     demo=T_BUILD + '''
__DAISY_INSTRUMENTATION_EVENTS=a ./demo || exit 1
''')

seed(id="T04-revive-wrong-events", property="T04", libs=["fakepapi.c", "fake.h"],
     needs="a CUDA region that was finalised, dropped from the pool by ten others, and is initialised again",
     breaks="the new counter set of the revived region is filled with the CPU events",
     edits=[(INSTR, ('''            } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                for (const auto& ev : this->event_names_cuda) {
                    if (_PAPI_add_named_event''', 0), '''            } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                for (const auto& ev : this->event_names_cpu) {
                    if (_PAPI_add_named_event''')],
     files={"demo.cpp": '''#include "fake.h"
#include <string>
#include <vector>
static void once(const char* n, enum __daisy_event_set e, bool check) {
    auto m = md(n);
    size_t r = __daisy_instrumentation_init(&m, e);
    if (check) {
        int s = FAKE_CALL_INT("fake_last_set");
        const char* ev = ((const char* (*)(int, int)) fake("fake_events_of"))(s, 0);
        if (!ev || strcmp(ev, "gpu_a")) { fprintf(stderr, "set holds %s\\n", ev ? ev : "nothing"); _exit(1); }
    }
    __daisy_instrumentation_enter(r);
    __daisy_instrumentation_exit(r);
    __daisy_instrumentation_finalize(r);
}
int main() {
    once("gpu", __DAISY_EVENT_SET_CUDA, true);
    for (int i = 0; i < 12; i++) once(("r" + std::to_string(i)).c_str(), __DAISY_EVENT_SET_CPU, false);
    once("gpu", __DAISY_EVENT_SET_CUDA, true);
}
'''.replace('#include "fake.h"', '#include "fake.h"\n#include <unistd.h>')},
     demo=T_BUILD + '''
__DAISY_INSTRUMENTATION_EVENTS=cpu_a __DAISY_INSTRUMENTATION_EVENTS_CUDA=gpu_a ./demo || exit 1
''')

seed(id="T05-version-mismatch", property="T05", libs=["fakepapi.c", "fake.h"],
     needs="a counter library that answers the version request with another (positive) version",
     breaks="an incompatible counter library is used as if it were the requested one, without diagnostic",
     edits=[(INSTR, "if (retval != ver) {", "if (retval < 0 || (retval > 0 && ver <= 0)) {")],
     files={"demo.cpp": '''#include "fake.h"
int main() {
    FAKE_INT("fake_version_reply") = 0x06000000;
    auto m = md("r1");
    size_t r = __daisy_instrumentation_init(&m, __DAISY_EVENT_SET_CPU);
    __daisy_instrumentation_enter(r);
    __daisy_instrumentation_exit(r);
    __daisy_instrumentation_finalize(r);
}
'''},
     demo=T_BUILD + '''
./demo 2> err
rc=$?
[ $rc -ne 0 ] && [ $rc -lt 128 ] && [ -s err ]
''')

seed(id="T05-evict-cleanup", property="T05", libs=["fakepapi.c", "fake.h"],
     needs="the counter library fails to clean up the set of a region that is dropped from the pool (eleven finalised regions)",
     breaks="the failure is swallowed: the program goes on and ends successfully",
     edits=[(INSTR, '''                std::fprintf(stderr, "[daisy-rtl] EFailed to clean up PAPI eventset.\\n");
                exit(EXIT_FAILURE);''', '''                evict_region.papi_eventset = -1;
                return;''')],
     files={"demo.cpp": '''#include "fake.h"
#include <string>
int main() {
    for (int i = 0; i < 11; i++) {
        auto m = md(strdup(("r" + std::to_string(i)).c_str()));
        size_t r = __daisy_instrumentation_init(&m, __DAISY_EVENT_SET_CPU);
        if (i == 10) FAKE_INT("fake_fail_cleanup") = 1;
        __daisy_instrumentation_enter(r);
        __daisy_instrumentation_exit(r);
        __daisy_instrumentation_finalize(r);
        FAKE_INT("fake_fail_cleanup") = 0;
    }
}
'''},
     demo=T_BUILD + '''
__DAISY_INSTRUMENTATION_EVENTS=a ./demo 2> err
rc=$?
[ $rc -ne 0 ] && [ $rc -lt 128 ] && [ -s err ]
''')

TWO_THREADS = '''#include "fake.h"
#include <string>
#include <thread>
static void work(int t) {
    for (int i = 0; i < 500; i++) {
        std::string n = "t" + std::to_string(t) + "_" + std::to_string(i);
        auto m = md(strdup(n.c_str()));
        size_t r = __daisy_instrumentation_init(&m, __DAISY_EVENT_SET_CPU);
        __daisy_instrumentation_enter(r);
        __daisy_instrumentation_metric(r, "m", i);
        __daisy_instrumentation_exit(r);
        __daisy_instrumentation_finalize(r);
    }
}
int main() {
    auto m = md("first");
    size_t r = __daisy_instrumentation_init(&m, __DAISY_EVENT_SET_CPU);
    __daisy_instrumentation_finalize(r);
    std::thread a(work, 1), b(work, 2), c(work, 3), d(work, 4);
    a.join();
    b.join();
    c.join();
    d.join();
}
'''
seed(id="T06-enter-unlocked-lookup", property="T06", libs=["fakepapi.c", "fake.h"],
     needs="a thread enters a region while another thread initialises a new one (table of regions grows)",
     breaks="the region is looked up before the lock is taken: a concurrent insertion corrupts the look-up",
     edits=[(INSTR, '''    void enter_region(size_t region_id) {
        std::lock_guard<std::mutex> lock(mutex);

        auto it = regions.find(region_id);
        if (it == regions.end()) {''', '''    void enter_region(size_t region_id) {
        auto it = regions.find(region_id);
        std::lock_guard<std::mutex> lock(mutex);

        if (it == regions.end()) {''')],
     files={"demo.cpp": TWO_THREADS},
     demo=T_TSAN + '''
__DAISY_INSTRUMENTATION_EVENTS=a ./demo 2> err
rc=$?
[ $rc -eq 0 ] || { head -30 err; exit 1; }
''')

seed(id="T06-metric-unlocked", property="T06", libs=["fakepapi.c", "fake.h"],
     needs="two threads report a metric of the same region at the same time",
     breaks="updates of a metric are lost or its statistics are corrupted",
     edits=[(INSTR, '''    void provided_metric(size_t region_id, const char* name, double value) {
        std::lock_guard<std::mutex> lock(mutex);

        auto it = regions.find(region_id);
        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: metric for unknown region %zu\\n", region_id);
            exit(EXIT_FAILURE);
        }

        DaisyRegion& region = it->second;
''', '''    void provided_metric(size_t region_id, const char* name, double value) {
        std::unique_lock<std::mutex> lock(mutex);

        auto it = regions.find(region_id);
        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: metric for unknown region %zu\\n", region_id);
            exit(EXIT_FAILURE);
        }

        DaisyRegion& region = it->second;
        lock.unlock();
''')],
     files={"demo.cpp": '''#include "fake.h"
#include <thread>
static size_t r;
static void work(int t) {
    for (int i = 0; i < 1000; i++) __daisy_instrumentation_metric(r, "m", i);
}
int main() {
    auto m = md("first");
    r = __daisy_instrumentation_init(&m, __DAISY_EVENT_SET_CPU);
    __daisy_instrumentation_metric(r, "m", 1);
    std::thread a(work, 1), b(work, 2);
    a.join();
    b.join();
    __daisy_instrumentation_finalize(r);
}
'''},
     demo=T_TSAN + '''
./demo 2> err
rc=$?
[ $rc -eq 0 ] || { head -30 err; exit 1; }
''')

# ------------------------------------------------------------------------------------------------ capture
READ = '''#include <daisy_rtl/daisy_rtl.h>
#include <daisy_rtl/arg_capture_io.h>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <thread>
using namespace arg_capture;
namespace fs = std::filesystem;
static void fail(const char* m) { fprintf(stderr, "%s\\n", m); exit(1); }
'''
seed(id="C01-stale-dims", property="C01",
     needs="the same argument captured twice within one invocation, the second time with another shape",
     breaks="the second capture keeps the dimensions of the first although the data is the second's",
     edits=[(CAPIO, ('''    current_captures_[element_id].erase(key);
    auto it = current_captures_[element_id].emplace(key, ArgCapture(arg_idx, after, primitive_type, dims));

    DEBUG_PRINTLN''', 0), '''    auto old = current_captures_[element_id].find(key);
    if (old != current_captures_[element_id].end() && old->second.data) {
        current_captures_[element_id].erase(old);
    }
    auto it = current_captures_[element_id].try_emplace(key, ArgCapture(arg_idx, after, primitive_type, dims));

    DEBUG_PRINTLN''')],
     files={"demo.cpp": READ + '''
int main() {
    auto* c = __daisy_capture_init("app", "caps");
    double a[64];
    for (int i = 0; i < 64; i++) a[i] = i;
    if (!__daisy_capture_enter(c, 7)) fail("not selected");
    __daisy_capture_1d(c, 0, a, 8, 14, 10, false, 7);
    __daisy_capture_1d(c, 0, a, 8, 14, 64, false, 7);
    __daisy_capture_end(c);
    auto io = ArgCaptureIO::from_index("caps/app_inv0_7.index.json");
    auto& m = io->get_captures().at("7").at({0, false});
    if (m.dims != std::vector<size_t>{8, 64}) fail("dimensions of the earlier capture");
    if (fs::file_size(*m.ext_file) != 512) fail("size");
}
'''},
     demo=C_BUILD + '''
./demo > out || exit 1
''')

seed(id="C02-env-dir-ignored", property="C02",
     needs="the output directory set in the environment while the program names one as well",
     breaks="captures land in the program's directory although the environment configures another",
     edits=[(CAP, '''    if (getenv("__DAISY_CAPTURE_BASE_DIR")) {
        base_dir_path = getenv("__DAISY_CAPTURE_BASE_DIR");
    } else if (base_dir) {
        base_dir_path = base_dir;
    }''', '''    if (base_dir) {
        base_dir_path = base_dir;
    } else if (getenv("__DAISY_CAPTURE_BASE_DIR")) {
        base_dir_path = getenv("__DAISY_CAPTURE_BASE_DIR");
    }''')],
     files={"demo.cpp": READ + '''
int main() {
    auto* c = __daisy_capture_init("app", "mine");
    int v = 5;
    if (!__daisy_capture_enter(c, 1)) fail("not selected");
    __daisy_capture_raw(c, 0, &v, 4, 4, false, 1);
    __daisy_capture_end(c);
    if (!fs::exists("theirs/app_inv0_1.index.json") || fs::exists("mine")) fail("wrong directory");
}
'''},
     demo=C_BUILD + '''
__DAISY_CAPTURE_BASE_DIR=theirs ./demo > out || exit 1
''')

seed(id="C02-shared-counter", property="C02",
     needs="strategy 'once', two elements in one context, the second first executed after the first one ran",
     breaks="invocations are counted per context instead of per element, so a later element is never captured",
     edits=[(CAPIO, '''    invokes_[element_id] = (invokes_.count(element_id) > 0) ? invokes_[element_id] + 1 : 0;
''', '''    uint32_t next = 0;
    for (const auto& [id, count] : invokes_) {
        if (id == element_id || id.size() < element_id.size()) next = std::max(next, count + 1);
    }
    invokes_[element_id] = next;
'''), (CAPIO, "#include <cstdint>\n", "#include <algorithm>\n#include <cstdint>\n")],
     files={"demo.cpp": READ + '''
int main() {
    auto* c = __daisy_capture_init("app", "caps");
    int v = 5;
    for (size_t e : {9, 10}) {
        if (!__daisy_capture_enter(c, e)) fail("first invocation of an element was not selected");
        __daisy_capture_raw(c, 0, &v, 4, 4, false, e);
        __daisy_capture_end(c);
    }
    if (!fs::exists("caps/app_inv0_10.index.json")) fail("wrong number");
}
'''},
     demo=C_BUILD + '''
./demo > out || exit 1
''')

seed(id="C03-close-unchecked", property="C03",
     needs="the disk is full when the buffered rest of a small data file is written at close",
     breaks="a data file that could not be written is reported as captured and listed in the index",
     edits=[(CAPIO, '''    ofs.close();

    if (ofs.fail()) {
        std::cerr << "[ArgCaptureIO] Error closing file " << file.string() << std::endl;
        return false;
    }
''', '''    ofs.close();
''')],
     files={"demo.cpp": READ + '''
int main() {
    fs::create_directories("caps");
    fs::create_symlink("/dev/full", "caps/app_inv0_arg0_in_3.bin");
    auto* c = __daisy_capture_init("app", "caps");
    double a[20] = {1};
    if (!__daisy_capture_enter(c, 3)) fail("not selected");
    try {
        __daisy_capture_1d(c, 0, a, 8, 14, 20, false, 3);
    } catch (std::exception&) {
        return 0;
    }
    fail("lost data was not reported");
}
'''},
     demo=C_BUILD + '''
./demo > out 2> err || exit 1
''')

seed(id="C03-listed-before-written", property="C03",
     needs="writing a data file fails, the program handles the exception and ends the capture",
     breaks="the index lists the data file whose write failed",
     edits=[(CAPIO, '''    auto success = write_data_to_raw_file(file, data, totalSize);

    if (success) {
        capture.ext_file = std::make_shared<std::filesystem::path>(file);
    }
''', '''    capture.ext_file = std::make_shared<std::filesystem::path>(file);

    auto success = write_data_to_raw_file(file, data, totalSize);
''')],
     files={"demo.cpp": READ + '''
int main() {
    fs::create_directories("caps/app_inv0_arg0_in_3.bin"); // a directory is in the way
    auto* c = __daisy_capture_init("app", "caps");
    double a[20] = {1};
    if (!__daisy_capture_enter(c, 3)) fail("not selected");
    bool thrown = false;
    try {
        __daisy_capture_1d(c, 0, a, 8, 14, 20, false, 3);
    } catch (std::exception&) {
        thrown = true;
    }
    if (!thrown) fail("not reported");
    __daisy_capture_1d(c, 1, a, 8, 14, 20, false, 3);
    __daisy_capture_end(c);
    auto io = ArgCaptureIO::from_index("caps/app_inv0_3.index.json");
    auto& m = io->get_captures().at("3");
    auto it = m.find({0, false});
    if (it != m.end() && (it->second.ext_file || it->second.data)) fail("failed capture is listed with data");
}
'''},
     demo=C_BUILD + '''
./demo > out 2> err || exit 1
''')

seed(id="C06-directory-cache", property="C06",
     needs="two threads with their own contexts write their first data files at the same time",
     breaks="a hidden, unprotected set shared by all contexts is changed concurrently",
     edits=[(CAPIO, '''    std::error_code ec;
    std::filesystem::create_directories(file.parent_path(), ec);
    if (ec) {''', '''    static std::set<std::filesystem::path> known_directories;
    std::error_code ec;
    if (known_directories.insert(file.parent_path()).second || !std::filesystem::exists(file.parent_path())) {
        std::filesystem::create_directories(file.parent_path(), ec);
    }
    if (ec) {'''), (CAPIO, "#include <numeric>\n", "#include <numeric>\n#include <set>\n")],
     files={"demo.cpp": READ + '''
static void work(int t) {
    std::string dir = "caps" + std::to_string(t);
    for (int i = 0; i < 20; i++) {
        auto* c = __daisy_capture_init("app", (dir + "/" + std::to_string(i)).c_str());
        double a[20] = {1};
        if (!__daisy_capture_enter(c, t)) fail("not selected");
        __daisy_capture_1d(c, 0, a, 8, 14, 20, false, t);
        __daisy_capture_end(c);
    }
}
int main() {
    std::thread a(work, 1), b(work, 2);
    a.join();
    b.join();
}
'''},
     demo=C_TSAN + '''
./demo > out 2> err || { head -30 err; exit 1; }
''')

# ------------------------------------------------------------------------------------------- remote client
SERVER = '''import socket, sys, threading
# python3 server.py PORTFILE MODE: answers every request in the given way, records requests in req.N
mode = sys.argv[2]
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(8)
open(sys.argv[1] + ".tmp", "w").write(str(s.getsockname()[1]))
import os
os.rename(sys.argv[1] + ".tmp", sys.argv[1])
n = 0
while True:
    c, _ = s.accept()
    c.settimeout(20)
    d = b""
    try:
        while b"\\r\\n\\r\\n" not in d: d += c.recv(65536)
        h, body = d.split(b"\\r\\n\\r\\n", 1)
        l = [int(x.split(b":")[1]) for x in h.split(b"\\r\\n") if x.lower().startswith(b"content-length")]
        if b"100-continue" in h.lower(): c.sendall(b"HTTP/1.1 100 Continue\\r\\n\\r\\n")
        while l and len(body) < l[0]: body += c.recv(65536)
    except Exception:
        pass
    open("req.%d" % n, "wb").write(h + b"\\r\\n\\r\\n" + body)
    n += 1
    b = open("answer", "rb").read()
    c.sendall(b)
    c.close()
'''
RUN = '''
python3 "$D/server.py" port x &
S=$!
trap 'kill $S 2> /dev/null; rm -rf "$W"' EXIT
for i in $(seq 100); do [ -s port ] && break; sleep 0.1; done
URL=http://127.0.0.1:$(cat port)/docc/transfertune
'''
POST = '''#include "sdfg/util/utils_curl.h"
#include <cstdio>
#include <fstream>
#include <string>
int main(int argc, char** argv) {
    CURL* c = curl_easy_init();
    curl_slist* h = curl_slist_append(nullptr, "Content-Type: application/json");
    HttpResult r = post_json(c, argv[1], argv[2], h);
    std::ofstream("body", std::ios::binary) << r.body;
    printf("%ld %d\\n", (long) r.http_status, r.error_message.empty() ? 1 : 0);
}
'''
seed(id="R01-no-content", property="R01",
     needs="the server answers 204 (no content)",
     breaks="a query that yielded no answer document is reported as successful",
     edits=[(CURLU, "result.http_status >= 204", "result.http_status > 204")],
     files={"demo.cpp": POST, "server.py": SERVER},
     demo=R_BUILD + RUN + '''
printf 'HTTP/1.1 204 No Content\\r\\nConnection: close\\r\\n\\r\\n' > answer
./demo "$URL" '{}' > out || exit 1
[ "$(cat out)" = "204 0" ]
''')

seed(id="R01-nul-in-answer", property="R01",
     needs="an answer whose body contains a NUL character",
     breaks="the rest of a received segment after its first NUL character is dropped from the reported body",
     edits=[(CURLU, "            resp->append(ptr, size * nmemb);\n", "            resp->append(ptr, strnlen(ptr, size * nmemb));\n"),
            (CURLU, "#include <iostream>\n", "#include <cstring>\n#include <iostream>\n")],
     files={"demo.cpp": POST, "server.py": SERVER},
     demo=R_BUILD + RUN + '''
printf 'HTTP/1.1 200 OK\\r\\nContent-Length: 7\\r\\nConnection: close\\r\\n\\r\\nabc\\0def' > answer
./demo "$URL" '{}' > out || exit 1
[ "$(cat out)" = "200 1" ] && [ "$(stat -c %s body)" = 7 ]
''')

seed(id="R02-retry-forever", property="R02",
     needs="a server that stays unreachable",
     breaks="the connection is retried without end, the query never returns",
     edits=[(CURLU, "    result.curl_code = curl_easy_perform(curl);\n", '''    do {
        result.curl_code = curl_easy_perform(curl);
    } while (result.curl_code == CURLE_COULDNT_CONNECT && response_data.empty());
''')],
     files={"demo.cpp": POST},
     demo=R_BUILD + '''
# a port nobody listens on
P=$(python3 -c "
import socket
s = socket.socket(); s.bind(('127.0.0.1', 0)); print(s.getsockname()[1])")
timeout 20 ./demo "http://127.0.0.1:$P/docc/transfertune" '{}' > out || exit 1
[ "$(cut -d' ' -f2 out)" = 0 ]
''')

AUTH = '''#include "sdfg/passes/rpc/daisytuner_rpc_context.h"
#include <cstdio>
using namespace sdfg::passes::rpc;
int main() {
    auto a = DaisytunerRpcContext::find_docc_auth();
    if (!a) puts("none");
    else printf("%s|%d\\n", a->first.c_str(), a->second ? 1 : 0);
}
'''
seed(id="R04-token-kind", property="R04",
     needs="both a job token and an access token in the environment",
     breaks="the job token is used but sent as an access token",
     edits=[(RPCD, "        return std::make_pair(std::string(job_token), true);\n", '''        const char* access_token = std::getenv("DOCC_ACCESS_TOKEN");
        return std::make_pair(std::string(job_token), !(access_token && *access_token));
''')],
     files={"demo.cpp": AUTH},
     demo=R_BUILD + '''
[ "$(DOCC_JOB_TOKEN=jjj HOME=$W ./demo)" = "jjj|1" ] || exit 1
[ "$(DOCC_JOB_TOKEN=jjj DOCC_ACCESS_TOKEN=aaa HOME=$W ./demo)" = "jjj|1" ] || exit 1
''')

seed(id="R04-trim", property="R04",
     needs="a token file that ends in a carriage return (written on Windows) or tab",
     breaks="white space at the end of the user's token file becomes part of the credential",
     edits=[(RPCD, ('            token.erase(token.find_last_not_of(" \\n\\r\\t") + 1);\n', 0), '            token.erase(token.find_last_not_of(" \\n") + 1);\n')],
     files={"demo.cpp": AUTH},
     demo=R_BUILD + '''
mkdir -p home/.config/docc
printf 'secret\\r\\n' > home/.config/docc/token
[ "$(HOME=$W/home ./demo)" = "secret|0" ] || exit 1
''')

CFG = '''#include "sdfg/passes/rpc/rpc_context.h"
#include <cstdio>
#include <cstring>
using namespace sdfg::passes::rpc;
int main() {
    SimpleRpcContextBuilder b;
    b.initialize_local_default();
    b.add_header("Authorization", "old");
    try {
        b.from_file("cfg.json");
        puts("applied");
    } catch (std::exception& e) {
        puts("rejected");
    }
    printf("%s %s\\n", b.server.c_str(), b.endpoint.c_str());
    for (auto& h : b.headers) printf("%s=%s\\n", h.first.c_str(), h.second.c_str());
}
'''
seed(id="R05-partial-parse", property="R05",
     needs="a configuration file that was cut off",
     breaks="a damaged configuration file is taken for an empty one: no error, the defaults stay in force",
     edits=[(RPCC, "    in >> j;\n", "    j = nlohmann::json::parse(in, nullptr, false);\n")],
     files={"demo.cpp": CFG},
     demo=R_BUILD + '''
printf '{"SERVER": "http://a", "ENDPO' > cfg.json
./demo > out || exit 1
[ "$(head -1 out)" = rejected ] && grep -q 'http://localhost:8080/docc transfertune' out
''')

seed(id="R05-header-keep", property="R05",
     needs="a configuration file with a header that was already set by an earlier step",
     breaks="the earlier value of the header stays, although the last step that sets it should win",
     edits=[(RPCC, "                headers[key] = value.get<std::string>();\n", "                headers.emplace(key, value.get<std::string>());\n")],
     files={"demo.cpp": CFG},
     demo=R_BUILD + '''
printf '{"SERVER": "http://a", "HEADERS": {"Authorization": "new"}}' > cfg.json
./demo > out || exit 1
grep -q Authorization=new out
''')


# ---------------------------------------------------------------------------------------- Python just-in-time compilation
PYP = "python/docc/python/python_program.py"
PYC = "python/docc/compiler/compiled_sdfg.py"
TORCH = "mlir/docc/torch/__init__.py"
JLIBS = ["jdemo.py", "sim_py/core.py", "sim_py/stubs.py", "sim_py/world.py", "sim_py/harness.py", "sim_py/plans.py"]
J_RUN = '''#!/bin/bash
# Run with cwd /repo after the build. Exit 0: behaviour is right, else wrong.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
VERIF_REPO="$PWD" python3-vt "$D/jdemo.py" "$W" "$D/plans.json"
'''


def jplan(prop, funcs, threads, procs=None, faults=(), sched=None, seeds=None):
    p = {"prop": prop, "files": [{"funcs": [dict({"name": "f", "k": 2, "bind": "closure"}, **f) for f in funcs]}], "procs": procs or [{}],
         "threads": [{"proc": pr, "ops": ops} for pr, ops in threads], "faults": list(faults),
         "sched": sched or {"mode": "random", "seed": 1, "p_mem": 0, "p_point": 0}}
    if seeds:
        p["seeds"] = list(range(1, seeds + 1))
    return p


def jdef(slot="s", k=2, fn=0, **opts):
    o = {"op": "def", "file": 0, "fn": fn, "slot": slot, "k": k}
    if opts:
        o["opts"] = opts
    return o


def jcall(*args, slot="s", **kw):
    return dict({"op": "call", "slot": slot, "args": list(args)}, **kw)


def arr(*shape, dt="f8", seed=1, **kw):
    return dict({"a": list(shape), "dt": dt, "seed": seed}, **kw)


def num(v, t="int"):
    return {"s": t, "v": v}


def jseed(plans, **kw):
    import json
    seed(libs=JLIBS, files={"plans.json": json.dumps(plans)}, demo=J_RUN, **kw)


jseed(id="J01-closure-shadowed", property="J01",
      needs="a closure variable with the same name as a global of its module",
      breaks="the global's value is compiled in instead of the closure's",
      edits=[(PYP, "combined_globals[name] = cell.cell_contents", "combined_globals.setdefault(name, cell.cell_contents)")],
      plans=[jplan("J01", [{"form": "addk"}], [(0, [jdef(k=4), jcall(arr(3))])])])
jseed(id="J01-scalar-extent-name", property="J01",
      needs="two calls in which an array extent equals the value of an integer argument, each time another argument",
      breaks="the function compiled with the extent identified with one parameter is run when it only equals the other: strides and result are wrong",
      edits=[(PYP, ("equiv_sig = sorted(shape_to_scalar.items())", 0), "equiv_sig = sorted(shape_to_scalar)")],
      plans=[jplan("J01", [{"form": "mulnm"}], [(0, [jdef(), jcall(arr(4, 3), num(3), num(1)), jcall(arr(4, 3, seed=2), num(2), num(3))])])])
jseed(id="J01-fortran-3d", property="J01",
      needs="a column-major array of at least three dimensions",
      breaks="its strides are compiled in wrongly",
      edits=[(PYP, 'strides.append("(" + " * ".join(prefix_shapes) + ")")', 'strides.append("(" + " * ".join(prefix_shapes[1:]) + ")")')],
      plans=[jplan("J01", [{"form": "addk"}], [(0, [jdef(), jcall(arr(2, 3, 4, lay="F"))])])])
jseed(id="J01-shared-structures", property="J01",
      needs="two instances of one class whose members have other types, passed one after the other",
      breaks="the structure of the first is filled for the second: members arrive converted or at the wrong place",
      edits=[(PYC, "        # Cache for ctypes structure definitions\n        self._ctypes_structures = {}\n", ""),
             (PYC, "class CompiledSDFG:\n", "class CompiledSDFG:\n    # Cache for ctypes structure definitions\n    _ctypes_structures = {}\n\n")],
      plans=[jplan("J01", [{"form": "struct"}], [(0, [jdef(), jcall({"o": "P", "m": [["x", "int", 3], ["y", "int", 1]]}), jcall({"o": "P", "m": [["x", "float", 2.5], ["y", "int", 1]]})])])])
jseed(id="J01-reuse-library", property="J01",
      needs="a function compiled, its source edited and loaded again (or another process with another closure value), compiled for the same arguments",
      breaks="the library of the earlier source is reused",
      edits=[(PYP, "        if os.path.exists(output_folder):\n            shutil.rmtree(output_folder)\n", ""),
             (PYP, """            lib_path = sdfg._compile(
                output_folder=output_folder,
                target=self.target,
                instrumentation_mode=instrumentation_mode,
                capture_args=capture_args,
            )
""", """            lib_path = os.path.join(output_folder, f"lib{sdfg.name}.so")
            if not os.path.exists(lib_path):
                lib_path = sdfg._compile(
                    output_folder=output_folder,
                    target=self.target,
                    instrumentation_mode=instrumentation_mode,
                    capture_args=capture_args,
                )
""")],
      plans=[jplan("J01", [{"form": "addk"}], [(0, [jdef(k=2), jcall(arr(3)), jdef(slot="u", k=5), jcall(arr(3), slot="u")])])])
jseed(id="J01-torch-view", property="J01",
      needs="a Torch tensor that is a non-contiguous view as input of a compiled model",
      breaks="the model reads its elements in the wrong order",
      edits=[(TORCH, "arr = arg.detach().cpu().contiguous().numpy()", "arr = arg.detach().cpu().numpy()")],
      plans=[jplan("J01", [{"form": "addk"}], [(0, [{"op": "torch", "slot": "t", "model": {"cls": "Net", "w": 2, "b": 1, "sum": False}, "example": [arr(2, 3, dt="f4")]},
                                                    jcall(arr(2, 3, dt="f4", seed=3, lay="T"), slot="t", example=[arr(2, 3, dt="f4")])])])])
jseed(id="J02-ci-overrides-off", property="J02",
      needs="DOCC_CI=arg-capture and a function or compilation that explicitly turns capturing off",
      breaks="arguments are captured although that was turned off",
      edits=[(PYP, """            elif docc_ci == "arg-capture":
                if capture_args is None:
                    capture_args = True
""", """            elif docc_ci == "arg-capture":
                if not capture_args:
                    capture_args = True
""")],
      plans=[jplan("J02", [{"form": "addk"}], [(0, [jdef(capture_args=False), jcall(arr(3))])], procs=[{"env": {"DOCC_CI": "arg-capture"}}])])
jseed(id="J02-torch-plain-build", property="J02",
      needs="a Torch model set up with instrumentation of which a plain build is asked for explicitly",
      breaks="the model is built with instrumentation",
      edits=[(TORCH, """        if instrumentation_mode is None:
            instrumentation_mode = self.instrumentation_mode or \"\"
""", """        if not instrumentation_mode:
            instrumentation_mode = self.instrumentation_mode or \"\"
""")],
      plans=[jplan("J02", [{"form": "addk"}], [(0, [{"op": "torch", "slot": "t", "model": {"cls": "Net", "w": 2, "b": 1, "sum": False}, "example": [arr(2, 3, dt="f4")], "opts": {"instrumentation_mode": "ols"}},
                                                    jcall(arr(2, 3, dt="f4"), slot="t", example=[arr(2, 3, dt="f4")], op="compile", mode="")])])])
jseed(id="J03-shared-last-program", property="J03",
      needs="two threads compiling one function for different arguments, one switching in between building and linking of the other",
      breaks="a thread compiles the program representation built by the other one",
      edits=[(PYP, """        self.last_sdfg = sdfg

        sdfg.dump(output_folder, "post_sched")
""", """        self.last_sdfg = sdfg

        sdfg.dump(output_folder, "post_sched")
        sdfg = self.last_sdfg
""")],
      plans=[jplan("J03", [{"form": "addk"}], [(0, [jdef(), jcall(arr(3))]), (0, [{"op": "use", "slot": "s"}, jcall(arr(3, dt="f4"))])],
                   sched={"mode": "random", "seed": 1, "p_mem": 500, "p_point": 3000}, seeds=500)])
jseed(id="J03-kept-symbols", property="J03",
      needs="two threads calling one compiled function at the same time with arrays of other extents",
      breaks="a call uses the extents of the other call: wrong sizes, memory overrun",
      edits=[(PYC, """        # 1. Compute shape symbol values from user args input
        shape_symbol_values = {}
""", """        # 1. Compute shape symbol values from user args input
        shape_symbol_values = self._shape_symbol_values
"""), (PYC, "        self.output_shapes = output_shapes or {}\n", "        self._shape_symbol_values = {}\n        self.output_shapes = output_shapes or {}\n")],
      plans=[jplan("J03", [{"form": "addk"}], [(0, [jdef(), jcall(arr(3)), jcall(arr(5)), jcall(arr(3))]), (0, [{"op": "use", "slot": "s"}, jcall(arr(2)), jcall(arr(4)), jcall(arr(2))])],
                   sched={"mode": "random", "seed": 1, "p_mem": 6000, "p_point": 15000}, seeds=60)])
jseed(id="J04-pending-forever", property="J04",
      needs="a compilation that fails, and another attempt for the same arguments",
      breaks="the second attempt waits for ever for the first one",
      edits=[(PYP, """        if original_output_folder is None and signature in self.cache:
            return self.cache[signature]
""", """        # Let another thread finish what it is compiling already
        while original_output_folder is None and signature in self._pending:
            time.sleep(0.01)

        if original_output_folder is None and signature in self.cache:
            return self.cache[signature]

        self._pending.add(signature)
"""), (PYP, """        # Cache if using default output folder
        if original_output_folder is None:
            self.cache[signature] = compiled
""", """        # Cache if using default output folder
        if original_output_folder is None:
            self.cache[signature] = compiled
        self._pending.discard(signature)
"""), (PYP, "        self.func = func\n", "        self.func = func\n        self._pending = set()\n"), (PYP, "import shutil\n", "import shutil\nimport time\n")],
      plans=[jplan("J04", [{"form": "addk"}], [(0, [jdef(), jcall(arr(3)), jcall(arr(3))])], faults=[{"op": "cc", "nth": 1, "kind": "ENOMEM"}])])
jseed(id="J04-half-linked", property="J04",
      needs="a process killed while its library is being linked, and a later process compiling the same function",
      breaks="the later process takes the incomplete library for a finished one and can never call the function",
      edits=[(PYP, "        if os.path.exists(output_folder):\n            shutil.rmtree(output_folder)\n", """        lib_name = os.path.join(output_folder, f"lib{self.name}_sdfg.so")
        source = inspect.getsource(self.func) + repr(inspect.getclosurevars(self.func)[:2])
        stamp = os.path.join(output_folder, hashlib.sha256(source.encode()).hexdigest())
        reuse = os.path.exists(stamp) and os.path.exists(lib_name)
        if os.path.exists(output_folder) and not reuse:
            shutil.rmtree(output_folder)
        os.makedirs(output_folder, exist_ok=True)
        open(stamp, "w").close()
"""), (PYP, """        else:
            lib_path = sdfg._compile(
""", """        elif reuse:
            lib_path = lib_name
        else:
            lib_path = sdfg._compile(
""")],
      plans=[jplan("J04", [{"form": "addk"}], [(0, [jdef(), jcall(arr(3))]), (1, [jdef(), jcall(arr(3)), jcall(arr(3))])], procs=[{"phase": 0}, {"phase": 1}],
                   faults=[{"op": "write", "nth": n, "kind": "crash", "proc": 0}]) for n in range(1, 8)])
