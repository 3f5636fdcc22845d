// Simulation of programs that capture kernel arguments (real code: arg-capture-io and the runtime's capture API)
// and of the tools that read the captures back.
// One plan = several process lifetimes ("sessions") sharing one simulated disk.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <new>
#include <set>
#include <sys/wait.h>

#include "core/harness.h"
#include "daisy_rtl/arg_capture_io.h"
#include "daisy_rtl/daisy_rtl.h"

namespace fs = std::filesystem;

enum HK { H_REGION = 1, H_ENTER, H_CAP, H_END, H_SKIP, H_INIT, H_OPFAIL };
enum OUT { O_OK = 0, O_EXC = 1 };

// ---------------------------------------------------------------------------------------------------------
// failing allocations
// ---------------------------------------------------------------------------------------------------------
static long g_alloc_countdown = -1;
static thread_local bool t_in_api = false;
static long g_allocs = 0;
static bool alloc_fails() {
    if (!t_in_api) return false;
    g_allocs++;
    if (g_alloc_countdown < 0) return false;
    if (g_alloc_countdown-- == 0) {
        sim::probe(20);
        return true;
    }
    return false;
}
void* operator new(size_t n) {
    if (alloc_fails()) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {

const json* g_plan; // current session
const json* g_root_plan;

uint8_t byte_at(uint64_t seed, uint64_t i) {
    uint64_t x = seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 17;
    x ^= x >> 29;
    x *= 0xBF58476D1CE4E5B9ull;
    return (uint8_t) (x >> 41);
}
uint64_t content_hash(uint64_t seed, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) {
        h ^= byte_at(seed, i);
        h *= 1099511628211ull;
    }
    return h;
}
uint64_t mem_hash(const void* p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) {
        h ^= ((const uint8_t*) p)[i];
        h *= 1099511628211ull;
    }
    return h;
}
size_t total(const json& dims) {
    size_t t = 1;
    for (auto& d : dims) t *= d.get<size_t>();
    return t;
}
int64_t fired() {
    int64_t n = 0;
    for (int i = 0; i < sim::MAX_FAULTS; i++) n += sim::g->fault_fired[i];
    return n + (int64_t) sim::g->probe[20];
}

struct Ctx {
    __daisy_capture_t* c = nullptr; // runtime context
    arg_capture::ArgCaptureIO* io = nullptr; // direct use of the I/O library
    std::string dir; // direct use: output directory
    std::string name;
};

template<typename F>
int guarded(F f) {
    int r = O_OK;
    t_in_api = true;
    try {
        f();
    } catch (std::exception& e) {
        t_in_api = false;
        r = O_EXC;
        if (getenv("SIM_DEBUG")) fprintf(stderr, "exception: %s\n", e.what());
    } catch (...) {
        r = O_EXC;
    }
    t_in_api = false;
    return r;
}

// runs one region op; returns false when the program would have ended
bool do_region(Ctx& c, const json& op, int opidx, bool stop_on_error) {
    size_t e = op["e"].get<uint64_t>();
    std::string es = std::to_string(e);
    std::string dir = c.dir;
    bool en = false;
    int r;
    {
        sim::Quiet q;
        sim::hist(H_REGION, opidx, 0, fired());
    }
    if (c.io) {
        r = guarded([&] {
            if (op.value("clear", true)) c.io->clear();
            c.io->invocation(es);
        });
        en = true;
    } else {
        r = guarded([&] { en = __daisy_capture_enter(c.c, e); });
    }
    {
        sim::Quiet q;
        sim::hist(H_ENTER, opidx, r, en, fired());
    }
    // out of memory while entering: whether the invocation was counted is open, the program gives up
    if (r != O_OK) return !stop_on_error && sim::g->probe[20] == 0;
    if (!en) return true;
    int ci = 0;
    for (auto& cap : op["caps"]) {
        uint8_t* buf;
        size_t n;
        std::vector<size_t> d;
        int a, t;
        bool after, inl;
        uint64_t seed;
        {
            sim::Quiet q;
            a = cap["a"];
            t = cap["t"];
            after = cap["after"];
            inl = cap.value("inl", false);
            seed = cap["s"];
            for (auto& x : cap["d"]) d.push_back(x.get<size_t>());
            n = total(cap["d"]);
            buf = (uint8_t*) malloc(n ? n : 1);
            for (size_t i = 0; i < n; i++) buf[i] = byte_at(seed, i);
        }
        if (c.io) {
            bool ok = true;
            r = guarded([&] {
                if (inl) {
                    ok = c.io->create_and_capture_inline(a, after, t, d, buf, es);
                } else {
                    fs::path f = fs::path(dir) / (c.name + "_" + std::to_string(c.io->get_current_invocation(es)) + "_" + es + "_" + std::to_string(a) + (after ? "o" : "i") + ".bin");
                    ok = c.io->create_and_capture_to_file(a, after, t, d, f, buf, es);
                }
            });
            if (!ok) r = O_EXC;
        } else {
            r = guarded([&] {
                switch (d.size()) {
                    case 1: __daisy_capture_raw(c.c, a, buf, d[0], t, after, e); break;
                    case 2: __daisy_capture_1d(c.c, a, buf, d[0], t, d[1], after, e); break;
                    case 3: __daisy_capture_2d(c.c, a, buf, d[0], t, d[1], d[2], after, e); break;
                    default: __daisy_capture_3d(c.c, a, buf, d[0], t, d[1], d[2], d[3], after, e); break;
                }
            });
        }
        {
            sim::Quiet q;
            memset(buf, 0xEE, n); // the kernel overwrites its arguments
            free(buf);
            sim::hist(H_CAP, opidx, r, ci++, fired());
        }
        if (r != O_OK && (stop_on_error || op.value("abandon", false))) return !stop_on_error;
    }
    if (op.value("noend", false)) return true;
    if (c.io) {
        r = guarded([&] { c.io->write_index(dir); });
    } else {
        r = guarded([&] { __daisy_capture_end(c.c); });
    }
    {
        sim::Quiet q;
        sim::hist(H_END, opidx, r, 0, fired());
    }
    return r == O_OK || !stop_on_error;
}

void thread_body(void*, int idx) {
    const json& th = (*g_plan)["threads"][idx];
    std::vector<Ctx> ctx(th["ctx"].size());
    bool stop = (*g_plan).value("stop_on_error", true);
    int i = 0;
    for (auto& c : th["ctx"]) {
        Ctx& x = ctx[i++];
        std::string name, dir;
        bool direct, nodir;
        {
            sim::Quiet q;
            name = c["name"];
            direct = c.value("direct", false);
            nodir = c["dir"].is_null();
            if (!nodir) dir = c["dir"];
        }
        x.dir = dir;
        x.name = name;
        if (direct) x.io = new arg_capture::ArgCaptureIO(name.c_str());
        else x.c = __daisy_capture_init(name.c_str(), nodir ? nullptr : dir.c_str());
        {
            sim::Quiet q;
            sim::hist(H_INIT, idx, i - 1, x.c != nullptr || x.io != nullptr);
        }
    }
    int oi = 0;
    for (auto& op : th["ops"]) {
        int k = oi++;
        if (!do_region(ctx[op["c"].get<int>()], op, k, stop)) break;
    }
}

void child_prog() {
    const json& p = *g_plan;
    g_alloc_countdown = p.value("alloc_fail", (int64_t) -1);
    int n = (int) p["threads"].size();
    if (n == 1) thread_body(nullptr, 0);
    else if (n > 1) sim::run_threads(thread_body, nullptr, n);
    sim::g->probe[21] = (uint64_t) g_allocs;
}

// ---- reader -----------------------------------------------------------------------------------------------
std::vector<std::string>* g_index_files;

void child_read() {
    g_alloc_countdown = (*g_plan).value("alloc_fail", (int64_t) -1);
    json out = json::array();
    for (auto& f : *g_index_files) {
        json o;
        o["file"] = f;
        std::shared_ptr<arg_capture::ArgCaptureIO> io;
        int r = guarded([&] { io = arg_capture::ArgCaptureIO::from_index(fs::path(f)); });
        if (r != O_OK || !io) {
            o["err"] = true;
            out.push_back(o);
            continue;
        }
        o["name"] = hash_str(io->get_name());
        json caps = json::array();
        for (auto& [el, m] : io->get_captures()) {
            o["elem"] = el;
            try {
                o["inv"] = io->get_current_invocation(el);
            } catch (...) {
                o["inv"] = nullptr;
            }
            // sorted: the library keeps captures in a hash table
            std::map<std::pair<int, bool>, const arg_capture::ArgCapture*> sorted;
            for (auto& [k, c] : m) sorted[k] = &c;
            for (auto& [k, c] : sorted) {
                json j;
                j["a"] = c->arg_idx;
                j["after"] = c->after;
                j["t"] = c->primitive_type;
                j["d"] = c->dims;
                j["key"] = c->arg_idx == k.first && c->after == k.second;
                size_t n = 1;
                bool huge = false;
                for (auto d : c->dims) {
                    if (d && n > (1u << 24) / d) huge = true;
                    n *= d;
                }
                if (c->data) {
                    j["n"] = c->data->size();
                    j["h"] = mem_hash(c->data->data(), c->data->size());
                    j["inl"] = true;
                } else if (c->ext_file) {
                    if (huge) {
                        j["huge"] = true;
                    } else {
                        std::vector<uint8_t> buf(n + 1, 0x5C);
                        int rr = guarded([&] { arg_capture::ArgCaptureIO::read_data_from_raw_file(*c->ext_file, buf.data(), n); });
                        if (rr != O_OK) {
                            j["rerr"] = true;
                        } else {
                            j["n"] = n;
                            j["h"] = mem_hash(buf.data(), n);
                            if (buf[n] != 0x5C) j["overrun"] = true;
                        }
                    }
                } else {
                    j["nodata"] = true;
                }
                caps.push_back(j);
            }
        }
        o["caps"] = caps;
        out.push_back(o);
    }
    std::string s;
    {
        sim::Quiet q;
        s = out.dump(-1, ' ', false, json::error_handler_t::replace);
    }
    if (s.size() < sizeof(sim::g->blob)) {
        memcpy(sim::g->blob, s.data(), s.size());
        sim::g->blob_len = (uint32_t) s.size();
    }
}

} // namespace

// ---------------------------------------------------------------------------------------------------------
class CaptureHarness : public Harness {
public:
    // ---- generator ---------------------------------------------------------------------------------------
    json gen_region(sim::Rng& rng, int nctx, const std::vector<uint64_t>& elems, const std::vector<bool>& direct, bool big) {
        json op;
        int c = (int) rng.below(nctx);
        op["k"] = "region";
        op["c"] = c;
        op["e"] = elems[rng.below(elems.size())];
        json caps = json::array();
        int n = rng.chance(1, 12) ? 0 : 1 + (int) rng.below(5);
        for (int i = 0; i < n; i++) {
            json cap;
            cap["a"] = (int) (rng.chance(1, 6) && i ? rng.below(i) : (rng.chance(1, 20) ? 1000 + rng.below(100) : i));
            cap["after"] = rng.chance(1, 2);
            cap["t"] = 1 + rng.below(15);
            cap["s"] = rng.below(1u << 30);
            json d = json::array();
            int nd = (int) rng.below(4);
            size_t es = 1ull << rng.below(4);
            if (nd == 0) {
                static const size_t sz[] = {1, 4, 8, 16, 31, 32, 33, 64, 100};
                d.push_back(sz[rng.below(9)]);
            } else {
                d.push_back(es);
                for (int k = 0; k < nd; k++) {
                    size_t v = 1 + rng.below(nd == 1 ? 600 : nd == 2 ? 30 : 9);
                    if (rng.chance(1, 25)) v = 0;
                    d.push_back(v);
                }
                if (big && nd == 1 && rng.chance(1, 3)) d[1] = 8000 / es + rng.below(12000);
            }
            cap["d"] = d;
            if (direct[c] && rng.chance(1, 2)) cap["inl"] = true;
            caps.push_back(cap);
        }
        op["caps"] = caps;
        if (rng.chance(1, 15)) op["noend"] = true;
        return op;
    }

    json gen_prog(sim::Rng& rng, const std::string& prop, int nt) {
        json s;
        s["type"] = "prog";
        static const char* strat[] = {"all", "once", "never", "sometimes", ""};
        uint64_t x = rng.below(prop == "C02" ? 8 : 12);
        s["strategy"] = x == 0 ? json(nullptr) : x == 1 ? json(strat[1]) : x == 2 ? json(strat[2]) : x == 3 ? json(strat[3]) : x == 4 ? json(strat[4]) : json("all");
        switch (rng.below(4)) {
            case 0: s["base_env"] = rng.chance(1, 2) ? "env_dir" : "/simroot/env/deep/dir"; break;
            default: s["base_env"] = nullptr;
        }
        s["stop_on_error"] = rng.chance(1, 2);
        json threads = json::array();
        static const char* names[] = {"kernel", "sdfg_1", "my kernel", "sub/kern", "k\"q", "k\xc3\xa9", "a_inv0_1", "x"};
        for (int t = 0; t < nt; t++) {
            json th;
            int nc = 1 + (int) rng.below(2);
            json ctx = json::array();
            std::vector<bool> direct;
            std::set<std::string> used;
            for (int c = 0; c < nc; c++) {
                json cx;
                std::string nm = names[rng.below(8)];
                // contexts are distinguished by their names; one name is only used once per directory
                nm += "_" + std::to_string(t) + std::to_string(c);
                cx["name"] = nm;
                switch (rng.below(4)) {
                    case 0: cx["dir"] = nullptr; break;
                    case 1: cx["dir"] = "/simroot/out"; break;
                    case 2: cx["dir"] = "rel/out"; break;
                    default: cx["dir"] = "captures"; break;
                }
                bool d = rng.chance(1, 4);
                cx["direct"] = d;
                if (d && cx["dir"].is_null()) cx["dir"] = "direct";
                direct.push_back(d);
                ctx.push_back(cx);
            }
            th["ctx"] = ctx;
            std::vector<uint64_t> elems;
            int ne = 1 + (int) rng.below(3);
            for (int i = 0; i < ne; i++) elems.push_back(rng.chance(1, 15) ? 18446744073709551615ull : rng.below(3) * 10 + i + 1);
            json ops = json::array();
            int n = 1 + (int) rng.below(prop == "C06" ? 4 : prop == "C02" ? 10 : 6);
            bool big = rng.chance(1, 4);
            for (int i = 0; i < n; i++) ops.push_back(gen_region(rng, nc, elems, direct, big));
            th["ops"] = ops;
            threads.push_back(th);
        }
        s["threads"] = threads;
        s["faults"] = json::array();
        return s;
    }

    json gen(const std::string& prop, uint64_t seed) override {
        sim::Rng rng(seed * 1000003 + hash_str(prop) % 1000);
        json p;
        p["h"] = "capture";
        p["prop"] = prop;
        p["seed"] = seed;
        int nt = 1;
        if (prop == "C06") nt = 2 + (int) rng.below(3);
        else if ((prop == "C01" || prop == "C02") && rng.chance(1, 6)) nt = 2;
        json sessions = json::array();
        json first = gen_prog(rng, prop, nt);
        if (prop == "C03" || prop == "C04" || prop == "C05") first["strategy"] = rng.chance(1, 4) ? "once" : "all";
        json faults = json::array();
        int generation = 0;
        auto rerun = [&](const json& base) {
            // the same program run again (same regions, other data)
            json s = base;
            generation++;
            for (auto& t : s["threads"])
                // direct users of the I/O library keep every run in a directory of its own
                for (auto& c : t["ctx"])
                    if (c.value("direct", false)) c["dir"] = c["dir"].get<std::string>() + "_run" + std::to_string(generation);
            for (auto& t : s["threads"])
                for (auto& o : t["ops"])
                    for (auto& c : o["caps"]) {
                        if (rng.chance(2, 3)) c["s"] = rng.below(1u << 30);
                        if (rng.chance(1, 8)) c["d"] = json::array({4, 1 + rng.below(50)});
                    }
            s["faults"] = json::array();
            s.erase("alloc_fail");
            return s;
        };
        if (prop == "C03") {
            static const char* ek[] = {"enospc", "eio", "eacces", "emfile", "enoent", "eintr"};
            int k = 1 + (rng.chance(1, 4) ? 1 : 0);
            for (int i = 0; i < k; i++) {
                switch (rng.below(9)) {
                    case 0: faults.push_back({{"kind", ek[rng.below(5)]}, {"op", "open_write"}, {"nth", 1 + rng.below(12)}}); break;
                    case 1: case 2: faults.push_back({{"kind", rng.chance(1, 4) ? "eintr" : ek[rng.below(2)]}, {"op", "write"}, {"nth", 1 + rng.below(14)}}); break;
                    case 3: case 4: faults.push_back({{"kind", ek[rng.below(2)]}, {"op", "close"}, {"nth", 1 + rng.below(12)}}); break;
                    case 5: faults.push_back({{"kind", ek[rng.below(5)]}, {"op", "mkdir"}, {"nth", 1 + rng.below(3)}}); break;
                    case 6: faults.push_back({{"kind", "diskfull"}, {"arg", rng.below(rng.chance(1, 2) ? 600 : 20000)}}); break;
                    case 7: faults.push_back({{"kind", "short"}, {"op", "write"}, {"nth", 1 + rng.below(10)}, {"arg", 1 + rng.below(200)}}); break;
                    default:
                        if (rng.chance(1, 2)) first["alloc_fail"] = rng.below(400);
                        else faults.push_back({{"kind", rng.chance(1, 2) ? "eio" : "eacces"}, {"op", rng.chance(1, 2) ? "stat" : "unlink"}, {"nth", 1 + rng.below(20)}});
                        break;
                }
            }
            if (rng.chance(1, 4)) sessions.push_back(rerun(first)); // an earlier, undisturbed run in the same directory
            first["faults"] = faults;
            sessions.push_back(first);
            if (rng.chance(1, 4)) sessions.push_back(rerun(first));
        } else if (prop == "C04") {
            bool again = rng.chance(1, 2);
            if (again) sessions.push_back(rerun(first));
            json f = {{"kind", "crash"}, {"op", "any"}, {"nth", 1 + rng.below(40)}, {"arg", rng.chance(1, 3) ? 0 : rng.below(rng.chance(1, 2) ? 40 : 9000)}};
            if (rng.chance(1, 4)) {
                static const char* cl[] = {"open_write", "write", "close", "mkdir", "rename", "unlink"};
                f["op"] = cl[rng.below(6)];
                f["nth"] = 1 + rng.below(8);
            }
            faults.push_back(f);
            if (rng.chance(1, 5)) faults.push_back({{"kind", "short"}, {"op", "write"}, {"nth", 1 + rng.below(10)}, {"arg", 1 + rng.below(200)}});
            first["faults"] = faults;
            sessions.push_back(first);
            if (rng.chance(1, 2)) {
                json s = rerun(first);
                if (rng.chance(1, 2)) s["faults"].push_back({{"kind", "crash"}, {"op", "any"}, {"nth", 1 + rng.below(40)}, {"arg", rng.below(100)}});
                sessions.push_back({{"type", "read"}, {"faults", json::array()}});
                sessions.push_back(s);
            }
        } else {
            sessions.push_back(first);
            if ((prop == "C01" || prop == "C02") && rng.chance(1, 5)) sessions.push_back(rerun(first));
        }
        if (prop == "C05") {
            json rd = {{"type", "read"}, {"faults", json::array()}, {"mut", json::array()}};
            int k = rng.chance(1, 5) ? 2 : 1;
            for (int i = 0; i < k; i++) {
                switch (rng.below(9)) {
                    case 0: rd["mut"].push_back({{"k", "trunc_index"}, {"f", rng.below(50)}, {"at", rng.below(3000)}}); break;
                    case 1: rd["mut"].push_back({{"k", "trunc_data"}, {"f", rng.below(50)}, {"at", rng.below(3000)}}); break;
                    case 2: rd["mut"].push_back({{"k", rng.chance(1, 2) ? "del_data" : "dir_data"}, {"f", rng.below(50)}}); break;
                    case 3: rd["mut"].push_back({{"k", rng.chance(1, 2) ? "flip_index" : "flip_data"}, {"f", rng.below(50)}, {"at", rng.below(30000)}}); break;
                    case 4: case 5: rd["mut"].push_back({{"k", "del_key"}, {"f", rng.below(50)}, {"at", rng.below(60)}}); break;
                    case 6:
                        if (rng.chance(1, 4)) {
                            static const int64_t fv[] = {0, 2, 3, 4, 16, 255, 256, 65537, 4294967295ll, 1000000};
                            rd["mut"].push_back({{"k", "format_key"}, {"f", rng.below(50)}, {"v", fv[rng.below(10)]}});
                        } else rd["mut"].push_back({{"k", "type_key"}, {"f", rng.below(50)}, {"at", rng.below(60)}, {"v", rng.below(8)}});
                        break;
                    default: {
                        static const char* rk[] = {"eio", "eof", "short", "eintr", "eio", "eof"};
                        static const char* ok[] = {"enoent", "eacces", "emfile", "eio"};
                        if (rng.chance(2, 3)) rd["faults"].push_back({{"kind", rk[rng.below(6)]}, {"op", "read"}, {"nth", 1 + rng.below(24)}, {"arg", 1 + rng.below(64)}});
                        else if (rng.chance(1, 4)) rd["alloc_fail"] = rng.below(300);
                        else rd["faults"].push_back({{"kind", ok[rng.below(4)]}, {"op", rng.chance(3, 4) ? "open_read" : "stat"}, {"nth", 1 + rng.below(10)}});
                    }
                }
            }
            sessions.push_back(rd);
        } else {
            sessions.push_back({{"type", "read"}, {"faults", json::array()}});
        }
        p["sessions"] = sessions;
        p["sched"] = gen_sched(rng, nt);
        return p;
    }

    // ---- reference model ---------------------------------------------------------------------------------
    struct Cap {
        int t;
        std::vector<size_t> d;
        uint64_t seed;
        size_t n;
        bool failed = false; // the program was told that this capture failed
        std::shared_ptr<Cap> before; // a failed capture may have left the previous one of this argument in place
    };
    typedef std::map<std::pair<int, bool>, Cap> Caps;
    struct Attempt {
        Caps caps;
        bool complete = false; // end() returned
        bool ended = false; // end() was reached
    };
    struct Key {
        std::string dir, name, elem;
        uint32_t inv;
        auto operator<=>(const Key&) const = default;
    };
    struct Slot {
        std::vector<Attempt> attempts; // in order; a completed one supersedes the earlier ones
    };
    std::map<Key, Slot> slots;

    static std::string norm(const std::string& d) {
        if (d.rfind("/simroot", 0) == 0) return fs::path("." + d.substr(8)).lexically_normal().string();
        return fs::path("./" + d).lexically_normal().string();
    }

    void run_prog(const json& plan, const json& s, Result& r, int si) {
        SessionSpec spec;
        spec.sched = sched_from(plan["sched"], spec.list);
        spec.faults = faults_from(s["faults"]);
        if (!s["strategy"].is_null()) spec.env["__DAISY_CAPTURE_STRATEGY_DEFAULT"] = s["strategy"];
        if (!s["base_env"].is_null()) spec.env["__DAISY_CAPTURE_BASE_DIR"] = s["base_env"];
        if (getenv("SIM_DEBUG")) spec.env["SIM_DEBUG"] = "1";
        g_plan = &s;
        spec.child = child_prog;
        SessionOut o = session(spec, r);
        if (!r.error.empty()) return;
        auto* g = sim::g;
        if (s["threads"].size() > 1) r.sched = sched_recorded(plan["sched"]);
        if (g->probe[20]) r.count("fault_fired:alloc", g->probe[20]);
        if (s.contains("alloc_fail")) r.count("fault_cfg:alloc");
        bool multi = s["threads"].size() > 1;
        std::string main = plan["prop"];
        auto viol = [&](const std::string& p, const std::string& cls, const std::string& msg) {
            r.add(p, cls, msg);
            if (multi && p != "C06") r.add("C06", cls, msg);
        };
        bool faulty = false;
        for (int i = 0; i < sim::MAX_FAULTS; i++)
            if (g->fault_fired[i]) faulty = true;
        if (g->probe[20]) faulty = true;
        if (g->n_escape) viol("C02", "escape", std::string("touches files outside its output directory: ") + g->escape);
        bool oom_abort = false;
        if (!g->crashed) {
            if (o.timed_out || g->verdict == sim::V_STEPCAP || g->verdict == sim::V_DEADLOCK) {
                for (auto* p : {"C01", "C02", "C03", "C06"}) r.add(p, "hang", std::string("program does not terminate: ") + g->msg);
                return;
            }
            // out of memory where no exception can leave: the program aborts, which is not silent
            oom_abort = g->probe[20] && o.signaled() && WTERMSIG(o.status) == SIGABRT;
            if (oom_abort) r.count("probe:out_of_memory_aborts");
            else if (o.signaled() || o.code() != 0) {
                // the harness catches every exception: any other end is a crash
                const char* fp = faulty ? "C03" : "C01";
                viol(fp, "killed", "program " + o.describe() + " " + std::string(g->stderr_text).substr(0, 300));
                if (!faulty) r.add("C02", "killed", "program " + o.describe());
            }
        }
        if (g->hist_overflow) {
            r.notes.push_back("history overflow");
            return;
        }
        // replay the history on the model
        struct Cur {
            Key key;
            Attempt* at = nullptr;
            bool en = false;
            int64_t f0 = 0;
            Caps pending;
            bool active = false;
            int next = 0;
        };
        std::map<int, Cur> cur; // per simulated thread
        std::map<std::tuple<int, int, std::string>, int64_t> inv; // (thread, ctx, element) -> number
        std::map<std::tuple<int, int>, std::map<std::string, Caps>> io_caps; // direct use keeps captures until cleared
        bool all_ok = true;
        std::map<int, int> reached;
        for (uint32_t i = 0; i < g->n_hist; i++) {
            auto& h = g->hist[i];
            int t = multi ? h.tid - 1 : 0;
            auto& th = s["threads"][t];
            if (h.kind == H_INIT) {
                bool never = s["strategy"] == "never" && !th["ctx"][(int) h.b].value("direct", false);
                (void) never;
                continue;
            }
            auto& op = th["ops"][(int) h.a];
            int c = op["c"];
            auto& cx = th["ctx"][c];
            bool direct = cx.value("direct", false);
            std::string es = std::to_string(op["e"].get<uint64_t>());
            Cur& u = cur[t];
            switch (h.kind) {
                case H_REGION: {
                    u = Cur();
                    u.f0 = h.c;
                    std::string dir = cx["dir"].is_null() ? "arg_captures" : cx["dir"].get<std::string>();
                    if (!direct && !s["base_env"].is_null()) dir = s["base_env"];
                    bool never = !direct && s["strategy"] == "never";
                    auto ik = std::make_tuple(t, c, es);
                    int64_t n = inv.count(ik) ? inv[ik] + 1 : 0;
                    if (!never) inv[ik] = n;
                    u.key = {norm(dir), cx["name"], es, (uint32_t) n};
                    u.en = never ? false : (direct || s["strategy"] == "all" ? true : n == 0);
                    u.active = true;
                    if (u.en) {
                        // from here on, files of this invocation may be replaced
                        auto& sl = slots[u.key];
                        sl.attempts.push_back(Attempt());
                    }
                    break;
                }
                case H_ENTER:
                    if (h.b == O_EXC) {
                        all_ok = false;
                        if (h.d == u.f0) viol("C01", "spurious_failure", "entering a captured region failed without any fault");
                    } else if ((h.c != 0) != u.en) {
                        viol("C02", "wrong_selection", "invocation " + std::to_string(u.key.inv) + " of element " + es + (h.c ? " captured" : " not captured") + " under strategy " + s["strategy"].dump());
                        return;
                    }
                    u.f0 = h.d;
                    break;
                case H_CAP: {
                    auto& cap = op["caps"][(int) h.c];
                    Cap m;
                    m.t = cap["t"];
                    for (auto& x : cap["d"]) m.d.push_back(x);
                    m.seed = cap["s"];
                    m.n = total(cap["d"]);
                    m.failed = h.b != O_OK;
                    auto& sl = slots[u.key];
                    auto ck = std::make_pair(cap["a"].get<int>(), cap["after"].get<bool>());
                    auto& caps = sl.attempts.back().caps;
                    if (m.failed && caps.count(ck)) m.before = std::make_shared<Cap>(caps[ck]);
                    caps[ck] = m;
                    if (m.failed) {
                        all_ok = false;
                        if (h.d == u.f0) viol("C01", "spurious_failure", "capturing an argument failed without any fault");
                    } else if (h.d > u.f0 && hard_fault(spec)) {
                        viol("C03", "silent_failure", "a failed file operation during the capture of arg " + cap["a"].dump() + " was not reported");
                    }
                    u.f0 = h.d;
                    u.next = (int) h.c + 1;
                    break;
                }
                case H_END: {
                    auto& sl = slots[u.key];
                    sl.attempts.back().ended = true;
                    if (h.b == O_OK) {
                        sl.attempts.back().complete = true;
                        if (h.d > u.f0 && hard_fault(spec)) viol("C03", "silent_failure", "a failed file operation while writing the index was not reported");
                        // without any successful capture there is nothing to index
                        bool any = false;
                        for (auto& [ck, m] : sl.attempts.back().caps) any |= !m.failed || m.before;
                        if (!any) sl.attempts.back().complete = false;
                    } else {
                        all_ok = false;
                        if (h.d == u.f0) viol("C01", "spurious_failure", "ending a captured region failed without any fault");
                    }
                    u.active = false;
                    break;
                }
            }
        }
        // a crash or exception in mid-capture: the capture in progress may have replaced files as well
        for (auto& [t, u] : cur) {
            if (!u.active || !u.en) continue;
            for (uint32_t i = g->n_hist; i-- > 0;) {
                auto& h = g->hist[i];
                int ht = multi ? h.tid - 1 : 0;
                if (ht != t) continue;
                auto& op = s["threads"][t]["ops"][(int) h.a];
                if (h.kind == H_ENTER || h.kind == H_CAP) {
                    if (h.b == O_OK && u.next < (int) op["caps"].size() && (g->crashed || oom_abort)) {
                        auto& cap = op["caps"][u.next];
                        Cap m;
                        m.t = cap["t"];
                        for (auto& x : cap["d"]) m.d.push_back(x);
                        m.seed = cap["s"];
                        m.n = total(cap["d"]);
                        m.failed = true;
                        slots[u.key].attempts.back().caps[{cap["a"].get<int>(), cap["after"].get<bool>()}] = m;
                    }
                }
                break;
            }
        }
        if (!g->crashed && !oom_abort && !faulty && !all_ok) r.count("probe:unexplained_exception");
        if (g->crashed) r.count("probe:crashed_sessions");
        if (!all_ok) r.count("probe:sessions_with_reported_failure");
        r.count("captures", 0);
        (void) si;
    }

    // did a fault fire that makes the operation it hit fail for good?
    static bool hard_fault(const SessionSpec& spec) {
        // attribution is exact when all faults that fired are of the unrecoverable kind
        for (size_t i = 0; i < spec.faults.size(); i++) {
            if (!sim::g->fault_fired[i]) continue;
            auto& f = spec.faults[i];
            if (f.kind == sim::F_SHORT || f.kind == sim::F_EINTR || f.kind == sim::F_CRASH) return false;
            if (f.cls == sim::OP_STAT || f.cls == sim::OP_UNLINK || f.cls == sim::OP_MKDIR || f.kind == sim::F_DISKFULL) return false;
        }
        if (sim::g->probe[20]) return false;
        return true;
    }

    std::vector<std::string> list(const std::string& suffix) {
        std::vector<std::string> v;
        std::error_code ec;
        for (auto& e : fs::recursive_directory_iterator(scratch, ec)) {
            std::error_code e2;
            if (!e.is_regular_file(e2)) continue;
            std::string f = fs::relative(e.path(), scratch).string();
            if (f.size() >= suffix.size() && f.compare(f.size() - suffix.size(), suffix.size(), suffix) == 0) v.push_back(f);
        }
        std::sort(v.begin(), v.end());
        return v;
    }

    static void key_paths(const json& j, const std::string& pre, std::vector<json::json_pointer>& out) {
        if (j.is_object()) {
            for (auto& [k, v] : j.items()) {
                out.push_back(json::json_pointer(pre + "/" + k));
                key_paths(v, pre + "/" + k, out);
            }
        } else if (j.is_array()) {
            for (size_t i = 0; i < j.size(); i++) key_paths(j[i], pre + "/" + std::to_string(i), out);
        }
    }

    struct Damage {
        std::set<std::string> index_must_fail, index_may_fail; // relative paths
        std::set<std::string> data_must_fail, data_may_differ;
    };

    void mutate(const json& muts, Damage& d, Result& r) {
        for (auto& m : muts) {
            std::string k = m["k"];
            bool idx = k.find("index") != std::string::npos || k.find("key") != std::string::npos;
            auto files = list(idx ? ".index.json" : ".bin");
            if (files.empty()) continue;
            std::string f = files[m["f"].get<uint64_t>() % files.size()];
            if (d.index_must_fail.count(f) || d.index_may_fail.count(f) || d.data_must_fail.count(f) || d.data_may_differ.count(f)) continue;
            std::string full = scratch + "/" + f;
            std::string c = slurp(full);
            auto put = [&](const std::string& x) { std::ofstream(full, std::ios::binary | std::ios::trunc) << x; };
            r.count("fault_fired:" + k);
            if (k == "trunc_index" && !c.empty()) {
                put(c.substr(0, m["at"].get<uint64_t>() % c.size()));
                d.index_must_fail.insert(f);
            } else if (k == "trunc_data") {
                if (c.empty()) continue;
                put(c.substr(0, m["at"].get<uint64_t>() % c.size()));
                d.data_must_fail.insert(f);
            } else if (k == "del_data") {
                fs::remove(full);
                d.data_must_fail.insert(f);
            } else if (k == "dir_data") {
                fs::remove(full);
                fs::create_directory(full);
                if (!c.empty()) d.data_must_fail.insert(f);
                else d.data_may_differ.insert(f);
            } else if (k == "flip_index" && !c.empty()) {
                uint64_t b = m["at"].get<uint64_t>() % (c.size() * 8);
                c[b / 8] = (char) (c[b / 8] ^ (1 << (b % 8)));
                put(c);
                d.index_may_fail.insert(f);
            } else if (k == "flip_data" && !c.empty()) {
                uint64_t b = m["at"].get<uint64_t>() % (c.size() * 8);
                c[b / 8] = (char) (c[b / 8] ^ (1 << (b % 8)));
                put(c);
                d.data_may_differ.insert(f);
            } else if (k == "format_key") {
                json j = json::parse(c, nullptr, false);
                if (!j.is_object() || !j.contains("format") || j["format"] == m["v"]) continue;
                j["format"] = m["v"]; // written by another version of the library
                put(j.dump());
                d.index_must_fail.insert(f);
            } else if (k == "del_key" || k == "type_key") {
                json j = json::parse(c, nullptr, false);
                if (j.is_discarded()) continue;
                std::vector<json::json_pointer> ps;
                key_paths(j, "", ps);
                if (ps.empty()) continue;
                auto p = ps[m["at"].get<uint64_t>() % ps.size()];
                std::string last = p.back();
                if (k == "del_key") {
                    j[p.parent_pointer()].erase(last);
                    // what an argument's data may legitimately lack is the reader's business; the rest is required
                    if (last == "data" || last == "ext_file") d.index_may_fail.insert(f);
                    else d.index_must_fail.insert(f);
                } else {
                    static const json vals[] = {nullptr, -1, "text", json::array(), json::object(), 1e300, true, json::array({"x", 1})};
                    const json& v = vals[m["v"].get<uint64_t>() % 8];
                    j[p] = v;
                    // a value that cannot be the field's must be refused; one that can may be taken at its word
                    static const std::set<std::string> numbers = {"format", "invocation", "arg_idx", "primitive_type"};
                    static const std::set<std::string> strings = {"target", "element_id", "data", "ext_file"};
                    bool impossible = (numbers.count(last) && !v.is_number() && !v.is_boolean()) || (strings.count(last) && !v.is_string()) ||
                                      (last == "after" && !v.is_boolean()) || (last == "dims" && !v.is_array());
                    if (impossible) d.index_must_fail.insert(f);
                    else d.index_may_fail.insert(f);
                }
                put(j.dump());
            }
        }
    }

    void run_read(const json& plan, const json& s, Result& r) {
        Damage dmg;
        if (s.contains("mut")) mutate(s["mut"], dmg, r);
        auto files = list(".index.json");
        g_index_files = &files;
        g_plan = &s;
        SessionSpec spec;
        spec.sched.seed = 1;
        spec.faults = faults_from(s["faults"]);
        if (getenv("SIM_DEBUG")) spec.env["SIM_DEBUG"] = "1";
        spec.child = child_read;
        SessionOut o = session(spec, r);
        if (!r.error.empty()) return;
        auto* g = sim::g;
        if (g->probe[20]) r.count("fault_fired:alloc", g->probe[20]);
        if (s.contains("alloc_fail")) r.count("fault_cfg:alloc");
        std::string prop = plan["prop"];
        bool faulty = false;
        for (int i = 0; i < sim::MAX_FAULTS; i++)
            if (g->fault_fired[i]) faulty = true;
        if (g->probe[20]) faulty = true;
        // which property a complaint of the reader belongs to depends on what happened before
        bool had_crash = false, had_fault = false, had_threads = false;
        for (auto& x : plan["sessions"]) {
            if (x["type"] != "prog") continue;
            if (x["threads"].size() > 1) had_threads = true;
            for (auto& f : x["faults"]) (f["kind"] == "crash" ? had_crash : had_fault) = true;
            if (x.contains("alloc_fail")) had_fault = true;
        }
        auto viol = [&](const std::string& cls, const std::string& msg) {
            if (faulty || s.contains("mut")) {
                r.add("C05", cls, msg);
                if (faulty || !dmg.index_must_fail.empty() || !dmg.index_may_fail.empty() || !dmg.data_must_fail.empty() || !dmg.data_may_differ.empty()) return;
            }
            if (had_crash) r.add("C04", cls, msg);
            if (had_fault) r.add("C03", cls, msg);
            if (!had_crash && !had_fault) {
                r.add("C01", cls, msg);
                r.add("C02", cls, msg);
            }
            if (had_threads) r.add("C06", cls, msg);
        };
        if (o.timed_out || g->verdict) return viol("reader_hang", std::string("reader does not terminate: ") + g->msg);
        if (g->probe[20] && o.signaled() && WTERMSIG(o.status) == SIGABRT) {
            r.count("probe:out_of_memory_aborts");
            return;
        }
        if (o.signaled() || o.code() != 0) return viol("reader_killed", "reader " + o.describe() + " " + std::string(g->stderr_text).substr(0, 300));
        if (g->blob_len == 0) {
            r.error = "reader gave no result";
            return;
        }
        std::string text((const char*) g->blob, g->blob_len);
        r.mix(text);
        json out = json::parse(text);
        std::set<std::string> seen;
        std::map<Key, json> got;
        for (auto& x : out) {
            std::string f = x["file"];
            // identify the invocation by the index file's own content (undamaged copy)
            if (x.value("err", false)) {
                seen.insert(f);
                continue;
            }
        }
        // expected slots by index file name
        for (auto& [k, sl] : slots) {
            const Attempt* last_complete = nullptr;
            bool later = false;
            for (auto& a : sl.attempts) {
                if (a.complete) last_complete = &a, later = false;
                else later = true;
            }
            // find the entry: parse name from content
            const json* e = nullptr;
            std::string ef;
            for (auto& x : out) {
                std::string f = x["file"];
                std::string want = (fs::path(k.dir) / (k.name + "_inv" + std::to_string(k.inv) + "_" + k.elem + ".index.json")).lexically_normal().string();
                if (x.value("err", false)) {
                    if (f == want) e = &x, ef = f;
                    continue;
                }
                if (fs::path(f).parent_path() == fs::path(want).parent_path() && (f == want || (x["name"] == hash_str(k.name) && x.value("elem", "") == k.elem && x["inv"] == k.inv && !dmg.index_may_fail.count(f)))) {
                    e = &x;
                    ef = f;
                    break;
                }
            }
            std::string where = k.dir + ": " + k.name + " invocation " + std::to_string(k.inv) + " of element " + k.elem;
            r.count("invocations_checked");
            if (!e) {
                if (last_complete && !later) viol("lost_capture", where + ": captured, but no index describes it");
                continue;
            }
            seen.insert(ef);
            if (dmg.index_may_fail.count(ef)) continue;
            if (dmg.index_must_fail.count(ef)) {
                if (!e->value("err", false)) viol("damage_accepted", where + ": damaged index " + ef + " was read without an error");
                continue;
            }
            if (e->value("err", false)) {
                if (faulty) continue;
                if (last_complete && !later) viol("unreadable", where + ": index cannot be read back");
                continue;
            }
            // exact content
            if ((*e)["name"] != hash_str(k.name) || (*e)["inv"] != k.inv || (*e).value("elem", "") != k.elem) {
                // an index without captures carries no element in this report
                if (!(*e)["caps"].empty() || (*e)["name"] != hash_str(k.name)) viol("wrong_identity", where + ": index names another target, invocation or element");
            }
            std::vector<const Attempt*> cand;
            for (auto& a : sl.attempts) cand.push_back(&a);
            if (last_complete && !later) cand = {last_complete};
            std::string why;
            bool ok = false;
            bool read_failed = false;
            for (auto* a : cand) {
                std::string w = match(*a, (*e)["caps"], k, dmg, faulty, read_failed);
                if (w.empty()) ok = true;
                else why = w;
            }
            if (!ok && !read_failed) viol("wrong_capture", where + ": " + why);
            if (!ok && read_failed) viol("wrong_capture", where + ": " + why);
        }
        for (auto& x : out)
            if (!seen.count(x["file"].get<std::string>()) && !dmg.index_may_fail.count(x["file"].get<std::string>()) && !dmg.index_must_fail.count(x["file"].get<std::string>()))
                viol("unexpected_index", "index of an invocation that was never captured: " + x["file"].get<std::string>());
    }

    // empty string: the reported capture is this one
    static std::string match_one(const Cap* mp, const json& c, const std::string& nm, std::pair<int, bool> key, bool complete, const Key& k, const Damage& dmg, bool faulty) {
        const Cap& m = *mp;
        std::vector<size_t> d = c["d"];
        if (c["t"] != m.t) return nm + ": type differs";
        if (d != m.d) return nm + ": dimensions differ";
        if (c.value("nodata", false)) {
            if (m.failed) return "";
            return nm + ": data missing";
        }
        if (c.value("rerr", false)) {
            if (faulty || !dmg.data_must_fail.empty() || !dmg.data_may_differ.empty()) return "";
            if (!complete) return ""; // detected as incomplete
            return nm + ": data cannot be read back";
        }
        if (c.value("overrun", false)) return nm + ": reader wrote past the end of the buffer";
        if (c["n"] != m.n || c["h"] != content_hash(m.seed, m.n)) {
            if (!dmg.data_may_differ.empty()) return "";
            return nm + ": other data than captured (" + c["n"].dump() + " bytes, captured " + std::to_string(m.n) + ")";
        }
        if (!dmg.data_must_fail.empty() && !c.contains("inl") && m.n) {
            // was it this file that was damaged?
            std::string data = (fs::path(k.dir) / (k.name + "_inv" + std::to_string(k.inv) + "_arg" + std::to_string(key.first) + (key.second ? "_out_" : "_in_") + k.elem + ".bin")).lexically_normal().string();
            if (dmg.data_must_fail.count(data)) return nm + ": damaged data file accepted";
        }
        return "";
    }

    // empty string: the report equals this attempt
    std::string match(const Attempt& a, const json& caps, const Key& k, const Damage& dmg, bool faulty, bool& read_failed) {
        (void) read_failed;
        std::set<std::pair<int, bool>> have;
        bool complete = a.complete;
        for (auto& c : caps) {
            auto key = std::make_pair(c["a"].get<int>(), c["after"].get<bool>());
            std::string nm = "arg " + std::to_string(key.first) + (key.second ? " (out)" : " (in)");
            if (!c["key"].get<bool>()) return nm + " filed under another argument";
            if (!have.insert(key).second) return nm + " twice";
            auto it = a.caps.find(key);
            if (it == a.caps.end()) return nm + " was not captured in this invocation";
            std::string why = match_one(&it->second, c, nm, key, complete, k, dmg, faulty);
            for (const Cap* p = it->second.failed ? it->second.before.get() : nullptr; p && !why.empty(); p = p->failed ? p->before.get() : nullptr)
                if (match_one(p, c, nm, key, complete, k, dmg, faulty).empty()) why.clear();
            if (!why.empty()) return why;
        }
        for (auto& [key, m] : a.caps)
            if (!have.count(key) && !m.failed) {
                return "arg " + std::to_string(key.first) + (key.second ? " (out)" : " (in)") + " is missing from the index";
            }
        return "";
    }

    void execute(const json& plan, Result& r) override {
        slots.clear();
        g_root_plan = &plan;
        int si = 0;
        for (auto& s : plan["sessions"]) {
            if (s["type"] == "prog") run_prog(plan, s, r, si);
            else run_read(plan, s, r);
            si++;
            if (!r.error.empty()) return;
        }
        if (r.sched.is_null()) r.sched = plan["sched"];
        size_t n = 0;
        for (auto& [k, s] : slots) n += s.attempts.size();
        r.count("captured_invocations", n);
        r.nontrivial = n > 0 || plan["prop"] == "C02";
    }
};

int main(int argc, char** argv) {
    CaptureHarness h;
    return harness_main(argc, argv, h);
}
