// Simulation of programs instrumented with the runtime library (real code: rtl instrumentation).
// Simulated: hardware counter library, clock, threads' schedule, file system.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <set>

#include "core/harness.h"
#include "daisy_rtl/daisy_rtl.h"

#ifndef PAPI_OK_LIB
#error "PAPI_OK_LIB not set"
#endif

enum HK {
    INIT_INV = 1, INIT_RET, ENTER_INV, ENTER_RET, EXIT_INV, EXIT_RET, FIN_INV, FIN_RET, MET_INV, MET_RET,
    P_CREATE = 20, P_CLEANUP, P_DESTROY, P_ADD, P_START, P_STOP, P_RESET, P_READ, P_VAL, P_CLOCK, P_INIT
};

// ---------------------------------------------------------------------------------------------------------
// simulated counter library (child side)
// ---------------------------------------------------------------------------------------------------------
namespace {
constexpr int PAPI_VER = 0x07020000;
constexpr int MAXES = 4096, MAXEV = 8;
enum { ES_FREE = 0, ES_STOPPED, ES_RUNNING };
struct ESet {
    int state = ES_FREE;
    int nev = 0;
    int ev[MAXEV];
    long long base[MAXEV];
    long long held[MAXEV];
};
ESet es[MAXES];
int n_es = 0;
std::vector<std::string>* ev_names; // all known counters
long long counter[16];
uint64_t clock_tick = 10, read_cost = 0;
struct PFault {
    std::string fn;
    int nth;
    int ret;
};
std::vector<PFault>* pfaults;
std::map<std::string, int>* pcalls;
bool ver_mismatch = false;

int pfault(const char* fn) {
    int n = ++(*pcalls)[fn];
    for (auto& f : *pfaults)
        if (f.fn == fn && f.nth == n) {
            sim::probe(10);
            sim::log_u64(0xFA + f.ret);
            return f.ret;
        }
    return 0;
}
bool valid(int e) { return e >= 0 && e < n_es && es[e].state != ES_FREE; }

struct PapiCall { // environment call: scheduling point before and after, bookkeeping not preemptible
    sim::Quiet* q;
    PapiCall() {
        sim::point(30);
        q = new sim::Quiet();
    }
    ~PapiCall() {
        delete q;
        sim::point(31);
    }
};
} // namespace

extern "C" {
int simpapi_library_init(int v) {
    PapiCall c;
    int r = pfault("library_init");
    if (r == 0) r = ver_mismatch ? 0x06000000 : (v == PAPI_VER ? PAPI_VER : -1);
    sim::hist(P_INIT, r);
    return r;
}
int simpapi_create_eventset(int* e) {
    PapiCall c;
    int r = pfault("create_eventset");
    if (!r && *e != -1) r = -1; // PAPI_EINVAL
    if (!r && n_es >= MAXES) r = -2;
    if (!r) {
        *e = n_es++;
        es[*e] = ESet();
        es[*e].state = ES_STOPPED;
    }
    sim::hist(P_CREATE, r ? -1 : *e, r);
    return r;
}
int simpapi_cleanup_eventset(int e) {
    PapiCall c;
    int r = pfault("cleanup_eventset");
    if (!r && !valid(e)) r = -11;
    if (!r && es[e].state == ES_RUNNING) r = -10;
    if (!r) es[e].nev = 0;
    sim::hist(P_CLEANUP, e, r);
    return r;
}
int simpapi_destroy_eventset(int* e) {
    PapiCall c;
    int r = pfault("destroy_eventset");
    int id = *e;
    if (!r && !valid(id)) r = -11;
    if (!r && es[id].state == ES_RUNNING) r = -10;
    if (!r && es[id].nev != 0) r = -1;
    if (!r) {
        es[id].state = ES_FREE;
        *e = -1;
    }
    sim::hist(P_DESTROY, id, r);
    return r;
}
int simpapi_add_named_event(int e, const char* n) {
    PapiCall c;
    int r = pfault("add_named_event");
    int idx = -1;
    for (size_t i = 0; i < ev_names->size(); i++)
        if ((*ev_names)[i] == n) idx = (int) i;
    if (!r && !valid(e)) r = -11;
    if (!r && idx < 0) r = -7;
    if (!r && es[e].state == ES_RUNNING) r = -10;
    if (!r && es[e].nev >= MAXEV) r = -8;
    if (!r) es[e].ev[es[e].nev++] = idx;
    sim::hist(P_ADD, e, r, idx);
    return r;
}
int simpapi_start(int e) {
    PapiCall c;
    int r = pfault("start");
    int prev = valid(e) ? es[e].state : -1;
    if (!r && !valid(e)) r = -11;
    if (!r && es[e].state == ES_RUNNING) r = -10;
    if (!r && es[e].nev == 0) r = -1; // an empty set cannot be started
    if (!r) {
        es[e].state = ES_RUNNING;
        for (int i = 0; i < es[e].nev; i++) es[e].base[i] = counter[es[e].ev[i]];
    }
    sim::hist(P_START, e, r, prev);
    return r;
}
int simpapi_stop(int e, long long* v) {
    PapiCall c;
    int r = pfault("stop");
    int prev = valid(e) ? es[e].state : -1;
    if (!r && !valid(e)) r = -11;
    if (!r && es[e].state != ES_RUNNING) r = -9;
    if (!r) {
        es[e].state = ES_STOPPED;
        for (int i = 0; i < es[e].nev; i++) {
            es[e].held[i] = counter[es[e].ev[i]] - es[e].base[i];
            if (v) v[i] = es[e].held[i];
        }
    }
    sim::hist(P_STOP, e, r, prev);
    return r;
}
int simpapi_reset(int e) {
    PapiCall c;
    int r = valid(e) ? 0 : -11;
    if (!r)
        for (int i = 0; i < es[e].nev; i++) {
            es[e].base[i] = counter[es[e].ev[i]];
            es[e].held[i] = 0;
        }
    sim::hist(P_RESET, e, r);
    return r;
}
int simpapi_read(int e, long long* v) {
    PapiCall c;
    sim::advance(read_cost);
    int r = pfault("read");
    if (!r && !valid(e)) r = -11;
    int run = valid(e) ? es[e].state == ES_RUNNING : 0;
    sim::hist(P_READ, e, r, run, valid(e) ? es[e].nev : 0);
    if (!r)
        for (int i = 0; i < es[e].nev; i++) {
            v[i] = es[e].state == ES_RUNNING ? counter[es[e].ev[i]] - es[e].base[i] : es[e].held[i];
            sim::hist(P_VAL, i, v[i], es[e].ev[i]);
        }
    return r;
}
const char* simpapi_strerror(int) { return "simulated PAPI error"; }
long long simpapi_get_real_nsec(void) {
    PapiCall c;
    sim::advance(clock_tick);
    long long t = (long long) sim::now();
    sim::hist(P_CLOCK, t);
    return t;
}
}

// ---------------------------------------------------------------------------------------------------------
// workload (child side)
// ---------------------------------------------------------------------------------------------------------
namespace {
const json* g_plan;
int64_t g_exec = 0, g_tok = 0;

const char* keep(const std::string& s) { return strdup(s.c_str()); }

void fill_md(__daisy_metadata_t& md, const json& r) {
    memset(&md, 0, sizeof md);
    auto opt = [&](const char* k) -> const char* { return r.contains(k) && !r[k].is_null() ? keep(r[k]) : nullptr; };
    md.file_name = keep(r["file"]);
    md.function_name = keep(r["fn"]);
    md.line_begin = r["lb"];
    md.line_end = r["le"];
    md.column_begin = r["cb"];
    md.column_end = r["ce"];
    md.sdfg_name = opt("sdfg_name");
    md.sdfg_file = opt("sdfg_file");
    md.arg_capture_path = opt("arg_capture_path");
    md.features_file = opt("features_file");
    md.opt_report_file = opt("opt_report_file");
    md.element_id = r["eid"];
    md.element_type = keep(r["etype"]);
    md.target_type = opt("ttype");
    md.loopnest_index = r["li"];
    md.num_loops = r["nl"];
    md.num_maps = r["nm"];
    md.num_fors = r["nf"];
    md.num_whiles = r["nw"];
    md.max_depth = r["md"];
    md.is_perfectly_nested = r["pn"];
    md.is_perfectly_parallel = r["pp"];
    md.is_elementwise = r["el"];
    md.has_side_effects = r["se"];
    md.region_uuid = keep(r["uuid"]);
}

void do_ops(const json& ops);

void do_run(const json& op) {
    int ri = op["r"];
    const json& reg = (*g_plan)["regions"][ri];
    int64_t tok;
    __daisy_metadata_t md;
    {
        sim::Quiet q;
        tok = ++g_tok;
        fill_md(md, reg);
        sim::hist(INIT_INV, ri, tok);
    }
    size_t id = __daisy_instrumentation_init(&md, (enum __daisy_event_set) reg["set"].get<int>());
    {
        sim::Quiet q;
        sim::hist(INIT_RET, ri, tok, (int64_t) id);
        memset(&md, 0xAA, sizeof md); // metadata lives on the caller's stack
    }
    for (auto& x : op["x"]) {
        int64_t ex;
        {
            sim::Quiet q;
            ex = ++g_exec;
            sim::hist(ENTER_INV, ri, ex, (int64_t) sim::now());
        }
        __daisy_instrumentation_enter(id);
        {
            sim::Quiet q;
            sim::hist(ENTER_RET, ri, ex, (int64_t) sim::now());
        }
        do_ops(x["b"]);
        if (x.value("noexit", false)) continue;
        {
            sim::Quiet q;
            sim::hist(EXIT_INV, ri, ex, (int64_t) sim::now());
        }
        __daisy_instrumentation_exit(id);
        {
            sim::Quiet q;
            sim::hist(EXIT_RET, ri, ex, (int64_t) sim::now());
        }
    }
    int mi = 0;
    for (auto& m : op["m"]) {
        double v = m["v"].get<double>();
        if (m.value("inf", 0) == 1) v = INFINITY;
        int64_t bits;
        memcpy(&bits, &v, 8);
        std::string name;
        {
            sim::Quiet q;
            name = m["n"].get<std::string>();
            sim::hist(MET_INV, ri, (int64_t) hash_str(name), bits, tok);
        }
        if (m.value("int", false)) {
            __daisy_instrumentation_increment(id, name.c_str(), (long long) v);
        } else {
            __daisy_instrumentation_metric(id, name.c_str(), v);
        }
        {
            sim::Quiet q;
            sim::hist(MET_RET, ri, mi++, 0, tok);
        }
    }
    if (op.value("fin", true)) {
        {
            sim::Quiet q;
            sim::hist(FIN_INV, ri, tok);
        }
        __daisy_instrumentation_finalize(id);
        {
            sim::Quiet q;
            sim::hist(FIN_RET, ri, tok);
        }
    }
}

void do_ops(const json& ops) {
    for (auto& op : ops) {
        std::string k;
        {
            sim::Quiet q;
            k = op["k"].get<std::string>();
        }
        if (k == "w") {
            {
                sim::Quiet q;
                sim::advance(op["ns"].get<uint64_t>());
                long long c = op["c"].get<long long>();
                for (int i = 0; i < 16; i++) counter[i] += c * (i + 1) + (c ? i * i : 0);
            }
            sim::point(40);
        } else if (k == "run") {
            do_run(op);
        }
    }
}

void thread_body(void*, int idx) { do_ops((*g_plan)["threads"][idx]["ops"]); }

void child_main() {
    const json& p = *g_plan;
    auto& pp = p["papi"];
    ev_names = new std::vector<std::string>();
    for (auto& e : p["ev_cpu"]) ev_names->push_back(e);
    for (auto& e : p["ev_cuda"]) ev_names->push_back(e);
    pfaults = new std::vector<PFault>();
    pcalls = new std::map<std::string, int>();
    for (auto& f : pp["faults"]) pfaults->push_back({f["fn"], f["nth"], f["ret"]});
    clock_tick = pp["tick"];
    read_cost = pp["read_cost"];
    ver_mismatch = pp["ver"] == "mismatch";
    int n = (int) p["threads"].size();
    if (n == 1) {
        do_ops(p["threads"][0]["ops"]);
    } else if (n > 1) {
        sim::run_threads(thread_body, nullptr, n);
    }
}
} // namespace

// ---------------------------------------------------------------------------------------------------------
// generator and oracle (parent side)
// ---------------------------------------------------------------------------------------------------------
class InstrHarness : public Harness {
public:
    struct GenCtx {
        sim::Rng& rng;
        int regions;
        int budget;
        bool metrics;
        bool nofin;
        bool recursion;
        bool big;
        int max_exec;
        bool small = false; // metric values close to zero
    };

    json gen_ops(GenCtx& c, int depth, int n, std::set<int>& open) {
        json ops = json::array();
        for (int i = 0; i < n && c.budget > 0; i++) {
            if (c.rng.chance(35, 100) || depth > 3) {
                uint64_t ns;
                switch (c.rng.below(c.big ? 6 : 4)) {
                    case 0: ns = c.rng.below(5); break;
                    case 1: ns = c.rng.below(2000); break;
                    case 2: ns = 1000 + c.rng.below(1000000); break;
                    case 3: ns = 5000 + c.rng.below(50000); break;
                    case 4: ns = 1000000000ull + c.rng.below(1000000000ull); break;
                    default: ns = 3600ull * 1000000000ull + c.rng.below(1000000000ull); break;
                }
                ops.push_back({{"k", "w"}, {"ns", ns}, {"c", c.rng.below(c.rng.chance(1, 4) ? 1000000000 : 1000)}});
                continue;
            }
            c.budget--;
            int r = (int) c.rng.below(c.regions);
            if (open.count(r) && !c.recursion) continue;
            json op = {{"k", "run"}, {"r", r}};
            json xs = json::array();
            int nx = c.rng.chance(1, 8) ? 0 : (c.rng.chance(1, 3) ? 1 + (int) c.rng.below(c.max_exec) : 1);
            bool was = open.count(r);
            open.insert(r);
            for (int x = 0; x < nx; x++) {
                json b;
                if (c.rng.chance(1, 3)) {
                    b = gen_ops(c, depth + 1, 1 + (int) c.rng.below(3), open);
                } else {
                    GenCtx leaf = c;
                    leaf.budget = 0;
                    b = json::array();
                    if (!c.rng.chance(1, 6))
                        b.push_back({{"k", "w"},
                                     {"ns", c.rng.chance(1, 2) ? c.rng.below(3000) : 1000 + c.rng.below(2000000)},
                                     {"c", c.rng.below(5000)}});
                }
                xs.push_back({{"b", b}});
            }
            if (!was) open.erase(r);
            op["x"] = xs;
            json ms = json::array();
            if (c.metrics && c.rng.chance(1, 2)) {
                int k = 1 + (int) c.rng.below(4);
                static const char* names[] = {"foo", "flops", "bytes moved", "a\"q", "back\\slash"};
                for (int m = 0; m < k; m++) {
                    bool isint = c.rng.chance(1, 2);
                    json v;
                    if (c.small) {
                        // values around zero, so that sums and means of a prefix are often exactly zero
                        if (isint) v = c.rng.range(-2, 2);
                        else v = (double) c.rng.range(-2, 2) / 2.0;
                    } else if (isint) {
                        v = c.rng.range(-1000, 100000);
                    } else {
                        v = (double) c.rng.range(-100000, 100000) / 16.0;
                    }
                    ms.push_back({{"n", names[c.rng.below(c.small ? 2 : 5)]}, {"v", v}, {"int", isint}});
                    if (c.rng.chance(1, 60)) {
                        ms.back()["inf"] = 1;
                        ms.back()["int"] = false;
                    }
                }
            }
            op["m"] = ms;
            op["fin"] = !(c.nofin && c.rng.chance(1, 6));
            ops.push_back(op);
        }
        return ops;
    }

    json gen(const std::string& prop, uint64_t seed) override {
        sim::Rng rng(seed * 1000003 + hash_str(prop) % 1000);
        json p;
        p["h"] = "instr";
        p["prop"] = prop;
        p["seed"] = seed;
        bool agg = rng.chance(1, 2);
        if (prop == "T02") agg = false;
        if (prop == "T03") agg = true;
        p["mode"] = agg ? json("aggregate") : (rng.chance(1, 2) ? json("") : json(nullptr));
        switch (rng.below(4)) {
            case 0: p["file"] = nullptr; break;
            case 1: p["file"] = "/simroot/trace out.json"; break;
            default: p["file"] = "trace.json"; break;
        }
        // counters
        static const char* cpu[] = {"PAPI_TOT_CYC", "perf::INSTRUCTIONS", "PAPI_L1_DCM", "perf::BRANCHES"};
        static const char* cuda[] = {"cuda:::dram__bytes.sum:device=0", "cuda:::sm__cycles"};
        json ec = json::array(), eg = json::array();
        int nc = rng.chance(1, 4) ? 0 : 1 + (int) rng.below(4);
        for (int i = 0; i < nc; i++) ec.push_back(cpu[i]);
        int ng = rng.chance(1, 2) ? 0 : 1 + (int) rng.below(2);
        for (int i = 0; i < ng; i++) eg.push_back(cuda[i]);
        if (rng.chance(1, 2) && nc > 1) std::swap(ec[0], ec[nc - 1]);
        p["ev_cpu"] = ec;
        p["ev_cuda"] = eg;
        static const uint64_t starts[] = {1, 999, 1000000, 123456789012ull, 1700000000000000000ull};
        static const uint64_t ticks[] = {0, 1, 10, 50, 999};
        json papi;
        papi["lib"] = "ok";
        papi["ver"] = "ok";
        papi["start_ns"] = starts[rng.below(5)];
        papi["tick"] = ticks[rng.below(5)];
        papi["read_cost"] = rng.chance(1, 2) ? 0 : rng.below(3000);
        papi["faults"] = json::array();
        // regions
        int nr = 1 + (int) rng.below(5);
        if (prop == "T04") nr = rng.chance(2, 3) ? 8 + (int) rng.below(20) : 1 + (int) rng.below(6);
        else if (rng.chance(1, 5)) nr = 8 + (int) rng.below(10);
        json regs = json::array();
        bool nasty = rng.chance(prop == "T01" ? 1 : 1, prop == "T01" ? 2 : 6);
        for (int i = 0; i < nr; i++) {
            json r;
            auto nastify = [&](std::string s) {
                if (!nasty || !rng.chance(1, 3)) return s;
                static const char* t[] = {"\"", "\\", "\n", "\t", "%s%n", "\xc3\xa4", ",", "{", "\x01", "/"};
                size_t at = rng.below(s.size() + 1);
                return s.substr(0, at) + t[rng.below(9)] + s.substr(at);
            };
            r["uuid"] = nastify("kernel_" + std::to_string(i / 3) + "_" + std::to_string(i * 7));
            r["file"] = nastify("/home/user/src/dir" + std::to_string(i) + "/file" + std::to_string(i) + ".c");
            r["fn"] = nastify("fn" + std::to_string(i));
            r["lb"] = 10 + i;
            r["le"] = 12 + i + (int) rng.below(100);
            r["cb"] = rng.below(80);
            r["ce"] = rng.below(80);
            bool sd = rng.chance(3, 4);
            r["sdfg_name"] = sd || rng.chance(1, 2) ? json(nastify("sdfg" + std::to_string(i))) : json(nullptr);
            r["sdfg_file"] = sd || rng.chance(1, 2) ? json(nastify("/tmp/sdfg" + std::to_string(i) + ".json")) : json(nullptr);
            static const char* of[] = {"arg_capture_path", "features_file", "opt_report_file"};
            for (auto* k : of) r[k] = rng.chance(2, 3) ? json(nastify(std::string("/o/") + k + std::to_string(i))) : json(nullptr);
            r["eid"] = 100 + i * 13;
            r["etype"] = rng.chance(1, 2) ? "map" : "for";
            static const char* tt[] = {"SEQUENTIAL", "CPU_PARALLEL", "CUDA"};
            r["ttype"] = rng.chance(5, 6) ? json(tt[rng.below(3)]) : json(nullptr);
            r["li"] = (int) rng.range(-1, 20);
            for (auto* k : {"nl", "nm", "nf", "nw", "md"}) r[k] = rng.below(12);
            for (auto* k : {"pn", "pp", "el", "se"}) r[k] = rng.chance(1, 2);
            uint64_t st = rng.below(10);
            r["set"] = st < 6 ? 0 : (st < 8 ? 1 : 2);
            regs.push_back(r);
        }
        p["regions"] = regs;
        // threads
        int nt = 1;
        if (prop == "T06") nt = 2 + (int) rng.below(3);
        else if (rng.chance(1, prop == "T05" ? 8 : 3)) nt = 2 + (int) rng.below(3);
        GenCtx c{rng, nr, 0, rng.chance(2, 3), rng.chance(1, 4), rng.chance(1, 3), rng.chance(1, 3), 2 + (int) rng.below(12)};
        c.small = rng.chance(prop == "T03" ? 1 : 1, prop == "T03" ? 2 : 6);
        json threads = json::array();
        for (int t = 0; t < nt; t++) {
            c.budget = nt > 1 ? 2 + (int) rng.below(8) : 2 + (int) rng.below(prop == "T04" ? 60 : 24);
            std::set<int> open;
            json ops = json::array();
            while (c.budget > 0) {
                for (auto& o : gen_ops(c, 0, 4, open)) ops.push_back(o);
                if (rng.chance(1, 5)) break;
            }
            threads.push_back({{"ops", ops}});
        }
        p["threads"] = threads;
        // faults
        json faults = json::array();
        if (prop == "T05") {
            switch (rng.below(10)) {
                case 0: papi["lib"] = rng.chance(1, 2) ? "missing" : "noread"; break;
                case 1: papi["ver"] = rng.chance(1, 2) ? "unset" : "mismatch"; break;
                case 2: case 3: {
                    static const char* fn[] = {"library_init", "create_eventset", "add_named_event", "cleanup_eventset", "destroy_eventset"};
                    papi["faults"].push_back({{"fn", fn[rng.below(5)]}, {"nth", 1 + rng.below(12)}, {"ret", -(int) (1 + rng.below(9))}});
                    break;
                }
                case 4: {
                    static const char* fn[] = {"start", "stop", "read"};
                    int k = 1 + (int) rng.below(3);
                    for (int i = 0; i < k; i++)
                        papi["faults"].push_back({{"fn", fn[rng.below(3)]}, {"nth", 1 + rng.below(12)}, {"ret", -(int) (1 + rng.below(9))}});
                    break;
                }
                case 5: {
                    static const char* k[] = {"eacces", "enoent", "emfile", "enospc", "eio"};
                    faults.push_back({{"kind", k[rng.below(5)]}, {"op", "open_write"}, {"nth", 1}});
                    break;
                }
                case 6: faults.push_back({{"kind", "diskfull"}, {"arg", rng.chance(1, 3) ? rng.below(64) : rng.below(9000)}}); break;
                case 7: {
                    static const char* k[] = {"enospc", "eio", "eintr"};
                    faults.push_back({{"kind", k[rng.below(3)]}, {"op", "write"}, {"nth", 1 + rng.below(3)}});
                    break;
                }
                case 8: faults.push_back({{"kind", rng.chance(1, 2) ? "eio" : "enospc"}, {"op", "close"}, {"nth", 1}}); break;
                case 9: {
                    int k = 1 + (int) rng.below(3);
                    for (int i = 0; i < k; i++)
                        faults.push_back({{"kind", "short"}, {"op", "write"}, {"nth", 1 + rng.below(4)}, {"arg", 1 + rng.below(500)}});
                    break;
                }
            }
        }
        p["papi"] = papi;
        p["faults"] = faults;
        p["sched"] = gen_sched(rng, nt);
        return p;
    }

    // ---- oracle ------------------------------------------------------------------------------------------
    struct Exec {
        int region;
        int64_t id;
        int tid = 0;
        uint64_t inv_seq = 0;
        int64_t slo = INT64_MAX, shi = INT64_MIN, elo = INT64_MAX, ehi = INT64_MIN; // clock candidates
        int64_t t_ei = 0, t_er = 0, t_xi = 0, t_xr = 0;
        bool entered = false, exited = false;
        std::map<int, std::pair<int64_t, int64_t>> cs, ce; // counter idx -> [lo,hi] at enter/exit
        bool cbad = false; // counter reading disturbed by an injected failure
        void close() {
            if (slo > shi) slo = t_ei, shi = t_er;
            if (exited && elo > ehi) elo = t_xi, ehi = t_xr;
        }
        double dlo() const { return (double) (elo - shi); }
        double dhi() const { return (double) (ehi - slo); }
        bool exact() const { return slo == shi && elo == ehi; }
    };
    struct Met {
        std::vector<double> v;
    };
    struct Model {
        std::map<int64_t, Exec> ex;
        std::map<int, std::map<std::string, std::vector<double>>> metrics; // region -> name -> values in order
        std::set<int> registered; // regions whose init returned
        bool init_seen = false;
        std::map<std::string, int> fatal; // injected failures that must stop the program
        bool soft = false; // start/stop/read failure injected
        uint64_t live_max = 0;
        uint64_t live_end = 0;
    };

    static bool near(double got, double want, double rel = 2e-5, double abs = 2e-3) {
        return std::fabs(got - want) <= rel * std::max(std::fabs(got), std::fabs(want)) + abs;
    }
    static bool within(double got, double lo, double hi, double rel = 2e-5, double abs = 2e-3) {
        double t = rel * std::max(std::fabs(lo), std::fabs(hi)) + abs;
        return got >= lo - t && got <= hi + t;
    }

    void build_model(const json& plan, Model& m, Result& r, bool multi) {
        auto* g = sim::g;
        struct Call {
            int kind = 0;
            int region = -1;
            int64_t id = 0;
            std::set<int> started, stopped;
            bool papi_fail = false;
        };
        std::map<int, Call> cur; // per thread
        struct SetM {
            int state = 0; // 1 stopped 2 running
            std::vector<int> ev;
            int region = -1;
        };
        std::map<int, SetM> sets;
        std::map<int, std::map<int64_t, int>> holders; // region -> token -> 1 (between INIT_RET and FIN_INV)
        std::map<int, std::set<int64_t>> users; // region -> tokens between INIT_INV and FIN_RET
        std::map<int, int> region_set;
        std::map<uint64_t, std::string> mname;
        std::map<int, std::map<int64_t, int64_t>> dummy;
        uint64_t existing = 0;
        auto collect = [&](const json& ops, auto&& self) -> void {
            for (auto& o : ops)
                if (o["k"] == "run") {
                    for (auto& x : o["m"]) mname[hash_str(x["n"])] = x["n"];
                    for (auto& x : o["x"]) self(x["b"], self);
                }
        };
        for (auto& t : plan["threads"]) collect(t["ops"], collect);
        auto want_events = [&](int region) {
            std::vector<int> w;
            int s = plan["regions"][region]["set"];
            int nc = (int) plan["ev_cpu"].size();
            if (s == 0)
                for (int i = 0; i < nc; i++) w.push_back(i);
            if (s == 1)
                for (int i = 0; i < (int) plan["ev_cuda"].size(); i++) w.push_back(nc + i);
            return w;
        };
        bool injected = !plan["papi"]["faults"].empty();
        int last_es_read = -1;
        for (uint32_t i = 0; i < g->n_hist; i++) {
            auto& h = g->hist[i];
            Call& c = cur[h.tid];
            switch (h.kind) {
                case INIT_INV:
                    m.init_seen = true;
                    c = Call();
                    c.kind = INIT_INV;
                    c.region = (int) h.a;
                    c.id = h.b;
                    users[(int) h.a].insert(h.b);
                    break;
                case INIT_RET: {
                    m.registered.insert((int) h.a);
                    int rg = (int) h.a;
                    holders[rg][h.b] = 1;
                    auto w = want_events(rg);
                    if (!injected && !w.empty()) {
                        // the region's counters must be running now
                        auto it = region_set.find(rg);
                        if (it == region_set.end() || sets[it->second].state != 2)
                            r.add("T04", "not_running_after_init", "region " + std::to_string(rg) + " has no running counters after init returned");
                    }
                    c = Call();
                    break;
                }
                case ENTER_INV: {
                    c = Call();
                    c.kind = ENTER_INV;
                    c.region = (int) h.a;
                    c.id = h.b;
                    Exec e;
                    e.region = (int) h.a;
                    e.id = h.b;
                    e.tid = h.tid;
                    e.inv_seq = h.seq;
                    e.t_ei = h.c;
                    m.ex[h.b] = e;
                    break;
                }
                case ENTER_RET:
                    m.ex[h.b].entered = true;
                    m.ex[h.b].t_er = h.c;
                    c = Call();
                    break;
                case EXIT_INV:
                    c = Call();
                    c.kind = EXIT_INV;
                    c.region = (int) h.a;
                    c.id = h.b;
                    m.ex[h.b].t_xi = h.c;
                    break;
                case EXIT_RET:
                    m.ex[h.b].exited = true;
                    m.ex[h.b].t_xr = h.c;
                    c = Call();
                    break;
                case FIN_INV:
                    c = Call();
                    c.kind = FIN_INV;
                    c.region = (int) h.a;
                    c.id = h.b;
                    holders[(int) h.a].erase(h.b);
                    break;
                case FIN_RET: {
                    int rg = (int) h.a;
                    users[rg].erase(h.b);
                    uint64_t live = 0;
                    for (auto& [k, v] : users)
                        if (!v.empty()) live++;
                    if (existing > live + 10 && !injected)
                        r.add("T04", "too_many_sets", std::to_string(existing) + " counter sets exist with " + std::to_string(live) + " regions in use");
                    if (!multi && users[rg].empty() && !injected) {
                        auto it = region_set.find(rg);
                        if (it != region_set.end() && sets[it->second].state == 2)
                            r.add("T04", "running_after_finalize", "counters of region " + std::to_string(rg) + " still running after its last finalize");
                    }
                    m.live_max = std::max(m.live_max, existing);
                    c = Call();
                    break;
                }
                case MET_INV: {
                    double v;
                    memcpy(&v, &h.c, 8);
                    m.metrics[(int) h.a][mname[(uint64_t) h.b]].push_back(v);
                    break;
                }
                case MET_RET:
                    break;
                // ---- counter library
                case P_CREATE:
                    if (h.b == 0) {
                        sets[(int) h.a] = SetM();
                        sets[(int) h.a].state = 1;
                        existing++;
                        m.live_max = std::max(m.live_max, existing);
                    } else if (!injected) {
                        r.add("T04", "create_misuse", "counter set created over an existing handle");
                    } else {
                        m.fatal["create_eventset"]++;
                    }
                    break;
                case P_ADD:
                    if (h.b == 0) sets[(int) h.a].ev.push_back((int) h.c);
                    else if (!injected) r.add("T04", "add_misuse", "counter added to an invalid or running set");
                    else m.fatal["add_named_event"]++;
                    break;
                case P_START: {
                    int e = (int) h.a;
                    if (h.b == 0) {
                        auto& s = sets[e];
                        if (c.kind == INIT_INV) {
                            auto w = want_events(c.region);
                            if (s.ev != w)
                                r.add("T04", "wrong_events", "region " + std::to_string(c.region) + " started with other counters than configured");
                            for (auto& [rg, se] : region_set)
                                if (se == e && rg != c.region)
                                    r.add("T04", "shared_set", "regions " + std::to_string(rg) + " and " + std::to_string(c.region) + " share one counter set");
                            region_set[c.region] = e;
                            s.region = c.region;
                        }
                        s.state = 2;
                    } else if (h.c == 2) {
                        r.add("T04", "double_start", "counters started twice");
                    } else if (h.c == -1) {
                        r.add("T04", "use_after_destroy", "start of a counter set that does not exist");
                    } else if (injected) {
                        m.soft = true;
                        auto w = want_events(std::max(c.region, 0));
                        for (auto& [id, x] : m.ex)
                            if (x.region == c.region && !x.exited) x.cbad = true;
                        if (c.region >= 0 && !w.empty()) bad_regions.insert(c.region);
                    }
                    break;
                }
                case P_STOP: {
                    int e = (int) h.a;
                    if (h.b == 0) {
                        sets[e].state = 1;
                        int rg = sets[e].region;
                        if (rg >= 0 && !holders[rg].empty())
                            r.add("T04", "stopped_while_in_use", "counters of region " + std::to_string(rg) + " stopped while the region is in use");
                    } else if (h.c == -1 && !injected) {
                        // stop of a set without counters is skipped by the runtime; an unknown handle is misuse
                        r.add("T04", "use_after_destroy", "stop of a counter set that does not exist");
                    } else if (injected) {
                        m.soft = true;
                        if (c.region >= 0) bad_regions.insert(c.region);
                    }
                    break;
                }
                case P_CLEANUP:
                    if (h.b != 0) {
                        if (injected) m.fatal["cleanup_eventset"]++;
                        else r.add("T04", "cleanup_misuse", "cleanup of a running or unknown counter set");
                    } else {
                        sets[(int) h.a].ev.clear();
                        int rg = sets[(int) h.a].region;
                        if (rg >= 0 && region_set.count(rg) && region_set[rg] == (int) h.a) {
                            if (!holders[rg].empty())
                                r.add("T04", "destroyed_while_in_use", "counter set of region " + std::to_string(rg) + " destroyed while the region is in use");
                            region_set.erase(rg);
                        }
                    }
                    break;
                case P_DESTROY:
                    if (h.b == 0) {
                        sets[(int) h.a].state = 0;
                        existing--;
                    } else if (injected) {
                        m.fatal["destroy_eventset"]++;
                    } else {
                        r.add("T04", "destroy_misuse", "destroy of a counter set that is unknown, running or not cleaned up");
                    }
                    break;
                case P_INIT:
                    if (h.a != PAPI_VER) m.fatal["library_init"]++;
                    break;
                case P_READ:
                    last_es_read = (int) h.a;
                    if (c.kind == ENTER_INV || c.kind == EXIT_INV) {
                        if (h.b != 0) {
                            if (injected) {
                                m.soft = true;
                                m.ex[c.id].cbad = true;
                            } else {
                                r.add("T04", "use_after_destroy", "read of a counter set that does not exist");
                            }
                        } else if (h.c == 0 && !injected) {
                            r.add("T04", "read_not_running", "counters of region " + std::to_string(c.region) + " read while not running");
                        }
                        auto it = region_set.find(c.region);
                        if (!injected && (it == region_set.end() || it->second != (int) h.a))
                            r.add("T04", "foreign_read", "region " + std::to_string(c.region) + " reads the counters of another region");
                    }
                    break;
                case P_VAL: {
                    if (c.kind == ENTER_INV || c.kind == EXIT_INV) {
                        auto& mp = c.kind == ENTER_INV ? m.ex[c.id].cs : m.ex[c.id].ce;
                        auto it = mp.find((int) h.a);
                        if (it == mp.end()) mp[(int) h.a] = {h.b, h.b};
                        else {
                            it->second.first = std::min(it->second.first, h.b);
                            it->second.second = std::max(it->second.second, h.b);
                        }
                    }
                    break;
                }
                case P_CLOCK:
                    if (c.kind == ENTER_INV) {
                        auto& e = m.ex[c.id];
                        e.slo = std::min(e.slo, h.a);
                        e.shi = std::max(e.shi, h.a);
                    } else if (c.kind == EXIT_INV) {
                        auto& e = m.ex[c.id];
                        e.elo = std::min(e.elo, h.a);
                        e.ehi = std::max(e.ehi, h.a);
                    }
                    break;
            }
        }
        (void) last_es_read;
        for (auto& [id, e] : m.ex) e.close();
        m.live_end = 0;
        uint64_t still = 0;
        for (auto& [k, v] : users)
            if (!v.empty()) still++;
        m.live_end = existing;
        if (existing > still && !injected && !sim::g->verdict && !m.registered.empty()) leak = existing - still;
        r.count("max_counter_sets_sum", m.live_max);
        if (m.live_max > 10) r.count("probe:more_than_ten_sets");
    }
    std::set<int> bad_regions;
    uint64_t leak = 0;

    void check_trace(const json& plan, const Model& m, const std::string& text, Result& r, bool multi, const char* faultprop) {
        // every complaint is filed under the property it belongs to, and under the property that covers the
        // circumstances (concurrency, faults) in which it appeared
        auto bad = [&](const char* p, const std::string& cls, const std::string& msg) {
            r.add(p, cls, msg);
            if (multi) r.add("T06", cls, msg);
            if (faultprop && std::string(p) != faultprop) r.add(faultprop, cls, msg);
        };
        json t;
        try {
            t = json::parse(text);
        } catch (std::exception& e) {
            bad("T01", "invalid_json", std::string("trace is not valid JSON: ") + e.what());
            return;
        }
        if (!t.is_object() || !t.contains("traceEvents") || !t["traceEvents"].is_array()) {
            bad("T01", "no_traceEvents", "trace has no traceEvents array");
            return;
        }
        bool agg = plan["mode"] == "aggregate";
        // group events by region: (function, element or line numbers)
        std::map<int, std::vector<const json*>> by;
        for (auto& e : t["traceEvents"]) {
            int found = -1;
            try {
                for (size_t i = 0; i < plan["regions"].size(); i++) {
                    auto& rg = plan["regions"][i];
                    if (e.at("args").at("function") == rg["fn"] && e["args"]["source_ranges"][0]["from"]["line"] == rg["lb"]) found = (int) i;
                }
                if (found < 0) {
                    bad("T01", "unknown_event", "event of no executed region: " + e.dump().substr(0, 200));
                    continue;
                }
                by[found].push_back(&e);
                auto& rg = plan["regions"][found];
                auto sv = [&](const char* k) { return rg[k].is_null() ? json("") : rg[k]; };
                std::string file = rg["file"];
                auto& a = e["args"];
                std::vector<std::pair<std::string, bool>> chk = {
                    {"ph", e.at("ph") == "X"},
                    {"cat", e.at("cat") == (agg ? "aggregated_region,daisy" : "region,daisy")},
                    {"name", e.at("name") == rg["fn"].get<std::string>() + " [L" + std::to_string(rg["lb"].get<long>()) + "-" + std::to_string(rg["le"].get<long>()) + "]"},
                    {"pid", e.at("pid") == 4242},
                    {"tid", e.at("tid").is_number()},
                    {"module", a.at("module") == file.substr(file.rfind('/') + 1)},
                    {"file", a["source_ranges"][0]["file"] == file},
                    {"from.col", a["source_ranges"][0]["from"]["col"] == rg["cb"]},
                    {"to.line", a["source_ranges"][0]["to"]["line"] == rg["le"]},
                    {"to.col", a["source_ranges"][0]["to"]["col"] == rg["ce"]},
                    {"target_type", a.at("target_type") == sv("ttype")},
                    {"sdfg_name", a.at("docc").at("sdfg_name") == sv("sdfg_name")},
                    {"sdfg_file", a["docc"].at("sdfg_file") == sv("sdfg_file")},
                    {"arg_capture_path", a["docc"].at("arg_capture_path") == sv("arg_capture_path")},
                    {"features_file", a["docc"].at("features_file") == sv("features_file")},
                    {"opt_report_file", a["docc"].at("opt_report_file") == sv("opt_report_file")},
                };
                if (!rg["sdfg_name"].is_null() && !rg["sdfg_file"].is_null()) {
                    auto& d = a["docc"];
                    auto& l = d.at("loop_info");
                    chk.push_back({"element_id", d.at("element_id") == rg["eid"]});
                    chk.push_back({"element_type", d.at("element_type") == rg["etype"]});
                    chk.push_back({"loopnest_index", d.at("loopnest_index") == rg["li"] && l.at("loopnest_index") == rg["li"]});
                    chk.push_back({"num_loops", l.at("num_loops") == rg["nl"]});
                    chk.push_back({"num_maps", l.at("num_maps") == rg["nm"]});
                    chk.push_back({"num_fors", l.at("num_fors") == rg["nf"]});
                    chk.push_back({"num_whiles", l.at("num_whiles") == rg["nw"]});
                    chk.push_back({"max_depth", l.at("max_depth") == rg["md"]});
                    chk.push_back({"is_perfectly_nested", l.at("is_perfectly_nested") == rg["pn"]});
                    chk.push_back({"is_perfectly_parallel", l.at("is_perfectly_parallel") == rg["pp"]});
                    chk.push_back({"is_elementwise", l.at("is_elementwise") == rg["el"]});
                    chk.push_back({"has_side_effects", l.at("has_side_effects") == rg["se"]});
                }
                for (auto& [k, ok] : chk)
                    if (!ok) bad("T01", "wrong_metadata", "event of region " + std::to_string(found) + ": wrong " + k);
            } catch (std::exception& x) {
                bad("T01", "malformed_event", std::string("event lacks a required field: ") + x.what());
            }
        }
        std::vector<std::string> evn[3];
        for (auto& e : plan["ev_cpu"]) evn[0].push_back(e);
        for (auto& e : plan["ev_cuda"]) evn[1].push_back(e);

        for (size_t i = 0; i < plan["regions"].size(); i++) {
            int rg = (int) i;
            std::vector<const Exec*> ex;
            bool cbad = bad_regions.count(rg) > 0;
            for (auto& [id, e] : m.ex)
                if (e.region == rg && e.entered) {
                    ex.push_back(&e);
                    cbad |= e.cbad;
                }
            auto& evs = by[rg];
            auto& names = evn[plan["regions"][i]["set"].get<int>()];
            size_t expect = agg ? (m.registered.count(rg) ? 1 : 0) : ex.size();
            if (evs.size() != expect) {
                bad("T01", evs.size() < expect ? "missing_event" : "extra_event",
                    "region " + std::to_string(rg) + ": " + std::to_string(evs.size()) + " events in the trace, expected " + std::to_string(expect));
                continue;
            }
            if (!agg) {
                check_events(rg, ex, evs, names, cbad, bad);
            } else if (expect) {
                check_aggregate(rg, ex, *evs[0], names, cbad, multi, m, bad);
            }
        }
    }

    template<typename Bad>
    void check_events(int rg, std::vector<const Exec*>& ex, std::vector<const json*>& evs, const std::vector<std::string>& names, bool cbad, Bad& bad) {
        std::string where = "region " + std::to_string(rg) + ": ";
        // which event can describe which execution?
        size_t n = ex.size();
        std::vector<std::vector<int>> adj(n);
        std::string first_reason;
        for (size_t i = 0; i < n; i++) {
            const json& e = *evs[i];
            try {
                auto& met = e.at("args").at("metrics");
                for (size_t j = 0; j < n; j++) {
                    const Exec& x = *ex[j];
                    std::string why;
                    double ts = e.at("ts").get<double>();
                    if (!within(ts, std::floor((double) x.slo / 1000) - 1, (double) x.shi / 1000 + 1, 1e-15, 0)) why = "ts";
                    if (x.exited) {
                        if (!e.contains("dur")) why = "no duration";
                        else if (!within(e["dur"].get<double>(), x.dlo() / 1000, x.dhi() / 1000)) why = "duration " + e["dur"].dump() + "us, executed " + std::to_string(x.dlo() / 1000) + ".." + std::to_string(x.dhi() / 1000) + "us";
                        if (!cbad) {
                            if (met.size() != names.size()) why = "counter set";
                            for (size_t k = 0; k < names.size() && why.empty(); k++) {
                                if (!met.contains(names[k])) {
                                    why = "counter " + names[k] + " missing";
                                    continue;
                                }
                                auto a = x.cs.find((int) k), b = x.ce.find((int) k);
                                if (a == x.cs.end() || b == x.ce.end()) {
                                    why = "counter not read";
                                    continue;
                                }
                                double lo = (double) (b->second.first - a->second.second), hi = (double) (b->second.second - a->second.first);
                                if (!within(met[names[k]].get<double>(), lo, hi, 0, 0.5)) why = "counter " + names[k] + " = " + met[names[k]].dump() + ", was " + std::to_string((long long) lo);
                            }
                        }
                    } else if (e.contains("dur")) {
                        why = "duration of an execution that never ended";
                    }
                    if (why.empty()) adj[i].push_back((int) j);
                    else if (n == 1) first_reason = why;
                    else if (first_reason.empty() && i == j) first_reason = why;
                }
            } catch (std::exception& x) {
                bad("T02", "malformed_event", where + x.what());
                return;
            }
        }
        std::vector<int> match(n, -1);
        std::function<bool(int, std::vector<char>&)> aug = [&](int i, std::vector<char>& seen) {
            for (int j : adj[i]) {
                if (seen[j]) continue;
                seen[j] = 1;
                if (match[j] < 0 || aug(match[j], seen)) {
                    match[j] = i;
                    return true;
                }
            }
            return false;
        };
        for (size_t i = 0; i < n; i++) {
            std::vector<char> seen(n, 0);
            if (!aug((int) i, seen)) {
                bad("T02", "wrong_measurement", where + "an event matches no execution (" + first_reason + "): " + (*evs[i]).dump().substr(0, 120) + " ... metrics " + (*evs[i])["args"]["metrics"].dump());
                return;
            }
        }
    }

    static void stat(const std::vector<double>& v, double& mean, double& var, double& mn, double& mx) {
        mean = var = 0;
        mn = INFINITY;
        mx = -INFINITY;
        long double s = 0;
        for (double x : v) {
            s += x;
            mn = std::min(mn, x);
            mx = std::max(mx, x);
        }
        long double mu = s / (long double) v.size();
        long double q = 0;
        for (double x : v) q += ((long double) x - mu) * ((long double) x - mu);
        mean = (double) mu;
        var = (double) (q / (long double) v.size());
    }

    // lo/hi: bounds of each observation (equal when known exactly)
    template<typename Bad>
    void check_stat(const std::string& where, const json& s, const std::vector<double>& lo, const std::vector<double>& hi, Bad& bad) {
        try {
            size_t n = lo.size();
            if (s.at("count") != n) {
                bad("T03", "wrong_count", where + "count " + s["count"].dump() + ", executed " + std::to_string(n));
                return;
            }
            if (!n) return;
            for (double x : lo)
                if (!std::isfinite(x)) return;
            double ml, vl, nl, xl, mh, vh, nh, xh;
            stat(lo, ml, vl, nl, xl);
            stat(hi, mh, vh, nh, xh);
            double gm = s.at("mean"), gv = s.at("variance"), gn = s.at("min"), gx = s.at("max");
            double scale = std::max({std::fabs(nl), std::fabs(xh), 1e-9});
            if (!within(gm, ml, mh, 2e-5, 2e-5 * scale + 1e-6)) bad("T03", "wrong_mean", where + "mean " + s["mean"].dump() + ", true " + std::to_string(ml) + ".." + std::to_string(mh));
            if (!within(gn, nl, nh, 2e-5, 1e-6)) bad("T03", "wrong_min", where + "min " + s["min"].dump() + ", true " + std::to_string(nl));
            if (!within(gx, xl, xh, 2e-5, 1e-6)) bad("T03", "wrong_max", where + "max " + s["max"].dump() + ", true " + std::to_string(xl));
            if (lo == hi) {
                if (!near(gv, vl, 1e-4, 1e-9 * scale * scale + 1e-6)) bad("T03", "wrong_variance", where + "variance " + s["variance"].dump() + ", true " + std::to_string(vl));
            } else {
                double w = (xh - nl) / 2;
                if (gv < -1e-6 || gv > w * w * 1.0001 + 1e-6) bad("T03", "wrong_variance", where + "variance " + s["variance"].dump() + " impossible");
            }
        } catch (std::exception& x) {
            bad("T03", "malformed_statistics", where + x.what());
        }
    }

    template<typename Bad>
    void check_aggregate(int rg, std::vector<const Exec*>& ex, const json& e, const std::vector<std::string>& names, bool cbad, bool multi, const Model& m, Bad& bad) {
        std::string where = "region " + std::to_string(rg) + ": ";
        try {
            auto& met = e.at("args").at("metrics");
            std::vector<double> lo, hi;
            double slo = INFINITY, shi = INFINITY;
            for (auto* x : ex) {
                slo = std::min(slo, (double) x->slo);
                shi = std::min(shi, (double) x->shi);
                if (!x->exited) continue;
                lo.push_back(x->dlo() / 1000);
                hi.push_back(x->dhi() / 1000);
            }
            if (!ex.empty() && !within(e.at("ts").get<double>(), std::floor(slo / 1000) - 1, shi / 1000 + 1, 1e-15, 0))
                bad("T03", "wrong_ts", where + "ts " + e["ts"].dump() + ", first execution began at " + std::to_string(slo / 1000));
            check_stat(where + "runtime: ", met.at("runtime"), lo, hi, bad);
            double tl = 0, th = 0;
            for (double x : lo) tl += x;
            for (double x : hi) th += x;
            if (!within(e.at("dur").get<double>(), tl, th)) bad("T03", "wrong_total", where + "total duration " + e["dur"].dump() + ", true " + std::to_string(tl));
            std::set<std::string> expected = {"runtime"};
            if (!lo.empty() && !cbad) {
                for (size_t k = 0; k < names.size(); k++) {
                    std::vector<double> cl, ch;
                    for (auto* x : ex) {
                        if (!x->exited) continue;
                        auto a = x->cs.find((int) k), b = x->ce.find((int) k);
                        if (a == x->cs.end() || b == x->ce.end()) continue;
                        cl.push_back((double) (b->second.first - a->second.second));
                        ch.push_back((double) (b->second.second - a->second.first));
                    }
                    if (cl.size() != lo.size()) continue;
                    if (!met.contains(names[k])) {
                        bad("T03", "missing_counter", where + "no statistics of counter " + names[k]);
                        continue;
                    }
                    check_stat(where + names[k] + ": ", met[names[k]], cl, ch, bad);
                }
            }
            for (auto& n : names) expected.insert(n);
            auto it = m.metrics.find(rg);
            if (it != m.metrics.end())
                for (auto& [n, v] : it->second) {
                    expected.insert("static:::" + n);
                    if (!met.contains("static:::" + n)) {
                        bad("T03", "missing_metric", where + "no statistics of metric " + n);
                        continue;
                    }
                    check_stat(where + "static:::" + n + ": ", met["static:::" + n], v, v, bad);
                }
            for (auto& [k, v] : met.items())
                if (!expected.count(k)) bad("T03", "extra_metric", where + "statistics of unknown metric " + k);
        } catch (std::exception& x) {
            bad("T03", "malformed_event", where + x.what());
        }
        (void) multi;
    }

    void execute(const json& plan, Result& r) override {
        bad_regions.clear();
        leak = 0;
        std::string prop = plan["prop"];
        SessionSpec s;
        s.sched = sched_from(plan["sched"], s.list);
        s.faults = faults_from(plan["faults"]);
        s.start_ns = plan["papi"]["start_ns"];
        auto& pp = plan["papi"];
        std::string lib = pp["lib"];
        s.env["DAISY_PAPI_PATH"] = lib == "ok" ? PAPI_OK_LIB : lib == "noread" ? PAPI_NOREAD_LIB : "/nonexistent/libpapi.so";
        if (pp["ver"] != "unset") s.env["__DAISY_PAPI_VERSION"] = "0x07020000";
        if (!plan["mode"].is_null()) s.env["__DAISY_INSTRUMENTATION_MODE"] = plan["mode"];
        std::string file = "daisy_trace.json";
        if (!plan["file"].is_null()) {
            file = plan["file"];
            s.env["__DAISY_INSTRUMENTATION_FILE"] = file;
        }
        if (file.rfind("/simroot/", 0) == 0) file = file.substr(9);
        auto join = [](const json& a) {
            std::string o;
            for (auto& x : a) o += (o.empty() ? "" : ",") + x.get<std::string>();
            return o;
        };
        if (!plan["ev_cpu"].empty() || plan["seed"].get<uint64_t>() % 2) s.env["__DAISY_INSTRUMENTATION_EVENTS"] = join(plan["ev_cpu"]);
        if (!plan["ev_cuda"].empty() || plan["seed"].get<uint64_t>() % 3) s.env["__DAISY_INSTRUMENTATION_EVENTS_CUDA"] = join(plan["ev_cuda"]);
        g_plan = &plan;
        s.child = child_main;
        SessionOut o = session(s, r);
        if (!r.error.empty()) return;
        r.sched = sched_recorded(plan["sched"]);
        auto* g = sim::g;
        bool multi = plan["threads"].size() > 1;
        if (g->hist_overflow) {
            r.notes.push_back("history overflow");
            r.nontrivial = false;
            return;
        }
        Model m;
        build_model(plan, m, r, multi);
        bool ok = false;
        std::string text = slurp(scratch + "/" + file, &ok);
        r.mix(text);
        r.count("executions", m.ex.size());
        r.count("trace_bytes", text.size());
        r.nontrivial = !m.ex.empty();
        for (auto& f : pp["faults"]) r.count("papi_fault_cfg:" + f["fn"].get<std::string>());
        if (g->probe[10]) r.count("papi_fault_fired", g->probe[10]);
        for (auto& [k, v] : m.fatal) r.count("papi_fault_fired:" + k, v);

        auto term = [&](const std::string& cls, const std::string& msg) {
            r.add("T06", cls, msg);
            r.add("T05", cls, msg);
            if (!multi) {
                r.add("T01", cls, msg);
                r.add("T04", cls, msg);
                r.add("T02", cls, msg);
                r.add("T03", cls, msg);
            }
        };
        if (g->n_escape) r.add("T05", "escape", std::string("writes outside its output file: ") + g->escape);
        if (o.timed_out || g->verdict == sim::V_STEPCAP) return term("hang", std::string("program does not terminate: ") + g->msg);
        if (g->verdict == sim::V_DEADLOCK) return term("deadlock", g->msg);
        if (o.signaled()) return term("killed", "program " + o.describe() + " " + std::string(g->stderr_text).substr(0, 200));

        // failures that must stop the program loudly
        bool startup = m.init_seen && (lib != "ok" || pp["ver"] != "ok");
        bool fatal = startup || !m.fatal.empty();
        bool open_fault = false, write_fault = false;
        for (size_t i = 0; i < s.faults.size(); i++) {
            if (!g->fault_fired[i]) continue;
            if (s.faults[i].cls == sim::OP_OPENW) open_fault = true;
            else if (s.faults[i].kind != sim::F_SHORT) write_fault = true;
        }
        if (fatal || open_fault) {
            r.count("probe:fatal_failure_runs");
            if (o.code() == 0) r.add("T05", "silent_failure", std::string("exit status 0 although ") + (open_fault ? "the trace file could not be opened" : startup ? "the counter library is unusable" : "a counter operation failed: " + m.fatal.begin()->first));
            else if (g->n_stderr == 0) r.add("T05", "no_diagnostic", "terminated without a diagnostic");
            return;
        }
        if (!m.init_seen) {
            if (o.code() != 0) term("spurious_exit", "unused instrumentation ended the program: " + o.describe());
            return;
        }
        if (write_fault) {
            r.count("probe:write_fault_runs");
            if (o.code() != 0) {
                r.count("probe:write_fault_reported");
                if (g->n_stderr == 0) r.add("T05", "no_diagnostic", "terminated without a diagnostic");
                return;
            }
        } else if (o.code() != 0) {
            term("spurious_exit", "instrumentation ended the program (" + o.describe() + ") without any failure: " + std::string(g->stderr_text).substr(0, 200));
            return;
        }
        if (!ok) {
            r.add("T01", "no_trace", "program succeeded but wrote no trace");
            r.add("T05", "no_trace", "program succeeded but wrote no trace");
            return;
        }
        if (leak) r.add("T04", "leak", std::to_string(leak) + " counter sets of finalized regions never destroyed");
        check_trace(plan, m, text, r, multi, prop == "T05" ? "T05" : nullptr);
    }
};

int main(int argc, char** argv) {
    InstrHarness h;
    return harness_main(argc, argv, h);
}
