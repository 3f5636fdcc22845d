// Parallel programs: random loop programs go through the real parallelisation (For2Map, loop scheduling), the real code
// generator and a real compiler; the compiled code runs over a simulated OpenMP runtime whose team sizes, work distribution
// and thread interleaving are decided by the seed. Oracle: an interpreter of the program as it was written.
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <set>

#include "core/harness.h"
#include "sdfg/builder/structured_sdfg_builder.h"
#include "sdfg/codegen/code_generators/cpp_code_generator.h"
#include "sdfg/codegen/dispatchers/node_dispatcher_registry.h"
#include "sdfg/data_flow/library_nodes/call_node.h"
#include "sdfg/data_flow/library_nodes/stdlib/memset.h"
#include "sdfg/passes/pipeline.h"
#include "sdfg/passes/scheduler/loop_scheduling_pass.h"
#include "sdfg/passes/scheduler/omp_scheduler.h"
#include "sdfg/passes/scheduler/scheduler_registry.h"
#include "sdfg/passes/structured_control_flow/for2map.h"
#include "sdfg/plugins/plugins.h"
#include "sdfg/serializer/json_serializer.h"
#include "sdfg/targets/omp/plugin.h"

namespace fs = std::filesystem;
using namespace sdfg;
extern char** environ;

namespace {

std::string dump(const json& j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }

// ---- programs -------------------------------------------------------------------------------------------------
// expression: [c, [coef, sym, ...], ...]   (constant, then products)
// reference: {"a": array, "s": [expr, ...]} | {"t": scalar} | {"c": literal}
constexpr int PAD = 96, LEN = 320, COLS = 12; // elements of an array before and after its start; columns of B*
const char* ARR[] = {"A0", "A1", "A2", "B0", "B1", "R"};
constexpr int NARR = 6;

types::Scalar f64() { return types::Scalar(types::PrimitiveType::Double); }
types::Scalar i64() { return types::Scalar(types::PrimitiveType::Int64); }

symbolic::Expression expr(const json& e) {
    symbolic::Expression r = symbolic::integer(e[0].get<int>());
    for (size_t i = 1; i < e.size(); i++) {
        symbolic::Expression t = symbolic::integer(e[i][0].get<int>());
        for (size_t k = 1; k < e[i].size(); k++) t = symbolic::mul(t, symbolic::symbol(e[i][k].get<std::string>()));
        r = symbolic::add(r, t);
    }
    return r;
}
symbolic::Condition cond(const json& c) {
    if (c[0].is_string()) return c[0] == "and" ? symbolic::And(cond(c[1]), cond(c[2])) : symbolic::Or(cond(c[1]), cond(c[2]));
    auto a = expr(c[0]), b = expr(c[2]);
    std::string o = c[1];
    if (o == "<") return symbolic::Lt(a, b);
    if (o == "<=") return symbolic::Le(a, b);
    if (o == ">") return symbolic::Gt(a, b);
    if (o == ">=") return symbolic::Ge(a, b);
    if (o == "==") return symbolic::Eq(a, b);
    return symbolic::Ne(a, b);
}

const types::Scalar& f64_type() {
    static types::Scalar s = f64();
    return s;
}
types::Array local_array() { return types::Array(f64(), symbolic::integer(COLS)); }
types::Pointer row_pointer() { return types::Pointer(types::Array(f64(), symbolic::integer(COLS))); }

data_flow::AccessNode& access(builder::StructuredSDFGBuilder& b, structured_control_flow::Block& blk, const json& r) {
    if (r.contains("c")) return b.add_constant(blk, r["c"].get<std::string>(), f64());
    return b.add_access(blk, r.contains("a") ? r["a"].get<std::string>() : r["t"].get<std::string>());
}
data_flow::Subset subset(const json& r) {
    data_flow::Subset s;
    if (r.contains("a"))
        for (auto& e : r["s"]) s.push_back(expr(e));
    return s;
}
const types::IType& ref_type(const json& r) {
    static types::Pointer a(f64());
    static types::Pointer rows = row_pointer();
    static types::Array l = local_array();
    static types::Scalar s = f64();
    if (!r.contains("a")) return s;
    std::string n = r["a"];
    if (n[0] == 'B') return rows;
    if (n[0] == 'l' && n[1] < '2') return l;
    return a;
}

std::string container(const json& r) { return r.contains("a") ? r["a"] : r.contains("t") ? r["t"] : json(""); }
void add_items(builder::StructuredSDFGBuilder& b, structured_control_flow::Sequence& s, const json& items) {
    structured_control_flow::Block* last = nullptr; // the block before, if it ended with an operation
    data_flow::AccessNode* written = nullptr;
    for (auto& it : items) {
        if (it["k"] != "op" || !written || container(it["in"][0]) != written->data()) last = nullptr;
        std::string k = it["k"];
        if (k == "op") { // out = in0 (op in1); a chain: in one block, in0 is the place written before
            bool chain = it.value("chain", false) && last;
            auto& blk = chain ? *last : b.add_block(s);
            std::string o = it["op"];
            data_flow::TaskletCode code = o == "add" ? data_flow::TaskletCode::fp_add : o == "sub" ? data_flow::TaskletCode::fp_sub : o == "mul" ? data_flow::TaskletCode::fp_mul : data_flow::TaskletCode::assign;
            std::vector<std::string> ins = {"_in0"};
            if (o != "assign") ins.push_back("_in1");
            auto& t = b.add_tasklet(blk, code, "_out", ins);
            std::vector<data_flow::AccessNode*> nodes;
            for (size_t i = 0; i < ins.size(); i++) {
                auto& r = it["in"][i];
                if (r.contains("c")) b.add_computational_memlet(blk, access(b, blk, r), t, ins[i], {});
                else {
                    // one node per operand, or one for both when they name the same container
                    data_flow::AccessNode* n = nullptr;
                    if (i == 1 && it.value("share", false) && nodes[0] && nodes[0]->data() == (r.contains("a") ? r["a"] : r["t"]).get<std::string>()) n = nodes[0];
                    if (i == 0 && chain) n = written;
                    if (!n) n = &access(b, blk, r);
                    nodes.push_back(n);
                    b.add_computational_memlet(blk, *n, t, ins[i], subset(r), ref_type(r));
                    continue;
                }
                nodes.push_back(nullptr);
            }
            auto& out = access(b, blk, it["out"]);
            b.add_computational_memlet(blk, t, "_out", out, subset(it["out"]), ref_type(it["out"]));
            last = &blk;
            written = &out;
            continue;
        } else if (k == "view") { // q = &a[i]
            auto& blk = b.add_block(s);
            auto& src = b.add_access(blk, it["of"]["a"].get<std::string>());
            auto& dst = b.add_access(blk, it["q"].get<std::string>());
            b.add_reference_memlet(blk, src, dst, subset(it["of"]), ref_type(it["of"]));
        } else if (k == "load") { // a symbol from an array
            static types::Pointer ints(i64());
            static types::Scalar one = i64();
            auto& blk = b.add_block(s);
            auto& src = b.add_access(blk, "I0");
            auto& dst = b.add_access(blk, it["to"].get<std::string>());
            auto& t = b.add_tasklet(blk, data_flow::TaskletCode::assign, "_out", {"_in"});
            b.add_computational_memlet(blk, src, t, "_in", {expr(it["s"])}, ints);
            b.add_computational_memlet(blk, t, "_out", dst, {}, one);
        } else if (k == "clear") { // the first elements of an array set to zero
            static types::Pointer a(f64());
            auto& blk = b.add_block(s);
            auto& dst = b.add_access(blk, it["a"].get<std::string>());
            auto& n = b.add_library_node<stdlib::MemsetNode>(blk, DebugInfo(), symbolic::zero(), symbolic::mul(symbolic::integer(8), expr(it["n"])));
            b.add_computational_memlet(blk, n, "_ptr", dst, {}, a, DebugInfo());
        } else if (k == "call") { // a function that remembers its calls
            auto& blk = b.add_block(s);
            auto& in = access(b, blk, it["in"][0]);
            auto& out = access(b, blk, it["out"]);
            auto& n = b.add_library_node<data_flow::CallNode>(blk, DebugInfo(), "ext_tick", std::vector<std::string>{"_ret"}, std::vector<std::string>{"_arg"});
            b.add_computational_memlet(blk, in, n, "_arg", subset(it["in"][0]), it["in"][0].contains("c") ? (const types::IType&) f64_type() : ref_type(it["in"][0]), DebugInfo());
            b.add_computational_memlet(blk, n, "_ret", out, subset(it["out"]), ref_type(it["out"]), DebugInfo());
        } else if (k == "ret") {
            b.add_return(s, "");
        } else if (k == "cont") {
            b.add_continue(s);
        } else if (k == "let") { // symbols assigned
            control_flow::Assignments as;
            for (auto& [n, e] : it["as"].items()) as.insert({symbolic::symbol(n), expr(e)});
            b.add_block(s, as);
        } else if (k == "if") {
            auto& f = b.add_if_else(s);
            auto c = cond(it["cond"]);
            add_items(b, b.add_case(f, c), it["then"]);
            add_items(b, b.add_case(f, symbolic::Not(c)), it["else"]);
        } else if (k == "while") { // for ever: body; if (cond) break; rest
            auto& w = b.add_while(s);
            add_items(b, w.root(), it["body"]);
            auto& f = b.add_if_else(w.root());
            auto c = cond(it["cond"]);
            b.add_break(b.add_case(f, c));
            add_items(b, b.add_case(f, symbolic::Not(c)), it["rest"]);
        } else {
            auto iv = symbolic::symbol(it["iv"].get<std::string>());
            auto update = it.contains("upd") ? expr(it["upd"]) : symbolic::add(iv, symbolic::integer(it["step"].get<int>()));
            auto& f = b.add_for(s, iv, cond(it["cond"]), expr(it["init"]), update);
            add_items(b, f.root(), it["body"]);
        }
    }
}

std::unique_ptr<builder::StructuredSDFGBuilder> build_program(const json& p) {
    auto b = std::make_unique<builder::StructuredSDFGBuilder>("prog", FunctionType_CPU);
    for (auto* n : {"N", "M"}) b->add_container(n, i64(), true);
    for (auto* a : ARR) b->add_container(a, a[0] == 'B' ? (types::IType&) *std::make_unique<types::Pointer>(row_pointer()) : *std::make_unique<types::Pointer>(f64()), true);
    b->add_container("I0", types::Pointer(i64()), true);
    for (auto* t : {"t0", "t1", "t2", "t3", "p0", "p1", "p2", "p3", "p4", "p5"}) b->add_container(t, f64());
    for (auto* t : {"q0", "q1"}) b->add_container(t, *std::make_unique<types::Pointer>(f64()));
    for (auto* t : {"l0", "l1"}) b->add_container(t, local_array());
    auto managed = types::StorageType::AllocationType::Managed;
    auto bytes = symbolic::integer(8 * COLS);
    // temporary buffers: on the heap and on the stack
    if (p.value("buffers", false)) {
        b->add_container("l2", types::Pointer(types::StorageType("CPU_Heap", bytes, managed, managed), 0, ""));
        b->add_container("l3", types::Pointer(types::StorageType("CPU_Stack", bytes, managed, managed), 0, ""));
    }
    types::Function tick(f64(), false);
    tick.add_param(f64());
    b->add_external("ext_tick", tick, LinkageType_External);
    for (auto* t : {"k0", "k1", "k2", "k3"}) b->add_container(t, i64());
    for (auto* i : {"i0", "i1", "i2", "i3", "i4", "i5"}) b->add_container(i, i64());
    add_items(*b, b->subject().root(), p["items"]);
    return b;
}

// ---- what the program means ---------------------------------------------------------------------------------------
struct Reject {
    std::string why;
};
struct Memory {
    double a[NARR][LEN];
    int64_t ix[LEN];
    double calls;
    double tick(double x) { return calls = calls * 2 + x > 1e6 ? 0 : calls * 2 + x; }
};
struct Returned {};
struct Continued {};
void fill(Memory& m, uint64_t seed) {
    sim::Rng r(seed);
    for (auto& x : m.a)
        for (auto& v : x) v = (double) r.range(-9, 9);
    int spread = r.chance(1, 2) ? 11 : 3;
    for (auto& v : m.ix) v = r.range(0, spread);
    m.calls = 1;
}
struct Interp {
    Memory& m;
    std::map<std::string, int64_t> sym;
    std::map<std::string, double> sc;
    std::map<std::string, std::map<int64_t, double>> loc;
    std::map<std::string, std::pair<int, int64_t>> ptr;
    int steps = 0;
    int64_t ev(const json& e) {
        int64_t r = e[0].get<int64_t>();
        for (size_t i = 1; i < e.size(); i++) {
            int64_t t = e[i][0].get<int64_t>();
            for (size_t k = 1; k < e[i].size(); k++) {
                auto it = sym.find(e[i][k].get<std::string>());
                if (it == sym.end()) throw Reject{"undefined symbol"};
                t *= it->second;
            }
            r += t;
        }
        if (r > 1000000 || r < -1000000) throw Reject{"large number"};
        return r;
    }
    bool co(const json& c) {
        if (c[0].is_string()) return c[0] == "and" ? co(c[1]) && co(c[2]) : co(c[1]) || co(c[2]);
        int64_t a = ev(c[0]), b = ev(c[2]);
        std::string o = c[1];
        return o == "<" ? a < b : o == "<=" ? a <= b : o == ">" ? a > b : o == ">=" ? a >= b : o == "==" ? a == b : a != b;
    }
    double* cell(const json& r) {
        std::string n = r["a"];
        int64_t i = ev(r["s"][0]);
        if (n[0] == 'B') {
            int64_t j = ev(r["s"][1]);
            if (j < 0 || j >= COLS) throw Reject{"column out of bounds"};
            i = i * COLS + j;
        }
        int of = -1;
        if (n[0] == 'q') {
            auto it = ptr.find(n);
            if (it == ptr.end()) throw Reject{"undefined pointer"};
            of = it->second.first;
            i += it->second.second;
        }
        if (i < -PAD || i >= LEN - PAD) throw Reject{"out of bounds"};
        if (of >= 0) return &m.a[of][PAD + i];
        for (int k = 0; k < NARR; k++)
            if (n == ARR[k]) return &m.a[k][PAD + i];
        throw Reject{"no array"};
    }
    double get(const json& r) {
        if (r.contains("c")) return std::stod(r["c"].get<std::string>());
        if (r.contains("t")) {
            auto it = sc.find(r["t"]);
            if (it == sc.end()) throw Reject{"undefined scalar"};
            return it->second;
        }
        std::string n = r["a"];
        if (n[0] != 'l') return *cell(r);
        int64_t i = ev(r["s"][0]);
        auto& l = loc[n];
        if (i < 0 || i >= COLS) throw Reject{"out of bounds"};
        auto it = l.find(i);
        if (it == l.end()) throw Reject{"undefined element"};
        return it->second;
    }
    void start(const json& items) {
        try {
            run(items);
        } catch (Returned&) {
        }
    }
    void run(const json& items) {
        for (auto& it : items) {
            if (++steps > 200000) throw Reject{"too long"};
            std::string k = it["k"];
            if (k == "op") {
                std::string o = it["op"];
                double x = get(it["in"][0]), y = o == "assign" ? 0 : get(it["in"][1]);
                double v = o == "add" ? x + y : o == "sub" ? x - y : o == "mul" ? x * y : x;
                auto& out = it["out"];
                if (out.contains("t")) sc[out["t"]] = v;
                else if (out["a"].get<std::string>()[0] == 'l') {
                    int64_t i = ev(out["s"][0]);
                    if (i < 0 || i >= COLS) throw Reject{"out of bounds"};
                    loc[out["a"]][i] = v;
                } else *cell(out) = v;
            } else if (k == "call") {
                double v = m.tick(get(it["in"][0]));
                auto& out = it["out"];
                if (out.contains("t")) sc[out["t"]] = v; else *cell(out) = v;
            } else if (k == "ret") throw Returned();
            else if (k == "cont") throw Continued();
            else if (k == "view") {
                double* c = cell(it["of"]);
                int64_t i = c - &m.a[0][0];
                ptr[it["q"]] = {(int) (i / LEN), i % LEN - PAD};
            } else if (k == "load") {
                int64_t i = ev(it["s"]);
                if (i < -PAD || i >= LEN - PAD) throw Reject{"out of bounds"};
                sym[it["to"]] = m.ix[PAD + i];
            } else if (k == "clear") {
                int64_t n = ev(it["n"]);
                if (n < 0 || n > LEN - PAD) throw Reject{"out of bounds"};
                for (int k = 0; k < NARR; k++)
                    if (it["a"] == ARR[k])
                        for (int64_t i = 0; i < n; i++) m.a[k][PAD + i] = 0;
            } else if (k == "let") {
                std::map<std::string, int64_t> n;
                for (auto& [s, e] : it["as"].items()) n[s] = ev(e);
                for (auto& [s, v] : n) sym[s] = v;
            } else if (k == "if") run(co(it["cond"]) ? it["then"] : it["else"]);
            else if (k == "while") {
                for (;;) {
                    if (++steps > 200000) throw Reject{"too long"};
                    try {
                        run(it["body"]);
                        if (co(it["cond"])) break;
                        run(it["rest"]);
                    } catch (Continued&) {
                    }
                }
            } else {
                std::string iv = it["iv"];
                int64_t v = ev(it["init"]);
                for (sym[iv] = v; co(it["cond"]); sym[iv] = it.contains("upd") ? ev(it["upd"]) : sym[iv] + it["step"].get<int64_t>()) {
                    if (++steps > 200000) throw Reject{"too long"};
                    run(it["body"]);
                }
            }
        }
    }
};

// ---- the simulated OpenMP runtime -----------------------------------------------------------------------------------
constexpr int POOL = 8;
typedef void (*Micro)(int32_t*, int32_t*, ...);
struct Region {
    Micro fn;
    void* args[64];
    int n = 0, gen = 0, left = 0;
    uint64_t seed = 0;
    bool open = false;
    // dispatched loops of the region
    int64_t next = 0, last = 0, step = 1;
    bool init = false, uns = false;
    int loop = 0;
    int bar_in = 0, bar_gen = 0;
} g_reg;
bool g_done;
int g_asked, g_max, g_regions, g_multi;
uint64_t g_ompseed;
struct Loop {
    int seen = 0;
} g_loop[POOL + 2];

void run_micro(int tid) {
    int32_t g = tid, b = tid;
    void** a = g_reg.args;
    g_loop[tid].seen = 0;
    ((void (*)(int32_t*, int32_t*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*)) g_reg.fn)(
        &g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31]
    );
}
} // namespace

extern "C" {
#define OMPAPI __attribute__((visibility("default"), used))
OMPAPI int32_t __kmpc_global_thread_num(void*) { return sim::self() > 0 ? sim::self() - 1 : 0; }
OMPAPI void __kmpc_push_num_threads(void*, int32_t, int32_t n) { g_asked = n; }
OMPAPI void __kmpc_fork_call(void*, int32_t argc, Micro fn, ...) {
    if (argc > 32) sim::die(sim::V_INTERNAL, "too many shared variables in a parallel region");
    bool nested = g_reg.open;
    Region keep;
    va_list ap;
    va_start(ap, fn);
    void* args[64] = {};
    for (int i = 0; i < argc; i++) args[i] = va_arg(ap, void*);
    va_end(ap);
    if (nested) { // a region inside a region has a team of one
        int32_t g = sim::self() - 1, b = 0;
        ((void (*)(int32_t*, int32_t*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*)) fn)(
            &g, &b, args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7], args[8], args[9], args[10], args[11], args[12], args[13], args[14], args[15], args[16], args[17], args[18], args[19], args[20], args[21], args[22], args[23],
            args[24], args[25], args[26], args[27], args[28], args[29], args[30], args[31]
        );
        return;
    }
    {
        sim::Quiet q;
        sim::Rng r(g_ompseed + 977 * (uint64_t) g_regions++);
        int want = g_asked > 0 ? std::min(g_asked, g_max) : g_max;
        g_asked = 0;
        g_reg.n = r.chance(1, 6) ? 1 + (int) r.below(want) : want; // fewer threads may be delivered
        if (g_reg.n > 1) g_multi++;
        g_reg.seed = r.next();
        g_reg.fn = fn;
        memcpy(g_reg.args, args, sizeof args);
        g_reg.left = g_reg.n - 1;
        g_reg.init = false;
        g_reg.bar_in = 0;
        g_reg.open = true;
        g_reg.gen++;
    }
    run_micro(0);
    sim::block_until([](void*) { return g_reg.left == 0; }, nullptr, 0);
    sim::Quiet q;
    g_reg.open = false;
}
static void barrier() {
    if (g_reg.n <= 1) return;
    sim::point(7);
    static int want[POOL + 2];
    {
    sim::Quiet q;
    int gen = g_reg.bar_gen;
    if (++g_reg.bar_in == g_reg.n) {
        g_reg.bar_in = 0;
        g_reg.bar_gen++;
        return;
    }
    want[sim::self()] = gen;
    }
    sim::block_until([](void* p) { return g_reg.bar_gen != *(int*) p; }, &want[sim::self()], 0);
}
OMPAPI void __kmpc_barrier(void*, int32_t) { barrier(); }
static int team_size() { return g_reg.open ? g_reg.n : 1; }
} // extern "C"
// block distribution; which thread gets which block is the runtime's business, but the same for the same region
template<class T, class U>
static void static_init(int32_t sched, int32_t* plast, T* lo, T* hi, T* stride, T incr, T chunk) {
    sched &= ~((1 << 29) | (1 << 30));
    int n = team_size(), tid = n == 1 ? 0 : sim::self() - 1;
    if (incr > 0 ? *hi < *lo : *hi > *lo) { // nothing to do
        *plast = 0;
        *stride = incr;
        return;
    }
    U trip = incr > 0 ? (U) (*hi - *lo) / (U) incr + 1 : (U) (*lo - *hi) / (U) (-incr) + 1;
    sim::Rng r(g_reg.seed);
    int pos = (int) ((tid + r.below(n)) % n);
    if (r.chance(1, 2)) pos = n - 1 - pos;
    if (sched == 33 && chunk > 0) {
        T span = chunk * incr;
        *stride = span * (T) n;
        *lo = *lo + span * (T) pos;
        *hi = *lo + span - incr;
        *plast = 0;
        return;
    }
    U small = trip / (U) n, extra = trip % (U) n;
    U first = (U) pos * small + std::min<U>((U) pos, extra), cnt = small + ((U) pos < extra ? 1 : 0);
    *plast = cnt && first + cnt == trip;
    T l0 = *lo;
    if (!cnt) {
        *lo = l0 + incr;
        *hi = l0;
        if (incr < 0) *lo = l0 + incr, *hi = l0;
        *stride = incr;
        *lo = incr > 0 ? (T) 1 : (T) 0; // an empty range
        *hi = incr > 0 ? (T) 0 : (T) 1;
        return;
    }
    *lo = l0 + (T) first * incr;
    *hi = l0 + (T) (first + cnt - 1) * incr;
    *stride = (T) trip * incr;
}
extern "C" {
OMPAPI void __kmpc_for_static_init_4(void*, int32_t, int32_t s, int32_t* l, int32_t* a, int32_t* b, int32_t* st, int32_t inc, int32_t ch) { static_init<int32_t, uint32_t>(s, l, a, b, st, inc, ch); }
OMPAPI void __kmpc_for_static_init_4u(void*, int32_t, int32_t s, int32_t* l, uint32_t* a, uint32_t* b, int32_t* st, int32_t inc, int32_t ch) { int64_t x = *a, y = *b, z = 0; static_init<int64_t, uint64_t>(s, l, &x, &y, &z, inc, ch); *a = (uint32_t) x; *b = (uint32_t) y; *st = (int32_t) z; }
OMPAPI void __kmpc_for_static_init_8(void*, int32_t, int32_t s, int32_t* l, int64_t* a, int64_t* b, int64_t* st, int64_t inc, int64_t ch) { static_init<int64_t, uint64_t>(s, l, a, b, st, inc, ch); }
OMPAPI void __kmpc_for_static_init_8u(void*, int32_t, int32_t s, int32_t* l, uint64_t* a, uint64_t* b, int64_t* st, int64_t inc, int64_t ch) { static_init<int64_t, uint64_t>(s, l, (int64_t*) a, (int64_t*) b, st, inc, ch); }
OMPAPI void __kmpc_for_static_fini(void*, int32_t) {}
static void disp_init(int64_t lb, int64_t ub, int64_t st) {
    sim::Quiet q;
    if (!g_reg.init || team_size() == 1) { // one loop per region
        g_reg.next = lb;
        g_reg.last = ub;
        g_reg.step = st;
        g_reg.init = true;
    }
}
static bool disp_next(int32_t* plast, int64_t& a, int64_t& b, int64_t& st) {
    sim::point(7);
    sim::Quiet q;
    if (g_reg.step > 0 ? g_reg.next > g_reg.last : g_reg.next < g_reg.last) return false;
    int64_t left = (g_reg.last - g_reg.next) / g_reg.step + 1;
    sim::Rng r(g_reg.seed + (uint64_t) left * 31);
    int64_t n = 1 + (int64_t) r.below(std::min<int64_t>(left, 3));
    a = g_reg.next;
    b = a + (n - 1) * g_reg.step;
    st = g_reg.step;
    g_reg.next = b + g_reg.step;
    *plast = n == left;
    return true;
}
OMPAPI void __kmpc_dispatch_init_4(void*, int32_t, int32_t, int32_t lb, int32_t ub, int32_t st, int32_t) { disp_init(lb, ub, st); }
OMPAPI void __kmpc_dispatch_init_4u(void*, int32_t, int32_t, uint32_t lb, uint32_t ub, int32_t st, int32_t) { disp_init(lb, ub, st); }
OMPAPI void __kmpc_dispatch_init_8(void*, int32_t, int32_t, int64_t lb, int64_t ub, int64_t st, int64_t) { disp_init(lb, ub, st); }
OMPAPI void __kmpc_dispatch_init_8u(void*, int32_t, int32_t, uint64_t lb, uint64_t ub, int64_t st, int64_t) { disp_init((int64_t) lb, (int64_t) ub, st); }
#define DISP(suf, T, S)                                                                          \
    OMPAPI int32_t __kmpc_dispatch_next_##suf(void*, int32_t, int32_t* l, T* a, T* b, S* s) { \
        int64_t x, y, z;                                                                         \
        if (!disp_next(l, x, y, z)) return 0;                                                  \
        *a = (T) x;                                                                              \
        *b = (T) y;                                                                              \
        *s = (S) z;                                                                              \
        return 1;                                                                                \
    }
DISP(4, int32_t, int32_t) DISP(4u, uint32_t, int32_t) DISP(8, int64_t, int64_t) DISP(8u, uint64_t, int64_t)
OMPAPI void __kmpc_dispatch_deinit(void*, int32_t) {}
OMPAPI void __kmpc_dispatch_fini_4(void*, int32_t) {}
OMPAPI void __kmpc_dispatch_fini_8(void*, int32_t) {}
static Memory* g_callee;
OMPAPI double ext_tick(double x) {
    sim::point(7);
    sim::Quiet q;
    return g_callee->tick(x);
}
}

namespace {
typedef void (*Prog)(int64_t, int64_t, double*, double*, double*, double*, double*, double*, int64_t*);
Prog g_fn;
json g_plan;
Memory* g_mem;

void body(void*, int) {
    int idx = sim::self();
    if (idx == 1) {
        auto& p = g_plan["prog"];
        auto& m = *g_mem;
        g_fn(p["N"], p["M"], m.a[0] + PAD, m.a[1] + PAD, m.a[2] + PAD, m.a[3] + PAD, m.a[4] + PAD, m.a[5] + PAD, m.ix + PAD);
        g_done = true;
        return;
    }
    static int seen[POOL + 2];
    for (;;) {
        struct W {
            int idx;
        };
        static W w[POOL + 2];
        w[idx].idx = idx;
        sim::block_until([](void* p) { return g_done || g_reg.gen != seen[((W*) p)->idx]; }, &w[idx], 0);
        bool mine;
        {
            sim::Quiet q; // the runtime's own bookkeeping is not under test
            if (g_reg.gen == seen[idx]) return; // finished
            seen[idx] = g_reg.gen;
            mine = g_reg.open && idx <= g_reg.n;
        }
        if (!mine) continue;
        run_micro(idx - 1);
        sim::Quiet q;
        g_reg.left--;
    }
}

// ---- compiling ----------------------------------------------------------------------------------------------------
struct Compiled {
    std::string key, error, kind; // kind: refused, crashed, compiler
    void* handle = nullptr;
    Prog fn = nullptr;
    int maps = 0;
    std::string source;
};

std::string read_file(const std::string& f) {
    std::ifstream i(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(i), {});
}

// the order of declarations and of private variables in the code depends on addresses
uint64_t lines(const std::string& s) {
    uint64_t h = 0;
    std::stringstream in(s);
    for (std::string l; std::getline(in, l);) {
        if (l.find("#pragma omp") != std::string::npos) l = l.substr(0, l.find(" private("));
        h += std::hash<std::string>()(l);
    }
    return h;
}

void generate(const json& p, const std::string& dir) { // in a process of its own
    alarm(60);
    std::ofstream log(dir + "/log");
    try {
        auto b = build_program(p);
        auto& s = b->subject();
        s.validate();
        analysis::AnalysisManager am(s);
        passes::For2MapPass f2m;
        f2m.run(*b, am);
        passes::scheduler::LoopSchedulingPass sched({"openmp"}, nullptr);
        sched.run(*b, am);
        if (p.contains("maps")) { // schedules other than the default
            size_t k = 0;
            analysis::AnalysisManager am3(s);
            for (auto* l : am3.get<analysis::LoopAnalysis>().loops()) {
                auto* m = dynamic_cast<structured_control_flow::Map*>(const_cast<structured_control_flow::ControlFlowNode*>(l));
                if (!m || m->schedule_type().value() != omp::ScheduleType_OMP::value()) continue;
                auto& how = p["maps"][k++ % p["maps"].size()];
                auto st = m->schedule_type();
                static const omp::OpenMPSchedule os[] = {omp::OpenMPSchedule::Static, omp::OpenMPSchedule::Dynamic, omp::OpenMPSchedule::Guided};
                omp::ScheduleType_OMP::omp_schedule(st, os[how[0].get<int>()]);
                if (how[1].get<int>()) omp::ScheduleType_OMP::num_threads(st, symbolic::integer(how[1].get<int>()));
                b->update_schedule_type(*m, st);
            }
        }
        auto ip = codegen::InstrumentationPlan::none(s);
        auto cp = codegen::ArgCapturePlan::none(s);
        std::pair<fs::path, fs::path> lc = {dir, fs::path(dir) / "prog.h"};
        auto fac = std::make_shared<codegen::CodeSnippetFactory>(&lc);
        analysis::AnalysisManager am2(s);
        codegen::CPPCodeGenerator g(s, am2, *ip, *cp, fac);
        g.generate();
        if (!g.as_source(fs::path(dir) / "prog.h", fs::path(dir) / "prog.cpp")) throw std::runtime_error("as_source failed");
        log << "ok";
    } catch (std::exception& x) {
        log << "exception: " << x.what();
    }
    log.close();
    _exit(0);
}

int run_cmd(const std::vector<std::string>& a, const std::string& out) {
    std::vector<char*> v;
    for (auto& x : a) v.push_back((char*) x.c_str());
    v.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t pid;
    if (posix_spawnp(&pid, v[0], &fa, nullptr, v.data(), environ)) return -1;
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

class ParHarness : public Harness {
public:
    Compiled c;

    void compile(const json& p) {
        std::string key = dump(p);
        if (c.key == key) return;
        if (c.handle) dlclose(c.handle);
        c = Compiled();
        c.key = key;
        static int n = 0;
        std::string dir = scratch + "-par" + std::to_string(getpid()) + "-" + std::to_string(n++);
        fs::remove_all(dir);
        fs::create_directories(dir);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 1);
            if (!getenv("SIM_DEBUG")) dup2(null, 2);
            generate(p, dir);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::string log = read_file(dir + "/log");
        c.source = read_file(dir + "/prog.cpp");
        if (!WIFEXITED(st) || WEXITSTATUS(st)) c.kind = "crashed", c.error = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit";
        else if (log != "ok") c.kind = "refused", c.error = log;
        else {
            for (size_t x = 0; (x = c.source.find("#pragma omp", x)) != std::string::npos; x++) c.maps++;
            if (!c.maps && std::hash<std::string>()(key) % 8) { // nothing parallel in it
                c.kind = "sequential";
                if (!getenv("PAR_KEEP")) fs::remove_all(dir);
                return;
            }
            int rc = run_cmd({PAR_CXX, "-std=c++20", "-O0", "-g0", "-w", "-fPIC", "-shared", "-fopenmp", "-nostdlib", "-ffp-contract=off", "-ftrivial-auto-var-init=pattern", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-I" PAR_STUBS, "-I" PAR_RTL, "-I" + dir, dir + "/prog.cpp", "-o", dir + "/prog.so"}, dir + "/cc.log");
            if (rc) c.kind = "compiler", c.error = read_file(dir + "/cc.log").substr(0, 600);
            else {
                c.handle = dlopen((dir + "/prog.so").c_str(), RTLD_NOW | RTLD_LOCAL);
                if (!c.handle) c.kind = "compiler", c.error = dlerror();
                else c.fn = (Prog) dlsym(c.handle, "prog");
                if (c.handle && !c.fn) c.kind = "compiler", c.error = "no function";
            }
        }
        if (!getenv("PAR_KEEP")) fs::remove_all(dir); else run_cmd({"cp", dir + "/prog.cpp", "/tmp/par_last.cpp"}, "/dev/null");
    }

    // ---- generation ----------------------------------------------------------------------------------------------
    sim::Rng* R = nullptr;
    int rnd(int n) { return (int) R->below(n); }
    bool ch(int a, int b) { return R->chance(a, b); }
    json E(int c) { return json::array({c}); }
    json E(int c, int k, const std::string& s) { return json::array({c, json::array({k, s})}); }
    struct Ctx {
        std::vector<std::string> ivs;
        std::vector<std::string> priv; // scalars defined in this iteration
        std::vector<std::string> syms;
        std::vector<std::string> ptrs;
        std::vector<json> locs; // elements of local arrays written before
    };
    std::string local_name() { return m_bufs && ch(3, 4) ? ch(1, 2) ? "l2" : "l3" : ch(1, 2) ? "l0" : "l1"; }
    json sub(const Ctx& x) { // a subscript
        if (x.ivs.empty()) return ch(1, 6) && !x.syms.empty() ? E(rnd(3), 1, x.syms[rnd((int) x.syms.size())]) : E(rnd(12));
        std::string v = x.ivs[ch(2, 3) ? x.ivs.size() - 1 : rnd((int) x.ivs.size())];
        if (m_deep && x.ivs.size() > 2 && ch(1, 6)) return json::array({rnd(2), json::array({ch(1, 3) ? 12 : 1, x.ivs[rnd((int) x.ivs.size())]}), json::array({1, x.ivs[rnd((int) x.ivs.size())]})});
        if (m_syms && !x.syms.empty() && ch(1, 6)) return json::array({rnd(2), json::array({1, x.syms[rnd((int) x.syms.size())]}), json::array({ch(2, 3) ? 1 : -1, x.ivs[rnd((int) x.ivs.size())]})});
        switch (rnd(15)) {
            case 0: return E(1 + rnd(2), 1, v);
            case 1: return E(-1 - rnd(2), 1, v);
            case 2: return E(rnd(2), 2, v);
            case 3: return E(rnd(9));
            case 4: return json::array({rnd(3), json::array({1, v}), json::array({1, "N"})});
            case 5:
                if (x.ivs.size() > 1) return json::array({ch(1, 3) ? rnd(5) - 2 : 0, json::array({ch(1, 2) ? 12 : 2 + rnd(9), x.ivs[x.ivs.size() - 2]}), json::array({1, x.ivs.back()})});
                return E(0, 1, v);
            case 6:
                if (x.ivs.size() > 1) return json::array({ch(1, 3) ? rnd(3) - 1 : 0, json::array({1, x.ivs[x.ivs.size() - 2], ch(1, 2) ? "M" : "N"}), json::array({1, x.ivs.back()})});
                return E(0, 1, v);
            case 7:
                if (x.ivs.size() > 1) return json::array({0, json::array({1, x.ivs[0]}), json::array({1, x.ivs[1]})});
                return E(0, 1, v);
            case 8: return !x.syms.empty() ? E(0, 1, x.syms[rnd((int) x.syms.size())]) : E(0, 1, v);
            case 9: return json::array({7, json::array({-1, v})});
            case 10:
                if (ch(1, 2)) return json::array({ch(1, 2) ? 0 : rnd(3), json::array({1, v, ch(2, 3) ? v : std::string("N")})});
                if (!x.syms.empty()) return json::array({0, json::array({1, v, x.syms[rnd((int) x.syms.size())]})});
                return json::array({0, json::array({1, v}), json::array({-1, "M"})});
            default: return E(0, 1, v);
        }
    }
    json aref(const Ctx& x) {
        int k = rnd(10);
        if (!x.ptrs.empty() && ch(1, 3)) return {{"a", x.ptrs[rnd((int) x.ptrs.size())]}, {"s", json::array({ch(1, 2) ? E(rnd(2)) : sub(x)})}};
        if (k < 6) return {{"a", ARR[rnd(3)]}, {"s", json::array({sub(x)})}};
        json a = sub(x), b = sub(x);
        if (x.ivs.size() > 1 && ch(2, 3)) a = E(0, 1, x.ivs[x.ivs.size() - 2]), b = E(0, 1, x.ivs.back());
        else if (!x.ivs.empty() && ch(1, 2)) (ch(1, 2) ? a : b) = E(0, 1, x.ivs.back());
        return {{"a", ARR[3 + rnd(2)]}, {"s", json::array({a, b})}};
    }
    json value(const Ctx& x) {
        int k = rnd(10);
        if (k < 2) return {{"c", std::to_string(1 + rnd(5)) + ".0"}};
        if (k < 4 && !x.priv.empty()) return {{"t", x.priv[rnd((int) x.priv.size())]}};
        if (k < 5) return {{"t", "t" + std::to_string(rnd(4))}};
        if (k < 7 && !x.locs.empty() && ch(1, m_bufs ? 1 : 3)) return x.locs[rnd((int) x.locs.size())];
        if (k < 6 && ch(1, 3)) return {{"a", local_name()}, {"s", json::array({x.ivs.empty() || ch(1, 2) ? E(rnd(6)) : E(0, 1, x.ivs.back())})}};
        return aref(x);
    }
    json op(const json& out, const Ctx& x) {
        static const char* os[] = {"assign", "add", "add", "sub", "mul"};
        std::string o = os[rnd(5)];
        json in = json::array({value(x)});
        if (o != "assign") in.push_back(o == "mul" ? json{{"c", "2.0"}} : value(x));
        // updates in place are common
        if (o == "add" && ch(1, 3)) in[0] = out;
        else if (out.contains("a") && out["a"].get<std::string>()[0] != 'l' && ch(1, 6)) { // another element of the same array
            in[0] = out;
            auto& e = in[0]["s"][rnd((int) in[0]["s"].size())];
            switch (rnd(3)) {
                case 0: e = sub(x); break;
                case 1: e[0] = e[0].get<int>() + rnd(7) - 3; break;
                default:
                    if (e.size() > 1) e[1].push_back(e[1].back());
            }
        }
        json j = {{"k", "op"}, {"op", o}, {"in", in}, {"out", out}};
        if (ch(1, 4)) j["share"] = true;
        return j;
    }
    // another operation in the same block that reads what was written
    void follow(json& r, Ctx& x) {
        if (r.empty() || r.back()["k"] != "op" || !ch(1, 6)) return;
        json out = r.back()["out"];
        json j = op(ch(1, 3) ? json{{"t", "p" + std::to_string(rnd(6))}} : ch(1, 3) ? json{{"t", "t" + std::to_string(rnd(4))}} : aref(x), x);
        // memory read and written by two parts of a block has no order but that of the graph
        std::string c = container(out), d = container(j["out"]);
        std::set<std::string> before, after = {d};
        for (size_t i = r.size(); i-- > 0;) {
            for (auto& v : r[i]["in"]) before.insert(container(v));
            before.insert(container(r[i]["out"]));
            if (!r[i].value("chain", false)) break;
        }
        for (size_t i = 1; i < j["in"].size(); i++) after.insert(container(j["in"][i]));
        for (auto& n : after)
            if (!n.empty() && (before.count(n) || n[0] == 'q')) return;
        for (auto& n : before)
            if (n[0] == 'q') return;
        j["in"][0] = out;
        if (out.contains("a") && ch(1, 6)) j["in"][0]["s"][0] = sub(x);
        j["chain"] = true;
        r.push_back(j);
        if (d[0] == 'p') x.priv.push_back(d);
        follow(r, x);
    }
    json condition(const Ctx& x) {
        std::string v = x.ivs.empty() ? "N" : x.ivs[rnd((int) x.ivs.size())];
        if (!x.syms.empty() && ch(m_syms ? 4 : 1, 8)) v = x.syms[rnd((int) x.syms.size())];
        static const char* ops[] = {"<", "<=", ">", ">=", "==", "!="};
        json c = json::array({E(0, 1, v), ops[rnd(6)], ch(1, 6) ? E(rnd(2), 1, ch(1, 2) ? "N" : "M") : E(rnd(5))});
        if (ch(1, 6)) c = json::array({ch(1, 2) ? "and" : "or", c, json::array({E(0, 1, v), ops[rnd(6)], E(rnd(5))})});
        return c;
    }
    static void defined(const json& its, std::set<std::string>& ps, std::set<std::string>& ks) {
        for (auto& it : its) {
            if (it["k"] == "op" && it["out"].contains("t") && it["out"]["t"].get<std::string>()[0] == 'p') ps.insert(it["out"]["t"].get<std::string>());
            if (it["k"] == "let")
                for (auto& [n, e] : it["as"].items()) ks.insert(n);
            for (auto* k : {"body", "then", "else", "rest"})
                if (it.contains(k)) defined(it[k], ps, ks);
        }
    }
    void inner(const json& f, Ctx& x) { // what was assigned inside is used after it
        if (!ch(1, 3)) return;
        std::set<std::string> ps, ks;
        defined(json::array({f}), ps, ks);
        for (auto& p : ps)
            if (ch(1, 2)) x.priv.push_back(p);
        for (auto& k : ks)
            if (ch(1, 3)) x.syms.push_back(k);
    }
    json items(int depth, Ctx x, int& budget) {
        json r = json::array();
        int n = 1 + rnd(depth == 0 ? 4 : 3);
        for (int i = 0; i < n; i++) {
            int w = rnd(20);
            if (budget > 0 && depth < 3 && (depth == 0 ? w < 12 : w < (m_deep ? 12 : 6))) {
                budget--;
                json f;
                f["k"] = "for";
                std::string v;
                for (int t = 0; t < 20; t++) {
                    v = "i" + std::to_string(ch(4, 5) ? m_iv++ % 6 : rnd(6));
                    if (std::find(x.ivs.begin(), x.ivs.end(), v) == x.ivs.end()) break;
                    v.clear();
                }
                if (v.empty()) continue;
                f["iv"] = v;
                f["init"] = E(0);
                f["step"] = 1;
                json hi = ch(1, 2) ? E(0, 1, ch(1, 2) ? "N" : "M") : E(2 + rnd(8));
                if (ch(1, 8)) {
                    json bs[] = {E(1 + rnd(4), 1, "N"), E(1 + rnd(4), 1, "N"), E(-1 - rnd(2), 1, "M"), E(0, 2, "N"), json::array({0, json::array({1, "N"}), json::array({1, "M"})}), json::array({rnd(9), json::array({-1, "N"})}), json::array({rnd(9), json::array({1, "N"}), json::array({-1, "M"})})};
                    hi = bs[rnd(7)];
                }
                if (ch(1, 6)) f["init"] = E(1 + rnd(2));
                if (!x.syms.empty() && ch(1, 10)) (ch(1, 5) ? f["init"] : hi) = E(rnd(3), 1, x.syms[rnd((int) x.syms.size())]);
                if (!x.ivs.empty() && ch(1, 8)) ch(1, 2) ? f["init"] = E(rnd(2), 1, x.ivs.back()) : hi = E(1, 1, x.ivs.back());
                f["cond"] = json::array({E(0, 1, v), ch(1, 6) ? "<=" : "<", hi});
                if (ch(1, 8)) f["step"] = 2;
                if (ch(1, m_deep ? 8 : 20)) f["init"] = E(-1 - rnd(3));
                if (m_deep && ch(1, 4) && !x.ivs.empty()) { // an array accessed by rows
                    int n = 2 + rnd(5), m = n + rnd(3) - 1;
                    hi = E(m);
                    f["cond"][2] = hi;
                    int k = rnd(3);
                    json at = {{"a", ARR[k]}, {"s", json::array({json::array({ch(1, 2) ? 0 : rnd(4), json::array({n, x.ivs.back()}), json::array({1, v})})})}};
                    json other = at;
                    if (ch(1, 2)) other["s"][0][0] = rnd(9) - 2;
                    else if (ch(1, 3)) other["s"][0][1][0] = n + 1;
                    else other["a"] = ARR[rnd(3)];
                    f["extra"] = {{"k", "op"}, {"op", "add"}, {"in", json::array({other, json{{"c", "1.0"}}})}, {"out", at}};
                }
                if (ch(1, 24)) f["cond"] = json::array({E(0, 2, v), "<", hi});
                if (ch(1, 24)) f["cond"] = json::array({E(0, 1, v), "!=", hi});
                if (ch(1, 14)) { // downwards
                    f["init"] = hi;
                    f["cond"] = json::array({E(0, 1, v), ch(1, 2) ? ">=" : ">", E(0)});
                    f["step"] = -1;
                }
                if (ch(1, 16)) {
                    std::string by = !x.syms.empty() && ch(1, 3) ? x.syms[rnd((int) x.syms.size())] : "N";
                    switch (rnd(4)) {
                        case 0: f["upd"] = E(1, 2, v); break;
                        case 1: f["upd"] = json::array({rnd(2), json::array({1, v}), json::array({1, by})}); break;
                        case 2: f["upd"] = json::array({0, json::array({1, v, v})}), f["init"] = E(2), f["cond"][2] = E(30); break;
                        default: f["upd"] = json::array({1, json::array({1 + rnd(2), v}), json::array({1, by})});
                    }
                }
                Ctx y = x;
                y.ivs.push_back(v);
                if (ch(1, 14)) f["cond"] = json::array({"and", f["cond"], json::array({E(0, 1, v), ch(1, 3) ? "!=" : "<", E(3 + rnd(6))})});
                else if (ch(1, 20)) f["cond"] = json::array({"or", f["cond"], json::array({E(0, 1, v), ch(1, 3) ? "==" : "<", E(3 + rnd(6))})});
                std::string w;
                for (int t = 0; t < 20 && depth < 2 && !f.contains("upd") && ch(1, 10); t++) {
                    w = "i" + std::to_string(rnd(6));
                    if (std::find(y.ivs.begin(), y.ivs.end(), w) == y.ivs.end()) break;
                    w.clear();
                }
                if (!w.empty() && f["step"] == 1 && f["cond"][0].is_array()) { // the loop in tiles, sometimes not of the same size
                    int s = 2 + rnd(4);
                    json g = f, in = json::array({E(0, 1, w), "<", f["cond"][2]}), tile = json::array({E(0, 1, w), ch(1, 5) ? "<=" : "<", E(ch(1, 4) ? s - 1 + rnd(3) : s, 1, v)});
                    if (ch(1, 2)) in[1] = f["cond"][1];
                    g["iv"] = w;
                    g["init"] = E(ch(1, 8) ? 1 : 0, 1, v);
                    g["step"] = ch(1, 8) ? 2 : 1;
                    g["cond"] = ch(1, 8) ? tile : ch(1, 2) ? json::array({"and", in, tile}) : json::array({"and", tile, in});
                    f["step"] = s;
                    Ctx z = y;
                    y.ivs.push_back(w);
                    g["body"] = items(depth + 2, y, budget);
                    f["body"] = json::array();
                    if (ch(1, 8)) f["body"] = items(depth + 2, z, budget);
                    f["body"].push_back(g);
                } else
                f["body"] = items(depth + 1, y, budget);
                r.push_back(f);
                inner(f, x);
                if (r.back().contains("extra")) r.back()["body"].push_back(r.back()["extra"]), r.back().erase("extra");
                if (ch(1, 6)) x.syms.push_back(v); // its last value is used
            } else if (w < 9 && depth < 3) {
                json f;
                f["k"] = "if";
                f["cond"] = condition(x);
                int b2 = 0;
                f["then"] = items(depth + 1, x, b2);
                f["else"] = ch(1, 2) ? json::array() : items(depth + 1, x, b2);
                if (!x.ivs.empty() && ch(1, 4)) { // an access only possible in some iterations
                    std::string v = x.ivs.back(), a = ARR[rnd(3)];
                    int c = 1 + rnd(4);
                    bool up = ch(2, 3);
                    f["cond"] = json::array({E(0, 1, v), up ? ">=" : "<=", E(c)});
                    json there = {{"a", a}, {"s", json::array({up ? E(-c, 1, v) : json::array({c, json::array({-1, v})})})}}, here = {{"a", a}, {"s", json::array({E(rnd(2), 1, v)})}};
                    if (ch(1, 2)) std::swap(there, here);
                    f["then"].push_back({{"k", "op"}, {"op", "assign"}, {"in", json::array({there})}, {"out", {{"a", ARR[rnd(5) % 3]}, {"s", json::array({E(0, 1, v)})}}}});
                    json o = op(here, x);
                    if (ch(1, 2)) r.push_back(o);
                    else if (ch(1, 2)) f["else"].push_back(o);
                    else {
                        r.push_back(f);
                        f = o;
                    }
                }
                r.push_back(f);
                inner(f, x);
            } else if ((w < 10 && depth < 3 && ch(1, 5)) || (m_ends && depth > 0 && depth < 3 && ch(1, 5))) { // a loop with an exit in the middle
                std::string k = "k" + std::to_string(rnd(4));
                Ctx y = x;
                y.syms.push_back(k);
                json f;
                f["k"] = "while";
                int b2 = 0;
                f["body"] = items(depth + 1, y, b2);
                f["cond"] = json::array({E(0, 1, k), ">=", E(1 + rnd(4))});
                f["rest"] = ch(1, 2) ? items(depth + 1, y, b2) : json::array();
                json next = {{"k", "let"}, {"as", {{k, E(1, 1, k)}}}};
                if (ch(1, 4)) f["rest"].push_back({{"k", "if"}, {"cond", condition(y)}, {"then", json::array({next, {{"k", "cont"}}})}, {"else", json::array()}}), f["rest"].push_back(op(aref(y), y));
                f["rest"].push_back(next);
                r.push_back({{"k", "let"}, {"as", {{k, E(0)}}}});
                r.push_back(f);
                x.syms.push_back(k);
                inner(f, x);
            } else if (w < (m_syms ? 12 : 10)) {
                std::string k = "k" + std::to_string(rnd(4));
                if (m_syms && !x.syms.empty() && ch(1, 2) && x.syms.back()[0] == 'k') k = x.syms.back();
                if (ch(1, 3)) {
                    r.push_back({{"k", "load"}, {"to", k}, {"s", sub(x)}});
                    x.syms.push_back(k);
                    continue;
                }
                if (ch(1, 10)) {
                    r.push_back({{"k", "clear"}, {"a", ARR[rnd(3)]}, {"n", ch(1, 2) ? E(rnd(6)) : E(0, 1, "N")}});
                    continue;
                }
                json e = x.ivs.empty() || ch(1, 3) ? E(rnd(6)) : ch(1, 2) ? E(rnd(3), 1, x.ivs.back()) : E(rnd(2), 1, k);
                if (m_syms && !x.syms.empty() && ch(1, 3)) e = E(rnd(3), ch(1, 3) ? -1 : 1, x.syms[rnd((int) x.syms.size())]);
                if (m_syms && !x.ivs.empty() && ch(1, 6)) e = E(rnd(9), -1, x.ivs.back());
                json l = {{"k", "let"}, {"as", {{k, e}}}};
                if (m_syms && !x.ivs.empty() && ch(1, 5)) l = {{"k", "if"}, {"cond", json::array({E(0, 1, x.ivs.back()), ch(1, 2) ? "<=" : "!=", E(rnd(3))})}, {"then", json::array({l})}, {"else", json::array()}};
                r.push_back(l);
                x.syms.push_back(k);
            } else if (w < 13) { // a value of this iteration
                std::string p = m_priv < 6 && ch(2, 3) ? "p" + std::to_string(m_priv++) : "p" + std::to_string(rnd(6));
                json o = op({{"t", p}}, x);
                if (!x.ivs.empty() && ch(1, 8)) r.push_back({{"k", "if"}, {"cond", json::array({E(0, 1, x.ivs.back()), ch(1, 2) ? "<=" : "!=", E(rnd(3))})}, {"then", json::array({o})}, {"else", json::array()}});
                else r.push_back(o);
                x.priv.push_back(p);
                follow(r, x);
                continue;
            } else if (w < 14 || (m_bufs && w < 18 && !x.ivs.empty() && ch(1, 2))) {
                json l = {{"a", local_name()}, {"s", json::array({x.ivs.empty() || ch(1, 2) ? E(rnd(6)) : E(0, 1, x.ivs.back())})}};
                json o = op(l, x);
                if (!x.ivs.empty() && ch(1, 5)) o = {{"k", "if"}, {"cond", json::array({E(0, 1, x.ivs.back()), ch(1, 2) ? "<=" : "!=", E(rnd(3))})}, {"then", json::array({o})}, {"else", json::array()}};
                r.push_back(o);
                x.locs.push_back(l);
            } else if (m_views && w < 18 && ch(1, 3)) {
                std::string q = ch(1, 2) ? "q0" : "q1";
                Ctx y = x;
                y.ptrs.clear();
                r.push_back({{"k", "view"}, {"q", q}, {"of", json{{"a", ARR[rnd(3)]}, {"s", json::array({sub(y)})}}}});
                x.ptrs.push_back(q);
            } else if (w < 15 && ch(1, 24)) {
                r.push_back({{"k", "if"}, {"cond", condition(x)}, {"then", json::array({{{"k", "ret"}}})}, {"else", json::array()}});
            } else if (w < 16 && ch(1, 12)) {
                r.push_back({{"k", "call"}, {"in", json::array({ch(1, 2) ? json{{"t", "t" + std::to_string(rnd(4))}} : ch(1, 2) ? json{{"c", "1.0"}} : value(x)})}, {"out", ch(1, 2) ? json{{"t", "t" + std::to_string(rnd(4))}} : aref(x)}});
            } else if (w < 15) {
                r.push_back(op({{"t", "t" + std::to_string(rnd(4))}}, x));
            } else {
                r.push_back(op(aref(x), x));
            }
            follow(r, x);
        }
        return r;
    }
    static void changed(const json& its, std::set<std::string>& s) {
        for (auto& it : its) {
            std::string k = it["k"];
            if (k == "let")
                for (auto& [n, e] : it["as"].items()) s.insert(n);
            if (k == "load") s.insert(it["to"].get<std::string>());
            if (k == "for") s.insert(it["iv"].get<std::string>());
            for (auto* b : {"body", "then", "else", "rest"})
                if (it.contains(b)) changed(it[b], s);
        }
    }
    static bool mentions(const json& e, const std::set<std::string>& s) {
        if (e.is_string()) return s.count(e.get<std::string>());
        if (e.is_array())
            for (auto& x : e)
                if (mentions(x, s)) return true;
        return false;
    }
    // by definition, the condition of a loop only changes with its counter
    static bool valid(const json& its) {
        for (auto& it : its) {
            for (auto* b : {"body", "then", "else", "rest"})
                if (it.contains(b) && !valid(it[b])) return false;
            if (it["k"] != "for") continue;
            std::set<std::string> s;
            changed(it["body"], s);
            if (s.count(it["iv"].get<std::string>()) || mentions(it["cond"], s)) return false;
        }
        return true;
    }
    int m_iv = 0, m_priv = 0;
    bool m_views = false, m_bufs = false, m_ends = false, m_deep = false, m_syms = false;

    json gen_prog(uint64_t id) {
        json best;
        for (int t = 0; t < 200; t++) {
            sim::Rng rng(id * 7919 + 13 + (uint64_t) t * 1000003);
            R = &rng;
            m_iv = rnd(6);
            m_priv = 0;
            m_views = getenv("PAR_VIEWS") || id % 8 == 3;
            m_bufs = getenv("PAR_BUFFERS") || id % 8 == 5;
            m_ends = id % 8 == 1; // loops without counters
            m_deep = id % 8 == 7 || id % 8 == 2; // nests
            m_syms = id % 8 == 6 || id % 8 == 2; // symbols
            json p;
            if (m_bufs) p["buffers"] = true;
            p["N"] = 1 + rnd(9);
            p["M"] = 1 + rnd(9);
            p["mem"] = rng.next() >> 20;
            if (ch(1, 8)) p[ch(1, 2) ? "N" : "M"] = rnd(4) - 2;
            if (ch(1, 4)) {
                p["maps"] = json::array();
                for (int i = 0; i < 3; i++) p["maps"].push_back({rnd(3), ch(1, 3) ? 1 + rnd(5) : 0});
            }
            json its = json::array();
            for (int i = 0; i < 4; i++) its.push_back({{"k", "op"}, {"op", "assign"}, {"in", json::array({json{{"c", std::to_string(i + 1) + ".0"}}})}, {"out", {{"t", "t" + std::to_string(i)}}}});
            int budget = 2 + rnd(5);
            Ctx x;
            for (auto& i : items(0, x, budget)) its.push_back(i);
            for (int i = 0; i < 4; i++)
                if (ch(1, 2)) its.push_back({{"k", "op"}, {"op", "assign"}, {"in", json::array({json{{"t", "t" + std::to_string(i)}}})}, {"out", {{"a", "R"}, {"s", json::array({E(i)})}}}});
            p["items"] = its;
            best = p;
            if (its.dump().find("\"for\"") == std::string::npos || !valid(its)) continue;
            try {
                Memory m;
                fill(m, p["mem"]);
                Interp in{m};
                in.sym = {{"N", p["N"]}, {"M", p["M"]}};
                in.start(its);
                break;
            } catch (Reject&) {
            }
        }
        return best;
    }

    json gen(const std::string& prop, uint64_t seed) override {
        json p;
        p["prop"] = prop;
        p["seed"] = seed;
        p["prog"] = gen_prog((seed >> 6) * 8 + (seed & 7)); // a worker keeps a program for some schedules
        sim::Rng rng(seed * 1000003 + 4711);
        p["sched"] = gen_sched(rng, 4);
        static const uint32_t mem[] = {0, 300, 1000, 3000, 10000, 30000};
        p["sched"]["p_mem"] = mem[rng.below(6)];
        p["omp"] = {{"seed", rng.next() >> 16}, {"max", rng.chance(1, 12) ? 1 : 2 + rng.below(POOL - 1)}};
        json s;
        s["type"] = "par";
        p["sessions"] = json::array({s});
        return p;
    }

    void execute(const json& plan, Result& r) override {
        reset_scratch();
        r.sched = plan["sched"];
        auto& p = plan["prog"];
        Memory* want = new Memory;
        std::unique_ptr<Memory> wantp(want);
        fill(*want, p["mem"]);
        Memory start = *want;
        try {
            Interp in{*want};
            in.sym = {{"N", p["N"]}, {"M", p["M"]}};
            if (!valid(p["items"])) throw Reject{"the bound of a loop changes in it"};
            in.start(p["items"]);
        } catch (Reject& x) {
            r.nontrivial = false;
            r.count("probe:rejected");
            return;
        } catch (std::exception& x) {
            r.nontrivial = false;
            r.count("probe:rejected");
            return;
        }
        compile(p);
        r.mix(lines(c.source));
        r.mix(c.kind + (c.kind == "refused" ? c.error : ""));
        if (!c.kind.empty()) {
            r.nontrivial = false;
            r.count("compile:" + c.kind);
            if (c.kind == "crashed") r.add("P01", "compiler_killed", "the parallelisation ends with " + c.error);
            else if (c.kind == "compiler") r.add("P01", "invalid_code", "the generated code does not compile: " + c.error);
            else if (c.kind == "refused") r.count("refused:" + c.error.substr(0, 60));
            return;
        }
        static Memory* shared = (Memory*) mmap(nullptr, sizeof(Memory), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        *shared = start;
        SessionSpec spec;
        spec.sched = sched_from(plan["sched"], spec.list);
        g_plan = plan;
        g_mem = shared;
        g_callee = shared;
        g_fn = c.fn;
        static int* stats = (int*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        stats[0] = stats[1] = 0;
        spec.child = [] {
            g_max = std::min(POOL, std::max(1, g_plan["omp"]["max"].get<int>()));
            g_ompseed = g_plan["omp"]["seed"];
            g_done = false;
            sim::run_threads(body, nullptr, g_max);
            stats[0] = g_regions;
            stats[1] = g_multi;
        };
        SessionOut o = session(spec, r);
        if (!r.error.empty()) return;
        auto* g = sim::g;
        r.count("regions", stats[0]);
        r.count("maps", c.maps);
        r.nontrivial = stats[1] > 0;
        r.sched = sched_recorded(plan["sched"]);
        if (o.timed_out || g->verdict || o.signaled() || o.code() != 0) {
            r.add("P01", "killed", "the program " + o.describe() + " " + g->msg);
            return;
        }
        r.mix(std::string((char*) shared, sizeof(Memory)));
        if (shared->calls != want->calls) r.add("P01", c.maps ? "wrong_calls" : "wrong_code", "the function called by the program saw other calls, or in another order");
        for (int k = 0; k < NARR; k++)
            for (int i = 0; i < LEN; i++) {
                double a = shared->a[k][i], b = want->a[k][i];
                if (a == b || (std::isnan(a) && std::isnan(b))) continue;
                char t[200];
                snprintf(t, sizeof t, "%s[%d] is %.17g instead of %.17g with up to %d threads", ARR[k], i - PAD, a, b, plan["omp"]["max"].get<int>());
                r.add("P01", c.maps ? "wrong_result" : "wrong_code", t);
                return;
            }
    }
};
} // namespace

int main(int argc, char** argv) {
    static plugins::Context ctx = plugins::Context::global_context();
    codegen::register_default_dispatchers();
    serializer::register_default_serializers();
    omp::register_omp_plugin();
    ParHarness h;
    return harness_main(argc, argv, h);
}
