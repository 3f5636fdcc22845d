// Simulation of building programs: the real compile driver, code generators, dumps and recipes over a simulated disk and a
// simulated compiler and linker; faults of both, kills, and leftovers of earlier builds in the same folder.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <set>

#include "core/harness.h"
#include "docc/target/et/target.h"
#include "py_structured_sdfg.h"
#include "sdfg/builder/structured_sdfg_builder.h"
#include "sdfg/codegen/code_generators/c_code_generator.h"
#include "sdfg/codegen/code_generators/cpp_code_generator.h"
#include "sdfg/codegen/code_generators/cuda_code_generator.h"
#include "sdfg/codegen/dispatchers/node_dispatcher_registry.h"
#include "sdfg/data_flow/library_nodes/math/blas/gemm_node.h"
#include "sdfg/passes/pipeline.h"
#include "sdfg/plugins/plugins.h"
#include "sdfg/serializer/json_serializer.h"
#include "sdfg/targets/cuda/plugin.h"
#include "sdfg/targets/highway/plugin.h"
#include "sdfg/targets/highway/schedule.h"
#include "sdfg/targets/offloading/utils.h"
#include "sdfg/targets/omp/plugin.h"
#include "sdfg/targets/onnx/onnx.h"
#include "sdfg/targets/onnx/plugin.h"
#include "sdfg/transformations/loop_tiling.h"
#include "sdfg/transformations/recorder.h"
#include "sdfg/visualizer/dot_visualizer.h"

namespace fs = std::filesystem;
using namespace sdfg;

namespace {

const json* g_s;
std::string g_scratch;
json g_hist;
json g_cmds; // commands of the current operation
int g_tool_n = 0; // tool invocations in this process
int g_tool_fired = 0;
int g_dl_n = 0, g_dl_fired = 0;

std::string dump(const json& j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }

int64_t fired() {
    int64_t n = g_tool_fired + g_dl_fired;
    for (int i = 0; i < sim::MAX_FAULTS; i++) n += sim::g->fault_fired[i];
    return n;
}

// files as they really are, without the simulated disk's faults
std::string raw_read(const std::string& sim_path, bool* ok = nullptr) {
    std::string p = g_scratch + sim_path.substr(8);
    long fd = sim::raw(SYS_openat, AT_FDCWD, (long) p.c_str(), O_RDONLY, 0);
    if (ok) *ok = fd >= 0;
    std::string out;
    if (fd < 0) return out;
    char buf[4096];
    for (;;) {
        long n = sim::raw(SYS_read, fd, (long) buf, sizeof buf);
        if (n <= 0) break;
        out.append(buf, (size_t) n);
    }
    sim::raw(SYS_close, fd);
    return out;
}
void raw_write(const std::string& real, const std::string& d) {
    long fd = sim::raw(SYS_openat, AT_FDCWD, (long) real.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    for (size_t o = 0; o < d.size();) {
        long n = sim::raw(SYS_write, fd, (long) (d.data() + o), (long) (d.size() - o));
        if (n <= 0) break;
        o += (size_t) n;
    }
    sim::raw(SYS_close, fd);
}
void save_hist() { raw_write(g_scratch + "/.hist.json", dump(g_hist)); }

// ---- programs -----------------------------------------------------------------------------------------------
types::Scalar f64() { return types::Scalar(types::PrimitiveType::Double); }
types::Scalar f32() { return types::Scalar(types::PrimitiveType::Float); }
types::Scalar i64() { return types::Scalar(types::PrimitiveType::Int64); }

void add_block(builder::StructuredSDFGBuilder& b, structured_control_flow::Sequence& s, const json& j) {
    std::string k = j["b"];
    auto& blk = b.add_block(s);
    if (k == "set") { // t = c
        auto& in = b.add_constant(blk, j["c"].get<std::string>(), f64());
        auto& t = b.add_tasklet(blk, data_flow::TaskletCode::assign, "_out", {"_in"});
        auto& out = b.add_access(blk, j["t"].get<std::string>());
        b.add_computational_memlet(blk, in, t, "_in", {});
        b.add_computational_memlet(blk, t, "_out", out, {});
    } else if (k == "axpy") { // A[i] = A[i] + t
        types::Pointer desc(f64());
        symbolic::MultiExpression sub = {symbolic::symbol(j["i"].get<std::string>())};
        auto& a = b.add_access(blk, j["A"].get<std::string>());
        auto& x = b.add_access(blk, j["t"].get<std::string>());
        auto& o = b.add_access(blk, j["A"].get<std::string>());
        auto& t = b.add_tasklet(blk, data_flow::TaskletCode::fp_add, "_out", {"_in1", "_in2"});
        b.add_computational_memlet(blk, a, t, "_in1", sub, desc);
        b.add_computational_memlet(blk, x, t, "_in2", {});
        b.add_computational_memlet(blk, t, "_out", o, sub, desc);
    } else if (k == "gemm") { // F2 = alpha * F0 * F1 + beta * F2
        int m = j["m"], n = j["n"], kk = j["k"];
        auto impl = j["impl"] == "onnx" ? onnx::ImplementationType_ONNX : j["impl"] == "et" ? docc::target::et::ImplementationType_ETSOC_WithTransfers : math::blas::ImplementationType_BLAS;
        types::Pointer desc(f32());
        auto sc = f32();
        auto& a = b.add_access(blk, "F0");
        auto& x = b.add_access(blk, "F1");
        auto& c = b.add_access(blk, "F2");
        auto& o = b.add_access(blk, "F2");
        auto& al = b.add_constant(blk, "1.0", sc);
        auto& be = b.add_constant(blk, "0.0", sc);
        auto& g = b.add_library_node<math::blas::GEMMNode>(
            blk, DebugInfo(), impl, math::blas::BLAS_Precision::s, math::blas::BLAS_Layout::RowMajor, math::blas::BLAS_Transpose::No, math::blas::BLAS_Transpose::No,
            symbolic::integer(m), symbolic::integer(n), symbolic::integer(kk), symbolic::integer(kk), symbolic::integer(n), symbolic::integer(n)
        );
        symbolic::MultiExpression z = {symbolic::integer(0)};
        b.add_computational_memlet(blk, a, g, "__A", z, desc);
        b.add_computational_memlet(blk, x, g, "__B", z, desc);
        b.add_computational_memlet(blk, c, g, "__C", z, desc);
        b.add_computational_memlet(blk, al, g, "__alpha", {}, sc);
        b.add_computational_memlet(blk, be, g, "__beta", {}, sc);
        b.add_computational_memlet(blk, g, "__C", o, z, desc);
    }
}

void add_items(builder::StructuredSDFGBuilder& b, structured_control_flow::Sequence& s, const json& items) {
    for (auto& it : items) {
        if (it.contains("b")) {
            add_block(b, s, it);
            continue;
        }
        std::string k = it["k"];
        if (k == "while") {
            auto& w = b.add_while(s);
            add_items(b, w.root(), it["body"]);
            b.add_break(w.root());
            continue;
        }
        if (k == "if") {
            auto& f = b.add_if_else(s);
            auto c = symbolic::Lt(symbolic::symbol("N"), symbolic::integer(100));
            add_items(b, b.add_case(f, c), it["body"]);
            add_items(b, b.add_case(f, symbolic::Not(c)), json::array());
            continue;
        }
        auto iv = symbolic::symbol(it["iv"].get<std::string>());
        symbolic::Expression n = it["n"].is_string() ? symbolic::Expression(symbolic::symbol(it["n"].get<std::string>())) : symbolic::Expression(symbolic::integer(it["n"].get<int>()));
        auto cond = symbolic::Lt(iv, n);
        auto up = symbolic::add(iv, symbolic::integer(1));
        if (k == "for") {
            add_items(b, b.add_for(s, iv, cond, symbolic::integer(0), up).root(), it["body"]);
            continue;
        }
        std::string sc = it.value("sched", "seq");
        structured_control_flow::ScheduleType st = structured_control_flow::ScheduleType_Sequential::create();
        if (sc == "omp") st = omp::ScheduleType_OMP::create();
        if (sc == "hwy") st = highway::ScheduleType_Highway::create();
        if (sc == "cuda") st = cuda::ScheduleType_CUDA::create();
        add_items(b, b.add_map(s, iv, cond, symbolic::integer(0), up, st).root(), it["body"]);
    }
}

std::unique_ptr<builder::StructuredSDFGBuilder> build_program(const json& p) {
    auto b = std::make_unique<builder::StructuredSDFGBuilder>(p["name"].get<std::string>(), FunctionType_CPU);
    b->add_container("N", i64(), true);
    types::Pointer arr(f64());
    for (auto* a : {"A0", "A1", "A2", "__daisy_cuda_A0"}) b->add_container(a, arr, true);
    types::Pointer farr(f32());
    for (auto* a : {"F0", "F1", "F2"}) b->add_container(a, farr, true);
    for (auto* t : {"t0", "t1", "t2", "t3"}) b->add_container(t, f64());
    for (auto* i : {"i0", "i1", "i2", "i3"}) b->add_container(i, i64());
    if (p.value("struct", false)) {
        auto& def = b->add_structure("Pair", false);
        def.add_member(f64());
        def.add_member(i64());
        b->add_container("P", types::Pointer(types::Structure("Pair")), true);
    }
    add_items(*b, b->subject().root(), p["items"]);
    return b;
}

json serialize(const StructuredSDFG& s) {
    serializer::JSONSerializer x;
    return x.serialize(s);
}

// ---- the simulated compiler and linker -------------------------------------------------------------------------
bool sh_split(const std::string& c, std::vector<std::string>& out) { // false: not a plain command
    std::string cur;
    bool in = false;
    for (size_t i = 0; i < c.size(); i++) {
        char x = c[i];
        if (x == '\'') {
            in = true;
            while (++i < c.size() && c[i] != '\'') cur += c[i];
            if (i >= c.size()) return false;
        } else if (x == '"') {
            in = true;
            while (++i < c.size() && c[i] != '"') {
                if (c[i] == '\\' && i + 1 < c.size() && strchr("\\\"$`", c[i + 1])) i++;
                else if (c[i] == '$' || c[i] == '`') return false;
                cur += c[i];
            }
            if (i >= c.size()) return false;
        } else if (x == '\\') {
            in = true;
            if (++i < c.size()) cur += c[i];
        } else if (x == ' ' || x == '\t') {
            if (in) out.push_back(cur);
            cur.clear();
            in = false;
        } else if (strchr(";&|<>()$`*?#~\n!{}[]", x)) {
            return false;
        } else {
            in = true;
            cur += x;
        }
    }
    if (in) out.push_back(cur);
    return !out.empty();
}

bool tool_read(const std::string& p, std::string& out) { // over the simulated disk
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return false;
    char buf[4096];
    for (;;) {
        ssize_t n = read(fd, buf, sizeof buf);
        if (n < 0 && errno == EINTR) continue;
        if (n < 0) {
            close(fd);
            return false;
        }
        if (n == 0) break;
        out.append(buf, (size_t) n);
    }
    close(fd);
    return true;
}
bool tool_write(const std::string& p, const std::string& d, size_t limit) {
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755);
    if (fd < 0) return false;
    size_t n = std::min(limit, d.size());
    for (size_t o = 0; o < n;) {
        ssize_t k = write(fd, d.data() + o, n - o);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) {
            close(fd);
            unlink(p.c_str());
            return false;
        }
        o += (size_t) k;
    }
    if (close(fd) != 0) {
        unlink(p.c_str());
        return false;
    }
    return n == d.size();
}

bool balanced(const std::string& t) {
    std::string st;
    for (size_t i = 0; i < t.size(); i++) {
        char c = t[i];
        if (c == '"' || c == '\'') {
            char q = c;
            while (++i < t.size() && t[i] != q && t[i] != '\n')
                if (t[i] == '\\') i++;
            if (i >= t.size() || t[i] != q) return false;
        } else if (c == '/' && i + 1 < t.size() && t[i + 1] == '/') {
            while (i < t.size() && t[i] != '\n') i++;
        } else if (strchr("({[", c)) {
            st += c;
        } else if (strchr(")}]", c)) {
            if (st.empty() || st.back() != (c == ')' ? '(' : c == '}' ? '{' : '[')) return false;
            st.pop_back();
        }
    }
    return st.empty();
}

bool has_opt(const std::vector<std::string>& v, const std::string& o) {
    for (auto& x : v)
        if (x == o) return true;
    return false;
}

// exit status of the tool (not the wait status)
int tool_main(const std::vector<std::string>& a, size_t limit) {
    fs::path prog(a[0]);
    std::string pn = prog.filename().string();
    bool riscv = pn.find("riscv") == 0;
    if (pn.find("clang") == std::string::npos && pn.find("g++") == std::string::npos && pn.find("gcc") == std::string::npos && pn.find("c++") == std::string::npos) return 127;
    std::vector<std::string> in, flags, libs;
    std::string out, lang;
    bool c = false, shared = false;
    for (size_t i = 1; i < a.size(); i++) {
        auto& x = a[i];
        if (x == "-o" && i + 1 < a.size()) out = a[++i];
        else if (x == "-x" && i + 1 < a.size()) lang = a[++i];
        else if ((x == "-T" || x == "-isystem" || x == "-I" || x == "-L") && i + 1 < a.size()) flags.push_back(x + a[++i]);
        else if (x == "-c") c = true;
        else if (x == "-shared") shared = true;
        else if (x.rfind("-l", 0) == 0) libs.push_back(x);
        else if (x[0] == '-') flags.push_back(x);
        else if (x.rfind("/usr/", 0) == 0 || x.rfind("/opt/", 0) == 0) libs.push_back(x);
        else in.push_back(x);
    }
    if (!lang.empty()) flags.push_back("-x " + lang);
    if (out.empty() || in.empty()) return 1;
    if (c || riscv) {
        if (c && in.size() != 1) return 1;
        fs::path src(in[0]);
        std::string ext = src.extension().string(), text;
        if (ext != ".cpp" && ext != ".cu" && ext != ".c" && ext != ".cc") {
            // "linker input unused": a warning, and nothing is made
            struct stat st;
            return stat(in[0].c_str(), &st) == 0 ? 0 : 1;
        }
        if (!tool_read(in[0], text)) return 1;
        json hdr = json::object();
        for (size_t p = text.find("#include \""); p != std::string::npos; p = text.find("#include \"", p + 1)) {
            size_t e = text.find('"', p + 10);
            if (e == std::string::npos) return 1;
            std::string h = text.substr(p + 10, e - p - 10), ht;
            if (h.find('/') != std::string::npos) continue; // of an installed library
            if (!tool_read((src.parent_path() / h).string(), ht)) {
                if (riscv) continue;
                return 1;
            }
            if (!balanced(ht)) return 1;
            hdr[h] = ht;
        }
        if (!balanced(text)) return 1;
        json o = {{"kind", riscv ? "elf" : "obj"}, {"src", text}, {"name", src.filename().string()}, {"hdr", hdr}, {"flags", flags}, {"libs", libs}};
        return tool_write(out, dump(o), limit) ? 0 : 1;
    }
    if (!shared) return 1;
    json objs = json::array();
    for (auto& f : in) {
        std::string t;
        if (!tool_read(f, t)) return 1;
        json o = json::parse(t, nullptr, false);
        if (o.is_discarded() || !o.is_object() || o.value("kind", "") != "obj") return 1;
        objs.push_back(o);
    }
    json o = {{"kind", "lib"}, {"objs", objs}, {"flags", flags}, {"libs", libs}};
    return tool_write(out, dump(o), limit) ? 0 : 1;
}

} // namespace

extern "C" int system(const char* cmd) {
    if (!sim::active()) return -1;
    if (!cmd) return 1;
    sim::advance(200 * 1000 * 1000);
    sim::point(7);
    std::string how;
    size_t limit = SIZE_MAX;
    {
        sim::Quiet q;
        g_tool_n++;
        for (auto& t : (*g_s)["tools"])
            if (t["nth"] == g_tool_n) how = t["how"], limit = t.value("limit", (size_t) 0);
    }
    std::vector<std::string> a;
    bool plain = sh_split(cmd, a);
    g_cmds.push_back({{"cmd", cmd}, {"plain", plain}});
    if (!how.empty()) g_tool_fired++;
    if (how == "fork") {
        errno = EAGAIN;
        return -1;
    }
    if (how == "notfound") return 127 << 8;
    if (how == "exit1") return 1 << 8; // the compiler refuses without touching anything
    if (!plain) return 2 << 8;
    if (how == "killed" || how == "shkilled") { // died while writing its output
        tool_main(a, limit);
        return how == "killed" ? SIGKILL : 137 << 8;
    }
    return tool_main(a, SIZE_MAX) << 8;
}

extern "C" int dladdr(const void* addr, Dl_info* info) {
    static int (*real)(const void*, Dl_info*) = (int (*)(const void*, Dl_info*)) dlsym(RTLD_NEXT, "dladdr");
    if (!sim::active()) return real(addr, info);
    memset(info, 0, sizeof *info);
    if (++g_dl_n == (*g_s).value("dlfail", 0)) {
        g_dl_fired++;
        return 0;
    }
    static std::string where;
    where = (*g_s)["site"].get<std::string>() + "/docc/sdfg/_sdfg.so";
    info->dli_fname = where.c_str();
    return 1;
}

namespace {

// ---- what a build must amount to --------------------------------------------------------------------------------
struct Expected {
    std::string error; // code cannot be generated at all
    std::string source, header;
    std::map<std::string, std::pair<std::string, std::string>> files; // snippet -> extension, text
    std::vector<std::string> pieces_src, pieces_hdr;
};

std::unique_ptr<StructuredSDFG> copy_of(const StructuredSDFG& s) {
    serializer::JSONSerializer x;
    json j = x.serialize(s);
    return x.deserialize(j);
}

template<typename G>
void generated(G& gen, Expected& e, codegen::CodeSnippetFactory& fac, const std::string& name) {
    std::string d = g_scratch + "/.ref";
    fs::create_directories(d);
    fs::path h = d + "/" + name + ".h", s = d + "/" + name + ".src";
    if (!gen.as_source(h, s)) throw std::runtime_error("reference source cannot be written");
    e.header = Harness::slurp(h.string());
    e.source = Harness::slurp(s.string());
    e.pieces_hdr = {gen.includes().str(), gen.classes().str()};
    e.pieces_src = {gen.globals().str(), gen.function_definition(), gen.main().str()};
    for (auto& [n, sn] : fac.snippets())
        if (sn.is_as_file()) e.files[n] = {sn.extension(), sn.stream().str()};
}

Expected expect(const StructuredSDFG& prog, const std::string& folder, const std::string& instr, bool cap, const std::string& gen = "cpp", bool expand = true) {
    Expected e;
    sim::disable_here();
    try {
        auto s = copy_of(prog);
        analysis::AnalysisManager am(*s);
        if (expand) {
            builder::StructuredSDFGBuilder b(*s);
            passes::Pipeline::expansion().run(b, am);
        }
        std::unique_ptr<codegen::InstrumentationPlan> ip;
        if (instr.empty()) ip = codegen::InstrumentationPlan::none(*s);
        else if (instr == "ols") ip = codegen::InstrumentationPlan::outermost_loops_plan(*s);
        else throw std::runtime_error("unknown instrumentation");
        auto cp = cap ? codegen::ArgCapturePlan::outermost_loops_plan(*s) : codegen::ArgCapturePlan::none(*s);
        std::pair<fs::path, fs::path> lc = {folder, fs::path(folder) / (s->name() + ".h")};
        auto fac = std::make_shared<codegen::CodeSnippetFactory>(&lc);
        if (gen == "cpp") {
            codegen::CPPCodeGenerator g(*s, am, *ip, *cp, fac);
            g.generate();
            generated(g, e, *fac, s->name());
        } else if (gen == "c") {
            codegen::CCodeGenerator g(*s, am, *ip, *cp, fac);
            g.generate();
            generated(g, e, *fac, s->name());
        }
    } catch (std::exception& x) {
        e.error = x.what();
        if (e.error.empty()) e.error = "?";
    }
    sim::enable_here(0);
    return e;
}

void bad(json& o, const char* prop, const char* cls, const std::string& msg) { o["bad"].push_back({prop, cls, msg}); }

bool contains_all(const std::string& t, const std::vector<std::string>& ps) {
    for (auto& p : ps)
        if (t.find(p) == std::string::npos) return false;
    return true;
}
bool has_flag(const json& v, const std::string& f) {
    for (auto& x : v)
        if (x == f) return true;
    return false;
}
std::string diff_at(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return "at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + " (" + std::to_string(b.size()) + " expected)";
}

// The generator is free to order arguments and local variables (they come from unordered sets): texts are compared as the
// lines they consist of, lines as the parts they consist of.
std::string canon(const std::string& t) {
    std::vector<std::string> lines;
    std::string line;
    auto flush = [&] {
        std::vector<std::string> parts(1);
        for (char c : line)
            if (strchr(",()", c)) parts.emplace_back();
            else if (c != ' ') parts.back() += c;
        std::sort(parts.begin(), parts.end());
        std::string o;
        for (auto& x : parts) o += x + "\x01";
        lines.push_back(o);
        line.clear();
    };
    for (char c : t)
        if (c == '\n') flush();
        else line += c;
    flush();
    std::sort(lines.begin(), lines.end());
    std::string o;
    for (auto& l : lines) o += l + "\n";
    return o;
}
bool same_code(const std::string& a, const std::string& b) { return a.size() == b.size() && (a == b || canon(a) == canon(b)); }

// the argument lists of all declarations, definitions and calls of a function
void arg_lists(const std::string& t, const std::string& fn, std::set<std::vector<std::string>>& out) {
    auto ident = [](char c) { return isalnum((unsigned char) c) || c == '_'; };
    for (size_t p = t.find(fn); p != std::string::npos; p = t.find(fn, p + 1)) {
        size_t q = p + fn.size();
        if ((p && ident(t[p - 1])) || q >= t.size() || ident(t[q])) continue;
        if (t.compare(q, 3, "<<<") == 0) {
            q = t.find(">>>", q);
            if (q == std::string::npos) continue;
            q += 3;
        }
        if (q >= t.size() || t[q] != '(') continue;
        std::vector<std::string> v(1);
        int depth = 1;
        for (q++; q < t.size() && depth; q++) {
            char c = t[q];
            if (strchr("([{<", c)) depth++;
            if (strchr(")]}>", c)) depth--;
            if (!depth) break;
            if (c == ',' && depth == 1) v.emplace_back();
            else v.back() += c;
        }
        for (auto& x : v) {
            while (!x.empty() && !ident(x.back())) x.pop_back();
            size_t b = x.size();
            while (b && ident(x[b - 1])) b--;
            x = x.substr(b);
        }
        out.insert(v);
    }
}

// the text of a string literal that follows `before`
bool literal(const std::string& t, const std::string& before, std::string& out) {
    size_t p = t.find(before);
    if (p == std::string::npos) return false;
    p += before.size();
    out.clear();
    if (p >= t.size() || t[p] != '"') return true;
    for (p++; p < t.size() && t[p] != '"'; p++) {
        if (t[p] != '\\') {
            out += t[p];
            continue;
        }
        if (++p >= t.size()) break;
        if (t[p] >= '0' && t[p] <= '7') {
            int v = 0, k = 0;
            while (k < 3 && p < t.size() && t[p] >= '0' && t[p] <= '7') v = v * 8 + (t[p] - '0'), p++, k++;
            p--;
            out += (char) v;
        } else out += t[p] == 'n' ? '\n' : t[p] == 't' ? '\t' : t[p] == 'r' ? '\r' : t[p];
    }
    return true;
}

// W01: what lies in the folder after compile() returned
void judge_build(json& o, const json& op, const Expected& e, const std::string& name, const std::string& lib, const StructuredSDFG& prog) {
    std::string folder = op["folder"];
    std::string target = op["target"];
    if (fs::path(lib).lexically_normal() != (fs::path(folder) / ("lib" + name + ".so")).lexically_normal()) return bad(o, "W01", "path", "compile() names " + lib);
    bool ok = false;
    json l = json::parse(raw_read(lib, &ok), nullptr, false);
    if (!ok) return bad(o, "W01", "no_library", "the library reported does not exist");
    if (l.is_discarded() || l.value("kind", "") != "lib") return bad(o, "W01", "broken_library", "the library reported is incomplete");
    std::set<std::string> seen;
    size_t want = 1;
    bool hwy = false, cu = false, onnxr = false, et = false;
    for (auto& [n, f] : e.files) {
        std::string ext = f.first;
        if (ext == "cpp" || ext == "cu") want++;
        hwy |= n.rfind("highway_", 0) == 0;
        cu |= ext == "cu";
        if (ext == "onnx.json") {
            onnxr = true;
            std::string t = raw_read(folder + "/" + n + "." + ext, &ok);
            if (!ok || !same_code(t, f.second + "\n")) bad(o, "W01", "model", "the model " + n + " is " + (ok ? "incomplete or outdated " + diff_at(t, f.second + "\n") : "missing"));
        }
        if (ext == "et.cpp") {
            et = true;
            json k = json::parse(raw_read(folder + "/" + n + ".elf", &ok), nullptr, false);
            if (!ok || k.is_discarded() || k.value("kind", "") != "elf" || !same_code(k["src"], f.second + "\n")) bad(o, "W01", "kernel", "the device kernel " + n + " is not the current one");
        }
    }
    for (auto& ob : l["objs"]) {
        std::string n = ob["name"], src = ob["src"];
        if (!seen.insert(n).second) bad(o, "W01", "twice", n + " is linked twice");
        std::string text;
        if (n == name + ".cpp") text = e.source;
        else {
            auto it = e.files.find(fs::path(n).stem().string());
            if (it == e.files.end() || n != it->first + "." + it->second.first) {
                bad(o, "W01", "foreign_code", n + " is linked but not part of the program");
                continue;
            }
            text = it->second.second + "\n";
        }
        if (!same_code(src, text)) bad(o, "W01", "not_the_code", n + " was not compiled from the program's complete code: it differs " + diff_at(src, text));
        for (auto& [h, ht] : ob["hdr"].items())
            if (h != name + ".h") bad(o, "W01", "foreign_header", n + " includes " + h);
            else if (!same_code(ht, e.header)) bad(o, "W01", "not_the_code", n + " was compiled with a header that is not the program's: it differs " + diff_at(ht, e.header));
        if (!ob["hdr"].contains(name + ".h")) bad(o, "W01", "no_header", n + " was compiled without the program's header");
        if (!has_flag(ob["flags"], "-fPIC")) bad(o, "W01", "flags", n + " is not position independent");
        if (target == "cuda" && !has_flag(ob["flags"], "-x cuda")) bad(o, "W01", "flags", n + " is not compiled as CUDA code");
        if (src.find("#pragma omp") != std::string::npos && !has_flag(ob["flags"], "-fopenmp")) bad(o, "W01", "openmp", n + " has parallel loops but is compiled without OpenMP: they run sequentially");
    }
    // the parts have to agree on how they call each other
    for (auto& [n, f] : e.files) {
        if (f.first != "cpp" && f.first != "cu") continue;
        std::set<std::vector<std::string>> lists;
        for (auto& ob : l["objs"])
            if (ob["name"] == name + ".cpp" || ob["name"] == n + "." + f.first) arg_lists(ob["src"], n, lists);
        if (lists.size() > 1) bad(o, "W01", "arguments", n + " is called with its arguments in another order");
    }
    // where the program will write what it records
    for (auto& ob : l["objs"]) {
        std::string src = ob["src"], lit;
        auto path = [&](const std::string& before, const std::string& key) {
            auto it = prog.metadata().find(key);
            if (literal(src, before, lit) && lit != (it == prog.metadata().end() ? "" : it->second)) bad(o, "W01", "path", "the program is built with " + key + " " + lit);
        };
        if (literal(src, "load_kernel_binary_blocking(et_stream, ", lit) && fs::path(lit).lexically_normal() != fs::path(folder).lexically_normal()) bad(o, "W01", "path", "the device kernels are looked for in " + lit);
        path("__daisy_capture_init(\"" + name + "\", ", "arg_capture_path");
        for (auto* k : {"sdfg_file", "arg_capture_path", "features_file", "opt_report_file"}) path(std::string("_md.") + k + " = ", k);
    }
    if (seen.size() != want || !seen.count(name + ".cpp")) bad(o, "W01", "missing_code", std::to_string(want) + " parts belong to the program, " + std::to_string(seen.size()) + " are linked");
    if (!contains_all(e.source, e.pieces_src) || !contains_all(e.header, e.pieces_hdr)) bad(o, "W01", "incomplete_source", "the source does not contain all the code generated");
    auto lib_needed = [&](bool need, const char* f) {
        if (need && !has_flag(l["libs"], f)) bad(o, "W01", "libs", std::string("the library is not linked with ") + f);
    };
    lib_needed(hwy, "-lhwy");
    lib_needed(e.source.find("__daisy_") != std::string::npos, "-ldaisy_rtl");
    lib_needed(op["cap"].get<bool>(), "-larg_capture_io");
    lib_needed(target == "cuda", "/usr/local/cuda/lib64/libcudart.so");
    lib_needed(target == "onnx", "-lonnxruntime");
    lib_needed(target == "etsoc", "-ldocc-rt-et");
    lib_needed(true, "-lm");
    if (e.source.find("#pragma omp") != std::string::npos && !has_flag(l["flags"], "-fopenmp")) bad(o, "W01", "openmp", "the library is not linked with OpenMP");
    (void) cu;
    (void) onnxr;
    (void) et;
}

// ---- operations ----------------------------------------------------------------------------------------------
std::map<int, std::unique_ptr<PyStructuredSDFG>> g_slots;

void mutate(std::string& t, const json& m) { // damage done to a file between two processes
    std::string k = m["m"];
    uint64_t seed = m["seed"];
    sim::Rng rng(seed);
    if (k == "truncate") t.resize(rng.below(t.size() + 1));
    else if (k == "flip" && !t.empty()) t[rng.below(t.size())] ^= (char) (1 << rng.below(7));
    else if (k == "garbage") t = rng.chance(1, 2) ? "" : "{\"a\":1}";
    else if (k == "pop") { // an element of a list is gone
        json j = json::parse(t, nullptr, false);
        if (j.is_discarded()) return;
        std::vector<json*> at;
        std::function<void(json&)> walk = [&](json& x) {
            if (x.is_array() && !x.empty()) at.push_back(&x);
            if (x.is_structured())
                for (auto& v : x) walk(v);
        };
        walk(j);
        if (at.empty()) return;
        json* a = at[rng.below(at.size())];
        a->erase(a->begin() + (long) rng.below(a->size()));
        t = j.dump(2);
    } else { // a value removed or replaced
        json j = json::parse(t, nullptr, false);
        if (j.is_discarded()) return;
        std::vector<std::pair<json*, std::string>> at;
        std::function<void(json&)> walk = [&](json& x) {
            if (x.is_object())
                for (auto& [kk, v] : x.items()) {
                    at.push_back({&x, kk});
                    walk(v);
                }
            else if (x.is_array())
                for (auto& v : x) walk(v);
        };
        walk(j);
        if (at.empty()) return;
        auto [p, key] = at[rng.below(at.size())];
        static const char* vals[] = {"null", "{}", "[]", "3", "\"x\"", "-1", "[null]", "true", "\"\""};
        if (k == "delete") p->erase(key);
        else (*p)[key] = json::parse(vals[rng.below(9)]);
        t = j.dump(2);
    }
}

// a graph's nodes and edges, and a program's structures, have no order
void normalise(json& j) {
    auto sort_by = [](json& a, const char* key) {
        std::vector<json> v(a.begin(), a.end());
        std::stable_sort(v.begin(), v.end(), [&](const json& x, const json& y) { return x.value(key, json()) < y.value(key, json()); });
        a = v;
    };
    if (j.is_object()) {
        if (j.value("type", json()) == "dataflow") {
            for (auto* k : {"nodes", "edges"})
                if (j.contains(k) && j[k].is_array()) sort_by(j[k], "element_id");
        }
        if (j.contains("structures") && j["structures"].is_array()) sort_by(j["structures"], "name");
    }
    if (j.is_structured())
        for (auto& x : j) normalise(x);
}
// what a file lists and a program read from it has; empty: the same
std::string part_of(const json& file, const json& got, const std::string& at = "") {
    if (got.is_object()) {
        if (!file.is_object()) return at + " is not there";
        for (auto* k : {"children", "transitions", "nodes", "edges", "branches", "assignments", "arguments", "externals", "structures", "containers"}) {
            size_t a = file.contains(k) && file[k].is_structured() ? file[k].size() : 0, b = got.contains(k) && got[k].is_structured() ? got[k].size() : 0;
            if (a != b) return at + "/" + k + ": " + std::to_string(a) + " in the file, " + std::to_string(b) + " in the program";
        }
        for (auto* k : {"root", "dataflow"})
            if (got.contains(k))
                if (auto e = part_of(file.value(k, json()), got[k], at + "/" + k); !e.empty()) return e;
        for (auto* k : {"children", "branches", "transitions"})
            if (got.contains(k) && got[k].is_array())
                for (size_t i = 0; i < got[k].size(); i++)
                    if (auto e = part_of(file[k][i], got[k][i], at + "/" + k + "/" + std::to_string(i)); !e.empty()) return e;
    }
    return "";
}
std::string op_text(const PyStructuredSDFG& p) {
    json j = serialize(const_cast<PyStructuredSDFG&>(p).sdfg());
    normalise(j);
    return dump(j);
}

void run_op(const json& op, json& o) {
    std::string k = op["op"];
    int slot = op.value("slot", 0);
    if (op.contains("prog")) { // a new program arrives (from the front end)
        auto b = build_program(op["prog"]);
        std::string text = dump(serialize(b->subject()));
        g_slots[slot] = std::make_unique<PyStructuredSDFG>(PyStructuredSDFG::parse(text));
    }
    if (k != "load" && !g_slots.count(slot)) {
        o["res"] = "skipped";
        return;
    }
    std::string folder = op.value("folder", "");
    int64_t f0 = fired();
    g_cmds = json::array();
    auto finish = [&](const std::string& err) {
        o["res"] = err.empty() ? "ok" : "exc: " + err;
        o["fired"] = fired() > f0;
        o["cmds"] = g_cmds.size();
        for (auto& c : g_cmds)
            if (!c["plain"].get<bool>()) bad(o, "W01", "shell", "the shell is given a command it does not read as one: " + c["cmd"].get<std::string>().substr(0, 300));
    };
    auto message = [](std::exception& x) {
        std::string m = x.what();
        return m.empty() ? std::string("(no message)") : m;
    };
    if (k == "compile") {
        auto& p = *g_slots[slot];
        std::string name = p.name();
        Expected e = expect(p.sdfg(), folder, op["instr"], op["cap"]);
        std::string lib, err;
        try {
            lib = p.compile(folder, op["target"], op["instr"], op["cap"]);
        } catch (std::exception& x) {
            err = message(x);
        }
        finish(err);
        sim::Quiet q;
        if (err.empty()) {
            if (!e.error.empty()) bad(o, "W01", "unfounded", "compile() succeeds although the code cannot be generated: " + e.error);
            else judge_build(o, op, e, name, lib, p.sdfg());
        } else if (e.error.empty() && !o["fired"].get<bool>())
            bad(o, "W01", "refused", "compile() fails although nothing went wrong: " + err);
        o["gen"] = e.error.empty();
        if (!e.error.empty()) o["gen_error"] = e.error;
    } else if (k == "dump") {
        auto& p = *g_slots[slot];
        std::string type = op["type"], err;
        if (sim::g->n_stderr > sizeof(sim::g->stderr_text) / 2) sim::g->n_stderr = 0;
        size_t err0 = sim::g->n_stderr;
        try {
            p.dump(folder, type);
        } catch (std::exception& x) {
            err = message(x);
        }
        finish(err);
        sim::Quiet q;
        std::string base = (fs::path(folder) / (p.name() + (type.empty() ? "" : "." + type))).string();
        if (err.empty()) {
            json want = serialize(p.sdfg());
            bool ok = false;
            json got = json::parse(raw_read(base + ".json", &ok), nullptr, false);
            if (!ok || got.is_discarded()) bad(o, "W02", "incomplete_dump", "dump() succeeds but " + base + ".json is " + (ok ? "incomplete" : "missing"));
            else if (got != want) bad(o, "W02", "wrong_dump", base + ".json is not the program");
            visualizer::DotVisualizer v(p.sdfg());
            v.visualize();
            std::string d = raw_read(base + ".dot", &ok);
            // the graph is a by-product: it is enough that a failure is reported
            if ((!ok || d != v.getStream().str()) && std::string(sim::g->stderr_text + err0, sim::g->n_stderr - err0).find(fs::path(base).filename().string() + ".dot") == std::string::npos)
                bad(o, "W02", "incomplete_dump", "dump() succeeds but " + base + ".dot is " + (ok ? "incomplete: " + diff_at(d, v.getStream().str()) : "missing"));
            if (p.metadata("sdfg_file") != base + ".json") bad(o, "W02", "metadata", "the program says its file is " + p.metadata("sdfg_file"));
        } else if (!o["fired"].get<bool>())
            bad(o, "W02", "refused", "dump() fails although nothing went wrong: " + err);
    } else if (k == "load") {
        std::string file = op["file"], err;
        std::string real = g_scratch + file.substr(8);
        bool ok = false;
        std::string text = raw_read(file, &ok);
        if (ok && op.contains("mut")) {
            mutate(text, op["mut"]);
            raw_write(real, text);
        }
        std::unique_ptr<PyStructuredSDFG> p;
        try {
            p = std::make_unique<PyStructuredSDFG>(PyStructuredSDFG::from_file(file));
        } catch (std::exception& x) {
            err = message(x);
        }
        finish(err);
        bool fd = o["fired"];
        std::string ref, ref_err; // the same text without a disk
        try {
            ref = op_text(PyStructuredSDFG::parse(text));
        } catch (std::exception& x) {
            ref_err = message(x);
        }
        if (!ok) ref_err = "no such file";
        o["there"] = ok;
        if (err.empty()) {
            if (!ref_err.empty()) bad(o, "W02", "unfounded", "a program is read although the file holds none: " + ref_err);
            else if (std::string got = op_text(*p); got != ref) bad(o, "W02", "wrong_program", "the program read is not the one in the file: " + dump(json::diff(json::parse(ref), json::parse(got))).substr(0, 300));
            else if (json fj = json::parse(text, nullptr, false); !fj.is_discarded())
                if (std::string e = part_of(fj, json::parse(got)); !e.empty()) bad(o, "W02", "part", "the program read is not all of the file's: " + e);
            if (op.value("keep", true)) g_slots[slot] = std::move(p);
        } else if (ref_err.empty() && !fd)
            bad(o, "W02", "refused", "an intact file cannot be read: " + err);
    } else if (k == "record") { // transformations applied, recorded and saved
        auto s = copy_of(g_slots[slot]->sdfg());
        builder::StructuredSDFGBuilder b(*s);
        analysis::AnalysisManager am(*s);
        transformations::Recorder rec;
        for (auto& t : op["tiles"]) {
            auto loops = am.get<analysis::LoopAnalysis>().outermost_loops();
            if (loops.empty()) break;
            auto* l = dynamic_cast<structured_control_flow::StructuredLoop*>(loops[t[0].get<size_t>() % loops.size()]);
            if (l) rec.apply<transformations::LoopTiling>(b, am, true, *l, t[1].get<size_t>());
        }
        std::string err, file = op["file"];
        try {
            rec.save(file);
        } catch (std::exception& x) {
            err = message(x);
        }
        finish(err);
        sim::Quiet q;
        if (err.empty()) {
            bool ok = false;
            json got = json::parse(raw_read(file, &ok), nullptr, false);
            if (!ok || got.is_discarded() || got != rec.get_history()) bad(o, "W02", "incomplete_recipe", "save() succeeds but the file is " + std::string(ok ? "incomplete" : "missing"));
        } else if (!o["fired"].get<bool>() && op.value("dir_there", true))
            bad(o, "W02", "refused", "save() fails although nothing went wrong: " + err);
    } else if (k == "source") { // a generator used directly
        auto s = copy_of(g_slots[slot]->sdfg());
        std::string gen = op["gen"], name = s->name();
        Expected e = expect(*s, folder, op["instr"], op["cap"], gen, false);
        if (!e.error.empty()) {
            o["res"] = "skipped";
            return;
        }
        std::string err;
        bool good = false, lost = false;
        fs::path h = fs::path(folder) / (name + ".h"), c = fs::path(folder) / (name + "." + gen);
        std::map<std::string, std::string> written;
        try {
            analysis::AnalysisManager am(*s);
            auto ip = op["instr"] == "ols" ? codegen::InstrumentationPlan::outermost_loops_plan(*s) : codegen::InstrumentationPlan::none(*s);
            auto cp = op["cap"].get<bool>() ? codegen::ArgCapturePlan::outermost_loops_plan(*s) : codegen::ArgCapturePlan::none(*s);
            std::pair<fs::path, fs::path> lc = {folder, h};
            auto fac = std::make_shared<codegen::CodeSnippetFactory>(&lc);
            std::unique_ptr<codegen::CodeGenerator> g;
            if (gen == "cpp") g = std::make_unique<codegen::CPPCodeGenerator>(*s, am, *ip, *cp, fac);
            else g = std::make_unique<codegen::CCodeGenerator>(*s, am, *ip, *cp, fac);
            g->generate();
            good = g->as_source(h, c);
            if (good && op["snippets"].get<bool>()) {
                std::unordered_map<std::string, std::vector<fs::path>> post;
                good = cuda_offloading_codegen::write_library_snippets_to_files(folder, {}, fac->snippets(), post, op["ending"]);
                size_t n = 0;
                for (auto& [sn, f] : e.files) n += f.first == op["ending"].get<std::string>();
                if (good && (post.count(op["ending"]) ? post[op["ending"]].size() : 0) != n) lost = true;
                if (good)
                    for (auto& [sn, f] : e.files) written[folder + "/" + sn + "." + f.first] = f.second + "\n";
            }
        } catch (std::exception& x) {
            err = message(x);
        }
        if (err.empty() && !good) err = "(false)";
        finish(err);
        sim::Quiet q;
        if (err.empty()) {
            bool ok = false;
            std::string t = raw_read(h.string(), &ok);
            if (!ok || !same_code(t, e.header)) bad(o, "W02", "incomplete_source", "as_source() succeeds but the header is not complete " + diff_at(t, e.header));
            t = raw_read(c.string(), &ok);
            if (!ok || !same_code(t, e.source)) bad(o, "W02", "incomplete_source", "as_source() succeeds but the source is not complete " + diff_at(t, e.source));
            for (auto& [f, x] : written) {
                t = raw_read(f, &ok);
                if (!ok || !same_code(t, x)) bad(o, "W02", "incomplete_source", "the library file " + f + " is reported as written but not complete " + diff_at(t, x));
            }
            if (lost) bad(o, "W02", "lost_file", "not every library file is named for further processing");
        } else if (!o["fired"].get<bool>() && op.value("dir_there", true))
            bad(o, "W02", "refused", "the source is not written although nothing went wrong: " + err);
    }
}

void child_native() {
    const json& s = *g_s;
    long null = sim::raw(SYS_openat, AT_FDCWD, (long) "/dev/null", O_WRONLY, 0);
    sim::raw(SYS_dup2, null, 1); // the library talks a lot
    if (!getenv("SIM_DEBUG")) sim::raw(SYS_dup2, null, 2);
    static plugins::Context ctx = plugins::Context::global_context();
    codegen::register_default_dispatchers();
    serializer::register_default_serializers();
    omp::register_omp_plugin();
    onnx::register_onnx_plugin();
    highway::register_highway_plugin();
    cuda::register_cuda_plugin();
    docc::target::et::register_plugin(ctx);
    g_hist = {{"ops", json::array()}};
    for (size_t i = 0; i < s["ops"].size(); i++) {
        auto& op = s["ops"][i];
        json& o = g_hist["ops"].emplace_back(json{{"bad", json::array()}});
        save_hist();
        try {
            run_op(op, o);
        } catch (std::exception& e) {
            o["harness"] = e.what(); // the harness itself
        }
        save_hist();
    }
    g_hist["finished"] = true;
    save_hist();
}

} // namespace

class NativeHarness : public Harness {
public:
    // ---- generation ----------------------------------------------------------------------------------------------
    json gen_items(sim::Rng& rng, int depth, const std::string& iv, int& budget, const std::string& target, bool kernel) {
        json items = json::array();
        static const char* ivs[] = {"i0", "i1", "i2", "i3"};
        static const char* ts[] = {"t0", "t1", "t2", "t3"};
        static const char* as[] = {"A0", "A1", "A2"};
        int n = 1 + (int) rng.below(depth == 0 ? 4 : 3);
        for (int i = 0; i < n; i++) {
            int what = (int) rng.below(10);
            if (!kernel && budget > 0 && depth < 3 && (depth == 0 ? what < 8 : what < 4)) {
                budget--;
                json it;
                int k = (int) rng.below(12);
                it["k"] = k < 7 ? "map" : k < 10 ? "for" : k == 10 ? "while" : "if";
                std::string v = ivs[depth];
                it["iv"] = v;
                if (rng.chance(1, 2)) it["n"] = "N";
                else it["n"] = 1 + rng.below(200);
                if (it["k"] == "map") {
                    int x = (int) rng.below(10);
                    if (x < (target == "cuda" ? 2 : 4)) { // a vectorised innermost loop
                        it["sched"] = "hwy";
                        json body = json::array();
                        for (int q = 1 + (int) rng.below(2); q > 0; q--) body.push_back({{"b", "axpy"}, {"A", as[rng.below(3)]}, {"t", ts[rng.below(4)]}, {"i", v}});
                        it["body"] = body;
                        items.push_back(it);
                        continue;
                    }
                    if (x < 7 && target != "cuda") it["sched"] = "omp";
                    if (x < 6 && target == "cuda") {
                        it["sched"] = "cuda";
                        it["body"] = json::array({{{"b", "axpy"}, {"A", "__daisy_cuda_A0"}, {"t", ts[rng.below(4)]}, {"i", v}}});
                        items.push_back(it);
                        continue;
                    }
                }
                std::string inner = it["k"] == "map" || it["k"] == "for" ? v : iv;
                it["body"] = gen_items(rng, depth + 1, inner, budget, target, kernel);
                items.push_back(it);
            } else if (depth < 2 && rng.chance(target == "onnx" || target == "etsoc" ? 2 : 0, 3)) {
                items.push_back({{"b", "gemm"}, {"impl", target == "onnx" ? "onnx" : "et"}, {"m", 1 + rng.below(40)}, {"n", 1 + rng.below(40)}, {"k", 1 + rng.below(40)}});
            } else if (depth < 2 && rng.chance(1, 10)) {
                items.push_back({{"b", "gemm"}, {"impl", "blas"}, {"m", 1 + rng.below(40)}, {"n", 1 + rng.below(40)}, {"k", 1 + rng.below(40)}});
            } else if (!iv.empty() && rng.chance(2, 3)) {
                items.push_back({{"b", "axpy"}, {"A", as[rng.below(3)]}, {"t", ts[rng.below(4)]}, {"i", iv}});
            } else {
                items.push_back({{"b", "set"}, {"t", ts[rng.below(4)]}, {"c", std::to_string(rng.below(9)) + ".5"}});
            }
        }
        return items;
    }
    // the same program with other numbers and scalars of the same length: its files have the same size
    void tweak(sim::Rng& rng, json& j) {
        if (j.is_object()) {
            if (j.contains("t") && rng.chance(1, 2)) j["t"] = "t" + std::to_string(rng.below(4));
            if (j.contains("c")) j["c"] = std::to_string(rng.below(9)) + ".5";
            for (auto* k : {"n", "m", "k"})
                if (j.contains(k) && j[k].is_number() && rng.chance(1, 2)) {
                    int v = j[k];
                    int lo = v < 10 ? 1 : v < 100 ? 10 : 100;
                    j[k] = lo + (int) rng.below(9 * lo);
                }
        }
        if (j.is_structured())
            for (auto& x : j) tweak(rng, x);
    }
    json gen_prog(sim::Rng& rng, const std::string& name, const std::string& target) {
        int budget = 1 + (int) rng.below(6);
        return {{"name", name}, {"struct", rng.chance(1, 5)}, {"items", gen_items(rng, 0, "", budget, target, false)}};
    }

    json gen(const std::string& prop, uint64_t seed) override {
        sim::Rng rng(seed * 1000003 + 131);
        json p;
        p["prop"] = prop;
        p["seed"] = seed;
        p["sched"] = gen_sched(rng, 1);
        bool build = prop == "W01";
        static const char* folders[] = {"/simroot/out/prog", "/simroot/out", "/simroot/DOCC-u/3f2a-prog/0a1b", "/simroot/my files/out", "/simroot/o'out", "/simroot/a;b&c", "/simroot/$HOME/x", "/simroot/q\"q", "/simroot/b\\new", "/simroot/(x)/\xc3\xa4"};
        std::vector<std::string> fl;
        for (int i = 1 + (int) rng.below(2); i > 0; i--) fl.push_back(folders[rng.chance(3, 4) ? rng.below(3) : rng.below(10)]);
        static const char* names[] = {"prog", "kernel_1", "f"};
        static const char* targets[] = {"none", "sequential", "openmp", "cuda", "onnx", "etsoc"};
        int mode = (int) rng.below(4); // how much goes wrong: nothing / one thing / several / kills
        json ses = json::array();
        int ns = mode == 3 ? 2 + (int) rng.below(2) : 1 + (int) rng.below(2);
        std::vector<std::pair<std::string, std::string>> dumped; // file, name
        std::string site = rng.chance(7, 8) ? "/simroot/site-packages" : "/simroot/site packages";
        for (int i = 0; i < ns; i++) {
            json s;
            s["type"] = "native";
            s["site"] = site;
            s["ops"] = json::array();
            s["faults"] = json::array();
            s["tools"] = json::array();
            int no = 1 + (int) rng.below(4);
            std::vector<std::string> tgt(3);
            json last[3];
            for (int k = 0; k < no; k++) {
                int slot = (int) rng.below(2);
                json op;
                std::string folder = fl[rng.below(fl.size())];
                auto prog = [&] {
                    if (tgt[slot].empty() || rng.chance(1, 3)) {
                        tgt[slot] = targets[rng.below(6)];
                        op["prog"] = gen_prog(rng, names[rng.chance(2, 3) ? 0 : rng.below(3)], tgt[slot]);
                        last[slot] = op["prog"];
                    }
                };
                auto add = [&](const std::string& what) {
                    op["op"] = what;
                    op["slot"] = slot;
                    op["folder"] = folder;
                    s["ops"].push_back(op);
                    op = json::object();
                };
                prog();
                if (build) {
                    if (rng.chance(4, 5)) {
                        op["type"] = rng.chance(1, 2) ? "" : "post_sched";
                        add("dump");
                    }
                    op["target"] = tgt[slot];
                    op["instr"] = rng.chance(1, 30) ? "bogus" : rng.chance(1, 3) ? "ols" : "";
                    op["cap"] = rng.chance(1, 4);
                    add("compile");
                    if (rng.chance(1, 4)) { // once more, with other options
                        op["target"] = tgt[slot];
                        op["instr"] = rng.chance(1, 3) ? "ols" : "";
                        op["cap"] = rng.chance(1, 4);
                        if (rng.chance(1, 3)) folder = fl[rng.below(fl.size())];
                        if (rng.chance(1, 2)) {
                            tweak(rng, last[slot]);
                            op["prog"] = last[slot];
                        }
                        add("compile");
                    }
                    continue;
                }
                int what = (int) rng.below(10);
                if (what < 4) {
                    static const char* types[] = {"", "py0.expanded", "py4.post_sched"};
                    op["type"] = types[rng.below(3)];
                    std::string nm = op.contains("prog") ? op["prog"]["name"].get<std::string>() : "prog";
                    dumped.push_back({(fs::path(folder) / (nm + (op["type"] == "" ? "" : "." + op["type"].get<std::string>()) + ".json")).string(), nm});
                    add("dump");
                } else if (what < 7) {
                    if (op.contains("prog")) { // the slot has to have something
                        json d = op;
                        d["op"] = "dump";
                        d["slot"] = slot;
                        d["folder"] = folder;
                        d["type"] = "";
                        s["ops"].push_back(d);
                        dumped.push_back({(fs::path(folder) / (d["prog"]["name"].get<std::string>() + ".json")).string(), ""});
                        op = json::object();
                    }
                    op["file"] = dumped.empty() || rng.chance(1, 12) ? folder + "/none.json" : dumped[rng.below(dumped.size())].first;
                    if (mode && rng.chance(1, 2)) {
                        static const char* ms[] = {"truncate", "truncate", "flip", "garbage", "delete", "delete", "replace", "replace", "replace", "pop", "pop"};
                        op["mut"] = {{"m", ms[rng.below(11)]}, {"seed", rng.below(1u << 30)}};
                        op["keep"] = false;
                    }
                    add("load");
                } else if (what < 8) {
                    op["file"] = "/simroot/recipe" + std::to_string(rng.below(2)) + ".json";
                    op["tiles"] = json::array();
                    for (int q = (int) rng.below(4); q > 0; q--) op["tiles"].push_back({rng.below(4), 2 << rng.below(6)});
                    add("record");
                } else {
                    folder = "/simroot";
                    op["gen"] = rng.chance(2, 3) ? "cpp" : "c";
                    op["instr"] = rng.chance(1, 3) ? "ols" : "";
                    op["cap"] = rng.chance(1, 4);
                    op["snippets"] = rng.chance(1, 2);
                    op["ending"] = rng.chance(1, 2) ? "cpp" : "cu";
                    json again = op;
                    add("source");
                    if (rng.chance(1, 3)) {
                        tweak(rng, last[slot]);
                        op = again;
                        op["prog"] = last[slot];
                        add("source");
                    }
                }
            }
            static const char* ek[] = {"enospc", "eio", "eacces", "emfile", "enoent"};
            auto file_fault = [&] {
                json& f = s["faults"];
                int span = build ? 14 : 8;
                switch (rng.below(build ? 8 : 10)) {
                    case 0: f.push_back({{"kind", ek[rng.below(5)]}, {"op", "open_write"}, {"nth", 1 + rng.below(span)}}); break;
                    case 1: case 2: f.push_back({{"kind", ek[rng.below(2)]}, {"op", "write"}, {"nth", 1 + rng.below(span)}}); break;
                    case 3: f.push_back({{"kind", ek[rng.below(2)]}, {"op", "close"}, {"nth", 1 + rng.below(span)}}); break;
                    case 4: f.push_back({{"kind", ek[rng.below(5)]}, {"op", "mkdir"}, {"nth", 1 + rng.below(4)}}); break;
                    case 5: f.push_back({{"kind", "diskfull"}, {"arg", rng.below(rng.chance(1, 2) ? 3000 : 60000)}}); break;
                    case 6: f.push_back({{"kind", rng.chance(1, 2) ? "short" : "eintr"}, {"op", rng.chance(1, 2) ? "write" : "read"}, {"nth", 1 + rng.below(span)}, {"arg", 1 + rng.below(500)}}); break;
                    case 7: f.push_back({{"kind", ek[rng.below(4)]}, {"op", rng.chance(1, 2) ? "open_read" : "stat"}, {"nth", 1 + rng.below(span)}}); break;
                    default: f.push_back({{"kind", rng.chance(1, 2) ? "eio" : "eof"}, {"op", "read"}, {"nth", 1 + rng.below(6)}}); break;
                }
            };
            auto tool_fault = [&] {
                static const char* hows[] = {"exit1", "killed", "shkilled", "fork", "notfound"};
                s["tools"].push_back({{"nth", 1 + rng.below(8)}, {"how", hows[rng.below(5)]}, {"limit", rng.below(2000)}});
            };
            if (mode == 1 || mode == 2)
                for (int k = mode == 1 ? 1 : 2 + (int) rng.below(3); k > 0; k--) build && rng.chance(1, 3) ? tool_fault() : file_fault();
            if (mode == 3 && i + 1 < ns) {
                s["faults"].push_back({{"kind", "crash"}, {"op", "any"}, {"nth", 1 + rng.below(60)}, {"arg", rng.below(3000)}});
                if (rng.chance(1, 3)) build && rng.chance(1, 2) ? tool_fault() : file_fault();
            }
            if (mode >= 1 && build && rng.chance(1, 25)) s["dlfail"] = 1 + rng.below(3);
            s["t0"] = rng.chance(1, 3) ? 1 + rng.below(5) : 1000 * (i + 1); // the clock may have been set back
            ses.push_back(s);
        }
        p["sessions"] = ses;
        return p;
    }

    // ---- execution ----------------------------------------------------------------------------------------------
    void execute(const json& plan, Result& r) override {
        reset_scratch();
        g_scratch = scratch;
        fs::create_directories(scratch + "/site-packages/docc/sdfg");
        fs::create_directories(scratch + "/site packages/docc/sdfg");
        for (auto* d : {"/site-packages", "/site packages"}) std::ofstream(scratch + d + "/docc/sdfg/_sdfg.so") << "x";
        std::string keep = "not the compiler's business\n";
        std::set<std::string> kept;
        r.nontrivial = false;
        for (size_t i = 0; i < plan["sessions"].size(); i++) {
            auto& s = plan["sessions"][i];
            for (auto& op : s["ops"]) { // files of others
                if (!op.contains("folder") || op["folder"] != "/simroot/out") continue;
                std::string f = scratch + "/out/keep.txt";
                if (!kept.insert(f).second) continue;
                fs::create_directories(scratch + "/out");
                std::ofstream(f) << keep;
            }
            run(plan, s, r, i);
            if (!r.error.empty()) return;
            for (auto& f : kept)
                if (slurp(f) != keep) r.add("W01", "foreign_file", "a file that is not the build's was changed");
        }
        r.sched = plan["sched"];
    }

    void run(const json& plan, const json& s, Result& r, size_t si) {
        fs::remove(scratch + "/.hist.json");
        SessionSpec spec;
        spec.sched = sched_from(plan["sched"], spec.list);
        spec.faults = faults_from(s["faults"]);
        spec.start_ns = s.value("t0", (uint64_t) 1) * 1000000000ull;
        if (getenv("SIM_DEBUG")) spec.env["SIM_DEBUG"] = "1";
        g_s = &s;
        spec.child = child_native;
        SessionOut o = session(spec, r);
        if (!r.error.empty()) return;
        auto* g = sim::g;
        bool read = false;
        json h = json::parse(slurp(scratch + "/.hist.json", &read), nullptr, false);
        for (auto& t : s["tools"]) r.count("fault_cfg:tool_" + t["how"].get<std::string>());
        std::string prop = plan["prop"];
        if (g->n_escape) r.add(prop, "escape", std::string("touches files elsewhere: ") + g->escape);
        if (!g->crashed && (o.timed_out || g->verdict || o.signaled() || o.code() != 0 || h.is_discarded() || !h.contains("finished"))) {
            std::string last = h.is_discarded() || h["ops"].empty() ? "" : " in " + s["ops"][h["ops"].size() - 1]["op"].get<std::string>();
            r.add(prop, "killed", "process " + std::to_string(si + 1) + last + ": " + o.describe() + " " + g->msg + std::string(g->stderr_text).substr(0, 300));
            return;
        }
        if (g->crashed) r.count("probe:crashed_sessions");
        if (h.is_discarded()) return;
        r.mix(dump(h));
        for (size_t i = 0; i < h["ops"].size(); i++) {
            auto& x = h["ops"][i];
            std::string where = "process " + std::to_string(si + 1) + ", operation " + std::to_string(i + 1) + ": ";
            if (x.contains("harness")) {
                r.error = where + x["harness"].get<std::string>();
                return;
            }
            std::string res = x.value("res", "unfinished");
            r.count("op:" + s["ops"][i]["op"].get<std::string>() + ":" + res.substr(0, 3) + (x.value("fired", false) ? ":fault" : ""));
            if (x.contains("gen") && x["gen"] == true) r.nontrivial = true;
            if (res != "skipped" && s["ops"][i]["op"] != "compile") r.nontrivial = true;
            for (auto& b : x["bad"]) r.add(b[0], b[1], where + b[2].get<std::string>());
        }
    }
};

int main(int argc, char** argv) {
    NativeHarness h;
    return harness_main(argc, argv, h);
}
