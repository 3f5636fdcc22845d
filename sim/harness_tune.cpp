// Simulation of remote tuning: the real scheduling pass, remote scheduler, cutout, serializer and node transformation
// (over libcurl and the simulated network) against a scripted tuning service that answers, misanswers or fails.
#include <curl/curl.h>
#include <dlfcn.h>
#include <errno.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <set>

#include "core/harness.h"
#include "core/netsim.h"
#include "sdfg/analysis/analysis.h"
#include "sdfg/analysis/loop_analysis.h"
#include "sdfg/builder/structured_sdfg_builder.h"
#include "sdfg/data_flow/library_nodes/barrier_local_node.h"
#include "sdfg/optimization_report/pass_report_consumer.h"
#include "sdfg/passes/rpc/rpc_context.h"
#include "sdfg/passes/rpc/rpc_scheduler.h"
#include "sdfg/passes/scheduler/loop_scheduling_pass.h"
#include "sdfg/serializer/json_serializer.h"
#include "sdfg/targets/omp/schedule.h"
#include "sdfg/transformations/loop_distribute.h"
#include "sdfg/transformations/loop_interchange.h"
#include "sdfg/transformations/loop_tiling.h"
#include "sdfg/transformations/out_local_storage.h"
#include "sdfg/transformations/rpc_node_transform.h"

namespace fs = std::filesystem;
using namespace sdfg;

namespace {

constexpr uint64_t SEC = 1000000000ull;
const json* g_s; // current session
std::string g_scratch;
int g_curl_nth = 0, g_curl_n = 0; // the nth handle cannot be created
bool g_curl_fired = false;
json g_block, g_scalar, g_omp; // serialised forms used by the simulated service

std::string dump(const json& j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }

// ---- programs -----------------------------------------------------------------------------------------------
types::Scalar f64() { return types::Scalar(types::PrimitiveType::Double); }
types::Scalar i64() { return types::Scalar(types::PrimitiveType::Int64); }

void add_block(builder::StructuredSDFGBuilder& b, structured_control_flow::Sequence& s, const json& j) {
    std::string k = j["b"];
    auto& blk = b.add_block(s);
    if (k == "set") { // t = c
        auto& in = b.add_constant(blk, j["c"].get<std::string>(), f64());
        auto& t = b.add_tasklet(blk, data_flow::TaskletCode::assign, "_out", {"_in"});
        auto& out = b.add_access(blk, j["t"].get<std::string>());
        b.add_computational_memlet(blk, in, t, "_in", {});
        b.add_computational_memlet(blk, t, "_out", out, {});
    } else if (k == "axpy") { // A[i] = A[i] + t
        types::Pointer desc(f64());
        symbolic::MultiExpression sub = {symbolic::symbol(j["i"].get<std::string>())};
        auto& a = b.add_access(blk, j["A"].get<std::string>());
        auto& x = b.add_access(blk, j["t"].get<std::string>());
        auto& o = b.add_access(blk, j["A"].get<std::string>());
        auto& t = b.add_tasklet(blk, data_flow::TaskletCode::fp_add, "_out", {"_in1", "_in2"});
        b.add_computational_memlet(blk, a, t, "_in1", sub, desc);
        b.add_computational_memlet(blk, x, t, "_in2", {});
        b.add_computational_memlet(blk, t, "_out", o, sub, desc);
    } else { // something that must happen as often as written
        b.add_library_node<data_flow::BarrierLocalNode>(blk, DebugInfo());
    }
}

void add_items(builder::StructuredSDFGBuilder& b, structured_control_flow::Sequence& s, const json& items) {
    for (auto& it : items) {
        if (it.contains("b")) {
            add_block(b, s, it);
            continue;
        }
        std::string k = it["k"];
        control_flow::Assignments as;
        if (it.contains("as")) as.insert({symbolic::symbol(it["as"].get<std::string>()), symbolic::integer(7)});
        if (k == "while") {
            auto& w = b.add_while(s, as);
            add_items(b, w.root(), it["body"]);
            b.add_break(w.root());
            continue;
        }
        if (k == "if") {
            auto& f = b.add_if_else(s, as);
            auto c = symbolic::Lt(symbolic::symbol("N"), symbolic::integer(100));
            add_items(b, b.add_case(f, c), it["body"]);
            add_items(b, b.add_case(f, symbolic::Not(c)), json::array());
            continue;
        }
        auto iv = symbolic::symbol(it["iv"].get<std::string>());
        symbolic::Expression n = it["n"].is_string() ? symbolic::Expression(symbolic::symbol(it["n"].get<std::string>())) : symbolic::Expression(symbolic::integer(it["n"].get<int>()));
        auto cond = symbolic::Lt(iv, n);
        auto init = symbolic::integer(0);
        auto up = symbolic::add(iv, symbolic::integer(it.value("step", 1)));
        if (k == "for") add_items(b, b.add_for(s, iv, cond, init, up, as).root(), it["body"]);
        else
            add_items(b, b.add_map(s, iv, cond, init, up, it.value("omp", false) ? omp::ScheduleType_OMP::create() : structured_control_flow::ScheduleType(structured_control_flow::ScheduleType_Sequential::create()), as).root(),
                      it["body"]);
    }
}

std::unique_ptr<builder::StructuredSDFGBuilder> build_program(const json& p) {
    auto b = std::make_unique<builder::StructuredSDFGBuilder>(p["name"].get<std::string>(), FunctionType_CPU);
    b->add_container("N", i64(), true);
    b->add_container("M", i64(), true);
    types::Pointer arr(f64());
    for (auto* a : {"A0", "A1", "A2"}) b->add_container(a, arr, true);
    int ext = p.value("ext", 0); // data of other compilation units
    for (auto* a : {"E0", "E1", "E2"}) {
        if (ext-- <= 0) b->add_container(a, arr, true);
        else b->add_external(a, arr, a[1] == '1' ? LinkageType_Internal : LinkageType_External);
    }
    for (auto* t : {"t0", "t1", "t2", "t3"}) b->add_container(t, f64());
    for (auto* t : {"tmp"}) b->add_container(t, types::Array(f64(), symbolic::integer(16)));
    for (auto* i : {"i0", "i1", "i2", "i3", "k0"}) b->add_container(i, i64());
    add_items(*b, b->subject().root(), p["items"]);
    return b;
}

json serialize(const StructuredSDFG& s) {
    serializer::JSONSerializer x;
    return x.serialize(s);
}

// ---- the simulated service ------------------------------------------------------------------------------------
void renumber(json& j, uint64_t& counter) { // fresh numbers for everything below j
    std::map<uint64_t, uint64_t> m;
    std::function<void(json&)> ids = [&](json& x) {
        if (x.is_object()) {
            if (x.contains("element_id")) {
                uint64_t n = ++counter;
                m[x["element_id"].get<uint64_t>()] = n;
                x["element_id"] = n;
            }
            for (auto& [k, v] : x.items()) ids(v);
        } else if (x.is_array())
            for (auto& v : x) ids(v);
    };
    std::function<void(json&)> refs = [&](json& x) {
        if (x.is_object()) {
            for (auto* k : {"src", "dst"})
                if (x.contains(k) && x[k].is_number() && m.count(x[k].get<uint64_t>())) x[k] = m[x[k].get<uint64_t>()];
            for (auto& [k, v] : x.items()) refs(v);
        } else if (x.is_array())
            for (auto& v : x) refs(v);
    };
    ids(j);
    refs(j);
}

json* first_loop(json& j) {
    if (j.is_object()) {
        if (j.contains("indvar")) return &j;
        for (auto& [k, v] : j.items())
            if (json* r = first_loop(v)) return r;
    } else if (j.is_array())
        for (auto& v : j)
            if (json* r = first_loop(v)) return r;
    return nullptr;
}

json transition_like(const json& X, uint64_t& counter) {
    json t = g_block["transition"];
    t["element_id"] = ++counter;
    return t;
}

// all places below j, for damage at a random one
void places(json& j, std::vector<std::pair<json*, std::string>>& v, int depth = 0) {
    if (j.is_object()) {
        for (auto& [k, x] : j.items()) {
            v.push_back({&j, k});
            places(x, v, depth + 1);
        }
    } else if (j.is_array())
        for (auto& x : j) places(x, v, depth + 1);
}

// the service's program for the cutout X it was sent; fresh: names of the containers it introduces
json tuned(const json& entry, const json& X0) {
    json X = X0;
    uint64_t counter = X.value("element_counter", (uint64_t) 1000);
    bool assigned = false;
    for (auto& m : entry["muts"]) {
        std::string k = m["m"];
        if (k == "assign" && std::exchange(assigned, true)) continue;
        json& root = X["root"];
        auto fresh = [&]() -> std::string {
            for (auto& n : m["names"])
                if (!X["containers"].contains(n.get<std::string>())) return n;
            return "zz_last";
        };
        auto new_block = [&](const std::string& name) {
            X["containers"][name] = g_scalar;
            json b = g_block["child"];
            for (auto& n : b["dataflow"]["nodes"])
                if (n["type"] == "access_node") n["data"] = name;
            renumber(b, counter);
            return b;
        };
        if (k == "init") {
            if (json* l = first_loop(root)) (*l)["init"] = "1";
        } else if (k == "sched") {
            std::function<void(json&)> f = [&](json& x) {
                if (x.is_object()) {
                    if (x.value("type", json()) == "map") x["schedule_type"] = g_omp;
                    for (auto& [kk, v] : x.items()) f(v);
                } else if (x.is_array())
                    for (auto& v : x) f(v);
            };
            f(root);
        } else if (k == "split") {
            json c = root["children"][0], t = root["transitions"][0];
            renumber(c, counter);
            t["element_id"] = ++counter;
            root["children"].push_back(c);
            root["transitions"].push_back(t);
        } else if (k == "pre" || k == "post") {
            json b = new_block(fresh()), t = transition_like(X, counter);
            if (k == "pre") {
                root["children"].insert(root["children"].begin(), b);
                root["transitions"].insert(root["transitions"].begin(), t);
            } else {
                root["children"].push_back(b);
                root["transitions"].push_back(t);
            }
        } else if (k == "inside") {
            if (json* l = first_loop(root)) {
                json& r2 = (*l)["root"];
                r2["children"].push_back(new_block(fresh()));
                r2["transitions"].push_back(transition_like(X, counter));
            }
        } else if (k == "kernel") {
            root["children"] = json::array();
            root["transitions"] = json::array();
            root["children"].push_back(new_block(fresh()));
            root["transitions"].push_back(transition_like(X, counter));
        } else if (k == "seq") {
            json s = root;
            s["element_id"] = ++counter;
            root["children"] = json::array({s});
            root["transitions"] = json::array({transition_like(X, counter)});
        } else if (k == "assign") { // what is assigned after an element belongs to the program
            std::string n = fresh();
            bool own = X["containers"].contains(n);
            size_t v = 1000; // another value for each name
            for (unsigned char c : n) v = v * 3 % 7001 + c;
            if (!own) X["containers"][n] = g_block["i64"];
            if (!own)
                for (size_t i = 0; i < root["transitions"].size(); i++)
                    if (i % 2 == m.value("odd", 0u) || root["transitions"].size() == 1) root["transitions"][i]["assignments"].push_back({{"symbol", n}, {"expression", std::to_string(10000 + v * 8 + i)}});
        } else if (k == "wrap") {
            if (first_loop(root) == nullptr) continue;
            std::string n = fresh();
            X["containers"][n] = X["containers"].begin().value();
            X["containers"][n] = g_block["i64"];
            json l = *first_loop(root), s = root;
            l["type"] = "for";
            l.erase("schedule_type");
            l["element_id"] = ++counter;
            l["indvar"] = n;
            l["init"] = "0";
            l["condition"] = n + " < 4";
            l["update"] = "1 + " + n;
            s["element_id"] = ++counter;
            l["root"] = s;
            root["children"] = json::array({l});
            root["transitions"] = json::array({transition_like(X, counter)});
        }
    }
    X["element_counter"] = counter;
    // damage
    if (entry.contains("mal")) {
        const json& m = entry["mal"];
        std::string k = m["m"];
        sim::Rng rng(m["seed"].get<uint64_t>());
        if (k == "delete" || k == "replace") {
            std::vector<std::pair<json*, std::string>> v;
            places(X, v);
            auto [o, key] = v[rng.below(v.size())];
            if (k == "delete") o->erase(key);
            else {
                static const char* vals[] = {"null", "0", "-1", "1e300", "18446744073709551615", "\"\"", "\"x\"", "\"N < 3\"", "[]", "[1]", "{}", "true", "\"1 + (\"", "\"A0\""};
                (*o)[key] = json::parse(vals[rng.below(14)]);
            }
        } else if (k == "undeclared") {
            std::vector<std::string> names;
            for (auto& [n, t] : X["containers"].items()) names.push_back(n);
            if (!names.empty()) {
                std::string n = names[rng.below(names.size())];
                X["containers"].erase(n);
                json a = json::array();
                for (auto& x : X["arguments"])
                    if (x != n) a.push_back(x);
                X["arguments"] = a;
            }
        } else if (k == "stranger") { // a container nobody knows
            std::function<bool(json&)> f = [&](json& x) -> bool {
                if (x.is_object()) {
                    if (x.value("type", json()) == "access_node") return x["data"] = "stranger", true;
                    for (auto& [kk, v] : x.items())
                        if (f(v)) return true;
                } else if (x.is_array())
                    for (auto& v : x)
                        if (f(v)) return true;
                return false;
            };
            f(X["root"]);
        } else if (k == "emptyroot") {
            X["root"]["children"] = json::array();
            X["root"]["transitions"] = json::array();
        } else if (k == "transitions") {
            X["root"]["transitions"] = json::array();
        } else if (k == "null") {
            X = json();
        } else if (k == "string") {
            X = dump(X);
        }
    }
    return X;
}

json recipe(const json& entry, const json& req) {
    json seq = json::array();
    const json& root = req["sdfg"]["root"];
    json loops = json::array(); // element ids and kinds, outermost first
    std::function<void(const json&)> f = [&](const json& x) {
        if (x.is_object()) {
            if (x.contains("indvar")) loops.push_back({x["element_id"], x["type"]});
            for (auto& [k, v] : x.items()) f(v);
        } else if (x.is_array())
            for (auto& v : x) f(v);
    };
    f(root);
    for (auto& d : entry["seq"]) {
        std::string t = d["t"];
        if (d.contains("raw")) {
            seq.push_back(d["raw"]);
            continue;
        }
        json e;
        e["transformation_type"] = t;
        auto node = [&](size_t i) -> json {
            if (d.contains("id")) return {{"element_id", d["id"]}, {"type", "for"}};
            if (loops.empty()) return {{"element_id", 0}, {"type", "for"}};
            auto& l = loops[i % loops.size()];
            return {{"element_id", l[0]}, {"type", l[1]}};
        };
        size_t w = d.value("w", 0);
        e["subgraph"]["0"] = node(w);
        if (t == "LoopInterchange") e["subgraph"]["1"] = node(w + 1);
        if (t == "LoopTiling") e["parameters"]["tile_size"] = d.value("size", 4);
        if (t == "OutLocalStorage") e["container"] = d["container"];
        if (d.contains("drop")) e.erase(d["drop"].get<std::string>());
        if (d.contains("put")) e[d["put"][0].get<std::string>()] = d["put"][1];
        seq.push_back(e);
    }
    return seq;
}

// body of the answer to a request
std::string make_body(const json& e, const std::string& payload) {
    std::string k = e["kind"];
    json req = json::parse(payload, nullptr, false);
    if (req.is_discarded() || !req.is_object() || !req.contains("sdfg")) return "{\"error\": \"cannot read the request\"}";
    json b = json::object();
    if (k == "error") b["error"] = e["error"];
    if (k == "error" && e.value("with", 0) == 1) b["sdfg_result"]["sdfg"] = req["sdfg"];
    if (k == "error" && e.value("with", 0) == 2) b["local_replay"]["sequence"] = json::array();
    if (k == "sdfg" || k == "both") b["sdfg_result"]["sdfg"] = tuned(e, req["sdfg"]);
    if (k == "replay" || k == "both") b["local_replay"]["sequence"] = recipe(e, req);
    if (e.contains("metadata")) b["metadata"] = e["metadata"];
    if (k == "raw") return e["raw"];
    if (k == "set") b[e["set"][0].get<std::string>()] = e["set"][1];
    std::string s = e.value("pretty", false) ? b.dump(2) : dump(b);
    if (e.contains("chop")) s.resize(e["chop"].get<size_t>() % (s.size() + 1));
    return s;
}

std::string make_response(const json& j, const std::string& body) {
    int st = j["status"];
    std::string r;
    for (int i = 0; i < j.value("interim", 0); i++) r += "HTTP/1.1 102 Processing\r\n\r\n";
    r += "HTTP/1.1 " + std::to_string(st) + " Reason\r\n";
    if (j["end"] == (int) net::END_CLOSE) r += "connection: close\r\n";
    std::string f = j["framing"];
    if (f == "len") r += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    else {
        r += "Transfer-Encoding: chunked\r\n\r\n";
        sim::Rng rng(j["cseed"].get<uint64_t>());
        size_t p = 0;
        while (p < body.size()) {
            size_t n = std::min<size_t>(body.size() - p, 1 + rng.below(rng.chance(1, 2) ? 200 : 9000));
            char h[40];
            snprintf(h, sizeof h, "%zx\r\n", n);
            r += h + body.substr(p, n) + "\r\n";
            p += n;
        }
        r += "0\r\n\r\n";
    }
    return r;
}
std::string full_response(const json& x, const std::string& payload, size_t* whole = nullptr) {
    std::string r = make_response(x, make_body(x["answer"], payload));
    if (whole) *whole = r.size();
    if (x.value("cut", (int64_t) -1) >= 0) r.resize(x["cut"].get<size_t>() % (r.size() + 1));
    return r;
}

void respond(int ri, const net::Request& q) {
    const json& x = (*g_s)["resps"][ri];
    net::resps[ri].bytes = full_response(x, q.body);
}

void setup_net(const json& s) {
    for (auto& c : s["conns"]) {
        net::ConnPlan p;
        p.connect = c.value("connect", 0);
        p.delay = c.value("delay", 1000000ull);
        p.reset_after = c.value("reset_after", (int64_t) -1);
        p.stall_after = c.value("stall_after", (int64_t) -1);
        p.window = c.value("window", 65536u);
        p.latency = c.value("latency", 100000ull);
        net::conns.push_back(p);
    }
    for (auto& x : s["resps"]) {
        net::Response r;
        r.bytes = "";
        for (auto& g : x["segs"]) r.segs.push_back({g[0].get<uint64_t>(), g[1].get<size_t>()});
        r.delay = x.value("delay", 0ull);
        r.end = x.value("end", 0);
        r.end_delay = x.value("end_delay", 0ull);
        r.early = false;
        r.send100 = x.value("send100", true);
        net::resps.push_back(r);
    }
    for (auto& f : s["netfaults"]) net::faults.push_back({f["op"], f["nth"], f["err"], f.value("limit", (size_t) 1)});
    net::part_from = s.value("part_from", 0ull);
    net::part_to = s.value("part_to", 0ull);
    net::respond = respond;
    net::install();
    net::time_cap = 40000 * SEC;
    g_curl_nth = s.value("curlinit", 0);
}

// ---- the driver ------------------------------------------------------------------------------------------------
json g_hist; // written to a file after every event

void save_hist() {
    json out = g_hist;
    out["reqs"] = json::array();
    for (auto& q : net::requests)
        out["reqs"].push_back({{"conn", q.conn}, {"head", q.head}, {"body", q.body}, {"complete", q.complete}, {"call", q.call}});
    out["resps"] = json::array();
    for (auto& r : net::resps) out["resps"].push_back({{"req", r.request}, {"delivered", r.delivered}, {"ended", r.ended}, {"size", r.bytes.size()}});
    out["targets"] = json::array();
    for (auto& t : net::targets) out["targets"].push_back({t.first, t.second});
    json ff = json::array();
    for (auto& f : net::faults) ff.push_back(f.fired);
    out["fired"] = ff;
    out["curl_fired"] = g_curl_fired;
    std::string d = dump(out);
    std::string p = g_scratch + "/hist.json";
    long fd = sim::raw(SYS_openat, AT_FDCWD, (long) p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    for (size_t o = 0; o < d.size();) {
        long n = sim::raw(SYS_write, fd, (long) (d.data() + o), (long) (d.size() - o));
        if (n <= 0) break;
        o += (size_t) n;
    }
    sim::raw(SYS_close, fd);
}

json loops_of(StructuredSDFG& sdfg) { // what an independent, fresh analysis says
    json out = json::array();
    analysis::AnalysisManager am(sdfg);
    auto& la = am.get<analysis::LoopAnalysis>();
    for (auto* l : la.outermost_loops()) {
        auto info = la.loop_info(l);
        bool sub = false, self = false;
        auto seq = [](structured_control_flow::ControlFlowNode* n) {
            auto* m = dynamic_cast<structured_control_flow::Map*>(n);
            return !m || m->schedule_type().category() == ScheduleTypeCategory::None;
        };
        self = !seq(l);
        for (auto* d : la.descendants(l)) sub |= !seq(d);
        out.push_back({{"eid", l->element_id()}, {"info", analysis::loop_info_to_json(info)}, {"sub", sub}, {"self", self}, {"while", dynamic_cast<structured_control_flow::While*>(l) != nullptr}});
    }
    return out;
}

json snapshot(builder::StructuredSDFGBuilder& b) {
    json j;
    j["prog"] = serialize(b.subject());
    j["loops"] = loops_of(b.subject());
    j["nreq"] = net::requests.size();
    try {
        b.subject().validate();
    } catch (std::exception& e) {
        j["invalid"] = e.what();
    }
    return j;
}

struct Report : public PassReportConsumer {
    builder::StructuredSDFGBuilder* b;
    json* ev;
    void transform_impossible(const std::string& t, const std::string& reason) override { ev->push_back({{"e", "imp"}, {"t", t}, {"why", reason}}); }
    void transform_possible(const std::string& t) override { ev->push_back({{"e", "pos"}, {"t", t}}); }
    void transform_applied(const std::string& t, nlohmann::json info) override { ev->push_back({{"e", "app"}, {"t", t}, {"info", info}}); }
    void in_scope(StructuredSDFG*) override {}
    void in_outermost_loop(int idx) override {
        json s = snapshot(*b);
        s["e"] = "loop";
        s["idx"] = idx;
        ev->push_back(s);
    }
    void target_transform_possible(const std::string, bool) override {}
};

// what the listed steps do to the program, one after the other
template<class T>
bool ref_step(builder::StructuredSDFGBuilder& b, analysis::AnalysisManager& am, const json& d) {
    T t(T::from_json(b, d));
    if (!t.can_be_applied(b, am)) return false;
    t.apply(b, am);
    am.invalidate_all();
    return true;
}
json reference_replay(const json& before, const json& seq) {
    json out = {{"progs", json::array({before})}, {"complete", true}};
    try {
        serializer::JSONSerializer ser;
        json c = before;
        auto sdfg = ser.deserialize(c);
        builder::StructuredSDFGBuilder b(sdfg);
        analysis::AnalysisManager am(b.subject());
        if (!seq.is_array()) throw std::runtime_error("no list");
        for (auto& d : seq) {
            bool ok = false;
            std::string t = d.is_object() && d.contains("transformation_type") && d["transformation_type"].is_string() ? d["transformation_type"].get<std::string>() : "";
            bool wf = d.is_object() && d.contains("subgraph") && d["subgraph"].is_object();
            auto has = [&](const char* k) { return wf && d["subgraph"].contains(k) && d["subgraph"][k].is_object() && d["subgraph"][k].contains("element_id") && d["subgraph"][k]["element_id"].is_number_integer(); };
            wf = has("0");
            if (t == "LoopInterchange") wf &= has("1");
            if (t == "LoopTiling") wf &= d.contains("parameters") && d["parameters"].is_object() && d["parameters"].contains("tile_size") && d["parameters"]["tile_size"].is_number_integer();
            if (t == "OutLocalStorage") wf &= d.contains("container") && d["container"].is_string();
            if (wf) {
                if (t == "LoopTiling") ok = ref_step<transformations::LoopTiling>(b, am, d);
                else if (t == "LoopDistribute") ok = ref_step<transformations::LoopDistribute>(b, am, d);
                else if (t == "LoopInterchange") ok = ref_step<transformations::LoopInterchange>(b, am, d);
                else if (t == "OutLocalStorage") ok = ref_step<transformations::OutLocalStorage>(b, am, d);
            }
            if (!ok) {
                out["complete"] = false;
                return out;
            }
            out["progs"].push_back(serialize(b.subject()));
        }
    } catch (std::exception& e) {
        out["complete"] = false;
    }
    return out;
}

void child_tune() {
    const json& s = *g_s;
    setup_net(s);
    serializer::register_default_serializers();
    g_hist = {{"rounds", json::array()}};
    std::unique_ptr<builder::StructuredSDFGBuilder> b;
    for (auto& rd : s["rounds"]) {
        if (!b || rd.value("fresh", true)) b = build_program(rd["prog"]);
        json& h = g_hist["rounds"].emplace_back(json{{"ev", json::array()}});
        net::current_call = (int) g_hist["rounds"].size() - 1;
        h["start"] = snapshot(*b);
        save_hist();
        std::unordered_map<std::string, std::string> headers;
        for (auto& kv : rd["headers"]) headers[kv[0]] = kv[1];
        auto ctx = std::make_shared<passes::rpc::SimpleRpcContext>(rd["server"].get<std::string>(), rd["endpoint"].get<std::string>(), headers);
        Report rep;
        rep.b = b.get();
        rep.ev = &h["ev"];
        PassReportConsumer* rp = rd["report"].get<bool>() ? &rep : nullptr;
        net::call_start = sim::now();
        try {
            if (rd["mode"] == "pass") {
                passes::rpc::register_rpc_loop_opt(ctx, rd["target"], rd["category"], rd["steps"].get<bool>());
                ctx.reset();
                passes::scheduler::LoopSchedulingPass pass({"rpc"}, rp);
                analysis::AnalysisManager am(b->subject());
                pass.run(*b, am);
            } else { // the transformation itself, asked once or twice
                analysis::AnalysisManager am(b->subject());
                auto loops = am.get<analysis::LoopAnalysis>().outermost_loops();
                if (!loops.empty()) {
                    auto* l = loops[rd["which"].get<size_t>() % loops.size()];
                    transformations::RPCNodeTransform t(*l, rd["target"], rd["category"], *ctx, rd["steps"].get<bool>());
                    t.set_report(rp);
                    h["direct"] = l->element_id();
                    h["can"] = json::array();
                    bool can = false;
                    for (int i = 0; i < rd["times"].get<int>(); i++) {
                        // the loop has a sequence of its own after the first time
                        json sn = snapshot(*b);
                        sn["e"] = "ask";
                        h["ev"].push_back(sn);
                        save_hist();
                        can = t.can_be_applied(*b, am);
                        h["can"].push_back(can);
                    }
                    if (can) {
                        h["ev"].push_back({{"e", "apply"}});
                        t.apply(*b, am);
                    }
                }
            }
            h["done"] = true;
        } catch (std::exception& e) {
            h["escaped"] = e.what();
        }
        h["end"] = snapshot(*b);
        save_hist();
    }
    // what the recipes amount to
    for (size_t ri = 0; ri < net::resps.size(); ri++) {
        int q = net::resps[ri].request;
        if (q < 0) continue;
        auto& x = s["resps"][ri];
        if (x["answer"]["kind"] != "replay") continue;
        json req = json::parse(net::requests[q].body, nullptr, false);
        if (req.is_discarded()) continue;
        // the program this request was about
        json before;
        for (auto& h : g_hist["rounds"]) {
            if (h["start"]["nreq"].get<size_t>() <= (size_t) q) before = h["start"]["prog"];
            for (auto& e : h["ev"])
                if (e.contains("prog") && e["nreq"].get<size_t>() <= (size_t) q) before = e["prog"];
        }
        g_hist["ref"][std::to_string(ri)] = reference_replay(before, recipe(x["answer"], req));
    }
    g_hist["finished"] = true;
    save_hist();
}

// ---- normal forms ------------------------------------------------------------------------------------------------
// without element numbers; nested plain sequences are spliced into the surrounding one
json norm_node(const json& j);
void norm_items(const json& seq, json& out) {
    for (size_t i = 0; i < seq["children"].size(); i++) {
        auto& c = seq["children"][i];
        auto& t = seq["transitions"][i];
        if (c["type"] == "sequence" && t["assignments"].empty()) {
            norm_items(c, out);
            continue;
        }
        json a = json::array();
        for (auto& x : t["assignments"]) a.push_back(dump(x));
        std::sort(a.begin(), a.end());
        out.push_back({{"node", norm_node(c)}, {"as", a}});
    }
}
json norm_seq(const json& seq) {
    json out = json::array();
    norm_items(seq, out);
    return out;
}
json norm_node(const json& j) {
    json o = j;
    o.erase("element_id");
    std::string t = j["type"];
    if (t == "sequence") return {{"type", "sequence"}, {"items", norm_seq(j)}};
    if (j.contains("root")) o["root"] = norm_seq(j["root"]);
    if (j.contains("branches"))
        for (auto& b : o["branches"]) b = {{"condition", b["condition"]}, {"root", norm_seq(b["root"])}};
    if (j.contains("dataflow")) {
        json d;
        std::map<uint64_t, std::string> names;
        json nodes = json::array(), edges = json::array();
        for (auto& n : j["dataflow"]["nodes"]) {
            json m = n;
            m.erase("element_id");
            names[n["element_id"].get<uint64_t>()] = dump(m);
            nodes.push_back(m);
        }
        for (auto& e : j["dataflow"]["edges"]) {
            json m = e;
            m.erase("element_id");
            m["src"] = names[e["src"].get<uint64_t>()];
            m["dst"] = names[e["dst"].get<uint64_t>()];
            edges.push_back(m);
        }
        auto by = [](const json& a, const json& b) { return dump(a) < dump(b); };
        std::sort(nodes.begin(), nodes.end(), by);
        std::sort(edges.begin(), edges.end(), by);
        o["dataflow"] = {{"nodes", nodes}, {"edges", edges}};
    }
    return o;
}
json norm_prog(const json& p) {
    json o = p;
    o.erase("element_counter");
    o["root"] = norm_seq(p["root"]);
    return o;
}

// finds the sequence item with the element number and replaces it by items (empty optional: just finds it)
bool splice(json& seq, uint64_t eid, const json* root, json* found) {
    for (size_t i = 0; i < seq["children"].size(); i++) {
        json& c = seq["children"][i];
        if (c["element_id"] == eid && c["type"] != "sequence") {
            if (found) *found = {{"child", c}, {"transition", seq["transitions"][i]}};
            if (root) {
                json s = *root;
                json t = seq["transitions"][i];
                t["assignments"] = json::array(); // the answer's own transitions count
                c = s;
                seq["transitions"][i] = t;
            }
            return true;
        }
        if (c["type"] == "sequence" && splice(c, eid, root, found)) return true;
        if (c.contains("root") && splice(c["root"], eid, root, found)) return true;
        if (c.contains("branches"))
            for (auto& b : c["branches"])
                if (splice(b["root"], eid, root, found)) return true;
    }
    return false;
}

// identifiers within a string of an SDFG document
bool idch(char c) { return isalnum((unsigned char) c) || c == '_'; }
// compares two documents where names in `open` may have been renamed consistently; fills map
bool same_upto(const json& a, const json& b, const std::set<std::string>& open, std::map<std::string, std::string>& map, std::string& where) {
    if (a.type() != b.type() && !(a.is_number() && b.is_number())) return where += ": " + dump(a).substr(0, 80) + " vs " + dump(b).substr(0, 80), false;
    if (a.is_object()) {
        if (a.size() != b.size()) return where += ": fields differ", false;
        for (auto& [k, v] : a.items()) {
            if (!b.contains(k)) return where += ": no " + k, false;
            std::string w = where + "/" + k;
            if (!same_upto(v, b[k], open, map, w)) return where = w, false;
        }
        return true;
    }
    if (a.is_array()) {
        if (a.size() != b.size()) return where += ": " + std::to_string(a.size()) + " vs " + std::to_string(b.size()) + " items", false;
        for (size_t i = 0; i < a.size(); i++) {
            std::string w = where + "/" + std::to_string(i);
            if (!same_upto(a[i], b[i], open, map, w)) return where = w, false;
        }
        return true;
    }
    if (!a.is_string()) return a == b ? true : (where += ": " + dump(a) + " vs " + dump(b), false);
    auto bare = [](std::string t) { // (a < b) is a < b
        while (t.size() > 1 && t[0] == '(') {
            int d = 0;
            for (size_t i = 0; i < t.size(); i++) {
                d += t[i] == '(' ? 1 : t[i] == ')' ? -1 : 0;
                if (d == 0 && i + 1 < t.size()) return t;
            }
            t = t.substr(1, t.size() - 2);
        }
        return t;
    };
    std::string x = bare(a), y = bare(b);
    size_t i = 0, k = 0;
    auto bad = [&] { return where += ": '" + x.substr(0, 80) + "' vs '" + y.substr(0, 80) + "'", false; };
    while (i < x.size() || k < y.size()) {
        if (i >= x.size() || k >= y.size()) return bad();
        if (idch(x[i]) && (i == 0 || !idch(x[i - 1]))) {
            size_t i2 = i, k2 = k;
            while (i2 < x.size() && idch(x[i2])) i2++;
            while (k2 < y.size() && idch(y[k2])) k2++;
            std::string p = x.substr(i, i2 - i), q = y.substr(k, k2 - k);
            if (open.count(p)) {
                if (!map.count(p)) map[p] = q;
                if (map[p] != q) return bad();
            } else if (p != q)
                return bad();
            i = i2;
            k = k2;
        } else if (x[i] == y[k])
            i++, k++;
        else
            return bad();
    }
    return true;
}
void names_in(const json& j, std::set<std::string>& out) {
    if (j.is_object())
        for (auto& [k, v] : j.items()) names_in(v, out);
    else if (j.is_array())
        for (auto& v : j) names_in(v, out);
    else if (j.is_string()) {
        std::string x = j;
        for (size_t i = 0; i < x.size();) {
            if (!idch(x[i])) {
                i++;
                continue;
            }
            size_t e = i;
            while (e < x.size() && idch(x[e])) e++;
            out.insert(x.substr(i, e - i));
            i = e;
        }
    }
}
void ids_in(const json& j, std::map<uint64_t, int>& out) {
    if (j.is_object()) {
        if (j.contains("element_id")) out[j["element_id"].get<uint64_t>()]++;
        for (auto& [k, v] : j.items()) ids_in(v, out);
    } else if (j.is_array())
        for (auto& v : j) ids_in(v, out);
}

} // namespace

extern "C" CURL* curl_easy_init() {
    static CURL* (*real)() = (CURL * (*) ()) dlsym(RTLD_NEXT, "curl_easy_init");
    if (sim::active() && ++g_curl_n == g_curl_nth) {
        g_curl_fired = true;
        return nullptr;
    }
    return real();
}

class TuneHarness : public Harness {
public:
    // ---- generation ----------------------------------------------------------------------------------------------
    json gen_items(sim::Rng& rng, int depth, const std::string& iv, int& budget) {
        json items = json::array();
        static const char* ivs[] = {"i0", "i1", "i2", "i3"};
        int n = 1 + (int) rng.below(depth == 0 ? 5 : 3);
        for (int i = 0; i < n; i++) {
            int what = (int) rng.below(10);
            if (budget > 0 && depth < 3 && (depth == 0 ? what < 8 : what < 4)) {
                budget--;
                json it;
                int k = (int) rng.below(12);
                it["k"] = k < 5 ? "map" : k < 10 ? "for" : k == 10 ? "while" : "if";
                if (depth == 0 && it["k"] == "if" && rng.chance(1, 2)) it["k"] = "for";
                std::string v = depth == 0 && rng.chance(1, 3) ? ivs[rng.below(4)] : ivs[depth];
                it["iv"] = v;
                if (rng.chance(1, 2)) it["n"] = rng.chance(1, 2) ? "N" : "M";
                else it["n"] = 1 + rng.below(200);
                if (rng.chance(1, 5)) it["step"] = 2;
                if (it["k"] == "map" && rng.chance(1, 6)) it["omp"] = true;
                if (rng.chance(1, 6)) it["as"] = "k0";
                std::string inner = it["k"] == "map" || it["k"] == "for" ? v : iv;
                it["body"] = gen_items(rng, depth + 1, inner, budget);
                items.push_back(it);
            } else if (what == 9 && rng.chance(1, 5)) {
                items.push_back({{"b", "side"}});
            } else if (!iv.empty() && rng.chance(2, 3)) {
                static const char* as[] = {"A0", "A1", "A2", "E0", "E1", "E2"};
                static const char* ts[] = {"t0", "t1", "t2", "t3"};
                items.push_back({{"b", "axpy"}, {"A", as[rng.below(rng.chance(2, 3) ? 3 : 6)]}, {"t", ts[rng.below(4)]}, {"i", iv}});
            } else {
                static const char* ts[] = {"t0", "t1", "t2", "t3"};
                items.push_back({{"b", "set"}, {"t", ts[rng.below(4)]}, {"c", std::to_string(rng.below(9)) + ".5"}});
            }
        }
        return items;
    }

    static json names(sim::Rng& rng) { // what the service calls its containers
        json n = json::array();
        // names of the program's own containers may be taken: the service sees only those the loop uses
        static const char* own[] = {"t0", "t1", "t2", "t3", "tmp", "i0", "i1", "i2", "i3", "k0", "A0", "A1", "A2", "N", "M"};
        if (rng.chance(1, 2))
            for (int i = 0; i < 3; i++) n.push_back(own[rng.below(15)]);
        n.push_back("zq" + std::to_string(rng.below(3)));
        n.push_back("zq" + std::to_string(3 + rng.below(3)));
        return n;
    }

    json gen_answer(sim::Rng& rng, bool bad) {
        json e;
        int k = (int) rng.below(20);
        if (rng.chance(3, 4)) {
            e["metadata"] = {{"speedup", 1.5}, {"vector_distance", 0.25}};
            if (rng.chance(1, 2)) e["metadata"]["region_id"] = "r" + std::to_string(rng.below(99));
            if (bad && rng.chance(1, 8)) e["metadata"]["speedup"] = "fast";
            if (bad && rng.chance(1, 12)) e["metadata"] = json::array({1});
        }
        if (rng.chance(1, 6)) e["pretty"] = true;
        if (k < 10) e["kind"] = "sdfg";
        else if (k < 14) e["kind"] = "replay";
        else if (k < 15) e["kind"] = "both";
        else if (k < 17) e["kind"] = "error";
        else if (k < 18) e["kind"] = "none";
        else e["kind"] = bad ? (rng.chance(1, 2) ? "raw" : "set") : "error";
        e["muts"] = json::array();
        for (int i = (int) rng.below(4); i > 0; i--) {
            static const char* ms[] = {"init", "sched", "split", "pre", "post", "inside", "kernel", "seq", "wrap", "assign"};
            e["muts"].push_back({{"m", ms[rng.below(10)]}, {"names", names(rng)}, {"odd", rng.below(2)}});
        }
        if (bad && rng.chance(1, 2) && (e["kind"] == "sdfg" || e["kind"] == "both")) {
            static const char* ms[] = {"delete", "delete", "replace", "replace", "replace", "undeclared", "stranger", "emptyroot", "transitions", "null", "string"};
            e["mal"] = {{"m", ms[rng.below(11)]}, {"seed", rng.below(1u << 30)}};
        }
        static const char* errs[] = {"no match in the database", "", "quota exceeded: try later", "\xff\xfe"};
        e["error"] = errs[rng.below(3)];
        if (bad && e["kind"] == "error" && rng.chance(1, 3)) e["error"] = rng.chance(1, 2) ? json(42) : json::object();
        if (e["kind"] == "error" && rng.chance(1, 3)) e["with"] = 1 + rng.below(2);
        static const char* raws[] = {"", "null", "[]", "\"ok\"", "<html>Bad gateway</html>", "{\"sdfg_result\":", "{}{}", "17", "{\"local_replay\":{\"sequence\":[{\"transformation_type\"", "true"};
        e["raw"] = raws[rng.below(10)];
        static const char* sets[] = {"sdfg_result", "local_replay", "sdfg_result", "local_replay", "metadata"};
        static const char* vals[] = {"null", "{}", "[]", "3", "\"x\"", "{\"sdfg\":null}", "{\"sequence\":null}", "{\"sequence\":{}}", "{\"sdfg\":{}}", "{\"sdfg\":[]}", "{\"sequence\":[null]}", "{\"sequence\":[{}]}", "{\"sequence\":[{\"transformation_type\":5}]}"};
        e["set"] = {sets[rng.below(5)], json::parse(vals[rng.below(13)])};
        e["seq"] = json::array();
        for (int i = (int) rng.below(4); i > 0; i--) {
            static const char* ts[] = {"LoopTiling", "LoopTiling", "LoopDistribute", "LoopInterchange", "OutLocalStorage", "LoopUnroll"};
            json d;
            d["t"] = ts[rng.below(bad ? 6 : 5)];
            d["w"] = rng.below(3);
            static const int sizes[] = {2, 4, 16, 32};
            d["size"] = sizes[rng.below(4)];
            static const char* as[] = {"A0", "A1", "A2", "t0", "t1"};
            d["container"] = as[rng.below(5)];
            if (rng.chance(1, 12)) d["id"] = 1 + rng.below(90);
            if (bad && rng.chance(1, 4)) {
                static const char* fs[] = {"transformation_type", "subgraph", "parameters", "container"};
                if (rng.chance(1, 2)) d["drop"] = fs[rng.below(4)];
                else d["put"] = {fs[rng.below(4)], json::parse(vals[rng.below(13)])};
            }
            if (bad && rng.chance(1, 10)) d["raw"] = json::parse(vals[rng.below(13)]);
            e["seq"].push_back(d);
        }
        if (bad && rng.chance(1, 8)) e["chop"] = rng.below(rng.chance(1, 2) ? 60 : 40000);
        return e;
    }

    json gen(const std::string& prop, uint64_t seed) override {
        sim::Rng rng(seed * 1000003 + 77);
        json p;
        p["prop"] = prop;
        p["seed"] = seed;
        p["sched"] = gen_sched(rng, 1);
        json s;
        s["type"] = "tune";
        bool benign = prop == "R07" ? rng.chance(2, 3) : rng.chance(2, 5); // the network works
        bool good = benign && rng.chance(1, 2); // and so does the service
        int n = 1 + (int) rng.below(3);
        s["rounds"] = json::array();
        static const char* targets[] = {"sequential", "openmp", "cuda", "etsoc"};
        static const char* cats[] = {"server", "edge", "desktop", "mobile"};
        static const char* servers[] = {"http://127.0.0.1:8080/docc", "http://10.1.2.3", "http://[::1]:9090/docc", "http://127.0.0.1:9999"};
        json ctx; // a client usually keeps its configuration
        for (int i = 0; i < n; i++) {
            json r;
            r["mode"] = rng.chance(1, 5) ? "direct" : "pass";
            r["which"] = rng.below(5);
            r["times"] = 1 + rng.below(2);
            r["report"] = rng.chance(5, 6);
            r["steps"] = rng.chance(1, 3);
            r["target"] = targets[rng.below(4)];
            r["category"] = cats[rng.below(4)];
            r["server"] = servers[rng.below(4)];
            r["endpoint"] = rng.chance(1, 2) ? "transfertune" : "ep" + std::to_string(rng.below(9));
            r["headers"] = json::array();
            if (rng.chance(3, 4)) r["headers"].push_back({"Authorization", (rng.chance(1, 2) ? "Token " : "Job ") + std::to_string(rng.next())});
            for (int k = (int) rng.below(3); k > 0; k--) r["headers"].push_back({"X-H" + std::to_string(k), rng.chance(1, 3) ? "a: b, \"c\"; d=e" : std::to_string(rng.next())});
            if (i && rng.chance(1, 3))
                for (auto* k : {"target", "category", "server", "endpoint", "headers", "steps"}) r[k] = s["rounds"][i - 1][k];
            r["fresh"] = i == 0 || rng.chance(2, 3);
            int budget = 2 + (int) rng.below(7);
            // the same function may be compiled again, changed
            r["prog"] = {{"name", "prog" + std::to_string(rng.chance(1, 2) ? 0 : i)}, {"ext", rng.chance(1, 2) ? 0 : 1 + rng.below(3)}, {"items", gen_items(rng, 0, "", budget)}};
            s["rounds"].push_back(r);
        }
        s["resps"] = json::array();
        static const int st[] = {200, 200, 200, 200, 200, 201, 202, 203, 204, 400, 401, 403, 404, 429, 500, 502, 503};
        for (int i = 0; i < 18; i++) {
            json x;
            x["status"] = good || rng.chance(3, 4) ? st[rng.below(8)] : st[rng.below(17)];
            x["answer"] = gen_answer(rng, !good);
            x["framing"] = rng.chance(1, 2) ? "len" : "chunked";
            x["cseed"] = rng.below(1u << 30);
            if (rng.chance(1, 10)) x["interim"] = 1;
            x["end"] = rng.chance(1, 3) ? net::END_CLOSE : net::END_KEEP;
            x["end_delay"] = rng.chance(1, 2) ? 0 : rng.below(SEC);
            json segs = json::array();
            if (rng.chance(1, 3))
                for (int k = (int) rng.below(8); k > 0; k--) segs.push_back({rng.chance(1, 3) ? 0 : rng.below(rng.chance(1, 8) ? 100 * SEC : SEC / 10), 1 + rng.below(rng.chance(1, 2) ? 40 : 4000)});
            x["segs"] = segs;
            x["delay"] = rng.chance(1, 8) ? rng.below(200 * SEC) : rng.below(SEC);
            x["send100"] = rng.chance(1, 2);
            if (!benign && rng.chance(1, 5)) {
                if (rng.chance(2, 3)) x["cut"] = rng.chance(1, 4) ? rng.below(200) : rng.below(60000);
                x["end"] = 1 + rng.below(3);
            }
            s["resps"].push_back(x);
        }
        s["conns"] = json::array();
        for (int i = 0; i < 20; i++) {
            json c = json::object();
            if (rng.chance(1, 8)) c["delay"] = rng.below(benign ? 20 * SEC : 400 * SEC);
            if (rng.chance(1, 6)) c["window"] = 600 + rng.below(5000);
            if (rng.chance(1, 8)) c["latency"] = rng.below(SEC / 50);
            if (!benign && rng.chance(1, 10)) {
                switch (rng.below(5)) {
                    case 0: c["connect"] = net::CONN_REFUSED; break;
                    case 1: c["connect"] = net::CONN_BLACKHOLE; break;
                    case 2: c["connect"] = net::CONN_UNREACH; break;
                    case 3: c["reset_after"] = rng.below(20000); break;
                    default: c["stall_after"] = rng.below(20000); break;
                }
            }
            s["conns"].push_back(c);
        }
        s["netfaults"] = json::array();
        if (!benign)
            for (int i = (int) rng.below(3); i > 0; i--) {
                json f;
                int op = (int) rng.below(net::N_OP_COUNT);
                f["op"] = op;
                f["nth"] = 1 + rng.below(20);
                f["err"] = 0;
                if (op == net::N_SEND || op == net::N_RECV) {
                    f["limit"] = 1 + rng.below(300);
                    if (rng.chance(1, 3)) f["err"] = rng.chance(1, 2) ? ECONNRESET : ETIMEDOUT;
                } else if (op == net::N_POLL)
                    f["err"] = EINTR;
                else if (op == net::N_SOCKET)
                    f["err"] = rng.chance(1, 2) ? EMFILE : ENOMEM;
                else
                    f["err"] = rng.chance(1, 2) ? ENETUNREACH : ETIMEDOUT;
                s["netfaults"].push_back(f);
            }
        if (!benign && rng.chance(1, 8)) s["curlinit"] = 1 + rng.below(4);
        if (rng.chance(1, 8)) {
            s["part_from"] = SEC + rng.below(2 * SEC);
            s["part_to"] = s["part_from"].get<uint64_t>() + rng.below(60 * SEC);
            if (!benign && rng.chance(1, 4)) s["part_to"] = 30000 * SEC;
        }
        s["benign"] = benign;
        p["sessions"] = json::array({s});
        return p;
    }

    // ---- judging --------------------------------------------------------------------------------------------------
    struct Judge {
        const json& s;
        const json& h;
        Result& r;
        std::vector<int> resp_of; // request -> response
    };

    enum Verdict { MUST, MUST_NOT, MAY };
    struct Answer {
        Verdict v = MUST_NOT;
        std::string why;
        int ri = -1;
        json sdfg; // the program it contains
        bool exact = false; // and whether that is known to be well-formed
        bool damaged = false;
        json req;
    };

    Answer answer_to(Judge& J, int q) {
        Answer a;
        auto& rq = J.h["reqs"][q];
        a.ri = J.resp_of[q];
        a.req = json::parse(rq["body"].get<std::string>(), nullptr, false);
        if (a.ri < 0) {
            a.why = "the request was not answered";
            return a;
        }
        auto& x = J.s["resps"][a.ri];
        auto& d = J.h["resps"][a.ri];
        auto& e = x["answer"];
        size_t whole = 0;
        std::string sent = full_response(x, rq["body"], &whole);
        int st = x["status"];
        if (st < 200 || st > 203) {
            a.why = "the service answered with status " + std::to_string(st);
            return a;
        }
        if (d["delivered"].get<size_t>() + (x["framing"] == "chunked" ? 2 : 0) < whole) {
            a.why = "only " + d["delivered"].dump() + " of " + std::to_string(whole) + " bytes of the answer arrived";
            return a;
        }
        bool clean = sent.size() == whole && x["end"] != (int) net::END_RESET && J.s["benign"].get<bool>();
        std::string body = make_body(e, rq["body"]);
        json b = json::parse(body, nullptr, false);
        std::string k = e["kind"];
        if (b.is_discarded() || !b.is_object()) {
            a.why = "the answer is not a JSON object";
            return a;
        }
        if (b.contains("error")) {
            a.why = "the service reported an error";
            return a;
        }
        if (k == "set") {
            a.v = MAY;
            a.damaged = true;
            if (!b.contains("sdfg_result") && !b.contains("local_replay")) a.v = MUST_NOT, a.why = "the answer contains no result";
            return a;
        }
        if (!b.contains("sdfg_result") && !b.contains("local_replay")) {
            a.why = "the answer contains no result";
            return a;
        }
        bool meta_ok = !e.contains("metadata") || (e["metadata"].is_object() && (!e["metadata"].contains("speedup") || e["metadata"]["speedup"].is_number()));
        if (b.contains("sdfg_result")) {
            a.sdfg = b["sdfg_result"]["sdfg"];
            if (e.contains("mal")) {
                std::string m = e["mal"]["m"];
                a.v = m == "null" || m == "string" || m == "stranger" || m == "transitions" ? MUST_NOT : MAY;
                if (m == "stranger" && dump(a.sdfg).find("stranger") == std::string::npos) a.v = MAY;
                if (m == "transitions" && a.sdfg["root"]["children"].empty()) a.v = MAY;
                a.why = "the program in the answer is malformed (" + m + ")";
                a.damaged = true;
                return a;
            }
            a.exact = true;
            // nothing left of the loop is a strange answer: taken literally or refused
            a.v = a.sdfg["root"]["children"].empty() ? MAY : clean && meta_ok ? MUST : MAY;
            return a;
        }
        auto& ref = J.h["ref"][std::to_string(a.ri)];
        if (ref.is_null()) {
            a.v = MAY;
            a.damaged = true;
            return a;
        }
        if (!ref["complete"].get<bool>()) a.v = MUST_NOT, a.why = "a listed transformation cannot be applied";
        else a.v = clean && meta_ok ? MUST : MAY;
        return a;
    }

    // compares two programs up to element numbers; empty: equal
    static std::string differ(const json& a, const json& b) {
        std::map<std::string, std::string> m;
        std::string w;
        return same_upto(norm_prog(a), norm_prog(b), {}, m, w) ? "" : w;
    }

    // expected program: `before` with the loop of the request replaced by the answer's
    std::string check_applied(const json& before, const json& after, const Answer& a, uint64_t eid) {
        json exp = before;
        std::set<std::string> open;
        std::map<std::string, json> types;
        json root = a.sdfg["root"];
        // names introduced by the service are placeholders
        std::map<std::string, std::string> ph;
        for (auto& [n, t] : a.sdfg["containers"].items())
            if (!a.req["sdfg"]["containers"].contains(n)) {
                ph[n] = "__open" + std::to_string(ph.size());
                open.insert(ph[n]);
                types[ph[n]] = t;
            }
        std::function<void(json&)> sub = [&](json& j) {
            if (j.is_object()) {
                for (auto& [k, v] : j.items())
                    if (k != "type" && k != "_out" && k != "src_conn" && k != "dst_conn") sub(v);
            } else if (j.is_array())
                for (auto& v : j) sub(v);
            else if (j.is_string()) {
                std::string x = j, y;
                for (size_t i = 0; i < x.size();) {
                    if (!idch(x[i])) {
                        y += x[i++];
                        continue;
                    }
                    size_t e = i;
                    while (e < x.size() && idch(x[e])) e++;
                    std::string w = x.substr(i, e - i);
                    y += ph.count(w) ? ph[w] : w;
                    i = e;
                }
                j = y;
            }
        };
        sub(root);
        json removed;
        if (!splice(exp["root"], eid, &root, &removed)) return "the loop it was about is not in the program";
        std::map<std::string, std::string> map;
        std::string w = "root";
        if (!same_upto(norm_seq(exp["root"]), norm_seq(after["root"]), open, map, w)) return "the program differs from the answer at " + w;
        std::set<std::string> used, vals;
        {
            json rest = before["root"];
            json empty = {{"type", "sequence"}, {"element_id", 0}, {"children", json::array()}, {"transitions", json::array()}};
            splice(rest, eid, &empty, nullptr);
            names_in(rest, used);
        }
        for (auto& [p, n] : map) {
            if (!vals.insert(n).second) return "two containers of the answer share the name " + n;
            if (!after["containers"].contains(n)) return "container " + n + " of the answer is missing";
            if (after["containers"][n] != types[p]) return "container " + n + " has type " + dump(after["containers"][n]).substr(0, 150) + " instead of the answer's " + dump(types[p]).substr(0, 150);
            if (before["containers"].contains(n)) {
                if (used.count(n)) return "container " + n + " introduced by the answer is one that other parts of the program use";
                for (auto& x : before["arguments"])
                    if (x == n) return "container " + n + " introduced by the answer is an argument of the program";
            }
        }
        for (auto& [n, t] : before["containers"].items())
            if (!after["containers"].contains(n) || after["containers"][n] != t) return "type of the program's container " + n + " changed";
        for (auto& [n, t] : after["containers"].items())
            if (!before["containers"].contains(n)) {
                bool ok = false;
                for (auto& [p, tt] : types) ok |= tt == t && (!map.count(p) || map[p] == n);
                if (!ok) return "container " + n + " appeared in the program";
            }
        for (auto* k : {"name", "type", "return_type", "arguments", "externals", "structures", "metadata"})
            if (before[k] != after[k]) return std::string(k) + " of the program changed";
        std::map<uint64_t, int> i0, i1, ia;
        ids_in(before["root"], i0);
        ids_in(after["root"], i1);
        ids_in(a.sdfg["root"], ia);
        for (auto* m : {&i0, &ia})
            for (auto& [id, n] : *m)
                if (n > 1) return "";
        for (auto& [id, n] : i1)
            if (n > 1) return "element number " + std::to_string(id) + " is used by " + std::to_string(n) + " elements";
        return "";
    }

    void check_request(Judge& J, const std::string& where, int q, const json& rd, const json& before, const json& loops, uint64_t eid) {
        auto bad = [&](const std::string& cls, const std::string& m) { J.r.add("R07", cls, where + m); };
        auto& rq = J.h["reqs"][q];
        std::string head = rq["head"], url = rd["server"].get<std::string>() + "/" + rd["endpoint"].get<std::string>();
        std::string rest = url.substr(7);
        size_t sl = rest.find('/');
        std::string host = rest.substr(0, sl), path = rest.substr(sl);
        if (head.empty() && !rq["complete"].get<bool>()) return; // cut off before the end of its head
        if (head.rfind("POST " + path + " HTTP/1.1\r\n", 0) != 0) return bad("wrong_address", "request line is '" + head.substr(0, head.find("\r\n")) + "', wanted " + path);
        std::map<std::string, std::vector<std::string>> hs;
        size_t p = head.find("\r\n") + 2;
        while (p < head.size()) {
            size_t e = head.find("\r\n", p);
            if (e == p || e == std::string::npos) break;
            std::string l = head.substr(p, e - p);
            size_t c = l.find(':'), v = c + 1;
            while (v < l.size() && l[v] == ' ') v++;
            hs[l.substr(0, c)].push_back(l.substr(v));
            p = e + 2;
        }
        if (hs["Host"] != std::vector<std::string>{host}) return bad("wrong_address", "request for " + host + " was sent to another host");
        for (auto& kv : rd["headers"])
            if (hs[kv[0]] != std::vector<std::string>{kv[1].get<std::string>()}) return bad("wrong_credentials", "header " + kv[0].dump() + " is " + json(hs[kv[0]]).dump() + " instead of " + kv[1].dump());
        for (auto& [k, v] : hs) {
            bool known = false;
            for (auto* n : {"Host", "Accept", "Content-Length", "Expect", "User-Agent", "Accept-Encoding", "Connection", "Content-Type"}) known |= k == n;
            for (auto& kv : rd["headers"]) known |= k == kv[0].get<std::string>();
            if (!known) return bad("wrong_credentials", "unexpected header " + k);
        }
        if (!rq["complete"].get<bool>()) return;
        json b = json::parse(rq["body"].get<std::string>(), nullptr, false);
        if (!b.is_object() || !b.contains("sdfg") || !b.contains("loop_info") || !b.contains("target") || !b.contains("category")) return bad("bad_request", "the request is not a tuning request");
        if (b["target"] != rd["target"] || b["category"] != rd["category"])
            return bad("wrong_target", "asks for " + b["target"].dump() + "/" + b["category"].dump() + " instead of " + rd["target"].dump() + "/" + rd["category"].dump());
        json now;
        for (auto& l : loops)
            if (l["eid"] == eid) now = l;
        if (now.is_null()) return bad("wrong_loop", "asks about a loop that is not an outermost one of the program");
        if (b["loop_info"] != now["info"]) return bad("wrong_info", "loop info " + dump(b["loop_info"]) + " instead of " + dump(now["info"]));
        json prog = before, item;
        splice(prog["root"], eid, nullptr, &item);
        if (item.is_null()) return bad("wrong_loop", "asks about a loop that is not in the program");
        json own = {{"type", "sequence"}, {"children", json::array({item["child"]})}, {"transitions", json::array({item["transition"]})}};
        std::map<std::string, std::string> m;
        std::string w = "root";
        if (!same_upto(norm_seq(own), norm_seq(b["sdfg"]["root"]), {}, m, w)) return bad("wrong_cutout", "the submitted program is not the loop: " + w);
        std::set<std::string> used;
        names_in(own, used);
        for (auto& [n, t] : before["containers"].items())
            if (used.count(n) && !b["sdfg"]["containers"].contains(n)) {
                // names also occur as words of the format
                if (dump(own).find("\"data\":\"" + n + "\"") != std::string::npos) return bad("wrong_cutout", "container " + n + " is missing");
            }
        for (auto& x : before["externals"]) { // global data stays global data
            if (!b["sdfg"]["containers"].contains(x["name"].get<std::string>())) continue;
            bool found = false;
            for (auto& y : b["sdfg"]["externals"]) found |= y == x;
            if (!found) return bad("wrong_cutout", "external " + x["name"].dump() + " is not external in the submitted program");
        }
        for (auto& [n, t] : b["sdfg"]["containers"].items()) {
            if (!before["containers"].contains(n)) return bad("wrong_cutout", "container " + n + " is not the program's");
            auto& bt = before["containers"][n];
            if (t.contains("type") && t["type"] != bt["type"] && t["type"] != "reference") return bad("wrong_cutout", "container " + n + " has another type");
        }
    }

    void execute(const json& plan, Result& r) override {
        for (auto& s : plan["sessions"]) run(plan, s, r);
        r.sched = plan["sched"];
    }

    void run(const json& plan, const json& s, Result& r) {
        reset_scratch();
        SessionSpec spec;
        spec.sched = sched_from(plan["sched"], spec.list);
        if (getenv("SIM_DEBUG")) spec.env["SIM_DEBUG"] = "1";
        g_s = &s;
        g_scratch = scratch;
        spec.child = child_tune;
        SessionOut o = session(spec, r);
        if (!r.error.empty()) return;
        auto* g = sim::g;
        bool read = false;
        json h = json::parse(slurp(scratch + "/hist.json", &read), nullptr, false);
        if (o.timed_out || g->verdict || o.signaled() || o.code() != 0 || h.is_discarded() || !h.contains("finished")) {
            std::string m = "compiler " + o.describe() + " " + g->msg + std::string(g->stderr_text).substr(0, 300);
            // a reference transformation that fails says nothing about the client
            if (!h.is_discarded() && h.contains("rounds") && h["rounds"].size() == s["rounds"].size() && h["rounds"].back().contains("end") && !h.contains("finished")) {
                r.count("probe:reference_failed");
                r.nontrivial = false;
                return;
            }
            for (auto* p : {"R06", "R07"}) r.add(p, "killed", m);
            return;
        }
        r.mix(dump(h));
        for (int f : h["fired"])
            if (f) r.count("fault_fired:socket_call");
        if (h["curl_fired"].get<bool>()) r.count("fault_fired:curl_init");
        Judge J{s, h, r, {}};
        J.resp_of.assign(h["reqs"].size(), -1);
        for (size_t i = 0; i < h["resps"].size(); i++) {
            int q = h["resps"][i]["req"];
            if (q >= 0) J.resp_of[q] = (int) i;
        }
        size_t nreq = h["reqs"].size();
        r.count("requests", nreq);
        bool overflow = nreq >= s["resps"].size() - 1 || h["targets"].size() >= s["conns"].size();
        for (size_t i = 0; i < h["rounds"].size(); i++) {
            auto& hr = h["rounds"][i];
            auto& rd = s["rounds"][i];
            std::string where = "compilation " + std::to_string(i + 1) + ": ";
            size_t lim = i + 1 < h["rounds"].size() ? h["rounds"][i + 1]["start"]["nreq"].get<size_t>() : nreq;
            if (hr.contains("escaped")) {
                r.add("R06", "escaped", where + "tuning ended the compilation: " + hr["escaped"].get<std::string>());
                continue;
            }
            if (hr["end"].contains("invalid") && !hr["start"].contains("invalid")) {
                r.add("R06", "invalid_program", where + "the program is invalid afterwards: " + hr["end"]["invalid"].get<std::string>());
                continue;
            }
            if (rd["mode"] == "direct") judge_direct(J, where, rd, hr, lim);
            else if (rd["report"].get<bool>()) judge_steps(J, where, rd, hr, lim, overflow);
            else judge_silent(J, where, rd, hr, lim);
        }
        r.nontrivial = nreq > 0 || h["curl_fired"].get<bool>();
    }

    void one_step(Judge& J, const std::string& where, const json& rd, const json& before, const json& loops, const json& after, int q, uint64_t eid, int applied, bool reported = true) {
        if (q >= 0) check_request(J, where, q, rd, before, loops, eid);
        Answer a;
        if (q >= 0) a = answer_to(J, q);
        else a.why = "no request reached the service";
        if (applied < 0) return;
        bool replay = a.ri >= 0 && a.sdfg.is_null();
        json ref = a.ri >= 0 && J.h.contains("ref") ? J.h["ref"].value(std::to_string(a.ri), json()) : json();
        if (applied) {
            J.r.count("applied");
            if (a.v == MUST_NOT) return J.r.add("R06", "unfounded", where + "an optimisation is reported as applied although " + a.why);
            if (a.exact) {
                std::string w = check_applied(before, after, a, eid);
                if (!w.empty()) J.r.add("R06", "not_the_answer", where + w);
                else J.r.count("applied_exact");
            } else if (!a.damaged && !ref.is_null()) {
                std::string w = differ(ref["progs"].back(), after);
                if (!w.empty()) J.r.add("R06", "not_the_recipe", where + "the program is not what the listed transformations make of it: " + w);
                else J.r.count("applied_recipe");
            } else
                J.r.count("applied_damaged");
            return;
        }
        J.r.count("refused");
        if (a.v == MUST) return J.r.add("R06", "ignored", where + "a complete and valid answer was not used");
        std::string w = differ(before, after);
        if (w.empty()) return;
        if (replay && !ref.is_null()) // steps before the one that failed may have been carried out
            for (auto& p : ref["progs"])
                if (differ(p, after).empty()) return J.r.count("probe:partial_recipe");
        if (replay && a.damaged) return;
        J.r.add("R06", "changed", where + "the program changed although nothing was applied: " + w);
    }

    void judge_steps(Judge& J, const std::string& where0, const json& rd, const json& hr, size_t lim, bool overflow) {
        auto& start = hr["start"];
        std::vector<size_t> at;
        for (size_t i = 0; i < hr["ev"].size(); i++)
            if (hr["ev"][i]["e"] == "loop") at.push_back(i);
        json before = at.empty() ? hr["end"] : hr["ev"][at[0]];
        std::string w = differ(start["prog"], before["prog"]);
        if (!w.empty()) J.r.add("R06", "changed", where0 + "the program changed before anything was asked: " + w);
        std::map<uint64_t, int> steps, asked, outcomes;
        bool foreign = false; // a recipe may have touched other loops
        for (size_t k = 0; k < at.size(); k++) {
            auto& ev = hr["ev"][at[k]];
            auto& nx = k + 1 < at.size() ? hr["ev"][at[k + 1]] : hr["end"];
            size_t q0 = ev["nreq"], q1 = k + 1 < at.size() ? nx["nreq"].get<size_t>() : lim;
            uint64_t eid = 0;
            for (auto& l : start["loops"])
                if (l["info"]["loopnest_index"] == ev["idx"]) eid = l["eid"];
            std::string where = where0 + "loop " + ev["idx"].dump() + ": ";
            steps[eid]++;
            int app = 0, imp = 0;
            for (size_t e = at[k] + 1; e < (k + 1 < at.size() ? at[k + 1] : hr["ev"].size()); e++) {
                auto& x = hr["ev"][e];
                if (x["e"] == "app") app++;
                if (x["e"] == "imp") {
                    imp++;
                    if (x["why"].get<std::string>().empty()) J.r.add("R07", "no_reason", where + "no reason is reported");
                }
            }
            outcomes[eid] += app + imp;
            for (size_t q = q0; q < q1; q++) {
                asked[eid]++;
                int ri = J.resp_of[q];
                if (ri >= 0)
                    for (auto& d : J.s["resps"][ri]["answer"]["seq"]) foreign |= d.contains("id") || d.contains("raw") || d.contains("put");
            }
            if (q1 - q0 > 1) {
                J.r.add("R07", "asked_twice", where + std::to_string(q1 - q0) + " requests were sent");
                continue;
            }
            if (app + imp > 1 || (app + imp == 0 && q1 > q0)) {
                J.r.add("R07", "outcome", where + std::to_string(app) + " applications and " + std::to_string(imp) + " refusals are reported for one request");
                continue;
            }
            one_step(J, where, rd, ev["prog"], ev["loops"], nx["prog"], q1 > q0 ? (int) q0 : -1, eid, app ? 1 : 0);
        }
        if (overflow || foreign) return;
        bool netok = J.s["benign"].get<bool>();
        for (auto& l : start["loops"]) {
            uint64_t id = l["eid"];
            auto& info = l["info"];
            bool never = info["has_side_effects"].get<bool>() || l["sub"].get<bool>();
            bool eligible = !never && !info["is_elementwise"].get<bool>() && !l["self"].get<bool>() && !l["while"].get<bool>();
            std::string where = where0 + "loop " + info["loopnest_index"].dump() + ": ";
            if (never && asked[id]) J.r.add("R07", "asked_wrongly", where + (l["sub"].get<bool>() ? "was submitted although parts of it are scheduled already" : "was submitted although it has side effects"));
            if (eligible && steps[id] != 1) J.r.add("R07", "skipped", where + "was visited " + std::to_string(steps[id]) + " times");
            else if (eligible && outcomes[id] != 1) J.r.add("R07", "outcome", where + std::to_string(outcomes[id]) + " outcomes are reported");
            else if (eligible && netok && asked[id] != 1) J.r.add("R07", "not_asked", where + "was submitted " + std::to_string(asked[id]) + " times");
            if (eligible) J.r.count("eligible_loops");
        }
    }

    // without a report: what can be told from the program alone
    void judge_silent(Judge& J, const std::string& where, const json& rd, const json& hr, size_t lim) {
        auto& start = hr["start"];
        size_t q0 = start["nreq"];
        json cur = start["prog"];
        if (lim == q0) {
            std::string w = differ(cur, hr["end"]["prog"]);
            if (!w.empty()) J.r.add("R06", "changed", where + "the program changed although nothing was asked: " + w);
            return;
        }
        // unambiguous if nothing had to be used
        bool all_no = true;
        for (size_t q = q0; q < lim; q++) {
            Answer a = answer_to(J, (int) q);
            bool replay = a.ri >= 0 && a.sdfg.is_null();
            if (a.v != MUST_NOT || replay) all_no = false;
        }
        if (all_no) {
            std::string w = differ(cur, hr["end"]["prog"]);
            if (!w.empty()) J.r.add("R06", "changed", where + "the program changed although no answer was usable: " + w);
        } else if (lim == q0 + 1) {
            Answer a = answer_to(J, (int) q0);
            if (a.v == MUST && a.exact && a.req["loop_info"].is_object()) {
                std::string w = check_applied(cur, hr["end"]["prog"], a, a.req["loop_info"]["element_id"]);
                if (!w.empty()) J.r.add("R06", "not_the_answer", where + w);
            }
        }
    }

    void judge_direct(Judge& J, const std::string& where, const json& rd, const json& hr, size_t lim) {
        if (!hr.contains("direct")) return;
        uint64_t eid = hr["direct"];
        std::vector<size_t> at;
        for (size_t i = 0; i < hr["ev"].size(); i++)
            if (hr["ev"][i]["e"] == "ask") at.push_back(i);
        for (size_t k = 0; k < at.size(); k++) {
            auto& ev = hr["ev"][at[k]];
            bool last = k + 1 == at.size();
            auto& nx = last ? hr["end"] : hr["ev"][at[k + 1]];
            size_t q0 = ev["nreq"], q1 = last ? lim : nx["nreq"].get<size_t>();
            bool can = hr["can"][k];
            if (q1 - q0 > 1) {
                J.r.add("R07", "asked_twice", where + std::to_string(q1 - q0) + " requests were sent");
                continue;
            }
            int q = q1 > q0 ? (int) q0 : -1;
            Answer a;
            if (q >= 0) a = answer_to(J, q);
            else a.why = "no request reached the service";
            bool replay = a.ri >= 0 && a.sdfg.is_null();
            std::string w2 = where + "query " + std::to_string(k + 1) + ": ";
            if (can && a.v == MUST_NOT && !replay) J.r.add("R06", "unfounded", w2 + "said to be applicable although " + a.why);
            if (!can && a.v == MUST) J.r.add("R06", "ignored", w2 + "a complete and valid answer was not used");
            if (!last) {
                std::string w = differ(ev["prog"], nx["prog"]);
                if (!w.empty()) J.r.add("R06", "changed", w2 + "asking changed the program: " + w);
                if (q >= 0) check_request(J, w2, q, rd, ev["prog"], ev["loops"], eid);
                continue;
            }
            int applied = can ? (replay ? -1 : 1) : 0;
            if (can && replay && a.v == MUST) applied = 1;
            one_step(J, w2, rd, ev["prog"], ev["loops"], nx["prog"], q, eid, applied);
        }
    }
};

static void prepare() { // serialised forms the service uses for its own additions
    builder::StructuredSDFGBuilder b("x", FunctionType_CPU);
    b.add_container("t", f64());
    b.add_container("i", i64());
    add_block(b, b.subject().root(), {{"b", "set"}, {"t", "t"}, {"c", "0.25"}});
    json j = serialize(b.subject());
    g_block = {{"child", j["root"]["children"][0]}, {"transition", j["root"]["transitions"][0]}, {"i64", j["containers"]["i"]}};
    g_scalar = j["containers"]["t"];
    serializer::JSONSerializer s;
    json o;
    s.schedule_type_to_json(o, omp::ScheduleType_OMP::create());
    g_omp = o;
}

int main(int argc, char** argv) {
    curl_global_init(CURL_GLOBAL_ALL);
    prepare();
    TuneHarness h;
    return harness_main(argc, argv, h);
}
