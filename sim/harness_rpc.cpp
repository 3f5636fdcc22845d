// Simulation of the client side of the remote optimisation service: HTTP exchange (real libcurl over a simulated
// network and server), credentials and configuration (real file streams over a simulated disk).
#include <curl/curl.h>
#include <errno.h>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <new>
#include <set>

#include "core/harness.h"
#include "core/netsim.h"
#include "sdfg/passes/rpc/daisytuner_rpc_context.h"
#include "sdfg/passes/rpc/rpc_context.h"
#include "sdfg/util/utils_curl.h"

namespace fs = std::filesystem;
using namespace sdfg::passes::rpc;

namespace {

const json* g_s; // current session
constexpr uint64_t SEC = 1000000000ull;
// how long a call may take once nothing happens any more
constexpr uint64_t PATIENCE = 1800 * SEC;

std::string bytes_of(uint64_t seed, size_t n, const std::string& kind) {
    sim::Rng r(seed);
    std::string s;
    s.reserve(n);
    static const char alpha[] = "{}[]\":,abcdefghijklmnopqrstuvwxyz0123456789 \\/\t\r\n";
    while (s.size() < n) {
        uint64_t x = r.next();
        for (int i = 0; i < 8 && s.size() < n; i++, x >>= 8) {
            uint8_t b = (uint8_t) x;
            if (kind == "bin") s += (char) b;
            else if (kind == "nonul") s += (char) (b ? b : 1);
            else s += alpha[b % (sizeof alpha - 1)];
        }
    }
    return s;
}

std::string build_response(const json& j) {
    std::string body = bytes_of(j["bseed"], j["blen"], j["bkind"]);
    int st = j["status"];
    std::string r;
    for (int i = 0; i < j.value("interim", 0); i++) r += "HTTP/1.1 102 Processing\r\n\r\n";
    r += j.value("http10", false) ? "HTTP/1.0 " : "HTTP/1.1 ";
    r += std::to_string(st) + " " + std::string(j["reason"]) + "\r\n";
    if (j.value("pad", 0)) r += "X-Pad: " + std::string((size_t) j["pad"].get<int>(), 'p') + "\r\n";
    if (st >= 300 && st < 400) r += "Location: http://127.0.0.1:8080/elsewhere\r\n";
    // a server announces that it will close, unless it fails
    if (j["end"] == (int) net::END_CLOSE && !j.value("rude", false)) r += "connection: close\r\n";
    if (st == 401) r += "WWW-Authenticate: Token\r\n";
    std::string f = j["framing"];
    if (f == "len") {
        r += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    } else if (f == "chunked") {
        r += "transfer-encoding: chunked\r\n\r\n";
        sim::Rng rng(j["bseed"].get<uint64_t>() + 1);
        size_t p = 0;
        while (p < body.size()) {
            size_t n = std::min<size_t>(body.size() - p, 1 + rng.below(rng.chance(1, 2) ? 20 : 3000));
            char h[40];
            snprintf(h, sizeof h, rng.chance(1, 2) ? "%zx\r\n" : "%zX\r\n", n);
            r += h + body.substr(p, n) + "\r\n";
            p += n;
        }
        r += "0\r\n\r\n";
    } else {
        r += "\r\n" + body;
    }
    return r;
}

void setup_net(const json& s) {
    for (auto& c : s["conns"]) {
        net::ConnPlan p;
        p.connect = c.value("connect", 0);
        p.delay = c.value("delay", 1000000ull);
        p.reset_after = c.value("reset_after", (int64_t) -1);
        p.stall_after = c.value("stall_after", (int64_t) -1);
        p.window = c.value("window", 65536u);
        p.latency = c.value("latency", 100000ull);
        p.idle_close = c.value("idle_close", 0ull);
        net::conns.push_back(p);
    }
    for (auto& x : s["resps"]) {
        net::Response r;
        r.bytes = x.contains("raw") ? bytes_of(x["raw"], x["rawlen"], "bin") : build_response(x);
        if (x.value("cut", (int64_t) -1) >= 0) r.bytes.resize(x["cut"].get<size_t>() % (r.bytes.size() + 1));
        for (auto& g : x["segs"]) r.segs.push_back({g[0].get<uint64_t>(), g[1].get<size_t>()});
        r.delay = x.value("delay", 0ull);
        r.end = x.value("end", 0);
        r.end_delay = x.value("end_delay", 0ull);
        r.early = x.value("early", false);
        r.send100 = x.value("send100", true);
        net::resps.push_back(r);
    }
    for (auto& f : s["netfaults"]) net::faults.push_back({f["op"], f["nth"], f["err"], f.value("limit", (size_t) 1)});
    net::part_from = s.value("part_from", 0ull);
    net::part_to = s.value("part_to", 0ull);
    net::install();
}

void put_blob(const json& out) {
    std::string d = out.dump(-1, ' ', false, json::error_handler_t::replace);
    if (d.size() < sizeof(sim::g->blob)) {
        memcpy(sim::g->blob, d.data(), d.size());
        sim::g->blob_len = (uint32_t) d.size();
    }
}

void child_http() {
    const json& s = *g_s;
    setup_net(s);
    json out;
    out["calls"] = json::array();
    CURL* curl = nullptr;
    auto save = [&] {
        out["reqs"] = json::array();
        for (auto& q : net::requests)
            out["reqs"].push_back({{"conn", q.conn}, {"head", q.head}, {"blen", q.body.size()}, {"bhash", hash_str(q.body)}, {"complete", q.complete}, {"at", q.at}, {"call", q.call}});
        out["resps"] = json::array();
        for (auto& r : net::resps)
            out["resps"].push_back({{"req", r.request}, {"delivered", r.delivered}, {"ended", r.ended}, {"size", r.bytes.size()}});
        json ff = json::array();
        for (auto& f : net::faults) ff.push_back(f.fired);
        out["fired"] = ff;
        out["conns"] = net::n_conns;
        out["targets"] = json::array();
        for (auto& t : net::targets) out["targets"].push_back({t.first, t.second});
        out["strange"] = net::n_strange;
        out["last"] = net::last_progress;
        put_blob(out);
    };
    for (auto& c : s["calls"]) {
        if (!curl || !s.value("reuse", false)) {
            if (curl) curl_easy_cleanup(curl);
            curl = curl_easy_init();
        }
        curl_slist* h = nullptr;
        for (auto& kv : c["headers"]) h = curl_slist_append(h, (kv[0].get<std::string>() + ": " + kv[1].get<std::string>()).c_str());
        std::string payload = bytes_of(c["pseed"], c["plen"], c["pkind"]);
        std::string url = c["url"];
        json o;
        net::current_call = (int) out["calls"].size();
        o["start"] = net::call_start = sim::now();
        net::time_cap = 40000 * SEC; // after the last progress
        // what the call leaves unset must not look like a value by chance
        alignas(HttpResult) unsigned char buf[sizeof(HttpResult)];
        memset(buf, 0xA5, sizeof buf);
        out["calls"].push_back({{"pending", true}});
        save();
        HttpResult* r = new (buf) HttpResult(post_json(curl, url, payload, h));
        out["calls"].erase(out["calls"].size() - 1);
        o["end"] = sim::now();
        o["last"] = net::last_progress;
        o["code"] = (int) r->curl_code;
        o["status"] = r->http_status;
        o["blen"] = r->body.size();
        o["bhash"] = hash_str(r->body);
        o["err"] = !r->error_message.empty();
        if (getenv("SIM_DEBUG")) o["errtext"] = r->error_message.substr(0, 100);
        out["calls"].push_back(o);
        r->~HttpResult();
        curl_slist_free_all(h);
    }
    if (curl) curl_easy_cleanup(curl);
    save();
}

// ---- credentials and configuration ------------------------------------------------------------------------
json ctx_json(const std::string& addr, const std::unordered_map<std::string, std::string>& h) {
    json j;
    j["addr"] = addr;
    j["headers"] = json::object();
    for (auto& [k, v] : h) j["headers"][k] = v;
    return j;
}

void child_conf() {
    const json& s = *g_s;
    json out = json::array();
    for (auto& op : s["ops"]) {
        std::string k = op["k"];
        json o;
        try {
            if (k == "find") {
                auto a = DaisytunerRpcContext::find_docc_auth();
                if (a) o = {{"token", a->first}, {"job", a->second}};
                else o["none"] = true;
            } else if (k == "daisy") {
                auto c = build_rpc_context_from_docc_config();
                o = ctx_json(c->get_remote_address(), c->get_auth_headers());
            } else if (k == "auto") {
                auto c = build_rpc_context_auto();
                o = ctx_json(c->get_remote_address(), c->get_auth_headers());
            } else if (k == "file") {
                auto c = build_rpc_context_from_file(op["file"].get<std::string>());
                o = ctx_json(c->get_remote_address(), c->get_auth_headers());
            } else { // chain of builder steps; exceptions are reported and the builder is used on
                SimpleRpcContextBuilder b;
                json errs = json::array();
                for (auto& st : op["steps"]) {
                    try {
                        std::string x = st[0];
                        if (x == "local") b.initialize_local_default();
                        else if (x == "file") b.from_file(st[1].get<std::string>());
                        else if (x == "env") b.from_env();
                        else if (x == "header_env") b.from_header_env();
                        else if (x == "docc") b.from_docc_config();
                        else if (x == "add") b.add_header(st[1], st[2]);
                        errs.push_back(false);
                    } catch (std::exception& e) {
                        errs.push_back(true);
                    }
                }
                o["errs"] = errs;
                o["server"] = b.server;
                o["endpoint"] = b.endpoint;
                o["headers"] = json::object();
                for (auto& [a, v] : b.headers) o["headers"][a] = v;
                try {
                    auto c = b.build();
                    o["addr"] = c->get_remote_address();
                } catch (std::exception& e) {
                    o["builderr"] = true;
                }
            }
        } catch (std::exception& e) {
            o = {{"exc", true}};
            if (getenv("SIM_DEBUG")) o["what"] = e.what();
        }
        out.push_back(o);
    }
    put_blob(out);
}

} // namespace

class RpcHarness : public Harness {
public:
    json gen_http(sim::Rng& rng, const std::string& prop) {
        json s;
        s["type"] = "http";
        bool benign = prop == "R03" ? rng.chance(2, 3) : rng.chance(1, 4); // only faults that TCP and HTTP mask
        int n = 1 + (int) rng.below(3);
        s["reuse"] = rng.chance(1, 2);
        s["calls"] = json::array();
        static const char* urls[] = {"http://127.0.0.1:8080/docc/transfertune", "http://localhost:8080/docc/transfertune", "http://[::1]:9090/docc/transfertune",
                                     "http://10.1.2.3/a", "http://127.0.0.1:8080/docc/transfertune?x=1&y=%20z"};
        std::string url = urls[rng.below(5)];
        for (int i = 0; i < n; i++) {
            json c;
            c["url"] = rng.chance(1, 6) ? urls[rng.below(5)] : url;
            c["headers"] = json::array();
            c["headers"].push_back({"Content-Type", "application/json"});
            if (rng.chance(1, 2)) c["headers"].push_back({"Authorization", (rng.chance(1, 2) ? "Token " : "Job ") + std::to_string(rng.next())});
            for (int k = (int) rng.below(3); k > 0; k--) c["headers"].push_back({"X-H" + std::to_string(k), rng.chance(1, 3) ? "a: b, \"c\"; d=\t\xc3\xa9" : std::to_string(rng.next())});
            c["pseed"] = rng.below(1u << 30);
            c["plen"] = rng.chance(1, 10) ? rng.below(2) : rng.chance(1, 12) ? 1024 * 1024 + rng.below(300000) : rng.chance(1, 4) ? rng.below(200000) : rng.below(3000);
            static const char* pk[] = {"text", "text", "nonul", "bin"};
            c["pkind"] = pk[rng.below(4)];
            s["calls"].push_back(c);
        }
        s["resps"] = json::array();
        static const int st[] = {200, 200, 200, 200, 201, 202, 203, 204, 206, 301, 302, 400, 401, 403, 404, 418, 429, 500, 502, 503, 304};
        for (int i = 0; i < n + 2; i++) {
            json x;
            int status = st[rng.below(rng.chance(1, 2) ? 4 : 21)];
            x["status"] = status;
            x["reason"] = rng.chance(1, 6) ? "" : rng.chance(1, 6) ? "200 OK fine" : "Reason";
            static const char* fr[] = {"len", "len", "chunked", "close"};
            std::string f = status == 204 || status == 304 ? "none" : fr[rng.below(4)];
            x["bseed"] = rng.below(1u << 30);
            x["blen"] = status == 204 || status == 304 ? 0 : rng.chance(1, 8) ? rng.below(2) : rng.chance(1, 5) ? rng.below(120000) : rng.below(3000);
            static const char* bk[] = {"text", "bin"};
            x["bkind"] = bk[rng.below(2)];
            if (rng.chance(1, 8)) x["interim"] = 1 + rng.below(2);
            if (rng.chance(1, 10)) x["pad"] = rng.below(9000);
            x["end"] = f == "close" ? net::END_CLOSE : rng.chance(1, 6) ? net::END_CLOSE : net::END_KEEP;
            if (rng.chance(1, 10) && f != "chunked") x["http10"] = true, x["end"] = (int) net::END_CLOSE;
            if (f == "none") x["end"] = net::END_CLOSE;
            x["framing"] = f == "none" ? "close" : f;
            if (!benign && rng.chance(1, 4)) x["rude"] = true;
            x["end_delay"] = rng.chance(1, 2) ? 0 : rng.below(SEC);
            json segs = json::array();
            if (rng.chance(1, 2))
                for (int k = (int) rng.below(12); k > 0; k--) segs.push_back({rng.chance(1, 3) ? 0 : rng.below(rng.chance(1, 8) ? 100 * SEC : SEC / 10), 1 + rng.below(rng.chance(1, 2) ? 12 : 2000)});
            x["segs"] = segs;
            x["delay"] = rng.chance(1, 8) ? rng.below(200 * SEC) : rng.below(SEC);
            x["send100"] = rng.chance(1, 2);
            if (!benign && rng.chance(1, 3)) {
                switch (rng.below(6)) {
                    case 0: case 1:
                        x["cut"] = rng.chance(1, 2) ? rng.below(200) : rng.below(200000);
                        x["end"] = 1 + rng.below(3);
                        break;
                    case 2:
                        x["cut"] = rng.below(200000);
                        x["end"] = rng.chance(1, 2) ? (int) net::END_RESET : (int) net::END_CLOSE;
                        break;
                    case 3:
                        x["end"] = net::END_RESET;
                        break;
                    case 4:
                        x["raw"] = rng.below(1u << 30);
                        x["rawlen"] = rng.below(300);
                        x["end"] = 1 + rng.below(3);
                        break;
                    default:
                        x["status"] = 400 + rng.below(120);
                        x["early"] = true;
                        x["end"] = net::END_CLOSE;
                }
            }
            s["resps"].push_back(x);
        }
        s["conns"] = json::array();
        for (int i = 0; i < 2 * n + 2; i++) {
            json c = json::object();
            if (rng.chance(1, 8)) c["delay"] = rng.below(benign ? 20 * SEC : 400 * SEC);
            if (rng.chance(1, 6)) c["window"] = 1 + rng.below(5000);
            if (rng.chance(1, 8)) c["latency"] = rng.below(c.value("window", 65536u) > 1000 ? SEC / 5 : SEC / 500);
            if (!benign && rng.chance(1, 6)) c["idle_close"] = 1 + rng.below(SEC);
            if (!benign && rng.chance(1, 10)) {
                switch (rng.below(5)) {
                    case 0: c["connect"] = net::CONN_REFUSED; break;
                    case 1: c["connect"] = net::CONN_BLACKHOLE; break;
                    case 2: c["connect"] = net::CONN_UNREACH; break;
                    case 3: c["reset_after"] = rng.below(3000); break;
                    default: c["stall_after"] = rng.below(3000); break;
                }
            }
            s["conns"].push_back(c);
        }
        if (!benign && rng.chance(1, 6)) { // the server is gone for good from some connection on
            static const int cf[] = {net::CONN_REFUSED, net::CONN_REFUSED, net::CONN_UNREACH, net::CONN_BLACKHOLE};
            int c = cf[rng.below(4)];
            for (size_t i = rng.below(3); i < s["conns"].size(); i++) s["conns"][i]["connect"] = c;
        }
        if (!benign && rng.chance(1, 8)) { // the server keeps answering the same way
            json x = s["resps"][rng.below(s["resps"].size())];
            if (rng.chance(1, 2)) {
                static const int sv[] = {429, 500, 502, 503, 504, 408, 425, 401};
                x["status"] = sv[rng.below(8)];
            }
            x["blen"] = std::min<uint64_t>(x["blen"].get<uint64_t>(), 300);
            x["segs"] = json::array();
            for (int i = 0; i < 64; i++) s["resps"].push_back(x);
            for (size_t i = rng.below(3); i < s["resps"].size(); i++) s["resps"][i] = x;
        }
        s["netfaults"] = json::array();
        for (int i = (int) rng.below(5); i > 0; i--) {
            json f;
            int op = (int) rng.below(net::N_OP_COUNT);
            f["op"] = op;
            f["nth"] = 1 + rng.below(12);
            f["err"] = 0;
            if (op == net::N_SEND || op == net::N_RECV) {
                f["limit"] = 1 + rng.below(30);
                if (rng.chance(1, 4)) f["err"] = EAGAIN;
                if (!benign && rng.chance(1, 4)) f["err"] = rng.chance(1, 2) ? ECONNRESET : rng.chance(1, 2) ? ETIMEDOUT : ENOMEM;
            } else if (op == net::N_POLL) {
                f["err"] = EINTR;
            } else if (benign) {
                continue;
            } else if (op == net::N_SOCKET) {
                f["err"] = rng.chance(1, 2) ? EMFILE : ENOMEM;
            } else {
                f["err"] = rng.chance(1, 2) ? ENETUNREACH : ETIMEDOUT;
            }
            s["netfaults"].push_back(f);
        }
        if (rng.chance(1, 8)) {
            s["part_from"] = SEC + rng.below(2 * SEC);
            s["part_to"] = s["part_from"].get<uint64_t>() + rng.below(60 * SEC);
            if (!benign && rng.chance(1, 4)) s["part_to"] = 30000 * SEC;
        }
        s["benign"] = benign;
        return s;
    }

    static std::string gen_token(sim::Rng& rng) {
        static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.";
        std::string t;
        for (size_t n = 1 + rng.below(rng.chance(1, 6) ? 9000 : 60); n > 0; n--) t += a[rng.below(sizeof a - 1)];
        return t;
    }

    json gen_conf(sim::Rng& rng, const std::string& prop) {
        json s;
        s["type"] = "conf";
        json env = json::object(), files = json::object();
        auto maybe_env = [&](const char* n, auto f, int num, int den) {
            if (rng.chance(num, den)) env[n] = rng.chance(1, 6) ? std::string() : f();
        };
        bool cred = prop == "R04";
        maybe_env("DOCC_JOB_TOKEN", [&] { return gen_token(rng); }, 1, cred ? 4 : 8);
        maybe_env("DOCC_ACCESS_TOKEN", [&] { return gen_token(rng); }, 1, cred ? 4 : 8);
        maybe_env("RPC_SERVER", [&] { return "http://server" + std::to_string(rng.below(100)) + "/docc"; }, 1, 3);
        if (rng.chance(4, 5)) env["HOME"] = rng.chance(1, 10) ? "" : rng.chance(1, 5) ? "/simroot/home/other" : "/simroot/home/user";
        static const char* ws[] = {"", "\n", " \n", "\r\n", "\t \n\n"};
        if (rng.chance(2, 3)) files["home/user/.config/docc/token"] = (rng.chance(1, 25) ? "" : gen_token(rng)) + ws[rng.below(5)];
        if (rng.chance(2, 3)) files["session_dir/session"] = (rng.chance(1, 25) ? "" : gen_token(rng)) + ws[rng.below(5)];
        // config files
        for (int i = 0; i < 2; i++) {
            json c = json::object();
            if (rng.chance(3, 4)) c["SERVER"] = rng.chance(1, 8) ? json(17) : json("https://s" + std::to_string(rng.below(50)) + ".example/docc");
            if (rng.chance(2, 3)) c["ENDPOINT"] = rng.chance(1, 8) ? json(nullptr) : json("ep" + std::to_string(rng.below(50)));
            if (rng.chance(2, 3)) {
                json h = json::object();
                for (int k = (int) rng.below(4); k > 0; k--) h[rng.chance(1, 5) ? "Authorization" : "H" + std::to_string(rng.below(5))] = rng.chance(1, 8) ? json(3.5) : json("v " + std::string(rng.below(rng.chance(1, 10) ? 9000 : 9), 'x') + "\xc3\xa9\"\\");
                c["HEADERS"] = rng.chance(1, 12) ? json("none") : h;
            }
            c["comment"] = std::string(rng.below(30), 'c');
            files["cfg" + std::to_string(i) + ".json"] = c.dump(rng.chance(1, 2) ? 2 : -1);
        }
        if (rng.chance(1, 2)) env["SDFG_RPC_CONFIG"] = rng.chance(1, 12) ? "" : rng.chance(1, 10) ? "missing.json" : rng.chance(1, 2) ? "cfg0.json" : "/simroot/cfg1.json";
        if (rng.chance(1, 2)) {
            static const char* hv[] = {"X-Test: hello", "hint only", "A:b:c", ":empty", "H1:", "", "Authorization:Token zzz", "H2: v v "};
            env["RPC_HEADER"] = hv[rng.below(8)];
        }
        s["env"] = env;
        s["files"] = files;
        s["ops"] = json::array();
        for (int i = 1 + (int) rng.below(2); i > 0; i--) {
            json o;
            if (cred) {
                o["k"] = rng.chance(1, 2) ? "find" : rng.chance(1, 2) ? "daisy" : "chain";
                if (o["k"] == "chain") o["steps"] = json::array({json::array({"docc"})});
            } else {
                switch (rng.below(4)) {
                    case 0: o["k"] = "auto"; break;
                    case 1: o["k"] = "file"; o["file"] = rng.chance(1, 8) ? "missing.json" : "cfg0.json"; break;
                    default: {
                        o["k"] = "chain";
                        json st = json::array();
                        static const char* sn[] = {"local", "file", "env", "header_env", "docc", "add"};
                        for (int k = 1 + (int) rng.below(5); k > 0; k--) {
                            std::string x = sn[rng.below(6)];
                            if (x == "file") st.push_back({x, rng.chance(1, 10) ? "missing.json" : rng.chance(1, 2) ? "cfg0.json" : "cfg1.json"});
                            else if (x == "add") st.push_back({x, "H" + std::to_string(rng.below(5)), "added"});
                            else st.push_back(json::array({x}));
                        }
                        o["steps"] = st;
                    }
                }
            }
            s["ops"].push_back(o);
        }
        s["faults"] = json::array();
        s["mut"] = json::array();
        if (rng.chance(3, 5)) {
            if (!cred && rng.chance(1, 2)) {
                s["mut"].push_back({{"f", rng.chance(1, 2) ? "cfg0.json" : "cfg1.json"}, {"cut", rng.below(400)}});
            } else if (rng.chance(1, 8)) {
                s["mut"].push_back({{"f", cred ? (rng.chance(1, 2) ? "home/user/.config/docc/token" : "session_dir/session") : "cfg0.json"}, {"dir", true}});
            } else {
                static const char* rk[] = {"eio", "short", "eio", "short"};
                static const char* ok[] = {"enoent", "eacces", "emfile", "eio"};
                for (int k = 1 + (int) rng.below(2); k > 0; k--) {
                    if (rng.chance(2, 3)) s["faults"].push_back({{"kind", rk[rng.below(4)]}, {"op", "read"}, {"nth", 1 + rng.below(6)}, {"arg", 1 + rng.below(40)}});
                    else s["faults"].push_back({{"kind", ok[rng.below(4)]}, {"op", "open_read"}, {"nth", 1 + rng.below(4)}});
                }
            }
        }
        return s;
    }

    json gen(const std::string& prop, uint64_t seed) override {
        sim::Rng rng(seed * 1000003 + hash_str(prop) % 1000);
        json p;
        p["h"] = "rpc";
        p["prop"] = prop;
        p["seed"] = seed;
        p["sessions"] = json::array();
        if (prop == "R04" || prop == "R05") p["sessions"].push_back(gen_conf(rng, prop));
        else p["sessions"].push_back(gen_http(rng, prop));
        p["sched"] = gen_sched(rng, 1);
        return p;
    }

    // ---- judging an HTTP session -------------------------------------------------------------------------
    void run_http(const json& plan, const json& s, Result& r) {
        SessionSpec spec;
        spec.sched = sched_from(plan["sched"], spec.list);
        if (getenv("SIM_DEBUG")) spec.env["SIM_DEBUG"] = "1";
        g_s = &s;
        spec.child = child_http;
        SessionOut o = session(spec, r);
        if (!r.error.empty()) return;
        auto* g = sim::g;
        json out = g->blob_len ? json::parse(std::string((const char*) g->blob, g->blob_len)) : json();
        if (o.timed_out || g->verdict == sim::V_STEPCAP || g->verdict == sim::V_DEADLOCK) {
            r.add("R02", "hang", std::string("the query never ends: ") + g->msg);
            return;
        }
        if (o.signaled() || o.code() != 0 || !out.is_object()) {
            for (auto* p : {"R01", "R03"}) r.add(p, "killed", "client " + o.describe() + " " + std::string(g->stderr_text).substr(0, 300));
            return;
        }
        r.mix(out.dump());
        static const char* nop[] = {"socket", "connect", "send", "recv", "poll"};
        bool hard_netfault = false;
        for (size_t i = 0; i < s["netfaults"].size(); i++) {
            auto& f = s["netfaults"][i];
            int err = f["err"];
            std::string nm = std::string(err ? strerrorname_np(err) : "partial") + "@" + nop[f["op"].get<int>()];
            r.count("fault_cfg:" + nm);
            if (out["fired"][i].get<int>()) {
                r.count("fault_fired:" + nm, out["fired"][i].get<int>());
                if (err && err != EINTR && err != EAGAIN) hard_netfault = true;
            }
        }
        int nconn = out["conns"];
        for (int i = 0; i < nconn; i++) {
            auto& c = s["conns"][std::min<size_t>(i, s["conns"].size() - 1)];
            static const char* cn[] = {"", "refused", "blackhole", "unreachable"};
            if (c.value("connect", 0)) r.count(std::string("fault_fired:connect_") + cn[c["connect"].get<int>()]);
            if (c.contains("reset_after")) r.count("fault_fired:reset_during_upload");
            if (c.contains("stall_after")) r.count("fault_fired:stall_during_upload");
        }
        if (s.contains("part_from")) r.count("fault_fired:partition");
        if (out["strange"].get<int>()) r.count("probe:other_sockets", out["strange"].get<int>());
        bool any = false;
        for (size_t ci = 0; ci < out["calls"].size(); ci++) {
            auto& c = out["calls"][ci];
            auto& call = s["calls"][ci];
            std::string where = "call " + std::to_string(ci + 1) + " (curl code " + c["code"].dump() + ", status " + c["status"].dump() + ", " + c["blen"].dump() + " bytes): ";
            bool success = !c["err"].get<bool>();
            r.count("calls");
            r.count(success ? "calls_succeeded" : "calls_failed");
            // R02: bounded time after the last progress
            uint64_t end = c["end"], last = std::max(c["last"].get<uint64_t>(), c["start"].get<uint64_t>());
            if (end - last > PATIENCE) r.add("R02", "too_late", where + "ended " + std::to_string((end - last) / SEC) + " s after the last progress");
            // answers given during this call
            std::vector<int> answers;
            for (size_t i = 0; i < out["resps"].size(); i++) {
                auto& x = out["resps"][i];
                int q = x["req"];
                if (q >= 0 && out["reqs"][q]["call"] == ci) answers.push_back((int) i);
            }
            std::string payload = bytes_of(call["pseed"], call["plen"], call["pkind"]);
            uint64_t phash = hash_str(payload);
            // R03: every request that reached the server completely is the one that was meant
            int nreq = 0, ncomplete = 0;
            for (auto& x : out["reqs"]) {
                if (x["call"] != ci) continue;
                nreq++;
                if (x["complete"].get<bool>()) ncomplete++;
                if (x["head"].get<std::string>().empty()) continue;
                check_request(r, where, call, x, payload.size(), phash);
            }
            any |= nreq > 0;
            if (success) {
                // R01: the answer must be complete, successful and exact
                bool ok = false;
                std::string why = "no answer of the server was delivered";
                for (int a : answers) {
                    auto& x = s["resps"][a];
                    auto& d = out["resps"][a];
                    if (x.contains("raw")) {
                        why = "the server answered garbage";
                        continue;
                    }
                    std::string full = build_response(x);
                    std::string body = bytes_of(x["bseed"], x["blen"], x["bkind"]);
                    int st = x["status"];
                    bool delimited = x["framing"] != "close";
                    size_t cut = x.value("cut", (int64_t) -1) >= 0 ? x["cut"].get<size_t>() % (full.size() + 1) : full.size();
                    if (st < 200 || st > 203) {
                        why = "the server answered with status " + std::to_string(st);
                        continue;
                    }
                    if (cut < full.size()) {
                        // an orderly close is the only end mark of an answer without length
                        size_t head = full.size() - body.size();
                        bool closed = d["ended"].get<bool>() && x["end"] != (int) net::END_RESET;
                        if (!delimited && cut >= head && closed) body.resize(cut - head);
                        else if (delimited && x["framing"] == "chunked" && cut + 2 >= full.size() && closed) {
                            // only (part of) the line end after the last chunk is missing
                        } else if (cut < head_size(x, full) && closed && c["blen"] == 0) {
                            // libcurl takes a header that ends with the connection for an answer without body
                            r.count("probe:closed_within_header");
                            body.clear();
                        } else {
                            why = "the answer was cut off after " + std::to_string(cut) + " of " + std::to_string(full.size()) + " bytes";
                            continue;
                        }
                    } else if (!delimited && !d["ended"].get<bool>() && body.size()) {
                        why = "the end of the answer was not delivered";
                        continue;
                    }
                    if (c["status"] != st) {
                        why = "reported status differs from the server's " + std::to_string(st);
                        continue;
                    }
                    if (c["blen"] != body.size() || c["bhash"] != hash_str(body)) {
                        why = "reported body differs from the answer's (" + std::to_string(body.size()) + " bytes)";
                        continue;
                    }
                    ok = true;
                }
                if (!ok) r.add("R01", "false_success", where + "reported as success, but " + why);
                if (c["code"] != 0) r.add("R01", "false_success", where + "reported as success with a transport error");
            } else {
                if (c["code"] != 0) {
                    if (answers.empty() && c["status"] != 0) r.add("R01", "made_up_status", where + "reports an HTTP status although no answer arrived");
                } else if (!answers.empty()) {
                    auto& x = s["resps"][answers.back()];
                    if (!x.contains("raw") && c["status"] != x["status"].get<int>() && !(x.value("cut", (int64_t) -1) >= 0)) r.add("R01", "wrong_status", where + "the server answered with status " + x["status"].dump());
                }
            }
            // faults that TCP and HTTP mask must not be noticed
            if (s["benign"].get<bool>() && !hard_netfault) {
                if (answers.empty()) {
                    if (ncomplete <= (int) out["resps"].size()) r.add("R01", "spurious_failure", where + "no request reached the server although nothing failed");
                    continue;
                }
                auto& x = s["resps"][answers.back()];
                int st = x["status"];
                if (c["code"] != 0 || c["status"] != st) r.add("R01", "spurious_failure", where + "failed although the server answered completely with status " + std::to_string(st));
                else if (success != (st >= 200 && st <= 203)) r.add("R01", "wrong_outcome", where + (success ? "success" : "failure") + " reported for status " + std::to_string(st));
                else if (c["blen"] != x["blen"] || c["bhash"] != hash_str(bytes_of(x["bseed"], x["blen"], x["bkind"]))) r.add("R01", "wrong_body", where + "body differs from the answer");
                if (answers.size() != 1 || nreq != 1) r.add("R03", "repeated_request", where + std::to_string(nreq) + " requests were sent");
            }
        }
        for (auto& t : out["targets"]) r.count("probe:connections");
        r.nontrivial = any;
    }

    static size_t head_size(const json& x, const std::string& full) {
        size_t p = 0;
        for (int i = 0; i <= x.value("interim", 0); i++) p = full.find("\r\n\r\n", p) + 4;
        return p;
    }

    void check_request(Result& r, const std::string& where, const json& call, const json& q, size_t plen, uint64_t phash) {
        auto bad = [&](const std::string& m) { r.add("R03", "wrong_request", where + m); };
        std::string head = q["head"], url = call["url"];
        std::string rest = url.substr(7);
        size_t sl = rest.find('/');
        std::string host = rest.substr(0, sl), path = rest.substr(sl);
        if (head.rfind("POST " + path + " HTTP/1.1\r\n", 0) != 0) return bad("request line is '" + head.substr(0, head.find("\r\n")) + "'");
        std::vector<std::pair<std::string, std::string>> hs;
        size_t p = head.find("\r\n") + 2;
        while (p < head.size()) {
            size_t e = head.find("\r\n", p);
            if (e == p || e == std::string::npos) break;
            std::string l = head.substr(p, e - p);
            size_t c = l.find(':');
            if (c == std::string::npos) return bad("malformed header line '" + l + "'");
            size_t v = c + 1;
            while (v < l.size() && l[v] == ' ') v++;
            hs.push_back({l.substr(0, c), l.substr(v)});
            p = e + 2;
        }
        auto count = [&](const std::string& n, std::string* val) {
            int k = 0;
            for (auto& [a, b] : hs)
                if (strcasecmp(a.c_str(), n.c_str()) == 0) {
                    k++;
                    if (val) *val = b;
                }
            return k;
        };
        std::string v;
        if (count("Host", &v) != 1 || v != host) return bad("Host header '" + v + "' instead of '" + host + "'");
        for (auto& kv : call["headers"]) {
            if (count(kv[0], &v) != 1) return bad("header " + kv[0].dump() + " present " + std::to_string(count(kv[0], nullptr)) + " times");
            if (v != kv[1].get<std::string>()) return bad("header " + kv[0].dump() + " altered");
        }
        for (auto& [a, b] : hs) {
            bool known = false;
            for (auto* n : {"Host", "Accept", "Content-Length", "Expect", "User-Agent", "Accept-Encoding", "Connection", "Content-Type"})
                if (strcasecmp(a.c_str(), n) == 0) known = true;
            for (auto& kv : call["headers"])
                if (strcasecmp(a.c_str(), kv[0].get<std::string>().c_str()) == 0) known = true;
            if (!known) return bad("unexpected header " + a);
        }
        if (q["complete"].get<bool>() && (q["blen"] != plen || q["bhash"] != phash)) return bad("payload of " + std::to_string(plen) + " bytes arrived as other " + q["blen"].dump() + " bytes");
        if (count("Content-Length", &v) == 1 && v != std::to_string(plen)) return bad("Content-Length " + v + " for a payload of " + std::to_string(plen) + " bytes");
    }

    // ---- judging credentials and configuration -----------------------------------------------------------
    struct Cfg {
        std::string server, endpoint;
        std::map<std::string, std::string> headers;
    };

    void run_conf(const json& plan, const json& s, Result& r) {
        for (auto& [f, c] : s["files"].items()) {
            fs::path p = fs::path(scratch) / f;
            fs::create_directories(p.parent_path());
            std::ofstream(p, std::ios::binary) << c.get<std::string>();
        }
        std::set<std::string> damaged;
        json files = s["files"];
        for (auto& m : s["mut"]) {
            std::string f = m["f"];
            fs::path p = fs::path(scratch) / f;
            if (m.value("dir", false)) {
                fs::remove(p);
                fs::create_directories(p);
                damaged.insert(f);
                r.count("fault_fired:file_is_directory");
            } else if (files.contains(f)) {
                std::string c = files[f];
                c = c.substr(0, m["cut"].get<size_t>() % (c.size() + 1));
                std::ofstream(p, std::ios::binary | std::ios::trunc) << c;
                files[f] = c;
                r.count("fault_fired:truncated_file");
            }
        }
        SessionSpec spec;
        spec.sched = sched_from(plan["sched"], spec.list);
        spec.faults = faults_from(s["faults"]);
        for (auto& [k, v] : s["env"].items()) spec.env[k] = v;
        if (getenv("SIM_DEBUG")) spec.env["SIM_DEBUG"] = "1";
        spec.path_maps.push_back({"/var/lib/daisytuner", scratch + "/session_dir"});
        g_s = &s;
        spec.child = child_conf;
        SessionOut o = session(spec, r);
        if (!r.error.empty()) return;
        auto* g = sim::g;
        if (o.timed_out || g->verdict || o.signaled() || o.code() != 0 || !g->blob_len) {
            for (auto* p : {"R04", "R05"}) r.add(p, "killed", "client " + o.describe() + " " + g->msg + std::string(g->stderr_text).substr(0, 300));
            return;
        }
        bool faulty = false;
        for (int i = 0; i < sim::MAX_FAULTS; i++)
            if (g->fault_fired[i] && spec.faults[i].kind != sim::F_SHORT) faulty = true;
        json out = json::parse(std::string((const char*) g->blob, g->blob_len));
        r.mix(out.dump());
        auto env = [&](const char* n) { return s["env"].value(n, std::string()); };
        auto trim = [](std::string t) {
            while (!t.empty() && strchr(" \n\r\t", t.back())) t.pop_back();
            return t;
        };
        // the credential that counts, from the best source that is present
        struct Cred {
            std::string token;
            bool job;
        };
        std::vector<Cred> cands; // by precedence
        bool definite = false; // the first one cannot fail
        if (!env("DOCC_JOB_TOKEN").empty()) cands.push_back({env("DOCC_JOB_TOKEN"), true}), definite = true;
        else if (!env("DOCC_ACCESS_TOKEN").empty()) cands.push_back({env("DOCC_ACCESS_TOKEN"), false}), definite = true;
        bool dir_cred = false;
        if (!definite) {
            if (env("HOME") == "/simroot/home/user" && damaged.count("home/user/.config/docc/token")) dir_cred = true;
            else if (env("HOME") == "/simroot/home/user" && files.contains("home/user/.config/docc/token")) cands.push_back({trim(files["home/user/.config/docc/token"]), false});
            if (damaged.count("session_dir/session")) dir_cred |= cands.empty();
            else if (files.contains("session_dir/session")) cands.push_back({trim(files["session_dir/session"]), false});
        }
        bool io_cred = !definite && (faulty || dir_cred);
        auto cred_ok = [&](const Cred* c) -> std::string {
            if (!c) {
                if (cands.empty() || io_cred) return "";
                return "no credential found although one is configured";
            }
            for (size_t i = 0; i < cands.size(); i++)
                if (cands[i].token == c->token && cands[i].job == c->job && (i == 0 || io_cred || cands[0].token.empty())) return "";
            for (auto& x : cands)
                if (x.token == c->token) return "credential of the wrong source or kind used";
            return "a credential is used that is not one of the configured ones (" + std::to_string(c->token.size()) + " characters)";
        };
        auto parse_auth = [&](const json& headers) -> std::optional<Cred> {
            if (!headers.contains("Authorization")) return std::nullopt;
            std::string v = headers["Authorization"];
            if (v.rfind("Job ", 0) == 0) return Cred{v.substr(4), true};
            if (v.rfind("Token ", 0) == 0) return Cred{v.substr(6), false};
            return Cred{v, false};
        };
        auto file_of = [&](std::string f) {
            if (f.rfind("/simroot/", 0) == 0) f = f.substr(9);
            return f;
        };
        // applies one configuration file to c; false: it is damaged
        auto apply_file = [&](Cfg& c, const std::string& f0) {
            std::string f = file_of(f0);
            if (damaged.count(f) || !files.contains(f)) return false;
            json j = json::parse(files[f].get<std::string>(), nullptr, false);
            if (j.is_discarded()) return false;
            if (!j.is_object()) return true;
            if (j.contains("SERVER") && j["SERVER"].is_string()) c.server = j["SERVER"];
            if (j.contains("ENDPOINT") && j["ENDPOINT"].is_string()) c.endpoint = j["ENDPOINT"];
            if (j.contains("HEADERS") && j["HEADERS"].is_object())
                for (auto& [k, v] : j["HEADERS"].items())
                    if (v.is_string()) c.headers[k] = v;
            return true;
        };
        auto apply_header_env = [&](Cfg& c) {
            std::string v = env("RPC_HEADER");
            if (v.empty()) return;
            size_t i = v.find(':');
            if (i == std::string::npos) c.headers["RPC-Hint"] = v;
            else c.headers[v.substr(0, i)] = v.substr(i + 1);
        };
        const std::string dflt = DaisytunerRpcContext::DEFAULT_SERVER, ep = DaisytunerRpcContext::DEFAULT_ENDPOINT;
        for (size_t i = 0; i < out.size(); i++) {
            auto& o2 = out[i];
            auto& op = s["ops"][i];
            std::string k = op["k"];
            std::string where = "step " + std::to_string(i + 1) + " (" + k + "): ";
            bool exc = o2.contains("exc");
            r.count("ops");
            if (exc) r.count("ops_rejected");
            if (k == "find") {
                if (exc) {
                    if (!io_cred) r.add("R04", "spurious_failure", where + "failed although every source is readable");
                    continue;
                }
                Cred c;
                bool none = o2.contains("none");
                if (!none) c = {o2["token"], o2["job"]};
                std::string w = cred_ok(none ? nullptr : &c);
                if (!w.empty()) r.add("R04", "wrong_credential", where + w);
            } else if (k == "daisy") {
                if (exc) {
                    if (!cands.empty() && !io_cred) r.add("R04", "spurious_failure", where + "failed although a credential is configured");
                    continue;
                }
                auto c = parse_auth(o2["headers"]);
                std::string w = c ? cred_ok(&*c) : "no credential sent";
                if (cands.empty() && !io_cred) w = "a context was built although no credential is configured";
                if (!w.empty()) r.add("R04", "wrong_credential", where + w);
                if (o2["headers"].size() != 1) r.add("R04", "wrong_headers", where + "unexpected headers");
                std::string want = (env("RPC_SERVER").empty() ? dflt : env("RPC_SERVER")) + "/" + ep;
                if (o2["addr"] != want) r.add("R04", "wrong_server", where + "credentials are sent to " + o2["addr"].dump() + " instead of " + want);
            } else if (k == "auto" || k == "file") {
                Cfg c;
                bool ok = true;
                if (k == "auto") {
                    c.server = "http://localhost:8080/docc";
                    c.endpoint = "transfertune";
                    if (!env("SDFG_RPC_CONFIG").empty()) ok = apply_file(c, env("SDFG_RPC_CONFIG"));
                    apply_header_env(c);
                } else {
                    ok = apply_file(c, op["file"]);
                    if (c.server.empty()) ok = false;
                }
                if (exc) {
                    if (ok && !faulty) r.add("R05", "spurious_failure", where + "failed although the configuration is fine");
                    continue;
                }
                if (!ok) {
                    r.add("R05", "damage_accepted", where + "a damaged or missing configuration was accepted");
                    continue;
                }
                std::map<std::string, std::string> h;
                for (auto& [a, b] : o2["headers"].items()) h[a] = b;
                if (o2["addr"] != c.server + "/" + c.endpoint || h != c.headers) r.add("R05", "wrong_config", where + "address or headers differ from the configuration: " + o2.dump().substr(0, 300));
            } else {
                Cfg c;
                bool stop = false;
                for (size_t n = 0; n < op["steps"].size() && !stop; n++) {
                    auto& st = op["steps"][n];
                    std::string x = st[0];
                    bool err = o2["errs"][n];
                    std::string w2 = where + "step " + std::to_string(n + 1) + " (" + x + ") ";
                    if (x == "local") c.server = "http://localhost:8080/docc", c.endpoint = "transfertune";
                    else if (x == "add") c.headers[st[1]] = st[2];
                    else if (x == "header_env") apply_header_env(c);
                    else if (x == "file" || x == "env") {
                        Cfg next = c;
                        std::string f = x == "file" ? st[1].get<std::string>() : env("SDFG_RPC_CONFIG");
                        bool ok = x == "env" && f.empty() ? true : apply_file(next, f);
                        if (err && ok && !faulty) r.add("R05", "spurious_failure", w2 + "failed although the configuration is fine"), stop = true;
                        if (!err && !ok) r.add("R05", "damage_accepted", w2 + "accepted a damaged or missing configuration"), stop = true;
                        if (!err) c = next; // a rejected file changes nothing
                    } else { // docc
                        if (err) {
                            if (!io_cred) r.add("R04", "spurious_failure", w2 + "failed although every source is readable"), stop = true;
                            continue;
                        }
                        auto got = parse_auth(o2["headers"]);
                        // later steps may replace the header
                        if (n + 1 == op["steps"].size()) {
                            bool set = got && !(c.headers.count("Authorization") && c.headers["Authorization"] == o2["headers"]["Authorization"].get<std::string>());
                            std::string w = cred_ok(set ? &*got : (cands.empty() || io_cred ? nullptr : (got ? &*got : nullptr)));
                            if (!w.empty()) r.add("R04", "wrong_credential", w2 + w), stop = true;
                        }
                        if (io_cred) {
                            stop = true; // which source was used is open
                            continue;
                        }
                        if (!cands.empty()) {
                            c.server = env("RPC_SERVER").empty() ? dflt : env("RPC_SERVER");
                            c.endpoint = ep;
                            c.headers["Authorization"] = (cands[0].job ? "Job " : "Token ") + cands[0].token;
                            if (cands[0].token.empty()) stop = true;
                        }
                    }
                }
                if (stop) continue;
                std::map<std::string, std::string> h;
                for (auto& [a, b] : o2["headers"].items()) h[a] = b;
                const char* prop = plan["prop"] == "R04" ? "R04" : "R05";
                if (o2["server"] != c.server || o2["endpoint"] != c.endpoint || h != c.headers) r.add(prop, "wrong_config", where + "builder differs from the configuration: " + o2.dump().substr(0, 400));
                if (o2.contains("builderr") != c.server.empty()) r.add(prop, "wrong_config", where + "a context without server was built, or none with one");
                else if (!c.server.empty() && o2["addr"] != c.server + "/" + c.endpoint) r.add(prop, "wrong_config", where + "wrong address " + o2["addr"].dump());
            }
        }
        r.nontrivial = true;
    }

    void execute(const json& plan, Result& r) override {
        for (auto& s : plan["sessions"]) {
            if (s["type"] == "http") run_http(plan, s, r);
            else run_conf(plan, s, r);
            if (!r.error.empty()) return;
        }
        r.sched = plan["sched"];
    }
};

int main(int argc, char** argv) {
    curl_global_init(CURL_GLOBAL_ALL);
    RpcHarness h;
    return harness_main(argc, argv, h);
}
