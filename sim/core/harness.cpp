#include "harness.h"
#include "alloc.h"

#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>

namespace fs = std::filesystem;
extern char** environ;

bool SessionOut::exited() const { return !timed_out && WIFEXITED(status); }
int SessionOut::code() const { return WEXITSTATUS(status); }
bool SessionOut::signaled() const { return !timed_out && WIFSIGNALED(status); }
int SessionOut::sig() const { return WTERMSIG(status); }
std::string SessionOut::describe() const {
    if (timed_out) return "no termination (watchdog)";
    if (signaled()) return std::string("killed by signal ") + std::to_string(sig()) + " (" + strsignal(sig()) + ")";
    return "exit status " + std::to_string(code());
}

uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

void Result::count(const std::string& k, uint64_t n) {
    if (!stats.contains(k)) stats[k] = (uint64_t) 0;
    stats[k] = stats[k].get<uint64_t>() + n;
}
void Result::mix(uint64_t v) {
    hash ^= v + 0x9e3779b97f4a7c15ull + (hash << 6) + (hash >> 2);
    hash *= 0xff51afd7ed558ccdull;
    hash ^= hash >> 32;
}
void Result::mix(const std::string& s) { mix(hash_str(s)); }

std::string Harness::slurp(const std::string& file, bool* ok) {
    std::ifstream f(file, std::ios::binary);
    if (ok) *ok = (bool) f;
    std::ostringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

void Harness::reset_scratch() {
    std::error_code ec;
    fs::create_directories(scratch, ec);
    for (auto& e : fs::directory_iterator(scratch, ec)) {
        std::error_code e2;
        // an earlier run may have removed permissions
        fs::remove_all(e.path(), e2);
    }
}

static const char* FAULTS[] = {"none", "enospc", "eio", "eintr", "eacces", "enoent", "emfile", "short", "crash", "diskfull", "eof", "flip"};
static const char* OPS[] = {"any", "open_write", "open_read", "write", "read", "close", "mkdir", "rename", "unlink", "fsync", "stat"};
const char* fault_name(int k) { return k >= 0 && k < sim::F_KIND_COUNT ? FAULTS[k] : "?"; }
const char* op_name(int c) { return c >= 0 && c < sim::OP_CLASS_COUNT ? OPS[c] : "?"; }

std::vector<sim::Fault> faults_from(const json& j) {
    std::vector<sim::Fault> v;
    for (auto& f : j) {
        sim::Fault x;
        std::string k = f.at("kind"), c = f.value("op", "any");
        for (int i = 0; i < sim::F_KIND_COUNT; i++)
            if (k == FAULTS[i]) x.kind = i;
        for (int i = 0; i < sim::OP_CLASS_COUNT; i++)
            if (c == OPS[i]) x.cls = i;
        x.nth = f.value("nth", 1);
        x.arg = f.value("arg", (int64_t) 0);
        v.push_back(x);
    }
    return v;
}

sim::SchedCfg sched_from(const json& j, std::vector<sim::Preempt>& list) {
    sim::SchedCfg c;
    c.seed = j.value("seed", (uint64_t) 1);
    c.p_mem = j.value("p_mem", 0u);
    c.p_point = j.value("p_point", 0u);
    if (j.contains("cap")) c.step_cap = j["cap"].get<uint64_t>();
    if (j.value("mode", "random") == std::string("list")) {
        c.list_mode = true;
        for (auto& e : j["list"]) {
            sim::Preempt p;
            p.step = e[0].get<uint32_t>();
            p.tid = (e[1].get<uint32_t>() << 8) | e[2].get<uint32_t>();
            list.push_back(p);
        }
        c.list = list.data();
        c.n_list = (uint32_t) list.size();
    }
    return c;
}

json sched_recorded(const json& original) {
    if (sim::g->preempt_overflow) return original;
    json j;
    j["mode"] = "list";
    j["seed"] = original.value("seed", (uint64_t) 1);
    if (original.contains("cap")) j["cap"] = original["cap"];
    j["list"] = json::array();
    for (uint32_t i = 0; i < sim::g->n_preempt; i++) {
        auto& p = sim::g->preempt[i];
        j["list"].push_back({p.step, p.tid >> 8, p.tid & 0xff});
    }
    return j;
}

json gen_sched(sim::Rng& rng, int threads) {
    json j;
    j["mode"] = "random";
    j["seed"] = rng.next() >> 16;
    static const uint32_t mem[] = {0, 2, 6, 20, 60, 200, 1000};
    static const uint32_t pt[] = {0, 2000, 8000, 20000, 40000};
    j["p_mem"] = threads > 1 ? mem[rng.below(7)] : 0;
    j["p_point"] = threads > 1 ? pt[rng.below(5)] : 0;
    return j;
}

static void zero_shm() {
    memset((void*) sim::g, 0, offsetof(sim::Shm, preempt));
}

SessionOut Harness::session(SessionSpec& spec, Result& r) {
    zero_shm();
    sim::g->now_ns = spec.start_ns;
    sim::g->loghash = 7;
    spec.sched.list = spec.list.empty() ? nullptr : spec.list.data();
    spec.sched.n_list = (uint32_t) spec.list.size();
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        r.error = "fork failed";
        return {};
    }
    if (pid == 0) {
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        signal(SIGINT, SIG_DFL);
        signal(SIGTERM, SIG_DFL);
        clearenv();
        for (auto& [k, v] : spec.env) setenv(k.c_str(), v.c_str(), 1);
        if (chdir(scratch.c_str()) != 0) _exit(98);
        umask(022);
        sim::configure(spec.sched, spec.faults.data(), (int) spec.faults.size(), scratch.c_str());
        for (auto& [a, b] : spec.path_maps) sim::add_path_map(a.c_str(), b.c_str());
        sim::heap_begin((spec.sched.seed >> 2) & 1);
        sim::enable_here(0);
        spec.child();
        sim::g->completed = 1;
        exit(0); // static destructors of the code under test run inside the simulation
    }
    SessionOut out;
    // watchdog: a session that does not terminate in real time although it makes no scheduler steps
    struct timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int polls = 0;
    for (;;) {
        pid_t w = waitpid(pid, &out.status, WNOHANG);
        if (w == pid) break;
        if (w < 0 && errno != EINTR) {
            r.error = "waitpid failed";
            break;
        }
        polls++;
        if (polls < 50) {
            struct timespec d = {0, 20000};
            nanosleep(&d, nullptr);
        } else {
            struct timespec d = {0, 200000};
            nanosleep(&d, nullptr);
        }
        struct timespec t1;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec - t0.tv_sec > 60) {
            kill(pid, SIGKILL);
            waitpid(pid, &out.status, 0);
            out.timed_out = true;
            break;
        }
    }
    auto* g = sim::g;
    if (g->verdict == sim::V_INTERNAL) r.error = std::string("simulator: ") + g->msg;
    r.mix(g->loghash);
    r.mix(g->steps);
    r.mix((uint64_t) (out.timed_out ? -1 : out.status));
    r.mix(g->now_ns);
    r.sched_hash ^= g->schedhash;
    if (g->switches > 1) r.multi = true;
    r.count("sessions");
    r.count("steps", g->steps);
    r.count("switches", g->switches);
    r.count("syscalls", g->syscalls);
    r.count("sim_ns", g->now_ns >= spec.start_ns ? g->now_ns - spec.start_ns : 0);
    for (size_t i = 0; i < spec.faults.size() && i < (size_t) sim::MAX_FAULTS; i++) {
        if (spec.faults[i].kind == sim::F_NONE) continue;
        std::string n = std::string(fault_name(spec.faults[i].kind)) + "@" + op_name(spec.faults[i].cls);
        if (spec.faults[i].kind == sim::F_DISKFULL) n = "diskfull";
        r.count("fault_cfg:" + n);
        if (g->fault_fired[i]) r.count("fault_fired:" + n);
    }
    return out;
}

// ---------------------------------------------------------------------------------------------------------

static json run_plan(Harness& h, const json& plan) {
    Result r;
    h.reset_scratch();
    h.execute(plan, r);
    json o;
    o["error"] = r.error;
    o["hash"] = std::to_string(r.hash);
    o["sched_hash"] = std::to_string(r.sched_hash);
    o["violations"] = json::array();
    for (auto& v : r.violations) o["violations"].push_back({{"prop", v.prop}, {"cls", v.cls}, {"msg", v.msg}});
    o["stats"] = r.stats;
    o["sched"] = r.sched;
    o["notes"] = r.notes;
    o["multi"] = r.multi;
    o["nontrivial"] = r.nontrivial;
    return o;
}

static double mono() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}

int harness_main(int argc, char** argv, Harness& h) {
    // identical address space layout in every process: addresses decide hash-table orders of the code under test
    if (!getenv("SIM_NOASLR")) {
        personality(ADDR_NO_RANDOMIZE);
        setenv("SIM_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> opt;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    auto get = [&](const char* k, const char* d) { return opt.count(k) ? opt[k] : std::string(d); };
    h.tier = get("--tier", "quick");
    h.scratch = get("--scratch", "");
    if (mode == "gen") {
        std::cout << h.gen(get("--prop", ""), std::stoull(get("--seed", "1"))).dump(1) << std::endl;
        return 0;
    }
    if (h.scratch.empty() || h.scratch[0] != '/') {
        fprintf(stderr, "need --scratch (absolute)\n");
        return 2;
    }
    h.scratch = fs::path(h.scratch) / ("w" + get("--worker", "0"));
    fs::create_directories(h.scratch);
    void* m = mmap(nullptr, sizeof(sim::Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) {
        fprintf(stderr, "mmap failed\n");
        return 2;
    }
    sim::g = (sim::Shm*) m;
    sim::heap_reserve();

    if (mode == "run") {
        json plan = json::parse(Harness::slurp(get("--plan", "")));
        json o = run_plan(h, plan);
        std::cout << o.dump() << std::endl;
        return 0;
    }
    if (mode == "serve") { // one plan file name per line; used by the minimiser
        std::string line;
        while (std::getline(std::cin, line)) {
            json o;
            try {
                o = run_plan(h, json::parse(Harness::slurp(line)));
            } catch (std::exception& e) {
                o = {{"error", std::string("plan rejected: ") + e.what()}, {"violations", json::array()}, {"hash", "0"}};
            }
            std::cout << o.dump() << std::endl;
        }
        return 0;
    }
    if (mode == "batch") {
        std::string prop = get("--prop", "");
        uint64_t start = std::stoull(get("--start", "1")), count = std::stoull(get("--count", "100"));
        uint64_t stride = std::stoull(get("--stride", "1"));
        double limit = std::stod(get("--time", "1e9"));
        uint64_t recheck = std::stoull(get("--recheck", "16"));
        uint64_t n_hashes = std::stoull(get("--hashes", "0"));
        double t0 = mono();
        json stats = json::object();
        std::unordered_set<uint64_t> scheds, hashes;
        json viol = json::array(), errors = json::array(), nondet = json::array(), samples = json::array();
        std::map<std::string, int> seen;
        uint64_t runs = 0, multi = 0, nontriv = 0, checked_twice = 0;
        uint64_t all_hash = 0;
        json hash_of = json::object();
        for (uint64_t i = 0; i < count; i++) {
            if (mono() - t0 > limit) break;
            uint64_t seed = start + i * stride;
            json plan = h.gen(prop, seed);
            json o = run_plan(h, plan);
            runs++;
            uint64_t hh = std::stoull(o["hash"].get<std::string>());
            all_hash = all_hash * 1099511628211ull + hh;
            if (i < n_hashes) hash_of[std::to_string(seed)] = o["hash"];
            if (o["multi"].get<bool>()) multi++;
            if (o["nontrivial"].get<bool>()) {
                nontriv++;
                hashes.insert(hh);
            }
            scheds.insert(std::stoull(o["sched_hash"].get<std::string>()));
            for (auto& [k, v] : o["stats"].items()) stats[k] = stats.value(k, (uint64_t) 0) + v.get<uint64_t>();
            if (!o["error"].get<std::string>().empty()) {
                if (errors.size() < 5) errors.push_back({{"seed", seed}, {"error", o["error"]}});
                continue;
            }
            bool hit = false;
            for (auto& v : o["violations"])
                if (v["prop"] == prop) hit = true;
            if (hit || (recheck && i % recheck == 0)) {
                json o2 = run_plan(h, plan);
                checked_twice++;
                if (o2["hash"] != o["hash"]) {
                    if (nondet.size() < 5) nondet.push_back({{"seed", seed}, {"h1", o["hash"]}, {"h2", o2["hash"]}});
                }
            }
            if (samples.size() < 3 && i % 7 == 3) samples.push_back({{"seed", seed}, {"hash", o["hash"]}});
            for (auto& v : o["violations"]) {
                if (v["prop"] != prop) continue;
                std::string key = v["cls"];
                if (seen[key]++ < 3) {
                    viol.push_back({{"seed", seed}, {"cls", key}, {"msg", v["msg"]}, {"hash", o["hash"]}, {"plan", plan}, {"sched", o["sched"]}});
                }
            }
            if (viol.size() >= 24) break;
        }
        json out;
        out["runs"] = runs;
        out["multi"] = multi;
        out["nontrivial"] = nontriv;
        out["checked_twice"] = checked_twice;
        out["wall"] = mono() - t0;
        out["stats"] = stats;
        out["violations"] = viol;
        out["classes"] = seen;
        out["errors"] = errors;
        out["nondet"] = nondet;
        out["samples"] = samples;
        out["all_hash"] = std::to_string(all_hash);
        if (n_hashes) out["hashes_by_seed"] = hash_of;
        json sh = json::array(), rh = json::array();
        for (auto x : scheds) sh.push_back(std::to_string(x));
        for (auto x : hashes) rh.push_back(std::to_string(x));
        out["sched_hashes"] = sh;
        out["run_hashes"] = rh;
        std::ofstream(get("--out", "/dev/stdout")) << out.dump() << std::endl;
        return 0;
    }
    fprintf(stderr, "usage: gen|run|serve|batch\n");
    return 2;
}
