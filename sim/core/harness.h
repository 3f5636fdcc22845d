// Common driver of all simulation harnesses: generate a plan from a seed, execute it in forked sessions,
// judge it, run batches of seeds, replay plan files.
#pragma once
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

#include "sim.h"

using json = nlohmann::json;

struct Violation {
    std::string prop; // property id
    std::string cls; // class of violation (stable across minimisation)
    std::string msg;
};

struct SessionSpec {
    sim::SchedCfg sched;
    std::vector<sim::Preempt> list; // storage for list mode
    std::vector<sim::Fault> faults;
    std::map<std::string, std::string> env;
    std::vector<std::pair<std::string, std::string>> path_maps;
    uint64_t start_ns = 1000000000ull;
    std::function<void()> child; // runs with trapping enabled in the main thread
};

struct SessionOut {
    int status = 0; // waitpid status
    bool timed_out = false; // real-time watchdog
    bool exited() const;
    int code() const;
    bool signaled() const;
    int sig() const;
    std::string describe() const;
};

struct Result {
    std::vector<Violation> violations;
    std::string error; // harness failure
    uint64_t hash = 0;
    uint64_t sched_hash = 0;
    bool multi = false; // had more than one runnable thread
    bool nontrivial = true;
    json stats = json::object(); // integer counters
    json sched; // recorded schedule (list mode)
    std::vector<std::string> notes;
    void add(const std::string& prop, const std::string& cls, const std::string& msg) {
        violations.push_back({prop, cls, msg});
    }
    void count(const std::string& k, uint64_t n = 1);
    void mix(uint64_t v);
    void mix(const std::string& s);
};

class Harness {
public:
    std::string scratch; // real directory of the current run ("/simroot")
    std::string tier = "quick";
    virtual ~Harness() = default;
    virtual json gen(const std::string& prop, uint64_t seed) = 0;
    virtual void execute(const json& plan, Result& r) = 0;

    SessionOut session(SessionSpec& spec, Result& r);
    // helpers
    static std::string slurp(const std::string& file, bool* ok = nullptr);
    void reset_scratch();
};

// JSON <-> core
sim::SchedCfg sched_from(const json& j, std::vector<sim::Preempt>& list);
json sched_recorded(const json& original);
std::vector<sim::Fault> faults_from(const json& j);
json gen_sched(sim::Rng& rng, int threads);
const char* fault_name(int kind);
const char* op_name(int cls);
uint64_t hash_str(const std::string& s);

int harness_main(int argc, char** argv, Harness& h);
