// Deterministic simulation core.
//
// One simulated session = one forked child process in which
//   * every system call of every simulated thread is trapped (Linux "syscall user dispatch") and decided here:
//     file I/O (with faults and crash points), futexes (all blocking synchronisation), clocks, ids, sockets;
//   * real threads are parked and released one at a time; who runs next is decided by a seeded PRNG at every
//     synchronisation point and at every instrumented basic block / memory access of the code under test;
//   * time is simulated.
// Nothing in here allocates or uses libc facilities that could re-enter the code under test.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

enum FaultKind : int32_t {
    F_NONE = 0,
    F_ENOSPC, // the nth op of the class fails with ENOSPC
    F_EIO,
    F_EINTR,
    F_EACCES,
    F_ENOENT,
    F_EMFILE,
    F_SHORT, // the nth read/write transfers only arg bytes (at least 1)
    F_CRASH, // process killed at the nth op; for writes, arg bytes were written before
    F_DISKFULL, // total budget of arg bytes; afterwards every write fails with ENOSPC
    F_EOF, // nth read returns 0 bytes
    F_FLIP, // nth read returns data with one bit flipped (arg selects)
    F_KIND_COUNT
};
enum OpClass : int32_t {
    OP_ANY = 0, // any state-changing file operation (crash points)
    OP_OPENW,
    OP_OPENR,
    OP_WRITE,
    OP_READ,
    OP_CLOSE,
    OP_MKDIR,
    OP_RENAME,
    OP_UNLINK,
    OP_FSYNC,
    OP_STAT,
    OP_CLASS_COUNT
};

struct Fault {
    int32_t kind = 0;
    int32_t cls = 0;
    int32_t nth = 0; // 1-based
    int64_t arg = 0;
    int32_t fired = 0;
};

struct Preempt {
    uint32_t step;
    uint32_t tid;
};

struct Rec {
    uint64_t seq;
    int32_t tid;
    int32_t kind;
    int64_t a, b, c, d;
};

enum Verdict : uint32_t { V_NONE = 0, V_DEADLOCK, V_STEPCAP, V_INTERNAL, V_CRASHED, V_INRUN };

constexpr int MAX_THREADS = 12;
constexpr int MAX_PREEMPT = 8192;
constexpr int MAX_FAULTS = 32;
constexpr int MAX_HIST = 16384;
constexpr int MAX_NOTE = 64;

// Shared between the session child and the parent that judges it.
struct Shm {
    uint32_t verdict;
    uint32_t crashed; // killed by an injected crash
    uint32_t completed; // workload reached its end
    uint32_t exit_called;
    uint64_t steps;
    uint64_t loghash;
    uint64_t schedhash;
    uint64_t switches;
    uint64_t now_ns;
    int32_t fault_fired[MAX_FAULTS];
    uint64_t op_count[OP_CLASS_COUNT];
    uint64_t syscalls;
    uint64_t bytes_written;
    uint64_t probe[MAX_NOTE];
    uint32_t n_escape; // attempts to modify something outside the simulated root
    char escape[256];
    uint32_t hist_overflow;
    uint32_t n_preempt;
    uint32_t preempt_overflow;
    uint32_t n_hist;
    uint32_t blob_len;
    uint32_t n_stderr;
    char msg[1024];
    char stderr_text[4096];
    // everything above is zeroed per session
    Preempt preempt[MAX_PREEMPT];
    Rec hist[MAX_HIST];
    uint8_t blob[1 << 20]; // free-form results of the harness child
};

struct SchedCfg {
    bool list_mode = false; // replay: switches come from the list only
    uint64_t seed = 1;
    uint32_t p_mem = 0; // preemption probability / 65536 at each load/store/block of the code under test
    uint32_t p_point = 0; // ... at calls into the environment (counter library, system calls)
    uint64_t step_cap = 40u * 1000 * 1000;
    const Preempt* list = nullptr;
    uint32_t n_list = 0;
};

extern Shm* g; // current session's shared memory (child and parent)

// ---- child side -------------------------------------------------------------------------------------------
// Configure before start(); root = real scratch directory that "/simroot" maps to.
void configure(const SchedCfg& cfg, const Fault* faults, int n_faults, const char* root);
void add_path_map(const char* prefix, const char* real);
// Enables trapping for the calling (main) thread.
void enable_here(int tid);
void disable_here();
// Runs the bodies as simulated threads 1..n, returns when all are finished (or _exit()s with a verdict).
typedef void (*Body)(void* arg, int idx);
void run_threads(Body body, void* arg, int n);

bool active(); // calling thread is simulated right now
int self();
void point(uint32_t kind); // scheduling point (environment call)
uint64_t now();
void advance(uint64_t ns);
void log_u64(uint64_t x);
void hist(int kind, int64_t a, int64_t b = 0, int64_t c = 0, int64_t d = 0);
uint64_t seq();
void probe(int i);
[[noreturn]] void die(uint32_t verdict, const char* fmt, long a = 0, long b = 0);
void violation(const char* msg);
uint64_t rnd(); // schedule PRNG stream (only for decisions that replay records)

long raw(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);

// optional extension for sockets etc.: return true when handled
extern bool (*net_hook)(long nr, long* args, long* ret);
// blocking support for extensions: blocks the calling thread until pred() or deadline (simulated ns, 0 = none)
bool block_until(bool (*pred)(void*), void* arg, uint64_t deadline_ns);
// called when no thread is runnable; returns true if it made progress possible (e.g. delivered a network event)
extern uint64_t (*next_event_hook)(); // time of next external event or UINT64_MAX
extern void (*run_event_hook)(); // run that event

// Disable preemption (harness bookkeeping sections).
struct Quiet {
    Quiet();
    ~Quiet();
};

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x2545F4914F6CDD1Dull + 0x1234567) { splitmix(s); }
    uint64_t next() { return splitmix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};
} // namespace sim
