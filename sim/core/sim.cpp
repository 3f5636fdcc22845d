#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"

#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif

namespace sim {

Shm* g = nullptr;
bool (*net_hook)(long, long*, long*) = nullptr;
uint64_t (*next_event_hook)() = nullptr;
void (*run_event_hook)() = nullptr;

// ---------------------------------------------------------------------------------------------------------
// raw system calls: the only code range from which system calls are not trapped
// ---------------------------------------------------------------------------------------------------------
extern "C" {
__attribute__((section("simtext"), noinline, used)) long
sim_raw_syscall(long nr, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall"
                 : "=a"(r)
                 : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                 : "rcx", "r11", "memory");
    return r;
}
__attribute__((section("simtext"), naked, used)) void sim_restorer(void) { asm volatile("mov $15,%eax\n syscall\n nop\n nop\n ud2\n"); }
extern char __start_simtext[], __stop_simtext[];
}

long raw(long nr, long a, long b, long c, long d, long e, long f) { return sim_raw_syscall(nr, a, b, c, d, e, f); }

// ---------------------------------------------------------------------------------------------------------
// state
// ---------------------------------------------------------------------------------------------------------
namespace {

enum TState { T_UNUSED = 0, T_READY, T_BLOCKED_FUTEX, T_BLOCKED_PRED, T_DONE };

struct Thread {
    volatile int go;
    int state;
    uint32_t lstep;
    // blocking
    const int* faddr;
    uint64_t deadline; // 0 = none
    bool timed_out;
    bool (*pred)(void*);
    void* parg;
    uint32_t list_pos;
};

SchedCfg cfg;
Fault faults[MAX_FAULTS];
int n_faults = 0;
uint64_t cls_seen[OP_CLASS_COUNT];
int64_t disk_budget = -1;
char root_dir[256];
struct PathMap {
    char pre[64];
    char real[256];
};
PathMap pmap[8];
int n_pmap = 0;

Thread th[MAX_THREADS];
int n_threads = 0; // highest tid + 1
volatile int all_done = 0;
int cur = 0;
uint64_t rng_state = 1;
uint64_t g_seq = 0;
bool threads_running = false;

__thread volatile char t_sel = 0; // 0 = allow, 1 = trap
__thread int t_tid = -1;
__thread int t_quiet = 0;
__thread int t_in_sim = 0;

struct FdInfo {
    uint8_t sim;
    uint8_t wr;
    uint32_t pathhash;
};
FdInfo fdt[1024];

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}
uint64_t fnvs(const char* s) { return fnv(s, strlen(s)); }

void mix(uint64_t& h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}

void futex_wait(volatile int* a, int v) { raw(SYS_futex, (long) a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
void futex_wake(volatile int* a) { raw(SYS_futex, (long) a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

void pass_baton(int to) {
    cur = to;
    __atomic_store_n(&th[to].go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&th[to].go);
}
void await_baton(int me) {
    while (!__atomic_load_n(&th[me].go, __ATOMIC_SEQ_CST)) futex_wait(&th[me].go, 0);
    __atomic_store_n(&th[me].go, 0, __ATOMIC_SEQ_CST);
}

int runnable(int* out) {
    int n = 0;
    for (int i = 1; i < n_threads; i++) {
        if (th[i].state == T_BLOCKED_PRED && th[i].pred && th[i].pred(th[i].parg)) {
            th[i].state = T_READY;
            th[i].timed_out = false;
        }
        if (th[i].state == T_READY) out[n++] = i;
    }
    return n;
}

void record_switch(uint32_t lstep, int from, int to) {
    g->switches++;
    mix(g->schedhash, ((uint64_t) lstep << 16) ^ ((uint64_t) from << 8) ^ (uint64_t) to);
    mix(g->loghash, ((uint64_t) lstep << 16) ^ ((uint64_t) from << 8) ^ (uint64_t) to);
    if (g->n_preempt < MAX_PREEMPT) {
        g->preempt[g->n_preempt].step = lstep;
        g->preempt[g->n_preempt].tid = (uint32_t) ((from << 8) | to);
        g->n_preempt++;
    } else {
        g->preempt_overflow = 1; // replay by seed only
    }
}

// list mode: is a switch listed for thread `me` at its local step?
int listed(int me, uint32_t lstep) {
    Thread& t = th[me];
    while (t.list_pos < cfg.n_list) {
        const Preempt& p = cfg.list[t.list_pos];
        if ((int) (p.tid >> 8) != me || p.step < lstep) {
            t.list_pos++;
            continue;
        }
        if (p.step == lstep) {
            t.list_pos++;
            return (int) (p.tid & 0xff);
        }
        return -1;
    }
    return -1;
}

void switch_to(int me, int to) {
    if (to == me) return;
    record_switch(th[me].lstep, me, to);
    pass_baton(to);
    await_baton(me);
}

// nothing runnable: advance simulated time to the next deadline or external event
bool idle_progress() {
    uint64_t best = UINT64_MAX;
    int who = -1;
    for (int i = 1; i < n_threads; i++) {
        if ((th[i].state == T_BLOCKED_FUTEX || th[i].state == T_BLOCKED_PRED) && th[i].deadline &&
            th[i].deadline < best) {
            best = th[i].deadline;
            who = i;
        }
    }
    uint64_t ev = next_event_hook ? next_event_hook() : UINT64_MAX;
    if (ev == UINT64_MAX && who < 0) return false;
    if (ev <= best) {
        if (ev > g->now_ns) g->now_ns = ev;
        run_event_hook();
        return true;
    }
    if (best > g->now_ns) g->now_ns = best;
    th[who].state = T_READY;
    th[who].timed_out = true;
    return true;
}

void count_step() {
    g->steps++;
    if (g->steps > cfg.step_cap) die(V_STEPCAP, "no completion within %ld scheduler steps", (long) cfg.step_cap);
}

// the calling thread cannot continue (blocked or done): choose another
void reschedule_blocked(int me, bool done) {
    Thread& t = th[me];
    t.lstep++;
    count_step();
    int r[MAX_THREADS];
    int n;
    while ((n = runnable(r)) == 0) {
        if (!idle_progress()) {
            bool alldone = true;
            for (int i = 1; i < n_threads; i++)
                if (th[i].state != T_DONE) alldone = false;
            if (alldone) {
                __atomic_store_n(&all_done, 1, __ATOMIC_SEQ_CST);
                raw(SYS_futex, (long) &all_done, FUTEX_WAKE_PRIVATE, 64, 0, 0, 0);
                return;
            }
            die(V_DEADLOCK, "deadlock: every simulated thread is blocked (thread %ld blocked last)", me);
        }
    }
    int to = r[0];
    if (cfg.list_mode) {
        int l = listed(me, t.lstep);
        for (int i = 0; i < n; i++)
            if (r[i] == l) to = l;
    } else if (n > 1) {
        to = r[splitmix(rng_state) % n];
    }
    if (to == me) return; // became runnable again
    if (done) {
        record_switch(t.lstep, me, to);
        pass_baton(to);
    } else {
        switch_to(me, to);
    }
}

void maybe_preempt(uint32_t prob, uint32_t kind) {
    int me = t_tid;
    if (me < 1 || !threads_running || t_quiet) return;
    Thread& t = th[me];
    t.lstep++;
    count_step();
    if (cfg.list_mode) {
        int l = listed(me, t.lstep);
        if (l > 0 && l < n_threads && l != me) {
            int r[MAX_THREADS];
            int n = runnable(r);
            for (int i = 0; i < n; i++)
                if (r[i] == l) {
                    switch_to(me, l);
                    break;
                }
        }
        return;
    }
    if (!prob) return;
    uint64_t x = splitmix(rng_state);
    if ((x & 0xffff) >= prob) return;
    int r[MAX_THREADS];
    int n = runnable(r);
    if (n <= 1) return;
    int to = r[(x >> 20) % n];
    if (to == me) return;
    mix(g->schedhash, kind);
    switch_to(me, to);
}

} // namespace

// ---------------------------------------------------------------------------------------------------------
// public API
// ---------------------------------------------------------------------------------------------------------
static void copystr(char* d, size_t n, const char* s) {
    size_t i = 0;
    for (; i + 1 < n && s[i]; i++) d[i] = s[i];
    d[i] = 0;
}
static void put_num(char*& p, char* e, long v) {
    char t[24];
    int n = 0;
    bool neg = v < 0;
    unsigned long u = neg ? -(unsigned long) v : (unsigned long) v;
    do {
        t[n++] = '0' + u % 10;
        u /= 10;
    } while (u);
    if (neg && p < e) *p++ = '-';
    while (n && p < e) *p++ = t[--n];
}

void die(uint32_t verdict, const char* fmt, long a, long b) {
    if (!g->verdict) {
        g->verdict = verdict;
        char* p = g->msg;
        char* e = g->msg + sizeof(g->msg) - 1;
        int k = 0;
        for (const char* f = fmt; *f && p < e; f++) {
            if (f[0] == '%' && f[1] == 'l' && f[2] == 'd') {
                put_num(p, e, k++ == 0 ? a : b);
                f += 2;
            } else {
                *p++ = *f;
            }
        }
        *p = 0;
    }
    raw(SYS_exit_group, 77);
    __builtin_unreachable();
}

void violation(const char* msg) {
    if (!g->verdict) {
        g->verdict = V_INRUN;
        copystr(g->msg, sizeof g->msg, msg);
    }
}

bool active() { return t_tid >= 0 && t_sel; }
int self() { return t_tid; }
uint64_t now() { return g->now_ns; }
void advance(uint64_t ns) { g->now_ns += ns; }
void log_u64(uint64_t x) { mix(g->loghash, x); }
uint64_t seq() { return ++g_seq; }
uint64_t rnd() { return splitmix(rng_state); }
void probe(int i) {
    if (i >= 0 && i < MAX_NOTE) g->probe[i]++;
}

void hist(int kind, int64_t a, int64_t b, int64_t c, int64_t d) {
    if (g->n_hist >= MAX_HIST) {
        g->hist_overflow = 1;
        return;
    }
    Rec& r = g->hist[g->n_hist++];
    r.seq = ++g_seq;
    r.tid = t_tid;
    r.kind = kind;
    r.a = a;
    r.b = b;
    r.c = c;
    r.d = d;
    mix(g->loghash, fnv(&r, sizeof r));
}

void point(uint32_t kind) {
    if (t_tid < 1 || t_in_sim) return;
    t_in_sim++;
    maybe_preempt(cfg.p_point, kind);
    t_in_sim--;
}

Quiet::Quiet() { t_quiet++; }
Quiet::~Quiet() { t_quiet--; }

bool block_until(bool (*pred)(void*), void* arg, uint64_t deadline_ns) {
    int me = t_tid;
    if (pred && pred(arg)) return true;
    if (me >= 1 && threads_running) {
        Thread& t = th[me];
        t.pred = pred;
        t.parg = arg;
        t.deadline = deadline_ns;
        t.timed_out = false;
        t.state = T_BLOCKED_PRED;
        t_in_sim++;
        reschedule_blocked(me, false);
        t_in_sim--;
        t.state = T_READY;
        t.pred = nullptr;
        t.deadline = 0;
        return !t.timed_out;
    }
    // single threaded
    for (;;) {
        if (pred && pred(arg)) return true;
        count_step();
        uint64_t ev = next_event_hook ? next_event_hook() : UINT64_MAX;
        if (deadline_ns && deadline_ns < ev) {
            if (deadline_ns > g->now_ns) g->now_ns = deadline_ns;
            return false;
        }
        if (ev == UINT64_MAX) die(V_DEADLOCK, "blocked forever: nothing can ever happen again");
        if (ev > g->now_ns) g->now_ns = ev;
        run_event_hook();
    }
}

// ---------------------------------------------------------------------------------------------------------
// file system
// ---------------------------------------------------------------------------------------------------------
namespace {

// returns translated path; *inside tells whether it belongs to the simulated root
const char* translate(const char* p, char* buf, size_t n, bool* inside) {
    *inside = false;
    if (!p) return p;
    if (p[0] != '/') {
        *inside = true;
        return p;
    }
    const char* pre = "/simroot";
    size_t l = strlen(pre);
    if (!strncmp(p, pre, l) && (p[l] == '/' || p[l] == 0)) {
        *inside = true;
        copystr(buf, n, root_dir);
        size_t k = strlen(buf);
        copystr(buf + k, n - k, p + l);
        return buf;
    }
    for (int i = 0; i < n_pmap; i++) {
        size_t m = strlen(pmap[i].pre);
        if (!strncmp(p, pmap[i].pre, m) && (p[m] == '/' || p[m] == 0)) {
            *inside = true;
            copystr(buf, n, pmap[i].real);
            size_t k = strlen(buf);
            copystr(buf + k, n - k, p + m);
            return buf;
        }
    }
    if (!strncmp(p, root_dir, strlen(root_dir))) *inside = true; // getcwd()-based absolute path
    return p;
}

int err_of(int kind) {
    switch (kind) {
        case F_ENOSPC:
            return ENOSPC;
        case F_EIO:
            return EIO;
        case F_EINTR:
            return EINTR;
        case F_EACCES:
            return EACCES;
        case F_ENOENT:
            return ENOENT;
        case F_EMFILE:
            return EMFILE;
    }
    return EIO;
}

[[noreturn]] void crash_now() {
    g->crashed = 1;
    if (!g->verdict) g->verdict = V_CRASHED;
    raw(SYS_exit_group, 137);
    __builtin_unreachable();
}

// fault lookup for one operation of class cls (and OP_ANY if mutating); returns fault or null
Fault* fault_for(int cls, bool mutating) {
    uint64_t n = ++cls_seen[cls];
    g->op_count[cls]++;
    uint64_t m = 0;
    if (mutating) {
        m = ++cls_seen[OP_ANY];
        g->op_count[OP_ANY]++;
    }
    for (int i = 0; i < n_faults; i++) {
        Fault& f = faults[i];
        if (f.kind == F_DISKFULL || f.kind == F_NONE) continue;
        if ((f.cls == cls && (uint64_t) f.nth == n) || (f.cls == OP_ANY && mutating && (uint64_t) f.nth == m)) {
            f.fired++;
            g->fault_fired[i]++;
            mix(g->loghash, 0xFA017000u + f.kind);
            return &f;
        }
    }
    return nullptr;
}

void note_escape(const char* what, const char* path) {
    g->n_escape++;
    if (g->n_escape == 1) {
        char* p = g->escape;
        char* e = g->escape + sizeof g->escape - 1;
        for (const char* s = what; *s && p < e;) *p++ = *s++;
        if (p < e) *p++ = ' ';
        for (const char* s = path; s && *s && p < e;) *p++ = *s++;
        *p = 0;
    }
}

// files carry simulated times, in ticks of 4 ms as on a real file system
void stamp(long fd) {
    uint64_t t = g->now_ns / 4000000 * 4000000;
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = (long) (t / 1000000000ull);
    ts[0].tv_nsec = ts[1].tv_nsec = (long) (t % 1000000000ull);
    raw(SYS_utimensat, fd, 0, (long) ts, 0);
}

long do_open(long dirfd, const char* path, long flags, long mode) {
    char buf[512];
    bool inside;
    const char* p = translate(path, buf, sizeof buf, &inside);
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!inside) {
        if (wr && strcmp(path, "/dev/null") != 0) {
            note_escape("open for writing", path);
            return -EPERM;
        }
        return raw(SYS_openat, dirfd, (long) p, flags, mode);
    }
    point(1);
    Fault* f = fault_for(wr ? OP_OPENW : OP_OPENR, wr);
    mix(g->loghash, 0x0be2 ^ fnvs(path) ^ (uint64_t) flags);
    if (f) {
        if (f->kind == F_CRASH) {
            if (f->arg) raw(SYS_openat, dirfd, (long) p, flags, mode);
            crash_now();
        }
        if (f->kind != F_SHORT && f->kind != F_EOF && f->kind != F_FLIP) return -err_of(f->kind);
    }
    long fd = raw(SYS_openat, dirfd, (long) p, flags, mode);
    if (fd >= 0 && fd < 1024) {
        fdt[fd].sim = 1;
        fdt[fd].wr = wr;
        fdt[fd].pathhash = (uint32_t) fnvs(path);
        if (wr && (flags & O_TRUNC)) stamp(fd);
    }
    mix(g->loghash, fd < 0 ? (uint64_t) fd : 1);
    return fd;
}

long write_one(long fd, const char* data, size_t n, off_t off, bool p) {
    return p ? raw(SYS_pwrite64, fd, (long) data, n, off) : raw(SYS_write, fd, (long) data, n);
}

long do_write(long fd, const struct iovec* iov, int cnt, off_t off, bool p) {
    if ((fd == 1 || fd == 2) && !fdt[fd].sim) {
        size_t tot = 0;
        for (int i = 0; i < cnt; i++) {
            if (fd == 2)
                for (size_t k = 0; k < iov[i].iov_len && g->n_stderr < sizeof(g->stderr_text) - 1; k++)
                    g->stderr_text[g->n_stderr++] = ((const char*) iov[i].iov_base)[k];
            tot += iov[i].iov_len;
        }
        point(2);
        return (long) tot;
    }
    if (fd < 0 || fd >= 1024 || !fdt[fd].sim) {
        if (p) return raw(SYS_pwritev, fd, (long) iov, cnt, off, 0);
        return raw(SYS_writev, fd, (long) iov, cnt);
    }
    size_t tot = 0;
    for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
    point(3);
    Fault* f = fault_for(OP_WRITE, true);
    size_t lim = tot;
    int err = 0;
    bool crash = false;
    if (f) {
        switch (f->kind) {
            case F_CRASH:
                crash = true;
                lim = f->arg < 0 ? 0 : (size_t) f->arg;
                break;
            case F_SHORT:
                lim = f->arg < 1 ? 1 : (size_t) f->arg;
                break;
            case F_EOF:
            case F_FLIP:
                break;
            default:
                err = err_of(f->kind);
                break;
        }
    }
    if (lim > tot) lim = tot;
    if (!err && disk_budget >= 0 && !crash) {
        if ((int64_t) lim > disk_budget) {
            lim = (size_t) disk_budget;
            for (int i = 0; i < n_faults; i++)
                if (faults[i].kind == F_DISKFULL) g->fault_fired[i]++;
            if (lim == 0 && tot > 0) err = ENOSPC;
        }
        if (!err) disk_budget -= (int64_t) lim;
    }
    if (err) {
        mix(g->loghash, 0xE0000000u + err);
        return -err;
    }
    size_t done = 0;
    for (int i = 0; i < cnt && done < lim; i++) {
        size_t k = iov[i].iov_len;
        if (k > lim - done) k = lim - done;
        if (!k) continue;
        long r = write_one(fd, (const char*) iov[i].iov_base, k, off + (off_t) done, p);
        if (r < 0) return done ? (long) done : r;
        done += (size_t) r;
        if ((size_t) r < k) break;
    }
    g->bytes_written += done;
    if (done) stamp(fd);
    mix(g->loghash, 0x3417e ^ done ^ ((uint64_t) fdt[fd].pathhash << 32));
    if (crash) crash_now();
    return (long) done;
}

long do_read(long fd, void* data, size_t n, off_t off, bool p) {
    if (fd < 0 || fd >= 1024 || !fdt[fd].sim) {
        return p ? raw(SYS_pread64, fd, (long) data, n, off) : raw(SYS_read, fd, (long) data, n);
    }
    point(4);
    Fault* f = fault_for(OP_READ, false);
    if (f) {
        switch (f->kind) {
            case F_EOF:
                return 0;
            case F_SHORT:
                if (n > (size_t) (f->arg < 1 ? 1 : f->arg)) n = (size_t) (f->arg < 1 ? 1 : f->arg);
                break;
            case F_FLIP:
                break;
            case F_CRASH:
                crash_now();
            default:
                return -err_of(f->kind);
        }
    }
    long r = p ? raw(SYS_pread64, fd, (long) data, n, off) : raw(SYS_read, fd, (long) data, n);
    if (f && f->kind == F_FLIP && r > 0) ((unsigned char*) data)[f->arg / 8 % r] ^= (unsigned char) (1u << (f->arg % 8));
    mix(g->loghash, 0x4ead ^ (uint64_t) r);
    return r;
}

long path_mut(int cls, const char* what, const char* path, long nr, long a, long b, long c, int path_arg) {
    char buf[512];
    bool inside;
    const char* p = translate(path, buf, sizeof buf, &inside);
    if (!inside) {
        // creating an existing system directory (create_directories on an absolute path) is harmless
        struct stat st;
        if (cls == OP_MKDIR && raw(SYS_stat, (long) path, (long) &st) == 0) return -EEXIST;
        note_escape(what, path);
        return -EPERM;
    }
    point(5);
    Fault* f = fault_for(cls, true);
    mix(g->loghash, (uint64_t) cls ^ fnvs(path));
    long args[3] = {a, b, c};
    args[path_arg] = (long) p;
    if (f) {
        if (f->kind == F_CRASH) {
            if (f->arg) raw(nr, args[0], args[1], args[2]);
            crash_now();
        }
        if (f->kind != F_SHORT && f->kind != F_EOF && f->kind != F_FLIP) return -err_of(f->kind);
    }
    return raw(nr, args[0], args[1], args[2]);
}

long do_rename(long od, const char* o, long nd, const char* nw, long flags) {
    char b1[512], b2[512];
    bool i1, i2;
    const char* p1 = translate(o, b1, sizeof b1, &i1);
    const char* p2 = translate(nw, b2, sizeof b2, &i2);
    if (!i1 || !i2) {
        note_escape("rename", nw);
        return -EPERM;
    }
    point(6);
    Fault* f = fault_for(OP_RENAME, true);
    mix(g->loghash, 0x4e4a ^ fnvs(o) ^ (fnvs(nw) << 1));
    if (f) {
        if (f->kind == F_CRASH) {
            if (f->arg) raw(SYS_renameat2, od, (long) p1, nd, (long) p2, flags);
            crash_now();
        }
        if (f->kind != F_SHORT && f->kind != F_EOF && f->kind != F_FLIP) return -err_of(f->kind);
    }
    return raw(SYS_renameat2, od, (long) p1, nd, (long) p2, flags);
}

// ---------------------------------------------------------------------------------------------------------
// futex
// ---------------------------------------------------------------------------------------------------------
long do_futex(int* addr, int op, int val, const struct timespec* ts) {
    int me = t_tid;
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        int n = 0;
        for (int i = 1; i < n_threads && n < val; i++) {
            if (th[i].state == T_BLOCKED_FUTEX && th[i].faddr == addr) {
                th[i].state = T_READY;
                th[i].timed_out = false;
                th[i].faddr = nullptr;
                n++;
            }
        }
        if (me >= 1) {
            t_in_sim++;
            maybe_preempt(cfg.p_point, 7);
            t_in_sim--;
        }
        return n;
    }
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        if (me < 1 || !threads_running) {
            // the main thread waits on something nobody will ever signal
            if (ts) {
                g->now_ns += 1000000;
                return -ETIMEDOUT;
            }
            die(V_DEADLOCK, "deadlock: waiting on a lock that nobody can release");
        }
        Thread& t = th[me];
        t.state = T_BLOCKED_FUTEX;
        t.faddr = addr;
        t.timed_out = false;
        t.deadline = 0;
        if (ts) {
            uint64_t d = (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec;
            t.deadline = cmd == FUTEX_WAIT ? g->now_ns + d : (d > g->now_ns ? d : g->now_ns + 1);
            if (!t.deadline) t.deadline = 1;
        }
        t_in_sim++;
        reschedule_blocked(me, false);
        t_in_sim--;
        t.faddr = nullptr;
        t.deadline = 0;
        return t.timed_out ? -ETIMEDOUT : 0;
    }
    return raw(SYS_futex, (long) addr, op, val, (long) ts);
}

// ---------------------------------------------------------------------------------------------------------
// dispatcher
// ---------------------------------------------------------------------------------------------------------
long dispatch(long nr, long* a) {
    g->syscalls++;
    long ret;
    char buf[512];
    bool inside;
    switch (nr) {
        case SYS_futex:
            return do_futex((int*) a[0], (int) a[1], (int) a[2], (const struct timespec*) a[3]);
        case SYS_sched_yield: {
            int me = t_tid;
            if (me >= 1 && threads_running) {
                int r[MAX_THREADS], k = runnable(r);
                if (k > 1) {
                    th[me].lstep++;
                    count_step();
                    int to = me;
                    if (cfg.list_mode) {
                        int l = listed(me, th[me].lstep);
                        for (int i = 0; i < k; i++)
                            if (r[i] == l) to = l;
                        if (to == me)
                            for (int i = 0; i < k; i++)
                                if (r[i] != me) {
                                    to = r[i];
                                    break;
                                }
                    } else {
                        do to = r[splitmix(rng_state) % k];
                        while (to == me);
                    }
                    switch_to(me, to);
                }
            }
            return 0;
        }
        case SYS_open:
            return do_open(AT_FDCWD, (const char*) a[0], a[1], a[2]);
        case SYS_creat:
            return do_open(AT_FDCWD, (const char*) a[0], O_CREAT | O_WRONLY | O_TRUNC, a[1]);
        case SYS_openat:
            return do_open(a[0], (const char*) a[1], a[2], a[3]);
        case SYS_write: {
            struct iovec v = {(void*) a[1], (size_t) a[2]};
            return do_write(a[0], &v, 1, 0, false);
        }
        case SYS_pwrite64: {
            struct iovec v = {(void*) a[1], (size_t) a[2]};
            return do_write(a[0], &v, 1, a[3], true);
        }
        case SYS_writev:
            return do_write(a[0], (const struct iovec*) a[1], (int) a[2], 0, false);
        case SYS_read:
            return do_read(a[0], (void*) a[1], (size_t) a[2], 0, false);
        case SYS_pread64:
            return do_read(a[0], (void*) a[1], (size_t) a[2], a[3], true);
        case SYS_readv: {
            if (a[0] >= 0 && a[0] < 1024 && fdt[a[0]].sim) {
                const struct iovec* v = (const struct iovec*) a[1];
                long tot = 0;
                for (int i = 0; i < (int) a[2]; i++) {
                    if (!v[i].iov_len) continue;
                    long r = do_read(a[0], v[i].iov_base, v[i].iov_len, 0, false);
                    if (r < 0) return tot ? tot : r;
                    tot += r;
                    if ((size_t) r < v[i].iov_len) break;
                }
                return tot;
            }
            break;
        }
        case SYS_close: {
            if (net_hook && net_hook(nr, a, &ret)) return ret;
            long fd = a[0];
            if (fd >= 0 && fd < 1024 && fdt[fd].sim) {
                bool wr = fdt[fd].wr;
                Fault* f = fault_for(OP_CLOSE, wr);
                fdt[fd].sim = 0;
                mix(g->loghash, 0xc105e);
                if (f) {
                    if (f->kind == F_CRASH) crash_now();
                    raw(SYS_close, fd);
                    if (f->kind == F_SHORT || f->kind == F_EOF || f->kind == F_FLIP) return 0;
                    return -err_of(f->kind);
                }
                return raw(SYS_close, fd);
            }
            break;
        }
        case SYS_fsync:
        case SYS_fdatasync:
            if (a[0] >= 0 && a[0] < 1024 && fdt[a[0]].sim) {
                Fault* f = fault_for(OP_FSYNC, true);
                if (f) {
                    if (f->kind == F_CRASH) crash_now();
                    return -err_of(f->kind);
                }
                return 0;
            }
            break;
        case SYS_mkdir:
            return path_mut(OP_MKDIR, "mkdir", (const char*) a[0], nr, a[0], a[1], 0, 0);
        case SYS_mkdirat:
            return path_mut(OP_MKDIR, "mkdir", (const char*) a[1], nr, a[0], a[1], a[2], 1);
        case SYS_rmdir:
        case SYS_unlink:
            return path_mut(OP_UNLINK, "unlink", (const char*) a[0], nr, a[0], a[1], 0, 0);
        case SYS_unlinkat:
            return path_mut(OP_UNLINK, "unlink", (const char*) a[1], nr, a[0], a[1], a[2], 1);
        case SYS_truncate:
            return path_mut(OP_WRITE, "truncate", (const char*) a[0], nr, a[0], a[1], 0, 0);
        case SYS_rename:
            return do_rename(AT_FDCWD, (const char*) a[0], AT_FDCWD, (const char*) a[1], 0);
        case SYS_renameat:
            return do_rename(a[0], (const char*) a[1], a[2], (const char*) a[3], 0);
        case SYS_renameat2:
            return do_rename(a[0], (const char*) a[1], a[2], (const char*) a[3], a[4]);
        case SYS_stat:
        case SYS_lstat:
        case SYS_access:
        case SYS_readlink: {
            const char* p = translate((const char*) a[0], buf, sizeof buf, &inside);
            if (inside) {
                Fault* f = fault_for(OP_STAT, false);
                if (f && f->kind != F_CRASH && f->kind <= F_EMFILE) return -err_of(f->kind);
            }
            return raw(nr, (long) p, a[1], a[2]);
        }
        case SYS_newfstatat:
        case SYS_faccessat:
        case SYS_readlinkat:
#ifdef SYS_faccessat2
        case SYS_faccessat2:
#endif
#ifdef SYS_statx
        case SYS_statx:
#endif
        {
            const char* ap = (const char*) a[1];
            if (ap && !*ap) break; // AT_EMPTY_PATH
            const char* p = translate(ap, buf, sizeof buf, &inside);
            if (inside) {
                Fault* f = fault_for(OP_STAT, false);
                if (f && f->kind != F_CRASH && f->kind <= F_EMFILE) return -err_of(f->kind);
            }
            return raw(nr, a[0], (long) p, a[2], a[3], a[4]);
        }
        case SYS_chdir: {
            const char* p = translate((const char*) a[0], buf, sizeof buf, &inside);
            return raw(nr, (long) p);
        }
        case SYS_symlink:
        case SYS_link:
        case SYS_linkat:
        case SYS_symlinkat:
        case SYS_chmod:
        case SYS_fchmodat:
        case SYS_chown:
        case SYS_mount:
        case SYS_kill:
        case SYS_tkill:
            note_escape("unexpected system call", "");
            return -EPERM;
        case SYS_tgkill: // abort()
            if ((int) a[2] == SIGABRT) {
                raw(SYS_tgkill, raw(SYS_getpid), raw(SYS_gettid), SIGABRT);
                return 0;
            }
            return -EPERM;
        case SYS_getpid:
            return 4242;
        case SYS_gettid:
            return 4242 + (t_tid < 0 ? 0 : t_tid);
        case SYS_clock_gettime: {
            struct timespec* ts = (struct timespec*) a[1];
            ts->tv_sec = (time_t) (g->now_ns / 1000000000ull);
            ts->tv_nsec = (long) (g->now_ns % 1000000000ull);
            return 0;
        }
        case SYS_nanosleep:
        case SYS_clock_nanosleep: {
            const struct timespec* ts = (const struct timespec*) (nr == SYS_nanosleep ? a[0] : a[2]);
            uint64_t d = (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec;
            block_until(nullptr, nullptr, g->now_ns + d + 1);
            return 0;
        }
        case SYS_getrandom: {
            unsigned char* p = (unsigned char*) a[0];
            uint64_t s = cfg.seed ^ 0x6e7a;
            for (long i = 0; i < a[1]; i++) p[i] = (unsigned char) splitmix(s);
            return a[1];
        }
        case SYS_exit_group:
            g->exit_called = 1;
            break;
        default:
            break;
    }
    if (net_hook && net_hook(nr, a, &ret)) return ret;
    return raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

void on_sigsys(int, siginfo_t*, void* uc) {
    greg_t* r = ((ucontext_t*) uc)->uc_mcontext.gregs;
    long a[6] = {r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9]};
    char was = t_sel;
    t_sel = 0; // memcpy & co. in here are safe; nested traps are not wanted
    long ret = dispatch(r[REG_RAX], a);
    r[REG_RAX] = ret;
    t_sel = was;
}

struct ksig {
    void (*h)(int, siginfo_t*, void*);
    unsigned long fl;
    void (*r)(void);
    unsigned long mask;
};

} // namespace

void configure(const SchedCfg& c, const Fault* f, int nf, const char* root) {
    cfg = c;
    rng_state = c.seed * 0x9E3779B97F4A7C15ull + 12345;
    n_faults = nf > MAX_FAULTS ? MAX_FAULTS : nf;
    disk_budget = -1;
    for (int i = 0; i < n_faults; i++) {
        faults[i] = f[i];
        faults[i].fired = 0;
        if (f[i].kind == F_DISKFULL) disk_budget = f[i].arg;
    }
    memset(cls_seen, 0, sizeof cls_seen);
    copystr(root_dir, sizeof root_dir, root);
    n_pmap = 0;
    g_seq = 0;
    memset(th, 0, sizeof th);
    n_threads = 1;
    cur = 0;
}

void add_path_map(const char* prefix, const char* real) {
    if (n_pmap >= 8) return;
    copystr(pmap[n_pmap].pre, sizeof pmap[0].pre, prefix);
    copystr(pmap[n_pmap].real, sizeof pmap[0].real, real);
    n_pmap++;
}

void enable_here(int tid) {
    static bool installed = false;
    t_tid = tid;
    t_in_sim = 0;
    t_quiet = 0;
    if (!installed) {
        ksig k = {on_sigsys, SA_SIGINFO | SA_NODEFER | 0x04000000, sim_restorer, 0};
        if (raw(SYS_rt_sigaction, SIGSYS, (long) &k, 0, 8) != 0) die(V_INTERNAL, "cannot install SIGSYS handler");
        installed = true;
    }
    t_sel = 0;
    long r = raw(
        SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 1, (long) __start_simtext, __stop_simtext - __start_simtext, (long) &t_sel
    );
    if (r != 0) die(V_INTERNAL, "syscall user dispatch unavailable: %ld", r);
    t_sel = 1;
}

void disable_here() {
    t_sel = 0;
    raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 0, 0, 0, 0);
    t_tid = -1;
}

namespace {
struct Start {
    Body body;
    void* arg;
    int tid;
};
volatile int started = 0;

void* thread_main(void* p) {
    Start s = *(Start*) p;
    __atomic_add_fetch(&started, 1, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long) &started, FUTEX_WAKE_PRIVATE, 64, 0, 0, 0);
    // wait for the baton before doing anything
    await_baton(s.tid);
    enable_here(s.tid);
    s.body(s.arg, s.tid - 1);
    t_sel = 0;
    t_in_sim++;
    th[s.tid].state = T_DONE;
    reschedule_blocked(s.tid, true);
    t_in_sim--;
    disable_here();
    // never return through glibc's thread exit: it would race with the still running session
    for (;;) {
        static int never = 0;
        raw(SYS_futex, (long) &never, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    }
    return nullptr;
}
} // namespace

void run_threads(Body body, void* arg, int n) {
    static Start st[MAX_THREADS];
    static pthread_t pt[MAX_THREADS];
    if (n > MAX_THREADS - 1) n = MAX_THREADS - 1;
    char was = t_sel;
    t_sel = 0;
    memset(th, 0, sizeof th);
    n_threads = n + 1;
    all_done = 0;
    started = 0;
    for (int i = 1; i <= n; i++) th[i].state = T_READY;
    threads_running = true;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    for (int i = 1; i <= n; i++) {
        st[i] = {body, arg, i};
        if (pthread_create(&pt[i], &at, thread_main, &st[i]) != 0) die(V_INTERNAL, "pthread_create failed");
    }
    int s;
    while ((s = __atomic_load_n(&started, __ATOMIC_SEQ_CST)) < n) futex_wait(&started, s);
    int first = 1;
    if (!cfg.list_mode) {
        first = 1 + (int) (splitmix(rng_state) % n);
    } else {
        // first entry "from 0" in the list
        for (uint32_t i = 0; i < cfg.n_list; i++)
            if ((cfg.list[i].tid >> 8) == 0) {
                int t = (int) (cfg.list[i].tid & 0xff);
                if (t >= 1 && t <= n) first = t;
                break;
            }
    }
    record_switch(0, 0, first);
    pass_baton(first);
    while (!__atomic_load_n(&all_done, __ATOMIC_SEQ_CST)) futex_wait(&all_done, 0);
    threads_running = false;
    t_sel = was;
}

} // namespace sim

// ---------------------------------------------------------------------------------------------------------
// clock symbols that are served by the vDSO and therefore not trapped
// ---------------------------------------------------------------------------------------------------------
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    if (sim::active()) {
        uint64_t n = sim::g->now_ns;
        ts->tv_sec = (time_t) (n / 1000000000ull);
        ts->tv_nsec = (long) (n % 1000000000ull);
        return 0;
    }
    return (int) sim::raw(SYS_clock_gettime, id, (long) ts);
}
int gettimeofday(struct timeval* tv, void* tz) noexcept {
    if (sim::active()) {
        uint64_t n = sim::g->now_ns;
        tv->tv_sec = (time_t) (n / 1000000000ull);
        tv->tv_usec = (suseconds_t) (n % 1000000000ull / 1000);
        return 0;
    }
    return (int) sim::raw(SYS_gettimeofday, (long) tv, (long) tz);
}
time_t time(time_t* t) noexcept {
    time_t v;
    if (sim::active()) {
        v = (time_t) (sim::g->now_ns / 1000000000ull);
    } else {
        struct timespec ts;
        sim::raw(SYS_clock_gettime, CLOCK_REALTIME, (long) &ts);
        v = ts.tv_sec;
    }
    if (t) *t = v;
    return v;
}

// glibc's abort() blocks signals before it raises, which would turn the trapped system call into SIGSYS
[[noreturn]] void abort(void) noexcept {
    sim::t_sel = 0;
    for (;;) {
        sim::raw(SYS_tgkill, sim::raw(SYS_getpid), sim::raw(SYS_gettid), SIGABRT);
        signal(SIGABRT, SIG_DFL);
    }
}
[[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
    if (sim::g && sim::active()) {
        char b[400];
        snprintf(b, sizeof b, "assertion failed: %.200s (%.120s:%u)", e, strrchr(f, '/') ? strrchr(f, '/') + 1 : f, l);
        for (const char* p = b; *p && sim::g->n_stderr < sizeof(sim::g->stderr_text) - 1; p++)
            sim::g->stderr_text[sim::g->n_stderr++] = *p;
    }
    abort();
}

// ---------------------------------------------------------------------------------------------------------
// instrumentation callbacks of the code under test (clang -fsanitize-coverage): preemption points
// ---------------------------------------------------------------------------------------------------------
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    static uint32_t n = 0;
    for (uint32_t* p = start; p < stop; p++)
        if (!*p) *p = ++n;
}
__attribute__((used)) static inline void cov_point() {
    if (sim::t_tid < 1 || sim::t_in_sim || !sim::t_sel) return;
    sim::t_in_sim++;
    sim::t_sel = 0;
    sim::maybe_preempt(sim::cfg.p_mem, 100);
    sim::t_sel = 1;
    sim::t_in_sim--;
}
void __sanitizer_cov_trace_pc_guard(uint32_t*) { cov_point(); }
#define LS(n)                                              \
    void __sanitizer_cov_load##n(void*) { cov_point(); } \
    void __sanitizer_cov_store##n(void*) { cov_point(); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}
