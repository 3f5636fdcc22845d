"""Deterministic simulation of processes and threads running the Python code of the repository.

Simulated processes are groups of real threads of one forked child; exactly one thread runs at a time (baton).  The seeded scheduler may
move the baton at every source line of the repository's Python files and at every audited operating-system call made on their behalf.
"""
import builtins, ctypes, errno, fcntl, os, random, sys, threading, time, _thread

REPO = os.environ.get("VERIF_REPO", "/repo")
MASK = (1 << 64) - 1


class Killed(BaseException):
    pass


def mix(h, v):
    if isinstance(v, str):
        x = 1469598103934665603
        for c in v.encode("utf-8", "surrogateescape"):
            x = ((x ^ c) * 1099511628211) & MASK
        v = x
    h ^= (int(v) + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)) & MASK
    h = (h * 0xFF51AFD7ED558CCD) & MASK
    return h ^ (h >> 32)


class Proc:
    def __init__(self, pid, env):
        self.pid, self.env, self.modules, self.dl, self.dead, self.gil = pid, dict(env), {}, {}, False, None
        self.slots = {}


class Thread:
    def __init__(self, tid, proc, body):
        self.tid, self.proc, self.body = tid, proc, body
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done, self.started, self.wait, self.internal, self.imports, self.fault_hit = False, False, None, 0, 0, False
        self.wake = None

    def eligible(self, sim):
        if self.done or self.proc.dead:
            return False
        if self.proc.gil is not None and self.proc.gil is not self:
            return False
        if self.wake is not None and self.wake > sim.now:
            return False
        if self.wait is not None and not self.wait():
            return False
        return True


class Sim:
    """one simulated execution"""

    def __init__(self, sched, faults, scratch):
        self.threads, self.procs = [], []
        self.cur = None
        self.rng = random.Random(sched.get("seed", 1))
        self.p_line, self.p_sys = sched.get("p_mem", 0), sched.get("p_point", 0)
        self.list = {}
        self.list_mode = sched.get("mode") == "list"
        if self.list_mode:
            self.list = {int(e[0]): int(e[1]) for e in sched.get("list", [])}
        self.recorded = []
        self.cap = sched.get("cap", 400000)
        self.step, self.switches, self.syscalls = 0, 0, 0
        self.hash, self.schedhash = 7, 11
        self.now = 1_700_000_000_000_000_000
        self.start_now = self.now
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.verdict = None
        self.faults = [dict(f, seen=0, fired=0) for f in faults]
        self.scratch = scratch
        self.outside = []
        self.flocks = {}  # file descriptor -> simulated process holding the lock
        self.crashes = 0
        self.lookup = {}
        self.writable = [scratch]
        self.addr_sizes = {}

    # ---- scheduling
    def add(self, proc, body):
        t = Thread(len(self.threads), proc, body)
        self.threads.append(t)
        return t

    def me(self):
        return self.lookup.get(_thread.get_ident())

    def run(self, threads):
        """run the given threads to completion"""
        self.phase = threads
        for t in threads:
            _thread.start_new_thread(self._entry, (t,))
        self._choose(None, forced=True)
        self.main.acquire()

    def _entry(self, t):
        t.sem.acquire()
        t.started = True
        self.lookup[_thread.get_ident()] = t
        sys.settrace(self.trace)
        try:
            if not t.proc.dead:
                t.body(t)
        except Killed:
            pass
        except BaseException as e:  # noqa: harness defect
            import traceback
            self.verdict = self.verdict or ("internal", "".join(traceback.format_exception(e))[-1500:])
        sys.settrace(None)
        t.done = True
        self._choose(t, forced=True)

    def _pick(self, cands):
        e = self.list.get(self.step)
        if self.list_mode:
            for t in cands:
                if t.tid == e:
                    return t
            return cands[0]
        return cands[self.rng.randrange(len(cands))]

    def _choose(self, cur, forced):
        """give the baton away (forced) or maybe to another thread; returns when cur has it back"""
        if forced:
            self.step += 1
        while True:
            cands = [t for t in self.phase if t.eligible(self)]
            if cands or not forced:
                break
            sleepers = [t.wake for t in self.phase if not t.done and not t.proc.dead and t.wake is not None and t.wake > self.now]
            if sleepers:
                self.now = min(sleepers)
                continue
            break
        if not cands:
            live = [t for t in self.phase if not t.done and not t.proc.dead]
            if live and not self.verdict:
                self.verdict = ("deadlock", "no simulated thread can make progress: %s" % ", ".join(
                    "thread %d of process %d waits" % (t.tid, t.proc.pid) for t in live))
            self.cur = None
            self.main.release()
            if cur is not None and not cur.done:
                self._park()
            return
        if not forced:
            cands = [t for t in cands if t is not cur] or [cur]
        nxt = self._pick(cands)
        if len(cands) > 1 or nxt is not cur:
            self.recorded.append([self.step, nxt.tid])
        if nxt is cur:
            cur.wait = cur.wake = None
            return
        self.switches += 1
        self.schedhash = mix(mix(self.schedhash, self.step), nxt.tid)
        self.hash = mix(mix(self.hash, self.step), nxt.tid)
        self._install(nxt.proc)
        nxt.wait = nxt.wake = None
        self.cur = nxt
        nxt.sem.release()
        if cur is None or cur.done:
            return
        cur.sem.acquire()
        if cur.proc.dead:
            self._park()

    def _park(self):
        sys.settrace(None)
        while True:
            l = _thread.allocate_lock()
            l.acquire()
            l.acquire()

    def point(self, kind):
        t = self.me()
        if t is None or t.internal or t.done:
            return
        self.step += 1
        if self.step > self.cap:
            self.verdict = self.verdict or ("stuck", "no end after %d steps" % self.cap)
            self.cur = None
            self.main.release()
            self._park()
        if self.list_mode:
            go = self.step in self.list
        else:
            go = self.rng.randrange(65536) < (self.p_line if kind == "line" else self.p_sys)
        if go and t.imports == 0:
            self._choose(t, forced=False)

    def block(self, pred):
        t = self.me()
        self.step += 1
        if pred():
            return
        t.wait = pred
        self._choose(t, forced=True)

    def sleep(self, ns):
        t = self.me()
        self.step += 1
        t.wake = self.now + max(int(ns), 0)
        self._choose(t, forced=True)

    def crash(self, t):
        p = t.proc
        p.dead = True
        p.gil = None
        self.crashes += 1
        for fd, q in list(self.flocks.items()):
            if q is p:
                del self.flocks[fd]
                try:
                    REAL_FLOCK(fd, fcntl.LOCK_UN)
                except OSError:
                    pass
        self.hash = mix(self.hash, "crash%d" % p.pid)
        t.done = True
        self._choose(t, forced=True)
        self._park()

    # ---- process context
    def _install(self, p):
        old = getattr(self, "installed", None)
        if old is p:
            return
        if old is not None:
            old.env = dict(os.environ)
            old.modules = {k: m for k, m in sys.modules.items() if isolated(k)}
        for k in [k for k in sys.modules if isolated(k)]:
            del sys.modules[k]
        sys.modules.update(p.modules)
        for k in list(os.environ):
            if k not in p.env:
                del os.environ[k]
        for k, v in p.env.items():
            if os.environ.get(k) != v:
                os.environ[k] = v
        self.installed = p

    # ---- tracing of the code under test
    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(REPO) and frame.f_code.co_name != "<module>":
            frame.f_trace_opcodes = False
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            t = self.me()
            if t is not None and not t.internal:
                self.fault("line", "")
                self.point("line")
        return self.local

    # ---- system calls and faults
    def fault(self, op, what):
        t = self.me()
        if t is None or t.internal or t.imports:
            return
        for f in self.faults:
            if f["fired"] or f.get("op") not in (op, "any" if op != "line" else "line"):
                continue
            if f.get("proc") is not None and f["proc"] != t.proc.pid:
                continue
            f["seen"] += 1
            if f["seen"] != f.get("nth", 1):
                continue
            f["fired"] = 1
            t.fault_hit = True
            self.hash = mix(self.hash, "fault" + op)
            if f["kind"] == "crash":
                self.crash(t)
            code = getattr(errno, f["kind"], errno.EIO)
            raise OSError(code, os.strerror(code), what)

    def audit(self, event, args):
        t = self.me()
        if t is None or t.internal or t.imports or self.cur is not t:
            return
        op = AUDIT.get(event)
        if op is None:
            return
        path = args[0] if args else ""
        if op == "open":
            if isinstance(path, int):
                return
            flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
            op = "open_w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) else "open_r"
            if op == "open_r" and not str(path if not isinstance(path, bytes) else path.decode()).startswith(self.scratch):
                return
        if isinstance(path, bytes):
            path = path.decode("utf-8", "surrogateescape")
        t.internal += 1
        try:
            self.syscalls += 1
            self.hash = mix(self.hash, op)
            if op not in ("open_r", "scandir", "flock"):
                paths = [(path, dirfd(event, args, 0))]
                if op == "rename":
                    q = args[1].decode() if isinstance(args[1], bytes) else args[1]
                    paths.append((q, dirfd(event, args, 1)))
                for p, d in paths:
                    full = resolve(p, d)
                    if full is not None and not any(full == w or full.startswith(w + "/") for w in self.writable):
                        self.outside.append((t.proc.pid, op, full))
                        raise PermissionError(errno.EPERM, "simulation: change outside the scratch directory refused", full)
        finally:
            t.internal -= 1
        self.fault(op, str(path))
        self.point("sys")


AUDIT = {"open": "open", "os.remove": "remove", "os.rename": "rename", "os.mkdir": "mkdir", "os.rmdir": "rmdir", "os.listdir": "scandir",
         "os.scandir": "scandir", "os.truncate": "open_w", "os.symlink": "link", "os.link": "link", "os.chmod": "chmod", "os.utime": "chmod",
         "subprocess.Popen": "exec", "os.system": "exec", "os.exec": "exec", "os.posix_spawn": "exec"}


def dirfd(event, args, i):
    try:
        if event == "os.remove" or event == "os.rmdir":
            return args[1]
        if event == "os.mkdir":
            return args[2]
        if event == "os.rename":
            return args[2 + i]
    except Exception:
        pass
    return -1


def resolve(p, d):
    if isinstance(p, int) or p is None:
        return None
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    if not os.path.isabs(p) and isinstance(d, int) and d >= 0:
        try:
            p = os.path.join(os.readlink("/proc/self/fd/%d" % d), p)
        except OSError:
            return p
    p = os.path.normpath(os.path.join(os.getcwd(), p))
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))


def isolated(name):
    return name == "ml_dtypes" or name.split(".")[0] in ("docc", "torch", "torch_mlir")


REAL_FLOCK = fcntl.flock
SIM = None  # the simulation of this (forked) process


class SimLock:
    def __init__(self, reentrant=False):
        self.owner, self.depth, self.re = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        t = SIM.me() if SIM else None
        if self.re and self.owner is t and t is not None:
            self.depth += 1
            return True
        if SIM is not None and t is not None:
            SIM.point("sys")
        if self.owner is not None:
            if not blocking or t is None:
                return False
            if timeout is not None and timeout >= 0:
                SIM.sleep(timeout * 1e9)
                if self.owner is not None:
                    return False
            else:
                SIM.block(lambda: self.owner is None)
        self.owner, self.depth = t if t is not None else True, 1
        return True

    __enter__ = acquire

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        if SIM is not None and SIM.me() is not None:
            SIM.point("sys")

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    # what threading.Condition needs
    def _is_owned(self):
        t = SIM.me() if SIM else None
        return self.owner is not None and (t is None or self.owner is t or not self.re)

    def _release_save(self):
        d, self.depth = self.depth, 1
        self.release()
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d


def sim_flock(fd, op):
    t = SIM.me() if SIM else None
    if t is None:
        return REAL_FLOCK(fd, op)
    n = fd if isinstance(fd, int) else fd.fileno()
    SIM.fault("flock", "")
    SIM.point("sys")
    if op & fcntl.LOCK_UN:
        SIM.flocks.pop(n, None)
        r = REAL_FLOCK(n, op)
        SIM.point("sys")
        return r

    def attempt():
        try:
            REAL_FLOCK(n, op | fcntl.LOCK_NB)
            SIM.flocks[n] = t.proc  # granted, also if the thread continues only later (a reused number belongs to the newer file)
            return True
        except BlockingIOError:
            return False
    if op & fcntl.LOCK_NB:
        REAL_FLOCK(n, op)
        SIM.flocks[n] = t.proc
    else:
        SIM.block(attempt)


def install(sim):
    """put every source of nondeterminism behind the simulation (in the forked child only)"""
    global SIM
    SIM = sim
    sys.addaudithook(lambda ev, args: sim.audit(ev, args))
    fcntl.flock = sim_flock
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda: SimLock(True)
    threading._allocate_lock = lambda: SimLock()
    rp = os.getpid

    def getpid():
        t = sim.me()
        return 4000 + t.proc.pid if t else rp()
    os.getpid = getpid
    rt = time.time

    def now():
        t = sim.me()
        if t is None:
            return rt()
        sim.now += 1000
        return sim.now / 1e9
    time.time = time.monotonic = time.perf_counter = now
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(now() * 1e9)
    rs = time.sleep
    time.sleep = lambda s: sim.sleep(s * 1e9) if sim.me() else rs(s)
    rnd = random.Random(12345)
    os.urandom = lambda n: rnd.randbytes(n)
    random.seed(4711)
    try:
        import tempfile
        tempfile._RandomNameSequence.rng = property(lambda self: rnd)
    except Exception:
        pass
    imp = builtins.__import__

    def my_import(*a, **k):
        t = sim.me()
        if t is None:
            return imp(*a, **k)
        t.imports += 1
        try:
            return imp(*a, **k)
        finally:
            t.imports -= 1
    builtins.__import__ = my_import
    ao = ctypes.addressof

    def addressof(o):
        a = ao(o)
        sim.addr_sizes[a] = ctypes.sizeof(o)
        return a
    ctypes.addressof = addressof
