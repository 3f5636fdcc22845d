"""Simulated user programs, processes and the oracle (plain Python on copies of the arguments)."""
import importlib, importlib.abc, importlib.util, inspect, json, linecache, os, random, sys, types
import ctypes
import numpy as np
import core, stubs
from core import REPO

# ------------------------------------------------------------------------------------------------- loading the real code
_code = {}


def find(name):
    rel = name.split(".")[1:]
    for root in ("python/docc", "mlir/docc"):
        base = os.path.join(REPO, root, *rel)
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
    return None, False


def code_of(path):
    if path not in _code:
        with open(path) as f:
            _code[path] = compile(f.read(), path, "exec")
    return _code[path]


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(code_of(self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] != "docc":
            return None
        f, pkg = find(name)
        if f is None:
            return None
        return importlib.util.spec_from_file_location(name, f, loader=Loader(f), submodule_search_locations=[os.path.dirname(f)] if pkg else None)


REAL = ["docc.compiler", "docc.compiler.docc_program", "docc.compiler.compiled_sdfg", "docc.python.python_program", "docc.python.target_registry",
        "docc.python.types", "docc.torch"]


def warm():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    for n in REAL:
        f, _ = find(n)
        if f:
            code_of(f)
    import numpy.ctypeslib, numpy.lib.stride_tricks, tempfile, contextlib, pathlib, subprocess, uuid, getpass, hashlib, shutil, logging  # noqa: lazily imported later
    import re, copy, weakref, functools, warnings, filecmp, glob, stat, errno, traceback, textwrap, inspect, ast, concurrent.futures, multiprocessing, signal  # noqa
    linecache.getlines(os.path.join(REPO, "x"))


def setup_process(sim, p):
    """fresh interpreter state of one simulated process"""
    sim._install(p)
    m = {}
    docc = types.ModuleType("docc")
    docc.__path__ = [os.path.join(REPO, "python/docc"), os.path.join(REPO, "mlir/docc")]
    py = types.ModuleType("docc.python")
    py.__path__ = [os.path.join(REPO, "python/docc/python")]
    docc.python = py
    m["docc"], m["docc.python"] = docc, py
    m["docc.sdfg"] = docc.sdfg = stubs.make_sdfg_module()
    ap = types.ModuleType("docc.python.ast_parser")
    ap.ASTParser = stubs.ASTParser
    py.ast_parser = ap
    m["docc.python.ast_parser"] = ap
    ml = types.ModuleType("ml_dtypes")
    ml.bfloat16 = np.dtype("V2")
    m["ml_dtypes"] = ml
    m.update(stubs.torch_modules())
    docc.mlir = m["docc.mlir"]
    sys.modules.update(m)
    importlib.import_module("docc.python.python_program")
    importlib.import_module("docc.torch")


# ------------------------------------------------------------------------------------------------- user code
# form -> (parameters, body lines); K is a closure variable, a global or a literal
FORMS = {
    "add": (["a", "b"], ["return a + b"]),
    "mul": (["a", "b"], ["return a * b + K"]),
    "addk": (["a"], ["return a + K"]),
    "muln": (["a", "n"], ["return a * n + K"]),
    "mulnm": (["a", "n", "m"], ["return a * n + m"]),
    "fill": (["a", "b"], ["b[:] = a * K"]),
    "inpl": (["a", "n"], ["a[:] = a * 2 + n"]),
    "loop": (["a", "b"], ["for i in range(a.shape[0]):", "    b[i] = a[i] * K + i"]),
    "loopn": (["a", "b", "n"], ["for i in range(n):", "    b[i] = a[i] + K"]),
    "grid": (["a", "b"], ["for i in range(a.shape[0]):", "    for j in range(a.shape[1]):", "        b[i, j] = a[i, j] * K + i - j"]),
    "elem": (["a", "n"], ["return a[n] + K"]),
    "elem2": (["a", "n", "m"], ["return a[n, m]"]),
    "two": (["a", "b"], ["return a * K, b + 1"]),
    "cmp": (["a", "b"], ["return a < b"]),
    "mix": (["a", "x", "n"], ["return a * x - n"]),
    "scal": (["x", "n"], ["return x * n + K"]),
    "struct": (["p"], ["return p.x * 2 + p.y"]),
    "astruct": (["a", "p"], ["return a * p.x + p.y"]),
    "unary": (["a"], ["return -a"]),
    "matmul": (["a", "b"], ["return a @ b"]),
    "first": (["a", "b", "c"], ["return a + b * c"]),
}


def render(fn):
    params, body = FORMS[fn["form"]]
    k = repr(fn.get("k", 1)) if fn.get("bind") == "literal" else "K"
    lines = []
    ret = " -> float" if fn.get("ann") == "float" else ""
    ind = ""
    if fn.get("bind") == "closure":
        lines.append("def make_%s(K):" % fn["name"])
        ind = "    "
    lines.append("%sdef %s(%s)%s:" % (ind, fn["name"], ", ".join(params), ret))
    if fn.get("ann") == "float":
        lines.append(ind + "    '''returns a float'''") if fn.get("doc") else None
    for l in body:
        lines.append(ind + "    " + l.replace("K", k))
    if fn.get("bind") == "closure":
        lines.append("    return " + fn["name"])
    return "\n".join(lines) + "\n"


DT = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32, "i2": np.int16, "i1": np.int8, "u8": np.uint64, "u4": np.uint32,
      "u2": np.uint16, "u1": np.uint8, "b": np.bool_, "f2": np.float16}


def build_array(spec):
    shape, dt = [int(x) for x in spec["a"]], np.dtype(DT[spec["dt"]])
    if any(x < 1 for x in shape) or not shape:
        raise ValueError("bad shape")
    r = random.Random(spec.get("seed", 1))
    size = 1
    for x in shape:
        size *= x
    vals = np.array([r.randrange(0, 7) for _ in range(size)]).astype(dt).reshape(shape)
    lay = spec.get("lay", "C")
    if lay == "C":
        return np.ascontiguousarray(vals)
    if lay == "F":
        return np.asfortranarray(vals)
    if lay == "T":  # transposed view of a C array
        return np.ascontiguousarray(vals.T).T
    k = int(spec.get("step", 2)) or 2
    if lay == "R":
        k = -1
    big = np.zeros([shape[0] * abs(k) + 1] + shape[1:], dt)
    v = big[:shape[0]][::-1] if lay == "R" else big[::k][:shape[0]] if lay == "S" else None
    if v is None:  # "P": padded rows
        big = np.zeros(shape[:-1] + [shape[-1] + k], dt)
        v = big[..., :shape[-1]]
    v[...] = vals
    return v


class P:
    pass


class Q:
    pass


SC = {"int": int, "float": float, "bool": bool, "f4": np.float32, "f8": np.float64, "i8": np.int64, "i4": np.int32, "i2": np.int16, "i1": np.int8,
      "u1": np.uint8, "u2": np.uint16, "u4": np.uint32, "u8": np.uint64}


def build_arg(spec):
    if "a" in spec:
        return build_array(spec)
    if "s" in spec:
        return SC[spec["s"]](spec["v"])
    o = (P if spec["o"] == "P" else Q)()
    for n, t, v in spec["m"]:
        setattr(o, n, SC[t](v))
    return o


def describe(x):
    if isinstance(x, tuple):
        return "(" + ", ".join(describe(y) for y in x) + ")"
    if isinstance(x, np.ndarray):
        return "array%s %s %s" % (x.shape, x.dtype, np.array2string(x, threshold=8).replace("\n", ""))
    if isinstance(x, stubs.FTensor):
        return "tensor " + describe(x._a)
    return "%s %r" % (type(x).__name__, x)


def same(e, g):
    if isinstance(e, tuple):
        return isinstance(g, tuple) and len(e) == len(g) and all(same(x, y) for x, y in zip(e, g))
    if isinstance(e, stubs.FTensor):
        return isinstance(g, stubs.FTensor) and same(e._a, g._a)
    if isinstance(e, np.ndarray):
        return isinstance(g, np.ndarray) and e.shape == g.shape and e.dtype == g.dtype and bool(np.array_equal(e, g, equal_nan=e.dtype.kind == "f"))
    if e is None:
        return g is None
    if isinstance(g, (np.ndarray, tuple)) or g is None:
        return False
    try:
        return bool(e == g) or (e != e and g != g)
    except Exception:
        return False


class Run:
    """executes one plan in a forked child"""

    def __init__(self, plan, scratch):
        self.plan, self.scratch = plan, scratch
        self.prop = plan["prop"]
        self.violations = []
        self.stats = {}
        self.calls_ok = 0

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, cls, msg):
        if not any(v["cls"] == cls for v in self.violations):
            self.violations.append({"prop": self.prop, "cls": cls, "msg": msg[:900]})

    def execute(self):
        plan = self.plan
        sim = self.sim = core.Sim(plan.get("sched", {}), plan.get("faults", []), self.scratch)
        os.chdir(self.scratch)
        self.out = os.path.join(self.scratch, "out")
        self.user = os.path.join(self.scratch, "user")
        os.makedirs(self.out)
        os.makedirs(self.user)
        # things that belong to somebody else
        self.sentinels = {}
        for rel in ("out/keep.txt", "out/f-0123456789abcdef/data.json", "out/fother/x", "user/data.bin", "precious/a/b.txt"):
            f = os.path.join(self.scratch, rel)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as o:
                o.write(rel)
            self.sentinels[f] = rel
        for i, f in enumerate(plan["files"]):
            self.write_file(i, f["funcs"])
        ctypes.CDLL = stubs.CDLL
        ctypes.cdll = type("L", (), {"LoadLibrary": staticmethod(stubs.CDLL)})()
        core.install(sim)
        procs = []
        for i, pr in enumerate(plan["procs"]):
            env = {"USER": "../" + os.path.relpath(os.path.join(self.scratch, "home"), "/"), "PATH": "/usr/bin", "LANG": "C"}
            if pr.get("tmp", "env") == "env":
                env["DOCC_TMP"] = self.out
            env.update(pr.get("env", {}))
            p = core.Proc(i, env)
            procs.append(p)
            sim.procs.append(p)
        phases = sorted({pr.get("phase", 0) for pr in plan["procs"]})
        for ph in phases:
            ts = []
            for i, th in enumerate(plan["threads"]):
                pi = th["proc"]
                if pi >= len(procs) or plan["procs"][pi].get("phase", 0) != ph:
                    continue
                ts.append(sim.add(procs[pi], lambda t, ops=th["ops"]: self.thread(t, ops)))
            if not ts:
                continue
            for p in {t.proc for t in ts}:
                setup_process(sim, p)
            sim.run(ts)
            if sim.verdict:
                break
        sys.settrace(None)
        if sim.verdict and sim.verdict[0] in ("deadlock", "stuck"):
            self.bad("no-progress", sim.verdict[1])
        error = sim.verdict[1] if sim.verdict and sim.verdict[0] == "internal" else ""
        for pid, op, path in sim.outside[:1]:
            self.bad("outside", "process %d: %s of %s, which is outside the program's own folders" % (pid, op, path))
        for f, text in self.sentinels.items():
            try:
                if open(f).read() != text:
                    self.bad("outside", "file %s was changed" % os.path.relpath(f, self.scratch))
            except OSError:
                self.bad("outside", "file %s was removed" % os.path.relpath(f, self.scratch))
        if error and self.violations:
            error = ""
        self.count("sessions", len(procs))
        self.count("steps", sim.step)
        self.count("switches", sim.switches)
        self.count("syscalls", sim.syscalls)
        self.count("sim_ns", sim.now - sim.start_now)
        for f in sim.faults:
            n = "%s@%s" % (f["kind"], f["op"])
            self.count("fault_cfg:" + n)
            if f["fired"]:
                self.count("fault_fired:" + n)
        sched = {"mode": "list", "seed": plan.get("sched", {}).get("seed", 1), "list": sim.recorded} if len(sim.recorded) < 4000 else dict(plan.get("sched", {}))
        h = sim.hash
        for v in self.violations:
            h = core.mix(h, v["cls"])
        return {"error": error, "hash": str(core.mix(h, sim.step)), "sched_hash": str(sim.schedhash), "violations": self.violations, "stats": self.stats,
                "sched": sched, "notes": [], "multi": sim.switches > 1 and len(plan["threads"]) > 1, "nontrivial": self.stats.get("native_runs", 0) > 0 or bool(sim.crashes)}

    def write_file(self, i, funcs, stamp=0):
        path = os.path.join(self.user, "mod%d.py" % i)
        text = "# user module\nK = 1\n" + "\n\n".join(render(f) for f in funcs)
        with open(path, "w") as o:
            o.write(text)
        os.utime(path, (1_600_000_000 + stamp, 1_600_000_000 + stamp))
        return path

    # ---- one simulated thread
    def thread(self, t, ops):
        for k, op in enumerate(ops):
            t.internal += 1
            self.sim.hash = core.mix(self.sim.hash, k)
            t.internal -= 1
            getattr(self, "op_" + op["op"])(t, op)

    def op_env(self, t, op):
        if op["val"] is None:
            os.environ.pop(op["key"], None)
        else:
            os.environ[op["key"]] = op["val"]

    def op_use(self, t, op):
        """wait until another thread of this process has defined the function"""
        for _ in range(60):
            if op["slot"] in t.proc.slots:
                return
            self.sim.sleep(1000000)

    def op_sleep(self, t, op):
        self.sim.sleep(op["ns"])

    def op_edit(self, t, op):
        """the user edits the module and loads it again"""
        t.internal += 1
        f = self.plan["files"][op["file"]]
        funcs = [dict(fn, **(op["set"] if i == op["fn"] else {})) for i, fn in enumerate(f["funcs"])]
        self.write_file(op["file"], funcs, op.get("stamp", 1))
        f["funcs"] = funcs
        for s in [s for s, e in t.proc.slots.items() if e.get("file") == op["file"]]:
            del t.proc.slots[s]
        t.internal -= 1

    def namespace(self, i, k, hidden):
        path = os.path.join(self.user, "mod%d.py" % i)
        with open(path) as f:
            code = compile(f.read(), path, "exec")
        ns = {"__name__": "mod%d" % i, "__file__": path, "np": np}
        exec(code, ns)
        ns["K"] = k + 7 if hidden else k
        return ns

    def op_def(self, t, op):
        """evaluate a (possibly decorated) function definition"""
        t.internal += 1
        fn = self.plan["files"][op["file"]]["funcs"][op["fn"]]
        k = op.get("k", fn.get("k", 1))
        ns = self.namespace(op["file"], k, fn.get("bind") != "global")  # only "global" functions see the global
        f = ns["make_" + fn["name"]](k) if fn.get("bind") == "closure" else ns[fn["name"]]
        t.internal -= 1
        native = sys.modules["docc.python.python_program"].native
        o = dict(op.get("opts", {}))
        if o.get("target", "none") not in ("none", "sequential", "openmp"):
            self.register(o["target"])
        t.proc.slots[op["slot"]] = {"prog": native(f, **o), "plain": f, "opts": o, "file": op["file"], "form": fn["form"]}

    def register(self, target):
        reg = sys.modules["docc.python.target_registry"]

        def sched(sdfg, category, options):
            sdfg.log.append(["schedule", "custom", target, category, bool(options.get("remote_tuning"))])

        def comp(sdfg, folder, mode, capture, options):
            return sdfg._compile(output_folder=folder, target=target, instrumentation_mode=mode, capture_args=capture)
        reg.register_target_overrides(target, sched, comp if target.endswith("c") else None)

    def op_torch(self, t, op):
        """a model instance handed to the Torch front end"""
        spec = dict(op["model"])
        cls = type(str(spec.pop("cls", "Net")), (), {"forward": torch_forward})
        cls.__call__ = lambda self, *xs: stubs.FTensor(stubs.torch_eval(self.spec, *xs))
        m = cls()
        m.spec = spec
        ex = tuple(stubs.FTensor(build_array(a).astype(np.float32)) for a in op["example"])
        tp = sys.modules["docc.torch"].TorchProgram
        o = dict(op.get("opts", {}))
        prog = tp(m, example_input=ex if len(ex) > 1 else ex[0], **o)
        t.proc.slots[op["slot"]] = {"prog": prog, "plain": None, "model": m, "opts": o, "torch": True}

    def expected_options(self, t, e, op):
        o = e["opts"]
        mode, cap = op.get("mode"), op.get("capture")
        if mode is None:
            mode = o.get("instrumentation_mode")
        if cap is None:
            cap = o.get("capture_args")
        ci = os.environ.get("DOCC_CI", "")
        if not e.get("torch") and ci:
            if ci != "arg-capture" and mode is None:
                mode = "ols"
            if ci != "regions" and cap is None:
                cap = True
        return (mode or "", bool(cap), o.get("target", "none"), o.get("category", "server"), bool(o.get("remote_tuning", False)))

    def op_call(self, t, op):
        self.call(t, op, False)

    def op_sdfg(self, t, op):
        """only the program representation is asked for"""
        e = t.proc.slots.get(op["slot"])
        if e is None or e.get("torch"):
            return
        t.internal += 1
        args = [build_arg(a) for a in op["args"]]
        t.internal -= 1
        try:
            e["prog"].to_sdfg(*args)
        except Exception:
            self.count("sdfg_failed")

    def op_compile(self, t, op):
        self.call(t, op, True)

    def call(self, t, op, compile_first):
        e = t.proc.slots.get(op["slot"])
        if e is None:
            return
        self.count("calls")
        sim = self.sim
        t.internal += 1
        try:
            args = [build_arg(a) for a in op["args"]]
            ref = [build_arg(a) for a in op["args"]]
            if e.get("torch"):
                args = [np_or_tensor(a, x) for a, x in zip(args, op["args"])]
                if [tuple(x["a"]) for x in op["args"]] != [tuple(x["a"]) for x in op["example"]]:
                    raise ValueError("shape differs from the example")
                exp = stubs.torch_eval(e["model"].spec, *[r.astype(np.float32) for r in ref])
                if any(isinstance(a, stubs.FTensor) for a in args):
                    exp = stubs.FTensor(exp)
            else:
                if e["form"].startswith("elem") and any(isinstance(x, bool) for x in ref):
                    raise ValueError("a bool as an index adds a dimension")
                with np.errstate(all="ignore"):
                    exp = e["plain"](*ref)
                for x in exp if isinstance(exp, tuple) else (exp,):
                    if isinstance(x, np.ndarray) and x.ndim == 0:
                        raise ValueError("rank 0")
                if isinstance(exp, np.ndarray):
                    exp = exp.copy()
        except Exception:
            self.count("calls_not_applicable")
            t.internal -= 1
            return
        t.internal -= 1
        stubs.World.memory[t.tid] = [bounds(a, e.get("torch")) for a in args if isinstance(a, (np.ndarray, stubs.FTensor))]
        n0 = len(stubs.World.executed)
        want = self.expected_options(t, e, op)
        t.fault_hit = False
        err = got = None
        where = "call %s%s" % (describe_op(op), " (form %s)" % e["form"] if "form" in e else "")
        try:
            if compile_first:
                kw = {}
                if op.get("folder"):
                    kw["output_folder"] = os.path.join(self.scratch, "explicit", op["folder"])
                if op.get("mode") is not None:
                    kw["instrumentation_mode"] = op["mode"]
                if op.get("capture") is not None:
                    kw["capture_args"] = op["capture"]
                if e.get("torch"):
                    c = e["prog"].compile(**kw)
                    # the program object itself runs what was compiled last
                    if op.get("via", "program") == "program":
                        got = e["prog"](*args)
                    else:
                        c, got = c, NotImplemented
                else:
                    got = e["prog"].compile(*args, **kw)(*args)
            else:
                got = e["prog"](*args)
        except stubs.OutOfBounds as x:
            err = x
            self.bad("memory", "%s: %s" % (where, x))
            self.sim.hash = core.mix(sim.hash, "oob")
            return
        except Exception as x:
            err = x
        ran = [r for tid, r in stubs.World.executed[n0:] if tid == t.tid]
        self.count("native_runs", len(ran))
        sim.hash = core.mix(sim.hash, type(err).__name__ if err else describe(got)[:200] if not isinstance(got, ctypes._SimpleCData) else "c")
        if err is not None:
            self.count("calls_failed")
            if t.fault_hit:
                return
            self.bad("unexpected-error", "%s fails with %s: %s although nothing failed in this call" % (where, type(err).__name__, str(err)[:300]))
            return
        if t.fault_hit:
            self.count("calls_succeeded_despite_fault")
        if got is NotImplemented:
            return
        if not same(exp, got):
            self.bad("wrong-result", "%s returns %s, Python returns %s" % (where, describe(got)[:300], describe(exp)[:300]))
        else:
            self.count("calls_right")
        for i, (a, r) in enumerate(zip(args, ref)):
            if isinstance(a, np.ndarray) and not same(r, a):
                self.bad("wrong-result", "%s leaves argument %d as %s, Python leaves %s" % (where, i, describe(a)[:300], describe(r)[:300]))
        if len(ran) != 1:
            self.bad("wrong-execution", "%s ran %d compiled functions" % (where, len(ran)))
            return
        if e.get("torch"):
            if not compile_first and e.get("compiled"):
                return  # runs what was compiled last
            e["compiled"] = e.get("compiled") or compile_first
        if self.prop == "J02":
            r = ran[0]
            sch = [l for l in r["log"] if isinstance(l, list)]
            kind = "builtin" if want[2] in ("sequential", "openmp") else "custom"
            wsch = [] if want[2] == "none" else [["schedule", kind, want[2], want[3], want[4]]]
            if r["mode"] != want[0]:
                self.bad("instrumentation", "%s: code with instrumentation mode %r ran, %r was asked for" % (where, r["mode"], want[0]))
            if r["capture"] != want[1]:
                self.bad("capture", "%s: code %s argument capture ran, it was asked for %s" % (where, "with" if r["capture"] else "without", "with" if want[1] else "without"))
            if r["target"] != want[2] or sch != wsch:
                self.bad("target", "%s: code for target %r scheduled by %r ran, %r was asked for" % (where, r["target"], sch, wsch))


def torch_forward(self, *xs):
    return self(*xs)


def np_or_tensor(a, spec):
    a = a if a.dtype == np.float32 else a.astype(np.float32, order="K")
    return a if spec.get("np") else stubs.FTensor(a)


def bounds(a, torch=False):
    if torch:
        a = a._a if isinstance(a, stubs.FTensor) else a
        # the front end may pass a contiguous copy, whose address is unknown here
        return (0, 1 << 62) if not a.flags["C_CONTIGUOUS"] else byte_bounds(a)
    return byte_bounds(a)


def byte_bounds(a):
    lo = hi = a.ctypes.data
    if a.size == 0:
        return (lo, hi)
    for n, s in zip(a.shape, a.strides):
        if s > 0:
            hi += (n - 1) * s
        else:
            lo += (n - 1) * s
    return (lo, hi + a.itemsize)


def describe_op(op):
    parts = []
    for a in op["args"]:
        if "a" in a:
            parts.append("%s%s%s" % (a["dt"], tuple(a["a"]), "" if a.get("lay", "C") == "C" else a["lay"]))
        elif "s" in a:
            parts.append("%s %s" % (a["s"], a["v"]))
        else:
            parts.append("%s{%s}" % (a["o"], ", ".join("%s: %s %s" % (n, t, v) for n, t, v in a["m"])))
    return "%s(%s)" % (op["slot"], ", ".join(parts)) + "".join(" %s=%r" % (k, op[k]) for k in ("mode", "capture", "folder") if op.get(k) is not None)
