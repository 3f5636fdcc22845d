"""seed -> plan"""
import random

DTS = ["f8", "f8", "f8", "f4", "i8", "i4", "u1", "i2", "b", "u2", "i1", "u4", "u8", "f2"]
# parameter kinds of each form
KINDS = {"add": "AB", "mul": "AB", "addk": "A", "muln": "An", "mulnm": "Ann", "fill": "AB", "inpl": "An", "loop": "1B", "loopn": "1Bl", "grid": "2B", "elem": "1e", "elem2": "2ef",
         "two": "AB", "cmp": "AB", "mix": "Axn", "scal": "xn", "struct": "p", "astruct": "Ap", "unary": "A", "matmul": "2m", "first": "ABB"}


def shape(r, rank=None):
    rank = rank or r.choice([1, 1, 2, 2, 3])
    return [r.choice([1, 1, 2, 3, 4, 5]) for _ in range(rank)]


def layout(r, rank, rich):
    if not rich or r.random() < 0.45:
        return "C"
    return r.choice(["F", "T", "S", "R", "P"] if rank > 1 else ["S", "R"])


def array(r, shp, rich, dt=None):
    a = {"a": shp, "dt": dt or r.choice(DTS), "seed": r.randrange(1, 5)}
    lay = layout(r, len(shp), rich)
    if lay != "C":
        a["lay"] = lay
        if lay in "SP":
            a["step"] = r.choice([2, 2, 3])
    return a


def scalar(r, lo=0, hi=6):
    t = r.choice(["int", "int", "int", "float", "bool", "i4", "f4", "u1"])
    v = r.randrange(lo, hi)
    return {"s": t, "v": bool(v & 1) if t == "bool" else v + 0.5 if t == "float" and r.random() < 0.5 else v}


def struct(r, rich):
    ts = ["int", "float", "bool", "i4", "f4"] if rich else ["int"]
    m = [["x", r.choice(ts), r.randrange(0, 6)], ["y", r.choice(ts), r.randrange(0, 6)]]
    if rich and r.random() < 0.4:
        m.append([r.choice(["w", "z", "_h"]), r.choice(ts), r.randrange(0, 6)])
    if rich and r.random() < 0.2:
        m[0][2] = m[0][2] + 0.5 if m[0][1] in ("float", "f4") else m[0][2]
    r.shuffle(m)
    return {"o": r.choice("PQ") if rich and r.random() < 0.2 else "P", "m": m}


def args(r, form, rich, dt, prev):
    """arguments for one call; often a variation of an earlier call"""
    if prev and r.random() < (0.35 if rich else 0.8):
        import copy
        p = copy.deepcopy(r.choice(prev))
        if rich:
            vary(r, p)
        return p
    out, first = [], None
    for k in KINDS[form]:
        if k in "A12":
            first = shape(r, {"A": None, "1": 1, "2": 2}[k])
            out.append(array(r, first, rich, dt))
        elif k == "B":
            s = list(first)
            if form in ("add", "mul", "cmp", "first", "two") and r.random() < 0.3 and rich:
                s = [1 if r.random() < 0.5 else x for x in s]
                if r.random() < 0.2 and len(s) > 1:
                    s = s[1:]
            out.append(array(r, s, rich, dt if r.random() < 0.8 else None))
        elif k == "m":
            out.append(array(r, [first[1], r.choice([1, 2, 3])], rich, dt))
        elif k == "l":
            out.append({"s": "int", "v": r.randrange(0, first[0] + 1)})
        elif k in "ef":
            out.append({"s": "int", "v": r.randrange(0, first["ef".index(k)])})
        elif k in "nx":
            # sometimes equal to an extent: the compiler identifies the two
            out.append({"s": "int", "v": r.choice(first)} if first and r.random() < 0.3 else scalar(r))
        elif k == "p":
            out.append(struct(r, rich))
    return out


def vary(r, p):
    """change one aspect that must not be confused with the earlier call"""
    i = r.randrange(len(p))
    a = p[i]
    if "a" in a:
        c = r.randrange(5)
        old = list(a["a"])
        if c == 0:
            a.pop("lay", None)
            lay = layout(r, len(old), True)
            if lay != "C":
                a["lay"], a["step"] = lay, r.choice([2, 3])
        elif c == 1:
            a["dt"] = r.choice(DTS)
        elif c == 2:  # another extent, everywhere it occurs
            d = r.choice(old)
            n = r.choice([1, 2, 3, 4, 5])
            for b in p:
                if "a" in b:
                    b["a"] = [n if x == d else x for x in b["a"]]
        elif c == 3:
            for b in p:
                if "a" in b:
                    b["a"] = list(reversed(b["a"]))
        else:
            a["seed"] = r.randrange(1, 9)
    elif "s" in a:
        if r.random() < 0.5:
            p[i] = scalar(r)
        else:
            ext = [x for b in p if "a" in b for x in b["a"]]
            a["v"] = r.choice(ext) if ext and r.random() < 0.5 and a["s"] == "int" else a["v"]
    else:
        p[i] = struct(r, True)


def file_(r, nf, forms=None, bind=None):
    fs = []
    for i in range(nf):
        fs.append({"name": r.choice(["f", "f", "g"]), "form": r.choice(forms or list(KINDS)), "k": r.randrange(1, 6),
                   "bind": bind or r.choice(["closure", "closure", "global", "literal"])})
        if fs[-1]["form"] in ("scal", "struct") and r.random() < 0.3:
            fs[-1]["ann"] = "float"  # every value of these forms is exact as a float
    names = set()
    for f in fs:  # names must be unique within one file
        while f["name"] in names:
            f["name"] += "x"
        names.add(f["name"])
    return {"funcs": fs}


def sched(r, n):
    s = {"mode": "random", "seed": r.randrange(1, 1 << 40), "p_mem": 0, "p_point": 0}
    if n > 1:
        s["p_mem"] = r.choice([0, 100, 400, 1500, 6000])
        s["p_point"] = r.choice([0, 1500, 5000, 15000, 40000])
    return s


def torch_ops(r, slot, rich):
    n = r.choice([1, 1, 2])
    shp = shape(r, r.choice([1, 2]))
    ex = [{"a": list(shp), "dt": "f4", "seed": r.randrange(1, 5)} for _ in range(n)]
    model = {"cls": r.choice(["Net", "Net", "Mlp"]), "w": r.choice([1, 2, 3]), "b": r.choice([0, 1]), "sum": r.random() < 0.2 and len(shp) > 1}
    ops = [{"op": "torch", "slot": slot, "model": model, "example": ex}]
    return ops, ex


def torch_call(r, slot, ex):
    a = []
    npy = r.random() < 0.4
    for e in ex:
        x = dict(e, seed=r.randrange(1, 9))
        if npy or r.random() < 0.3:
            x["np"] = True
        lay = layout(r, len(e["a"]), True)
        if lay != "C":
            x["lay"], x["step"] = lay, 2
        a.append(x)
    return {"op": "call", "slot": slot, "args": a, "example": ex}


def gen(prop, seed, tier="quick"):
    r = random.Random(seed * 4 + 1)
    return {"J01": gen1, "J02": gen2, "J03": gen3, "J04": gen4}[prop](r, prop)


def gen1(r, prop):
    files = [file_(r, r.choice([1, 1, 2])) for _ in range(r.choice([1, 1, 2]))]
    ops, slots, hist = [], [], {}
    n = r.choice([2, 3, 4, 6, 9])
    stamp = 0
    for _ in range(r.choice([1, 1, 2, 3])):
        define(r, files, ops, slots)
    if r.random() < 0.15:
        s = "t%d" % len(slots)
        o, ex = torch_ops(r, s, True)
        ops += o
        slots.append((s, None, ex))
        if r.random() < 0.7:  # another instance, same class and example
            o2 = dict(o[0], slot="u", model=dict(o[0]["model"], w=r.choice([1, 2, 3])))
            ops.append(o2)
            slots.append(("u", None, ex))
    for _ in range(n):
        c = r.random()
        if c < 0.12:
            define(r, files, ops, slots)
        elif c < 0.17:
            fi = r.randrange(len(files))
            stamp += 1
            ops.append({"op": "edit", "file": fi, "fn": r.randrange(len(files[fi]["funcs"])), "set": {"k": r.randrange(1, 6)}, "stamp": stamp})
            slots[:] = [s for s in slots if s[1] is None or s[1][0] != fi]
            if not slots:
                define(r, files, ops, slots)
        else:
            s, f, ex = r.choice(slots)
            if f is None:
                ops.append(torch_call(r, s, ex))
                continue
            form = files[f[0]]["funcs"][f[1]]["form"]
            h = hist.setdefault(form, [])
            a = args(r, form, True, r.choice(DTS), h)
            h.append(a)
            op = {"op": "call", "slot": s, "args": a}
            if r.random() < 0.06:
                op["op"] = "sdfg"
            elif r.random() < 0.12:
                op["op"] = "compile"
                if r.random() < 0.6:
                    op["folder"] = r.choice(["e1", "e2"])
            ops.append(op)
    return {"prop": prop, "files": files, "procs": [{"tmp": "none" if r.random() < 0.1 else "env"}], "threads": [{"proc": 0, "ops": ops}], "faults": [], "sched": sched(r, 1)}


def define(r, files, ops, slots, opts=None):
    fi = r.randrange(len(files))
    fn = r.randrange(len(files[fi]["funcs"]))
    s = "s%d" % len(ops)
    op = {"op": "def", "file": fi, "fn": fn, "slot": s, "k": r.randrange(1, 6)}
    if files[fi]["funcs"][fn]["bind"] == "literal":
        del op["k"]
    if opts:
        op["opts"] = opts
    ops.append(op)
    slots.append((s, (fi, fn), None))


def options(r):
    o = {}
    if r.random() < 0.4:
        o["instrumentation_mode"] = r.choice(["", "ols"])
    if r.random() < 0.4:
        o["capture_args"] = r.choice([True, False])
    if r.random() < 0.4:
        o["target"] = r.choice(["none", "sequential", "openmp", "mytarget", "mytargetc"])
    if r.random() < 0.3:
        o["category"] = r.choice(["server", "desktop", "edge"])
    if r.random() < 0.3:
        o["remote_tuning"] = r.choice([True, False])
    return o


CI = [None, None, "", "regions", "arg-capture", "full", "1"]


def gen2(r, prop):
    files = [file_(r, 1, ["add", "addk", "scal", "fill"])]
    ops, slots, hist = [], [], []
    form = files[0]["funcs"][0]["form"]
    for _ in range(r.choice([1, 1, 2, 3])):
        define(r, files, ops, slots, options(r))
        if r.random() < 0.6 and len(slots) > 1:  # the same function again: same constants
            ops[-1].update({k: v for k, v in ops[0].items() if k == "k"})
    if r.random() < 0.3:
        o, ex = torch_ops(r, "t", False)
        o[0]["opts"] = {k: v for k, v in options(r).items() if k != "target"}
        ops += o
        slots.append(("t", None, ex))
    for _ in range(r.choice([2, 3, 5, 7])):
        if r.random() < 0.25:
            ops.append({"op": "env", "key": "DOCC_CI", "val": r.choice(CI)})
            continue
        s, f, ex = r.choice(slots)
        if f is None:
            op = torch_call(r, s, ex)
            if r.random() < 0.7:
                op["op"] = "compile"
        else:
            op = {"op": "call", "slot": s, "args": args(r, form, False, "f8", hist)}
            hist.append(op["args"])
            if r.random() < 0.45:
                op["op"] = "compile"
        if op["op"] == "compile":
            if r.random() < 0.5:
                op["mode"] = r.choice(["", "ols"])
            if r.random() < 0.5:
                op["capture"] = r.choice([True, False])
            if r.random() < 0.15:
                op["folder"] = r.choice(["e1", "e2"])
        ops.append(op)
    env = {}
    ci = r.choice(CI)
    if ci is not None:
        env["DOCC_CI"] = ci
    return {"prop": prop, "files": files, "procs": [{"env": env}], "threads": [{"proc": 0, "ops": ops}], "faults": [], "sched": sched(r, 1)}


def simple_threads(r, files, nproc, phase, first, shared, nthreads):
    """threads calling the same few functions with the same few argument lists"""
    form = files[0]["funcs"][0]["form"]
    pool = [args(r, form, False, "f8", None) for _ in range(r.choice([1, 1, 2]))]
    if "p" in KINDS[form] and r.random() < 0.6:  # one class, members of different types
        for _ in range(r.choice([1, 2])):
            a = [dict(x) for x in pool[0]]
            a[KINDS[form].index("p")] = struct(r, True)
            pool.append(a)
    if shared is not None:
        pool = shared
    procs, threads = [], []
    for p in range(nproc):
        procs.append({"phase": phase})
        k = files[0]["funcs"][0]["k"]
        for t in range(r.choice(nthreads)):
            ops = [{"op": "def", "file": 0, "fn": 0, "slot": "s%d" % (0 if r.random() < 0.6 else t), "k": k}]
            if t > 0 and r.random() < 0.5:
                ops = [{"op": "use", "slot": "s0"}]
            slot = ops[0]["slot"]
            for _ in range(r.choice([1, 1, 2, 3])):
                ops.append({"op": "call", "slot": slot, "args": r.choice(pool)})
                if r.random() < 0.1:
                    ops[-1]["op"] = "compile"
            threads.append({"proc": first + p, "ops": ops})
    return procs, threads, pool


def torch_threads(r, phase, first, nthreads):
    """processes and threads compiling models of one class for the same inputs"""
    shp = shape(r, r.choice([1, 2]))
    ex = [{"a": list(shp), "dt": "f4", "seed": r.randrange(1, 5)}]
    cls, sm = r.choice(["Net", "Net", "Mlp"]), r.random() < 0.2 and len(shp) > 1
    procs, threads = [], []
    for p in range(r.choice([1, 2, 2])):
        procs.append({"phase": phase})
        for t in range(r.choice(nthreads)):
            slot = "t%d" % t
            ops = [{"op": "torch", "slot": slot, "model": {"cls": cls, "w": r.choice([1, 2, 3]), "b": r.choice([0, 1]), "sum": sm}, "example": ex}]
            if t > 0 and r.random() < 0.5:
                slot = "t0"
                ops = [{"op": "use", "slot": slot}]
            for _ in range(r.choice([1, 1, 2, 3])):
                ops.append(torch_call(r, slot, ex))
            threads.append({"proc": first + p, "ops": ops})
    return procs, threads


def gen3(r, prop):
    if r.random() < 0.15:
        procs, threads = torch_threads(r, 0, 0, [1, 2, 2])
        return {"prop": prop, "files": [file_(r, 1, ["add"])], "procs": procs, "threads": threads, "faults": [], "sched": sched(r, len(threads))}
    files = [file_(r, 1, ["add", "addk", "scal", "fill", "astruct", "struct"])]
    phase0 = r.random() < 0.25
    procs, threads, pool = [], [], None
    if phase0:
        procs, threads, pool = simple_threads(r, files, 1, 0, 0, None, [1])
    p, t, _ = simple_threads(r, files, r.choice([1, 2, 2, 3]), 1, len(procs), pool, [1, 1, 2, 3])
    procs += p
    threads += t
    if r.random() < 0.2:
        for pr in procs:
            pr["tmp"] = "none"
    return {"prop": prop, "files": files, "procs": procs, "threads": threads, "faults": [], "sched": sched(r, len(threads))}


FAULTS = [("scandir", ["EACCES", "EMFILE", "EIO"]), ("remove", ["EACCES", "EBUSY", "EIO"]), ("rmdir", ["EBUSY", "EACCES", "ENOTEMPTY"]), ("mkdir", ["ENOSPC", "EACCES", "EROFS"]),
          ("open_w", ["ENOSPC", "EMFILE", "EACCES"]), ("open_r", ["EMFILE", "EIO"]), ("write", ["ENOSPC", "EIO"]), ("cc", ["ENOMEM"]), ("parse", ["ENOMEM"]),
          ("validate", ["EIO"]), ("schedule", ["EIO"]), ("dlopen", ["EMFILE", "ENOMEM"]), ("flock", ["EIO", "ENOLCK"]), ("rename", ["EACCES", "ENOSPC"])]


def gen4(r, prop):
    files = [file_(r, 1, ["add", "addk", "scal", "fill", "astruct"])]
    n = r.choice([1, 1, 2, 2])
    procs, threads, pool = simple_threads(r, files, n, 0, 0, None, [1, 1, 2])
    for t in threads:  # the caller tries again
        t["ops"] += [dict(t["ops"][-1]) for _ in range(r.choice([1, 1, 2]))]
    p, t, _ = simple_threads(r, files, r.choice([1, 1, 2]), 1, len(procs), pool, [1])
    procs += p
    threads += t
    faults = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.4:
            op = r.choice(["line", "any", "any", "write", "remove", "open_w"])
            f = {"op": op, "nth": r.randrange(1, {"line": 250, "any": 40}.get(op, 10)), "kind": "crash", "proc": r.randrange(n)}
        else:
            op, kinds = r.choice(FAULTS)
            f = {"op": op, "nth": r.randrange(1, 9) if op not in ("cc", "parse", "validate", "schedule", "dlopen", "flock") else r.randrange(1, 4), "kind": r.choice(kinds)}
            if r.random() < 0.5:
                f["proc"] = r.randrange(n)
        faults.append(f)
    if r.random() < 0.15:
        for pr in procs:
            pr["tmp"] = "none"
    return {"prop": prop, "files": files, "procs": procs, "threads": threads, "faults": faults, "sched": sched(r, len(threads))}
