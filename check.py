#!/usr/bin/env python3
"""Driver of all simulation checks.

  check.py PROPERTY [--tier quick|thorough]      decide one property on /repo's current working tree
  check.py --build                               build everything (setup)
  check.py --replay FILE                         replay one violation file

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Exit 2: error of the check itself.
"""
import argparse, copy, fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from propinfo import PROPS, HARNESSES, ASSUMPTIONS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CPUS = int(os.environ.get("VERIF_JOBS", "8"))


def log(*a):
    print(*a, flush=True)


def fail(msg):
    log("ERROR: " + msg)
    sys.exit(2)


# ------------------------------------------------------------------------------------------------- build
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(targets):
    d = os.path.join(BUILD, "sim")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cxx = next((c for c in ("clang++-19", "clang++-18", "clang++") if shutil.which(c)), None)
        if not cxx:
            fail("no clang++ found")
        r = sh(["cmake", "-S", os.path.join(VERIF, "sim"), "-B", d, "-G", "Ninja", "-DREPO=" + REPO, "-Wno-dev",
                "-DCMAKE_C_COMPILER=" + cxx.replace("++", ""), "-DCMAKE_CXX_COMPILER=" + cxx])
        if r.returncode:
            fail("cmake failed:\n" + r.stdout[-4000:])
        r = sh(["ninja", "-C", d, "-j", str(CPUS)] + targets)
        if r.returncode and "precompiled header" in r.stdout:  # a copy whose file times went back
            for top, _, files in os.walk(d):
                for f in files:
                    if f.endswith((".pch", ".gch")):
                        os.remove(os.path.join(top, f))
            r = sh(["ninja", "-C", d, "-j", str(CPUS)] + targets)
        if r.returncode:
            fail("build failed:\n" + r.stdout[-6000:])
    return d


# ------------------------------------------------------------------------------------------------- harness access
class Sim:
    """One harness executable (or script) with a private scratch directory."""

    def __init__(self, harness, scratch, bindir):
        h = HARNESSES[harness]
        self.cmd = [a.replace("@BIN@", bindir).replace("@VERIF@", VERIF).replace("@REPO@", REPO) for a in h["cmd"]]
        self.scratch = scratch
        self.env = dict(os.environ, VERIF_REPO=REPO)
        self.server = None

    def fresh(self, plan, worker="f"):
        f = os.path.join(self.scratch, "plan-%s.json" % worker)
        with open(f, "w") as o:
            json.dump(plan, o)
        r = subprocess.run(self.cmd + ["run", "--plan", f, "--scratch", self.scratch, "--worker", worker],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=self.env, timeout=300)
        try:
            return json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            return {"error": "harness ended with %d: %s" % (r.returncode, r.stderr[-300:]), "violations": [], "hash": ""}

    def serve(self, plan):
        if self.server is None or self.server.poll() is not None:
            self.server = subprocess.Popen(self.cmd + ["serve", "--scratch", self.scratch, "--worker", "m"],
                                           stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                           text=True, errors="replace", env=self.env)
        f = os.path.join(self.scratch, "plan-m.json")
        with open(f, "w") as o:
            json.dump(plan, o)
        try:
            self.server.stdin.write(f + "\n")
            self.server.stdin.flush()
            return json.loads(self.server.stdout.readline())
        except Exception:
            try:
                self.server.kill()
            except Exception:
                pass
            self.server = None
            return {"error": "harness died", "violations": [], "hash": ""}

    def close(self):
        if self.server:
            try:
                self.server.stdin.close()
                self.server.wait(5)
            except Exception:
                self.server.kill()


def hits(res, prop, cls):
    return [v for v in res.get("violations", []) if v["prop"] == prop and v["cls"] == cls]


# ------------------------------------------------------------------------------------------------- minimiser
def walk_lists(x, path=()):
    if isinstance(x, list):
        yield path
        for i, y in enumerate(x):
            yield from walk_lists(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from walk_lists(y, path + (k,))


def walk_nums(x, path=()):
    if isinstance(x, bool):
        return
    if isinstance(x, int):
        yield path
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from walk_nums(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from walk_nums(y, path + (k,))


def get(x, path):
    for p in path:
        x = x[p]
    return x


def size(plan):
    return len(json.dumps(plan))


class Minimiser:
    def __init__(self, sim, prop, cls, budget, keep):
        self.sim, self.prop, self.cls = sim, prop, cls
        self.end = time.time() + budget
        self.keep = keep  # keys whose lists must not be shortened
        self.tries = 0

    def test(self, plan):
        """returns the plan with the recorded schedule if the violation persists"""
        self.tries += 1
        r = self.sim.serve(plan)
        if r.get("error") or not hits(r, self.prop, self.cls):
            return None
        q = copy.deepcopy(plan)
        if r.get("sched"):
            q["sched"] = r["sched"]
            q["sched"].setdefault("seed", plan.get("sched", {}).get("seed", 1))
        return q

    def test_scheds(self, plan, orig):
        cands = [plan]
        multi = len(plan.get("threads", [])) > 1
        if multi and orig is not None:
            cands.append(dict(plan, sched=orig))
            for k in range(3):
                cands.append(dict(plan, sched={"mode": "random", "seed": 1000 + k, "p_mem": (60, 200, 1000)[k], "p_point": (20000, 8000, 40000)[k]}))
        for c in cands:
            q = self.test(c)
            if q is not None:
                return q
            if time.time() > self.end:
                break
        return None

    def run(self, plan, orig_sched):
        changed = True
        while changed and time.time() < self.end:
            changed = False
            # shorten lists, outermost first
            for path in sorted(walk_lists(plan), key=len):
                if any(p in self.keep for p in path) or path[:1] == ("sched",):
                    continue
                try:
                    n = len(get(plan, path))
                except Exception:
                    continue
                chunk = max(n // 2, 1)
                while chunk >= 1 and n > 0 and time.time() < self.end:
                    i = 0
                    while i < n and time.time() < self.end:
                        q = copy.deepcopy(plan)
                        l = get(q, path)
                        del l[i:i + chunk]
                        t = self.test_scheds(q, orig_sched)
                        if t is not None:
                            plan, changed = t, True
                            try:
                                n = len(get(plan, path))
                            except Exception:
                                n = 0
                        else:
                            i += chunk
                    chunk //= 2
            # fewer preemptions
            if plan.get("sched", {}).get("mode") == "list":
                l = plan["sched"]["list"]
                chunk = max(len(l) // 2, 1)
                while chunk >= 1 and time.time() < self.end:
                    i = 0
                    while i < len(plan["sched"]["list"]) and time.time() < self.end:
                        q = copy.deepcopy(plan)
                        del q["sched"]["list"][i:i + chunk]
                        t = self.test(q)
                        if t is not None and len(t["sched"].get("list", [])) < len(plan["sched"]["list"]):
                            plan, changed = t, True
                        else:
                            i += chunk
                    chunk //= 2
            # smaller numbers
            for path in list(walk_nums(plan)):
                if time.time() > self.end:
                    break
                if any(p in self.keep for p in path) or path[:1] == ("sched",) or path[-1] in ("seed",):
                    continue
                try:
                    v = get(plan, path)
                except Exception:
                    continue
                if not isinstance(v, int) or isinstance(v, bool) or abs(v) < 2:
                    continue
                for nv in (0, 1, v // 2):
                    q = copy.deepcopy(plan)
                    get(q, path[:-1])[path[-1]] = nv
                    t = self.test(q)
                    if t is not None:
                        plan = t
                        if nv == v // 2:
                            changed = True
                        break
        return plan


# ------------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            m = re.match(r"^KNOWN-FINDING: property=(\S+) class=(\S+) match=/(.*?)/ (.*)$", line)
            if m and m.group(1) == prop:
                out.append({"cls": m.group(2), "re": re.compile(m.group(3), re.S), "text": m.group(4)})
    return out


# ------------------------------------------------------------------------------------------------- one check
def scratch_dir():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="verif-sim-", dir=base)


def batch(sim_cmds, prop, h, opts, tier, start, workers, tlimit, count, recheck, hashes, scratch, tag="b"):
    procs = []
    for w in range(workers):
        out = os.path.join(scratch, "%s-%d.json" % (tag, w))
        cmd = sim_cmds + ["batch", "--prop", prop, "--start", str(start + w), "--stride", str(workers), "--count", str(count),
                          "--time", str(tlimit), "--recheck", str(recheck), "--hashes", str(hashes), "--scratch", scratch,
                          "--worker", "%s%d" % (tag, w), "--tier", tier, "--out", out]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, VERIF_REPO=REPO)), out))
    res = []
    for p, out in procs:
        try:
            _, err = p.communicate(timeout=tlimit + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        try:
            res.append(json.load(open(out)))
        except Exception:
            fail("harness worker failed (%s): %s" % (p.returncode, (err or b"").decode(errors="replace")[-800:]))
    return res


def merge_stats(parts):
    st = {}
    for p in parts:
        for k, v in p["stats"].items():
            st[k] = st.get(k, 0) + v
    return st


def check(prop, tier):
    t_start = time.time()
    info = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    log("property=%s tier=%s VERIF_SEED=%d" % (prop, tier, seed))
    hname = info["harness"]
    h = HARNESSES[hname]
    bindir = build(h["targets"]) if h["targets"] else BUILD
    t_built = time.time()
    scratch = scratch_dir()
    try:
        return decide(prop, tier, info, hname, h, bindir, scratch, seed, t_start, t_built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, info, hname, h, bindir, scratch, seed, t_start, t_built):
    sim = Sim(hname, scratch, bindir)
    tl = float(os.environ.get("VERIF_TIME", info.get("time", {}).get(tier, 45 if tier == "quick" else 600)))
    count = info.get("count", {}).get(tier, 10 ** 9)
    workers = h.get("workers", CPUS)
    start = (seed * 1000000007) % (1 << 40) + 1
    candidates = []  # (cls, msg, plan, seed, orig_sched)
    # 1. committed scenarios (regressions and hand-written fault placements)
    n_corpus = 0
    cdir = os.path.join(VERIF, "corpus", prop)
    corpus_stats = {"stats": {}}
    if os.path.isdir(cdir):
        for f in sorted(os.listdir(cdir)):
            if not f.endswith(".json"):
                continue
            plan = json.load(open(os.path.join(cdir, f)))
            plan = plan.get("plan", plan)
            r = sim.serve(plan)
            n_corpus += 1
            if r.get("error"):
                log("note: scenario %s not applicable: %s" % (f, r["error"]))
                continue
            for k, v in r.get("stats", {}).items():
                corpus_stats["stats"][k] = corpus_stats["stats"].get(k, 0) + v
            for v in r["violations"]:
                if v["prop"] == prop:
                    candidates.append((v["cls"], v["msg"], dict(plan, sched=r["sched"]) if r.get("sched") else plan, -1, plan.get("sched")))
    # 2. seeded search
    parts = batch(sim.cmd, prop, h, info, tier, start, workers, tl, count, h.get("recheck", 25), h.get("hashes", 24), scratch)
    for p in parts:
        for v in p["violations"]:
            plan = v["plan"]
            orig = plan.get("sched")
            if v.get("sched"):
                plan = dict(plan, sched=v["sched"])
            candidates.append((v["cls"], v["msg"], plan, v["seed"], orig))
    stats = merge_stats(parts + [corpus_stats])
    runs = sum(p["runs"] for p in parts)
    errors = [e for p in parts for e in p["errors"]]
    nondet = [e for p in parts for e in p["nondet"]]
    # 3. determinism across processes and worker counts
    want = {}
    for p in parts:
        want.update(p.get("hashes_by_seed", {}))
    nh = h.get("hashes", 24)
    w2 = max(1, workers // 2 - 1) if workers > 2 else 1
    cross = 0
    if nh and not candidates:
        again = batch(sim.cmd, prop, h, info, tier, start, w2, max(20, tl), (nh * workers) // w2 // h.get("cross_div", 2), 0, 10 ** 6, scratch, tag="d")
        for p in again:
            for k, v in p.get("hashes_by_seed", {}).items():
                if k in want:
                    cross += 1
                    if want[k] != v:
                        nondet.append({"seed": int(k), "h1": want[k], "h2": v})
    t_search = time.time()

    # 4. violations: gate, known findings, minimise, report
    known = known_findings(prop)
    reported = []
    known_hit = {}
    unreproduced = []
    byc = {}
    for c in sorted(candidates, key=lambda c: size(c[2])):
        byc.setdefault(c[0], []).append(c)
    t_end_all = time.time() + (150 if tier == "quick" else 400)
    for cls, cs in byc.items():
        done = 0
        for (cls, msg, plan, sd, orig) in cs:
            if done:
                break
            variants = [plan] + ([dict(plan, sched=orig)] if orig is not None and orig != plan.get("sched") else [])
            for var in variants:
                r1 = sim.fresh(var)
                r2 = sim.fresh(var)
                h1, h2 = hits(r1, prop, cls), hits(r2, prop, cls)
                if h1 and h2 and r1["hash"] == r2["hash"]:
                    kf = next((k for k in known if k["cls"] == cls and k["re"].search(h1[0]["msg"])), None)
                    if kf:
                        known_hit[kf["text"]] = known_hit.get(kf["text"], 0) + 1
                        break
                    if len(reported) >= 4 or time.time() > t_end_all:
                        minimal = var
                    else:
                        mini = Minimiser(sim, prop, cls, 30 if tier == "quick" else 90, set(h.get("keep", [])))
                        minimal = mini.run(copy.deepcopy(var), orig)
                        f1 = sim.fresh(minimal)
                        f2 = sim.fresh(minimal)
                        ok = hits(f1, prop, cls) and hits(f2, prop, cls) and f1["hash"] == f2["hash"]
                        if ok and any(k["cls"] == cls and k["re"].search(hits(f1, prop, cls)[0]["msg"]) for k in known):
                            ok = False  # shrunk into a known finding: keep the original
                        if not ok:
                            minimal = var
                    fr = sim.fresh(minimal)
                    reported.append((cls, (hits(fr, prop, cls) or h1)[0]["msg"], minimal, sd, fr["hash"]))
                    done = 1
                    break
            else:
                unreproduced.append({"cls": cls, "seed": sd, "msg": msg[:300]})
    sim.close()

    # listed known findings are shown whether or not this batch happened to meet them
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))

    status = 0
    replays = []
    for i, (cls, msg, plan, sd, hsh) in enumerate(reported):
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%s.json" % (prop, re.sub(r"\W+", "_", cls), hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:8]))
        with open(path, "w") as o:
            json.dump({"property": prop, "class": cls, "message": msg, "seed": sd, "hash": hsh, "harness": hname,
                       "replay": "python3 %s --replay %s" % (os.path.join(VERIF, "check.py"), path), "plan": plan}, o, indent=1)
        replays.append(path)
        log("violation class %s (found with seed %s): %s" % (cls, sd, msg[:400]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    if not status:
        if errors:
            log("harness errors: %s" % json.dumps(errors[:3])[:1500])
            status = 2
        if unreproduced:
            log("violations that do not replay: %s" % json.dumps(unreproduced[:3])[:1500])
            status = 2
        if nondet:
            log("nondeterministic seeds: %s" % json.dumps(nondet[:3]))
            status = 2
        if runs == 0:
            log("no runs were made")
            status = 2

    # 5. evidence
    wall = time.time() - t_start
    swall = max(0.001, max(p["wall"] for p in parts))
    fcfg = {k.split(":", 1)[1]: v for k, v in stats.items() if k.startswith(("fault_cfg:", "papi_fault_cfg:"))}
    ffired = {k.split(":", 1)[1]: v for k, v in stats.items() if k.startswith(("fault_fired:", "papi_fault_fired:"))}
    probes = {k.split(":", 1)[1]: v for k, v in stats.items() if k.startswith("probe:")}
    sched_hashes, run_hashes = set(), set()
    for p in parts:
        sched_hashes.update(p["sched_hashes"])
        run_hashes.update(p["run_hashes"])
    sample_seed = start
    try:
        sample_plan = json.loads(sh(sim.cmd + ["gen", "--prop", prop, "--seed", str(sample_seed)]).stdout)
    except Exception:
        sample_plan = None
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs + n_corpus,
            "distinct_nontrivial": len(run_hashes),
            "rule": info["rule"],
            "samples": [{"seed": sample_seed, "plan": sample_plan}] + [s for p in parts for s in p["samples"]][:6],
            "runs_per_hour": int(runs / swall * 3600),
            "seeds": {"first": start, "workers": workers, "stride": workers, "runs": runs},
            "committed_scenarios_replayed": n_corpus,
            "simulated_seconds": stats.get("sim_ns", 0) / 1e9,
            "simulated_sessions": stats.get("sessions", 0),
            "scheduler_steps": stats.get("steps", 0),
            "context_switches_decided": stats.get("switches", 0),
            "runs_with_concurrency": sum(p["multi"] for p in parts),
            "distinct_interleavings": {"count": len(sched_hashes), "measure": "distinct sequences of (thread step, from, to) context switches"},
            "faults_configured": fcfg, "faults_fired": ffired, "probes": probes,
            "other_counters": {k: v for k, v in stats.items() if ":" not in k and k not in ("sim_ns", "sessions", "steps", "switches")},
            "determinism": {"same_process_repeats": sum(p["checked_twice"] for p in parts), "other_process_repeats": cross,
                            "worker_counts": [workers, w2], "mismatches": len(nondet)},
            "real_components": h["real"], "stub_components": h["stub"],
            "build_s": round(t_built - t_start, 1), "search_s": round(t_search - t_built, 1),
            "known_findings": [k["text"] for k in known], "known_findings_met": known_hit, "violation_classes": sorted(byc), "replays": replays,
        },
        "assumptions": ASSUMPTIONS + h.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    log("%s: %d runs (%d distinct non-trivial, %d interleavings) in %.1f s, exit %d" % (prop, runs, len(run_hashes), len(sched_hashes), wall, status))
    return status


def replay(path):
    d = json.load(open(path))
    hname = d["harness"]
    h = HARNESSES[hname]
    bindir = build(h["targets"]) if h["targets"] else BUILD
    scratch = scratch_dir()
    try:
        r = Sim(hname, scratch, bindir).fresh(d["plan"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    v = hits(r, d["property"], d["class"])
    log("hash %s (recorded %s)" % (r.get("hash"), d.get("hash")))
    for x in r["violations"]:
        log("  [%s] %s: %s" % (x["prop"], x["cls"], x["msg"][:600]))
    if v:
        log("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    log("not reproduced on this tree" + (": " + r["error"] if r.get("error") else ""))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.build:
        t = sorted({t for h in HARNESSES.values() for t in h["targets"]})
        build(t)
        log("built: " + " ".join(t))
        return 0
    if a.replay:
        return replay(a.replay)
    if a.property not in PROPS:
        fail("unknown property " + str(a.property))
    return check(a.property, a.tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        import traceback
        traceback.print_exc()
        sys.exit(2)
