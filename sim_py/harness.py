#!/usr/bin/env python3
"""Harness J: the Python front end's just-in-time compilation (same protocol as the C++ harnesses)."""
import json, os, pickle, random, signal, shutil, sys, time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setswitchinterval(1000)
import core, world, plans  # noqa: E402


def wipe(d):
    if os.path.isdir(d):
        for dp, dn, fn in os.walk(d):
            for x in dn:
                try:
                    os.chmod(os.path.join(dp, x), 0o755)
                except OSError:
                    pass
        shutil.rmtree(d, ignore_errors=True)


def run_plan(plan, scratch):
    wipe(scratch)
    os.makedirs(scratch)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = world.Run(plan, scratch).execute()
            except BaseException as e:  # noqa
                import traceback
                out = {"error": "".join(traceback.format_exception(e))[-1500:]}
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.monotonic() + 60
    import select
    while True:
        ok, _, _ = select.select([r], [], [], max(0.1, end - time.monotonic()))
        if not ok:
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(r, 1 << 20)
        if not c:
            break
        data += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    base = {"error": "", "hash": "0", "sched_hash": "0", "violations": [], "stats": {}, "sched": plan.get("sched", {}), "notes": [], "multi": False, "nontrivial": False}
    try:
        base.update(json.loads(data))
    except Exception:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL:
            base["violations"] = [{"prop": plan["prop"], "cls": "crash", "msg": "the process died with signal %d" % os.WTERMSIG(st)}]
            base["hash"] = str(os.WTERMSIG(st))
        else:
            base["error"] = "run ended without a result (status %d)" % st
    return base


def main():
    mode = sys.argv[1] if len(sys.argv) > 1 else ""
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    prop = opt.get("--prop", "")
    if mode == "gen":
        print(json.dumps(plans.gen(prop, int(opt["--seed"])), indent=1))
        return 0
    scratch = os.path.join(opt["--scratch"], "j" + opt.get("--worker", "0"))
    if not scratch.startswith("/"):
        return 2
    # identical path names in every worker would need private mounts; what is hashed never contains the scratch path
    world.warm()
    if mode == "run":
        print(json.dumps(run_plan(json.load(open(opt["--plan"])), scratch)))
        wipe(scratch)
        return 0
    if mode == "serve":
        for line in sys.stdin:
            try:
                out = run_plan(json.load(open(line.strip())), scratch)
            except Exception as e:
                out = {"error": "plan rejected: %r" % e, "violations": [], "hash": "0"}
            print(json.dumps(out), flush=True)
        wipe(scratch)
        return 0
    if mode != "batch":
        print("usage: gen|run|serve|batch")
        return 2
    start, stride, count = int(opt["--start"]), int(opt.get("--stride", 1)), int(opt.get("--count", 100))
    limit, recheck, nh = float(opt.get("--time", 1e9)), int(opt.get("--recheck", 16)), int(opt.get("--hashes", 0))
    t0 = time.monotonic()
    o = {"runs": 0, "multi": 0, "nontrivial": 0, "checked_twice": 0, "stats": {}, "violations": [], "classes": {}, "errors": [], "nondet": [], "samples": []}
    scheds, hashes, byseed, allh = set(), set(), {}, 0
    for i in range(count):
        if time.monotonic() - t0 > limit:
            break
        seed = start + i * stride
        plan = plans.gen(prop, seed, opt.get("--tier", "quick"))
        r = run_plan(plan, scratch)
        o["runs"] += 1
        allh = core.mix(allh, int(r["hash"]))
        if i < nh:
            byseed[str(seed)] = r["hash"]
        o["multi"] += bool(r["multi"])
        if r["nontrivial"]:
            o["nontrivial"] += 1
            hashes.add(r["hash"])
        scheds.add(r["sched_hash"])
        for k, v in r["stats"].items():
            o["stats"][k] = o["stats"].get(k, 0) + v
        if r["error"]:
            if len(o["errors"]) < 5:
                o["errors"].append({"seed": seed, "error": r["error"]})
            continue
        hit = [v for v in r["violations"] if v["prop"] == prop]
        if hit or (recheck and i % recheck == 0):
            r2 = run_plan(plan, scratch)
            o["checked_twice"] += 1
            if r2["hash"] != r["hash"] and len(o["nondet"]) < 5:
                o["nondet"].append({"seed": seed, "h1": r["hash"], "h2": r2["hash"]})
        if len(o["samples"]) < 3 and i % 7 == 3:
            o["samples"].append({"seed": seed, "hash": r["hash"]})
        for v in hit:
            n = o["classes"][v["cls"]] = o["classes"].get(v["cls"], 0) + 1
            if n <= 3:
                o["violations"].append({"seed": seed, "cls": v["cls"], "msg": v["msg"], "hash": r["hash"], "plan": plan, "sched": r["sched"]})
        if len(o["violations"]) >= 24:
            break
    o.update(wall=time.monotonic() - t0, all_hash=str(allh), sched_hashes=sorted(scheds), run_hashes=sorted(hashes))
    if nh:
        o["hashes_by_seed"] = byseed
    with open(opt.get("--out", "/dev/stdout"), "w") as f:
        f.write(json.dumps(o) + "\n")
    wipe(scratch)
    return 0


if __name__ == "__main__":
    sys.exit(main())
