"""Runs scenarios against the Python sources below VERIF_REPO.  jdemo.py SCRATCH PLANS.json: exit 0 if every call behaved as it should."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
sys.setswitchinterval(1000)
import harness, world  # noqa: E402

world.warm()
bad = 0
for plan in json.load(open(sys.argv[2])):
    seeds = plan.pop("seeds", [1])
    for sd in seeds:
        p = json.loads(json.dumps(plan))
        if len(seeds) > 1:
            p["sched"] = dict(p["sched"], seed=sd)
        r = harness.run_plan(p, os.path.join(sys.argv[1], "j"))
        if r["error"]:
            print(r["error"])
            sys.exit(99)
        for v in r["violations"]:
            print(v["cls"], v["msg"])
            bad = 1
        if bad:
            sys.exit(1)
