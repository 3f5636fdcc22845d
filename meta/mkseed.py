#!/usr/bin/env python3
"""Writes the planted bugs (seeded/<id>/) from the definitions in seeds.py.  mkseed.py [ID...]"""
import importlib.util, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from seeds import SEEDS
REPO = "/repo"
want = sys.argv[1:]
for s in SEEDS:
    if want and s["id"] not in want:
        continue
    d = os.path.join(root, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = ""
    byfile = {}
    for f, old, new in s["edits"]:
        t = byfile.get(f) or open(os.path.join(REPO, f)).read()
        nth = 0
        if isinstance(old, tuple):
            old, nth = old
        n = t.count(old)
        if n <= nth or (n > 1 and nth == 0 and not s.get("first")):
            sys.exit("%s: %d matches of %r in %s" % (s["id"], n, old, f))
        p = -1
        for _ in range(nth + 1):
            p = t.index(old, p + 1)
        byfile[f] = t[:p] + new + t[p + len(old):]
    for f, t in byfile.items():
        tmp = "/tmp/mkseed.new"
        open(tmp, "w").write(t)
        r = subprocess.run(["git", "-C", REPO, "diff", "--no-index", "--", f, tmp], stdout=subprocess.PIPE, text=True)
        x = r.stdout.replace("b" + tmp, "b/" + f).replace("a" + tmp, "a/" + f)
        diff += x
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for name, text in s["files"].items():
        open(os.path.join(d, name), "w").write(text)
    for name in s.get("libs", []):
        shutil.copy(os.path.join(root if "/" in name else os.path.join(here, "seedlib"), name), d)
    open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "meta.json"), "a").write("\n")
    r = subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")])
    print(s["id"], "ok" if r.returncode == 0 else "DOES NOT APPLY")
