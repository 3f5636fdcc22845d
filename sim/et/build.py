#!/usr/bin/env python3
"""Generates and compiles the accelerator functions: build.py GEN SPECS OUTDIR CXX REPO STUBS -> OUTDIR/libetfns.a
A function that cannot be generated or compiled gets an entry that says so (the harness reports it)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
gen, specs, out, cxx, repo, stubs = sys.argv[1:7]
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
subprocess.run([gen, out, specs], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
S = json.load(open(specs))
try:
    F = {f["name"]: f for f in json.load(open(out + "/fns.json"))}
except Exception:
    F = {}
inc = ["-I" + stubs, "-I" + repo + "/targets/et/rt/include", "-I" + repo + "/rtl/include", "-I" + repo + "/arg-capture-io/include", "-I" + out]
def cc(src, obj, *flags):
    r = subprocess.run([cxx, "-c", "-std=c++20", "-O1", "-fPIC", "-w", "-fno-strict-aliasing", "-gline-tables-only", *flags, *inc, src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.stdout.strip() if r.returncode else ""
def one(s):
    n = s["name"]
    f = F.get(n, {"error": "the generator ended early", "kernels": [], "order": []})
    if f["error"]:
        return n, f, []
    objs = [out + "/" + n + ".o"]
    T = {"i": "int64_t", "f": "float", "F": "float*", "D": "double*"}
    ty = {a[0]: a[1] for a in s["args"]}
    args = ", ".join("*(%s*)p[%d]" % (T[ty[a]], [x[0] for x in s["args"]].index(a)) if ty[a] in "if" else "(%s)p[%d]" % (T[ty[a]], [x[0] for x in s["args"]].index(a)) for a in f["order"])
    open(out + "/" + n + "_w.cpp", "w").write('#include <cmath>\n#include "%s.cpp"\nvoid et_call_%s(void** p) { %s(%s); }\n' % (n, n, n, args))
    e = cc(out + "/" + n + "_w.cpp", objs[0])
    for k in f["kernels"]:
        o = out + "/" + k + ".k.o"
        e = e or cc(out + "/" + k + ".et.cpp", o, "-Dentry_point=et_entry_" + k)
        objs.append(o)
    if e:
        f = dict(f, error="does not compile: " + e[:600])
        return n, f, []
    return n, f, objs
with ThreadPoolExecutor(8) as ex:
    R = list(ex.map(one, S))
t = ['#include <cstdint>', '#include "%s"' % os.path.join(os.path.dirname(os.path.abspath(__file__)), "table.h")]
objs = []
rows, krows = [], []
for (n, f, o), s in zip(R, S):
    objs += o
    spec = 'R"SPEC(' + json.dumps(s) + ')SPEC"'
    ok = not f["error"]
    if ok:
        t.append("void et_call_%s(void**);" % n)
        for k in f["kernels"]:
            t.append('extern "C" int64_t et_entry_%s(const void*);' % k)
            krows.append('{"%s", et_entry_%s, "%s"}' % (k, k, n))
    rows.append('{"%s", %s, %s, %s, %d}' % (n, spec, "et_call_" + n if ok else "nullptr", json.dumps(f["error"]), len(f["kernels"])))
t.append("const EtFn et_fns[] = {%s};\nconst int et_fn_n = %d;" % (",\n".join(rows), len(rows)))
t.append("const EtKernel et_kernels[] = {%s};\nconst int et_kernel_n = %d;" % (",\n".join(krows + ['{nullptr, nullptr, nullptr}']), len(krows)))
open(out + "/table.cpp", "w").write("\n".join(t) + "\n")
e = cc(out + "/table.cpp", out + "/table.o")
if e:
    sys.exit(e)
lib = out + "/libetfns.a"
subprocess.run(["ar", "rcs", lib, out + "/table.o"] + objs, check=True)
for n, f, o in R:
    if f["error"]:
        print("et:", n, f["error"])
