#!/usr/bin/env python3
"""Validates planted bugs in a scratch copy of /repo, stores the good ones in /verif/seeded, and runs the check of their property.

usage: seed.py SPECS.py [ID...]    where SPECS.py calls bug(id, property, [(file, old, new[, count])], demo, needs, breaks[, ldflags])
       seed.py --recheck [ID...]   runs the checks against the stored bugs again
"""
import json, os, re, shutil, subprocess, sys
S = os.environ.get("VF_SCRATCH", "/tmp/seedscratch")
BUGS = []
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Exits 0 if the behaviour is right.  Run with the working directory at the root of the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
g++-9 -std=c++14 -O1 -DNDEBUG -w %s $(for m in Types Container Raster Transforms Run Io; do echo -I$PWD/Litl$m; done) -I/usr/include/eigen3 "$d/demo.cpp" %s -o "$t/demo" || exit 3
cd "$t" && timeout 100 ./demo
'''
PRE = '#include <cstdio>\n#include <cstdlib>\n#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("line %d: %s\\n", __LINE__, #__VA_ARGS__); std::exit(1); } } while (0)\n'


def bug(id, prop, edits, demo, needs, breaks, cflags="", libs=""):
    BUGS.append((id, prop, edits, demo, needs, breaks, cflags, libs))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    if not os.path.isdir(S):
        sh(f"git clone -q /repo {S}")
    sh(f"git -C {S} checkout -q -- . && git -C {S} clean -fdxq -e _build; git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD")
    for c in ("build", "test"):
        s = open(f"/opt/vp/{c}.sh").read().replace("/report", "/@report").replace("/repo", S).replace("/@report", "/report").replace("/opt/vp/build.sh", S + "_build.sh")
        open(f"{S}_{c}.sh", "w").write(s)


def check(id, prop, tier="quick"):
    p = sh(f"python3 /verif/check.py {prop} --tier {tier}", env=dict(os.environ, VF_REPO=S))
    v = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "NO-VERDICT", "ERROR"))]
    return p.returncode, v


def report(id, prop, rc, v):
    print(f"{'CAUGHT' if rc == 1 else 'MISSED' if rc == 0 else 'NOVERDICT'} {id} {prop} " + (re.sub(r".*/", "", v[0]) if v else "") + f" ({len(v)})", flush=True)


def one(b):
    id, prop, edits, demo, needs, breaks, cflags, libs = b
    sh(f"git -C {S} checkout -q -- .")
    t = S + "_demo"
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    open(t + "/demo.cpp", "w").write(PRE + demo)
    open(t + "/demo.sh", "w").write(DEMO % (cflags, libs))
    p = sh(f"bash {t}/demo.sh", cwd=S)
    if p.returncode: print("BAD", id, "demo fails on the unchanged tree", p.stdout[-300:], flush=True); return
    for f, a, n, *k in edits:
        s = open(f"{S}/{f}").read()
        if s.count(a) != (k[0] if k else 1): print("BAD", id, "edit", f, s.count(a), a, flush=True); return
        open(f"{S}/{f}", "w").write(s.replace(a, n))
    p = sh(f"bash {t}/demo.sh", cwd=S)
    if p.returncode in (0, 3): print("BAD", id, "demo with the change: exit", p.returncode, p.stdout[-300:], flush=True); return
    p = sh(f"bash {S}_test.sh {S}_o.json")
    o = json.load(open(S + "_o.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if st - set(o["passed"]): print("BAD", id, "tests fail:", list(st - set(o["passed"]))[:5] if o["passed"] else p.stdout[-300:], flush=True); return
    d = f"{OUT}/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh(f"git -C {S} diff").stdout)
    shutil.copy(t + "/demo.cpp", d); shutil.copy(t + "/demo.sh", d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    report(id, prop, *check(id, prop))


if __name__ == "__main__":
    prepare()
    if sys.argv[1] == "--recheck":
        for id in sys.argv[2:] or sorted(os.listdir(OUT)):
            sh(f"git -C {S} checkout -q -- .")
            p = sh(f"git -C {S} apply {OUT}/{id}/patch.diff")
            if p.returncode: print("BAD", id, p.stdout); continue
            prop = json.load(open(f"{OUT}/{id}/meta.json"))["property"]
            report(id, prop, *check(id, prop))
    else:
        exec(open(sys.argv[1]).read(), {"bug": bug})
        for b in BUGS:
            if len(sys.argv) < 3 or b[0] in sys.argv[2:]: one(b)
    sh(f"git -C {S} checkout -q -- .")
