#!/usr/bin/env python3
"""Re-runs a recorded counterexample against the real code: replay.py PATH (a file of evidence/replays)."""
import os, re, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
text = open(sys.argv[1]).read()
src = os.path.join(check.V, re.search(r"^harness (.*)$", text, re.M).group(1))
entry = re.search(r"^entry (\S+)$", text, re.M).group(1)
m = re.search(r"^reproduced on: (.*) \(heap fill (.*)\) exit", text, re.M)
fill = None if m.group(2) == "None" else int(m.group(2))
asan = m.group(1).startswith("address")
inputs = [l.split(" ") for l in text.split("--- inputs\n")[1].split("--- output")[0].splitlines() if l]
l = re.search(r"//\s*VF-LIBS:(.*)", open(src).read())
tmp = tempfile.mkdtemp(prefix="vf_replay_")
try:
    exe = os.path.join(tmp, "replay")
    rc, o = check.compile_native(src, exe, asan, [], l.group(1).split() if l else [])
    if rc: print(o); sys.exit(2)
    rc, o = check.native_run(exe, entry, inputs, tmp, "r", fill)
    print(re.search(r"^violation .*$", text, re.M).group(0)); print(o); print("exit", rc)
    sys.exit(1 if rc not in (0, 77, 78, 79) else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
