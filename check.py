#!/usr/bin/env python3
"""Runs the symbolic checks of one property (or several) against /repo's current working tree.

usage: check.py ID [--tier quick|thorough] [--only ENTRY] [--keep]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (error of the check).
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, glob
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
MODS = ["LitlTypes", "LitlContainer", "LitlRaster", "LitlTransforms", "LitlRun", "LitlIo"]
CLANG = "clang++-18"
GXX = shutil.which("g++-9") or "g++"
NPROC = os.cpu_count() or 4
GRACE = 120  # seconds given to the other cases once one has a counterexample


def sh(cmd, timeout=None, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace")


def shadow(tmp):
    """Copies the headers with the purely syntactic rewrites clang needs (see DESIGN.md)."""
    root = os.path.join(tmp, "inc")
    for m in MODS:
        src = os.path.join(REPO, m, m)
        dst = os.path.join(root, m, m)
        shutil.copytree(src, dst)
        lib = os.path.join(REPO, m, "src", "lib")
        if os.path.isdir(lib): shutil.copytree(lib, os.path.join(root, m, "src", "lib"))
        for d, _, fs in os.walk(dst):
            for f in fs:
                p = os.path.join(d, f)
                s = open(p, errors="surrogateescape").read()
                n = re.sub(r"\bconst\s+decltype\(auto\)", "decltype(auto)", s)
                if n != s:
                    open(p, "w", errors="surrogateescape").write(n)
    os.makedirs(os.path.join(root, "shim"))
    va = "/usr/include/c++/9/valarray"
    if os.path.exists(va):
        s = open(va).read()
        s = re.sub(r"^(    (?:begin|end)\(.*valarray<_Tp>& __va\)) noexcept", r"\1", s, flags=re.M)
        open(os.path.join(root, "shim", "valarray"), "w").write(s)
    return root


IRFLAGS = ["-std=c++14", "--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/9", "-O1", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-unroll-loops", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-threadsafe-statics", "-gline-tables-only",
           "-DNDEBUG", "-Wno-everything", "-Wno-c++11-narrowing"]


def incs(root):
    r = ["-I" + os.path.join(V, "harness")]
    r += ["-I" + os.path.join(root, m) for m in MODS]
    return r + ["-I" + root, "-I/usr/include/eigen3"]  # the root gives access to the compiled sources, e.g. LitlRun/src/lib/X.cpp


def compile_ir(src, root, out, defs, stub):
    return sh([CLANG] + IRFLAGS + defs + stub + ["-isystem", os.path.join(root, "shim")] + ["-I" + os.path.join(root, "shim")] + incs(root) + ["-c", "-emit-llvm", src, "-o", out], 300)


def compile_native(src, out, asan, defs, libs):
    fl = ["-std=c++14", "-DNDEBUG", "-w", "-g1", "-DVF_NATIVE"] + defs
    fl += ["-O1", "-fsanitize=address", "-DVF_ASAN", "-fno-omit-frame-pointer"] if asan else ["-O2"]
    return sh([GXX] + fl + incs(REPO) + [src, os.path.join(V, "rt", "rt_native.cpp"), "-o", out, "-rdynamic", "-ldl"] + libs, 400)


def native_run(exe, entry, inputs, tmp, tag, fill=None, timeout=20):
    inf = os.path.join(tmp, "in_" + tag)
    with open(inf, "w") as f:
        for n, v in inputs:
            f.write(f"{n} {v}\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1")
    return sh([exe, entry, inf] + ([str(fill)] if fill is not None else []), timeout, env=env)


def parse_obs(out):
    r = []
    for l in out.splitlines():
        if l.startswith("OBS "):
            p = l.split(" ")
            r.append((" ".join(p[1:-1]), p[-1]))
    return r


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 1
        elif args[i] == "--only": only = args[i + 1]; i += 1
        elif args[i] == "--keep": keep = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf_" + pid + "_")
    try:
        rc = run(pid, tier, seed, only, tmp, t0)
    finally:
        if keep: print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(pid, tier, seed, only, tmp, t0):
    vfx = os.path.join(V, "build", "vfx")
    rtbc = os.path.join(V, "build", "rt.bc")
    if not (os.path.exists(vfx) and os.path.exists(rtbc)):
        rc, o = sh(["bash", os.path.join(V, "setup.sh")])
        if rc: print(o); print("ERROR setup failed"); return 2
    srcs = sorted(glob.glob(os.path.join(V, "harness", pid + "_*.cpp")))
    if not srcs:
        print("ERROR no harness for", pid); return 2
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json"))).get("known", []) if k["property"] == pid]
    root = shadow(tmp)
    defs = ["-DVF_THOROUGH=1"] if tier == "thorough" else []
    budget = 1500 if tier == "thorough" else 240
    ex = ThreadPoolExecutor(NPROC)
    errors, jobs = [], []
    nat = {}
    meta = {}
    # 1. lower the real code (with the harness) to IR, and build the native replay executables
    for s in srcs:
        text = open(s).read()
        m = re.search(r"//\s*VF-LIBS:(.*)", text)
        opts = dict(re.findall(r"//\s*VF-OPT:\s*(\S+)=(\S+)", text))
        libs = m.group(1).split() if m else []
        b = os.path.basename(s)[:-4]
        entries = re.findall(r"^VF_CASE\((\w+)\)", text, re.M)
        if tier != "thorough":
            entries = [e for e in entries if not e.endswith("_thorough")]
        meta[b] = dict(src=s, libs=libs, entries=entries, opts=opts)
        # libraries without sources are replaced by models for the symbolic run only: the native build is linked with the real ones
        stub = ["-I" + os.path.join(V, "harness", m) for m in re.findall(r"^// VF-MODEL: (\S+)", text, re.M)]
        meta[b]["ir"] = ex.submit(compile_ir, s, root, os.path.join(tmp, b + ".bc"), defs, stub)
    for b, m in meta.items():
        m["nat"] = ex.submit(compile_native, m["src"], os.path.join(tmp, b + ".nat"), False, defs, m["libs"])
    results = {}
    running, stopping = {}, []

    def one(b, e):
        m = meta[b]
        rc, o = m["ir"].result()
        if rc: return b, e, None, "lowering failed:\n" + o[-3000:]
        outf = os.path.join(tmp, f"{b}.{e}.json")
        cmd = [vfx, os.path.join(tmp, b + ".bc"), rtbc, "--entry", "vf_main_" + e, "--out", outf, "--seed", str(seed),
               "--max-sec", m["opts"].get("max-sec", str(budget))]
        if "max-instr" in m["opts"]: cmd += ["--max-instr", m["opts"]["max-instr"]]
        if stopping: return b, e, None, "stopped"
        p = running[(b, e)] = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try: o = p.communicate(timeout=budget + 400)[0].decode(errors="replace")
        except subprocess.TimeoutExpired: p.kill(); o = p.communicate()[0].decode(errors="replace")
        rc = p.returncode
        if stopping and rc < 0: return b, e, None, "stopped"
        if rc != 0 or not os.path.exists(outf): return b, e, None, f"engine rc={rc}: " + o[-2000:]
        try: return b, e, json.load(open(outf)), o
        except Exception as x: return b, e, None, "bad engine output " + str(x)

    futs = []
    ex2 = ThreadPoolExecutor(NPROC)
    for b, m in meta.items():
        for e in m["entries"]:
            if only and e != only: continue
            futs.append(ex2.submit(one, b, e))
    timer, stopped = None, []

    def stop():  # there is a counterexample: do not wait for the slowest cases (their solver queries may be hard on broken code)
        stopping.append(True)
        for p in list(running.values()):
            if p.poll() is None: p.kill()

    for f in as_completed(futs):
        b, e, r, msg = f.result()
        if r is None and msg == "stopped": stopped.append(f"{b}/{e}")
        elif r is None: errors.append(f"{b}/{e}: {msg}")
        else:
            results[(b, e)] = r
            if timer is None and any(not [x for x in known if x["entry"] == e and x["label"] == v["label"]] for v in r["violations"]):
                timer = threading.Timer(GRACE, stop); timer.daemon = True; timer.start()
    if timer: timer.cancel()
    # 2. verdicts
    viol_lines, known_lines = [], []
    validated = 0
    val_mismatch = []
    repdir = os.path.join(V, "evidence", "replays")
    os.makedirs(repdir, exist_ok=True)
    for f in glob.glob(os.path.join(repdir, pid + "_*")): os.remove(f)
    for b, m in meta.items():
        rc, o = m["nat"].result()
        if rc: errors.append(f"{b}: native build failed\n" + o[-3000:]); continue
        exe = os.path.join(tmp, b + ".nat")
        asan_exe = None
        # 2a. conformance of the symbolic run: replay witness models on the real build
        wj = []
        for (bb, e), r in results.items():
            if bb != b: continue
            for k, w in enumerate(r["witnesses"]):
                wj.append((e, k, w, ex.submit(native_run, exe, "vf_main_" + e, w["inputs"], tmp, f"{b}_{e}_w{k}", 165, 60)))
        for e, k, w, fu in wj:
            rc, o = fu.result()
            ob = parse_obs(o)
            exp = [tuple(x) for x in w["obs"]]
            # observations depending on uninitialised memory are left out by the engine: compare as a subsequence
            it = iter(ob)
            okobs = all(any(x == y for y in it) for x in exp)
            if rc == 0 and okobs: validated += 1
            else: val_mismatch.append((b, e, rc, o, w))
        # 2b. replay counterexamples
        for (bb, e), r in results.items():
            if bb != b: continue
            done = 0
            for k, v in enumerate(r["violations"]):
                attempts = []
                hit = None
                for fill in (None, 0, 165, 127, 255):
                    rc, o = native_run(exe, "vf_main_" + e, v["inputs"], tmp, f"{b}_{e}_v{k}", fill)
                    attempts.append((fill, rc, o[-300:]))
                    if rc not in (0, 77, 78, 79): hit = ("release build", fill, rc, o); break
                if not hit and v["kind"] in ("memory", "assert", "exception", "unreachable", "arithmetic", "trap", "terminate", "abort"):
                    if asan_exe is None:
                        asan_exe = os.path.join(tmp, b + ".asan")
                        rc, o = compile_native(m["src"], asan_exe, True, defs, m["libs"])
                        if rc: errors.append(f"{b}: asan build failed\n" + o[-2000:]); asan_exe = ""
                    if asan_exe:
                        rc, o = native_run(asan_exe, "vf_main_" + e, v["inputs"], tmp, f"{b}_{e}_v{k}", None)
                        attempts.append(("asan", rc, o[-600:]))
                        if rc not in (0, 77, 78, 79): hit = ("address-sanitizer build", None, rc, o)
                desc = f"{v['kind']}: {v['label']}" + (f" [{v['detail']}]" if v["detail"] else "") + f" at {v['loc'][:600]} with " + ", ".join(f"{n}={x}" for n, x in v["inputs"])
                kf = [x for x in known if x["entry"] == e and x["label"] == v["label"]]
                if hit:
                    if kf:
                        known_lines.append(f"KNOWN-FINDING: property={pid} {kf[0]['what']}")
                        continue
                    path = os.path.join(repdir, f"{pid}_{b}_{e}_{k}.txt")
                    with open(path, "w") as f:
                        f.write(f"property {pid}\nharness {os.path.relpath(m['src'], V)}\nentry vf_main_{e}\nviolation {desc}\nreproduced on: {hit[0]} (heap fill {hit[1]}) exit {hit[2]}\n--- inputs\n")
                        for n, x in v["inputs"]: f.write(f"{n} {x}\n")
                        f.write("--- output of the replay on the real code\n" + hit[3][-4000:] + "\n--- re-run: python3 /verif/replay.py " + path + "\n")
                    viol_lines.append(f"VIOLATION property={pid} replay={path}")
                    print(f"[{b}/{e}] {desc}")
                else:
                    errors.append(f"{b}/{e}: solver counterexample not reproduced on the real code ({'unconfirmed' if v['unconfirmed'] else 'confirmed model'}): {desc}\n    attempts: {attempts}")
    for b, e, rc, o, w in val_mismatch:
        # a witness of a path on which the symbolic run saw no violation must pass natively, with the same observations
        if not any(v for (bb, ee), r in results.items() if bb == b and ee == e for v in r["violations"]):
            errors.append(f"{b}/{e}: native run disagrees with the symbolic run (rc={rc}) on {w['inputs']}\n expected {w['obs']}\n got {o[-1500:]}")
    for (b, e), r in sorted(results.items()):
        if r["status"] not in ("complete", "stopped-at-violation"): errors.append(f"{b}/{e}: {r['status']}")
        if r["inconclusive"]: errors.append(f"{b}/{e}: {r['inconclusive']}")
        if r["status"] == "complete" and "end" not in r["reached"] and not r["violations"]: errors.append(f"{b}/{e}: vacuous (end never reached)")
    if stopped and not viol_lines: errors.append("stopped after counterexamples which are not reported: " + ", ".join(stopped))
    # 3. evidence
    fns, per, asserts = {}, [], 0
    tot = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, mem_checks=0)
    ms = 0.0
    samples = []
    lines = set()
    for (b, e), r in sorted(results.items()):
        for k in tot: tot[k] += r[k]
        ms += r["solver_ms"]
        for f in r["functions"]:
            p = f.split("|"); fns.setdefault(p[0], set()).add(p[1])
        lines.update(r["lines"])
        na = sum(x[0] for x in r["asserts"].values())
        asserts += na
        per.append(dict(case=f"{b}/{e}", status=r["status"], paths=r["paths"], queries=r["queries"], assertions_discharged=na,
                        assertions_by_rewriting=sum(x[1] for x in r["asserts"].values()), instructions=r["instructions"],
                        bounds={k: x for k, x in r["symbols"].items()}, solver_s=round(r["solver_ms"] / 1000, 3), wall_s=round(r["wall_s"], 2)))
        if r["witnesses"] and len(samples) < 12: samples.append(dict(case=f"{b}/{e}", inputs=r["witnesses"][-1]["inputs"], observed=r["witnesses"][-1]["obs"][:6]))
    nviol = len(viol_lines)
    note = "\n".join(re.findall(r"^// NOTE: (.*)$", "\n".join(open(m["src"]).read() for m in meta.values()), re.M))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=nviol,
              coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["instructions"], traces_validated_against_impl=validated, samples=samples or ["none"],
                            explanation="states: symbolic execution states (paths + forks); transitions: LLVM instructions executed symbolically; every assertion and every memory access is decided for all values of the symbolic inputs of its path",
                            symbolic_paths=tot["paths"], solver_queries=tot["queries"], queries_unsat=tot["unsat"], queries_sat=tot["sat"], queries_unknown=tot["unknown"], query_cache_hits=tot["cache_hits"],
                            solver_time_s=round(ms / 1000, 3), assertions_discharged=asserts, memory_accesses_checked=tot["mem_checks"],
                            functions_encoded={k: sorted(x) for k, x in sorted(fns.items())}, source_lines_encoded=len(lines), cases=per, outside_the_bounds=note, known_findings=known_lines, errors=errors[:20]),
              assumptions=["clang 18's -O1 lowering of the headers to LLVM IR is faithful (checked on sampled models against the g++-9 -O2 build: traces_validated_against_impl)",
                           "allocation never fails below 4 GiB", "libstdc++ shared-library functions behave as modelled in rt/rt_sym.cpp and engine/exec.cpp",
                           "floating point: exact within the dyadic bounds, libm and inexact operations as uninterpreted functions"])
    if not only:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if os.environ.get("VF_COVER"):
        json.dump(sorted(lines), open(os.environ["VF_COVER"] + "." + pid, "w"))
    print(f"{pid} {tier}: {len(results)} cases, {tot['paths']} paths, {tot['queries']} queries ({tot['unsat']} unsat, {tot['sat']} sat, {tot['unknown']} unknown) in {ms/1000:.1f}s solver, {asserts} assertions, {validated} models replayed, {time.time()-t0:.1f}s")
    if os.environ.get("VF_VERBOSE"):
        for p in per: print("   ", p["case"], p["status"], "paths", p["paths"], "q", p["queries"], "asserts", p["assertions_discharged"], "instr", p["instructions"], "t", p["wall_s"])
    for l in sorted(set(known_lines)): print(l)
    if viol_lines:
        for l in viol_lines[:5]: print(l)
        return 1
    if errors:
        seen = set(); errors = [x for x in errors if x.split(': ', 1)[-1][:300] not in seen and not seen.add(x.split(': ', 1)[-1][:300])]
        for l in errors[:6]: print("NO-VERDICT", l[:1500])
        if len(errors) > 6: print("NO-VERDICT", len(errors) - 6, "more")
        return 2
    return 0


if __name__ == "__main__":
    main()
