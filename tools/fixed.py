#!/usr/bin/env python3
"""Records the fix commits of /repo in known_findings.json ("fixed": informative only, suppresses nothing)."""
import json, subprocess
P = {"number of positions of empty": "C04", "at the borders of a correlation": "C18", "variable-dimension rasters against": "C02", "domain of a variable": "C02", "moved and assigned AlignedBuffers": "C13", "sections of variable": "C03", "empty box": "C05",
 "own its region": "C05", "infinite vectors": "C09", "subrasters of mutable": "C08", "unary plus": "C10", "positions of a ball": "C07", "scalar operand": "C10", "container from a scalar": "C10",
 "element-wise min": "C11", "linspace": "C12", "interpolation of quantiles": "C14", "last bound of the histogram": "C14", "sums, mean": "C14", "absolute deviations": "C14",
 "last sample": "C15", "indirection of samplings": "C15", "by an index": "C15", "position samplings": "C15", "floor of negative": "C17", "weights of the linear interpolation": "C17",
 "nearest neighbor of": "C17", "kernel window at": "C18", "do not fit": "C18", "segment of given size": "C19", "crop Kernel1d": "C19", "crop LineKernel": "C19", "line kernels from windows": "C19",
 "window and components": "C20", "compose separable": "C20", "first element when": "C20", "median of an even": "C21", "whole raster by default": "C21", "centered line kernel": "C19", "Laplacian": "C20",
 "FFTW plan": "C23", "half limits": "C26", "NullPtrError": "C27", "name and value": "C27", "FITS": "C28"}
P["not a power of two"] = "C13"
P["clamped inside a box"] = "C04"
P["matrices"] = "C31"
P["flags do not take"] = "C30"
P["copies of ProgramOptions"] = "C30"
P["does not overlap the line"] = "C19"
P["averaging the two middle"] = "C21"
P["just below the middle"] = "C17"
P["variance of values"] = "C14"
P["standard deviation of increments"] = "C25"
P["variable dimension balls"] = "C07"
P["by which a box is shifted"] = "C04"
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    ids = [v for k, v in list(P.items()) if k in s]
    assert ids, s
    out.append(f"fixed: property={ids[0]} {h} {s}")
k = json.load(open("/verif/known_findings.json"))
k["fixed"] = out
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
print(len(out))
