#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present. Run: python3 tools/mkmanifest.py"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}  # property -> why solver-based checking cannot decide it here
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; h = glob.glob(V + "/harness/%s*.cpp" % i)
    if not h: na.append({"property": i, "reason": NA.get(i, "check not built yet")}); continue
    cfg = json.loads(re.search(r"/\*CHECK(.*?)\*/", open(h[0]).read(), re.S).group(1))
    opts = " ".join(e.get("opts", "") for e in cfg["entries"]).replace(",", " ").split()
    real = "round" in opts or "real" in opts
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "technique": "bounded symbolic execution of the compiled LLVM IR of the real sources; assertions decided by z3; counterexamples replayed natively under sanitizers",
        "level": "model_checking",
        "level_note": "Holds for every value within these bounds, nothing is claimed beyond them: " + cfg["bounds"] + (". Some entries reason over reals with rounding-error bounds instead of IEEE bits (counted only when the native replay confirms)." if real else "."),
        "evidence_file": "evidence/%s.json" % i})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh build/symx", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
