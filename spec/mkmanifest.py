#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks (bin/vt list)."""
import json, subprocess, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
impl = {}
for l in subprocess.check_output(["bin/vt", "list"], text=True).splitlines():
    i, fam = l.split("\t", 1)
    impl[i] = fam
NA = {
 "C90": "Convergence is a limit statement about random sums; no static argument in reach bounds the integration error of the rendered image.",
 "C91": "Quantifies over accumulated floating-point rounding for every scene scale; the analyses here reason in exact arithmetic and cannot bound it.",
 "C92": "The bisection's correctness depends on an arbitrary user-supplied height function and run-time tolerances; no static bound exists.",
 "C93": "Running time and memory use are run-time quantities that depend on the scene; not decidable from the source.",
}
NOTE = ("Decides the property on the current source by a static value-flow / effect analysis of the type-checked SSA form, for all inputs within the "
        "stated structure; exact real arithmetic instead of rounding, and the Go compiler, go/types, go/ssa and the analyser itself are trusted.")
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in impl:
        checks.append({"property": p, "quick_cmd": "bash run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": impl[p], "level": "other", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "No static check for it has been built (yet).")})
json.dump({"version": 1, "setup_cmd": "bash run.sh --build", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
