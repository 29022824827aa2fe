"""Writes MANIFEST.json and known_findings.txt from the tables below."""
import json, os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
import catalog
VG = "static value-graph (gated SSA) normal-form comparison of every observable output with its required definition"
TECH = getattr(catalog, "TECHNIQUE", {})
NOTE = ("Decided from the resolved syntax tree of the current source, without executing it: for every listed unit the value of each observable output "
        "on all paths is normalised and must be the value the property requires. A difference is reported as a violation only where the normal form is "
        "complete (structure kept, or difference inside linear arithmetic, comparisons, selection and stores); otherwise the unit is reported as undecided "
        "and the check stays quiet. Trusts: exact arithmetic, the standard library, the reviewed reference in spec/src, no overlap between distinct parameters.")
NA = {
 "P33": "Quantifies over measured solution quality on benchmark instances; no bound on the optimality gap of a heuristic follows from the source.",
 "P34": "Quantifies over accumulated rounding of run-time values; no sound static bound is in reach for data-dependent sums of unbounded length.",
 "P35": "Termination of the refinement loop depends on the numerical progress of bounds and costs (random fixing, rounding); no ranking function exists in the source. The statically bounded loops are decided under P07, P17 and P31.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in catalog.CHECKS:
        NA.setdefault(p, "No check yet.")
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                       technique=TECH.get(p, VG), level="other", level_note=catalog.NOTE.get(p, NOTE) if hasattr(catalog, "NOTE") else NOTE))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items()) if p in ids and p not in catalog.CHECKS],
         notes="No hooks in /repo. Defects repaired in /repo by fix: commits are listed in known_findings.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
