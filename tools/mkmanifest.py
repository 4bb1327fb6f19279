"""writes MANIFEST.json from the harness files that exist"""
import json, os
R = "/verif"
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
notes = json.load(open(R + "/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/%s.py" % (R, i.lower())):
        checks.append(dict(
            property=i,
            quick_cmd="VERIF_TIER=quick python3-vt lib/runner.py %s" % i,
            thorough_cmd="VERIF_TIER=thorough python3-vt lib/runner.py %s" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the repository's Python source (own engine, symbolic numpy) with z3 deciding every path and obligation; counterexamples replayed on the real code",
            level="model_checking",
            level_note=notes.get(i, "bounded: holds for every value within the bounds of harness/%s.py (BOUNDS); exact real arithmetic" % i.lower())))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3-vt -c \"import z3, numpy\" && /opt/venv/bin/python -c \"import numpy, scipy\"",
         checks=checks, not_applicable=na,
         notes="Solver-based checking of the real code; see DESIGN.md. Known findings and repaired defects: known_findings.json.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
