"""writes DESIGN.md: fixed text + per-property bounds taken from the harnesses + planted bugs table"""
import json, os, sys
R = "/verif"
sys.path[:0] = [R + "/lib", R + "/harness"]
import importlib
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
seeds = json.load(open(R + "/tools/seed_results.json"))
txt = open(R + "/tools/design_head.md").read()
how = json.load(open(R + "/tools/design_how.json"))
sec = []
for p in props:
    i = p["id"]
    m = importlib.import_module(i.lower())
    names = []
    for c in m.CASES:
        n = c["fn"].__name__
        if n not in names:
            names.append(n)
    sec.append("### %s %s\n\n*Decided by* %s\n\n*Case families*: %s (%d cases).\n\n*Bounds*: %s.\n\n*Outside*: %s.\n" % (
        i, p["title"], how[i], ", ".join(names), len(m.CASES), m.BOUNDS.rstrip("."), m.OUTSIDE.rstrip(".")))
rows = ["| planted change | property | what it needs | caught (quick), first failing case |", "|---|---|---|---|"]
for s in sorted(os.listdir(R + "/seeded")):
    meta = json.load(open("%s/seeded/%s/meta.json" % (R, s)))
    r = seeds.get(s, {})
    rows.append("| %s | %s | %s | %s |" % (s, meta["property"], meta["needs"].replace("|", "/"),
                                        ("yes: " + r["first"]) if r.get("caught") else ("not run" if not r else "no")))
kf = json.load(open(R + "/known_findings.json"))
fx = "\n".join("- " + x.replace("fixed: ", "") for x in kf["fixed"])
txt = txt.replace("@@PROPERTIES@@", "\n".join(sec)).replace("@@SEEDS@@", "\n".join(rows)).replace("@@FIXED@@", fx).replace("@@REFACTOR@@", open(R + "/tools/design_refactor.md").read().strip())
open(R + "/DESIGN.md", "w").write(txt)
print(len(txt))
