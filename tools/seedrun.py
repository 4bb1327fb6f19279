"""Run the property's check against each planted bug of /verif/seeded in a private copy of /repo.

    python3 tools/seedrun.py [ids...]      -> tools/seed_results.json
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
R = "/verif"
OUT = R + "/tools/seed_results.json"
ids = sys.argv[1:] or sorted(os.listdir(R + "/seeded"))


def one(s):
    p = json.load(open("%s/seeded/%s/meta.json" % (R, s)))["property"]
    d = "/tmp/seedrun_" + s
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        subprocess.run(["git", "-C", d, "apply", "%s/seeded/%s/patch.diff" % (R, s)], check=True)
        e = dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_EVID="/tmp/seedrun_ev")
        r = subprocess.run(["python3-vt", "lib/runner.py", p], cwd=R, env=e, capture_output=True, text=True, timeout=900)
        o = r.stdout + r.stderr
        first = next((l.strip() for l in o.splitlines() if l.startswith("  case")), "")
        return s, p, r.returncode, o.count("VIOLATION property="), first[:160], o.count("UNDECIDED")
    except subprocess.TimeoutExpired:
        return s, p, 124, 0, "timeout", 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


res = json.load(open(OUT)) if os.path.exists(OUT) else {}
with ThreadPoolExecutor(3) as ex:
    for s, p, rc, n, first, und in ex.map(one, ids):
        print(s, p, "rc=%d" % rc, n, first, und, flush=True)
        res[s] = dict(property=p, caught=rc == 1, first=first.split(":")[0].replace("case ", ""))
for s in list(res):
    if not os.path.isdir("%s/seeded/%s" % (R, s)):
        del res[s]
json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
