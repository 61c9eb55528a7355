"""run_seeds.py [ID-PREFIX...]: applies each planted bug to a scratch copy of /repo and runs its property's check there."""
import json, os, shutil, subprocess, sys, tempfile
from seed import ENV
root = "/verif/seeded"
for i in sorted(os.listdir(root)):
    if sys.argv[1:] and not any(i.startswith(p) for p in sys.argv[1:]):
        continue
    prop = json.load(open(f"{root}/{i}/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="rs.", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        a = subprocess.run(["git", "apply", f"{root}/{i}/patch.diff"], cwd=w + "/repo", capture_output=True, text=True)
        if a.returncode:
            print(i, prop, "DOES NOT APPLY", a.stderr[:200], flush=True); continue
        res = []
        for s in os.environ.get("SEEDS", "1").split():
            c = subprocess.run(["/verif/check.sh", prop], cwd="/verif", env=dict(ENV, VERIF_REPO=w + "/repo", VERIF_SEED=s, VERIF_TIER="quick"), capture_output=True, text=True)
            res.append("caught" if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout else "MISSED(%d)" % c.returncode)
        print(i, prop, *res, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
