"""Plants a bug: seed(id, property, [(file, old, new)...], demo, needs, breaks).

Works in a scratch copy of /repo: the edited tree must build and pass the stable
tests, the demonstration must pass without the change and fail with it.  The
change is kept under /verif/seeded/<id>, and the property's check is run on the
scratch copy.
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
ENV = dict(os.environ, HOME="/root", PATH="/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOFLAGS="-mod=mod",
           GOPROXY="off", GO111MODULE="on", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
HEAD = """#!/bin/bash
# exit 0: the property holds; exit 1: it does not
OCT="$PWD/oct"; [ -x "$OCT" ] || exit 3
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 3
fail() { echo "FAIL: $*"; exit 1; }
"""

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=kw.pop("env", ENV), capture_output=True, text=True, timeout=900)

def seed(id, prop, edits, demo, needs, breaks, check=True):
    d = "/verif/seeded/" + id
    w = tempfile.mkdtemp(prefix="sd.", dir="/tmp")
    try:
        r = w + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        def build():
            return run(["go", "build", "-o", r + "/oct", "."], r)
        demofile = w + "/demo.sh"
        open(demofile, "w").write(HEAD + textwrap.dedent(demo).lstrip("\n"))
        assert build().returncode == 0
        p = run(["bash", demofile], r)
        if p.returncode != 0:
            print(id, "REJECT: demo fails on the unchanged tree", p.stdout[-1500:], p.stderr[-1500:]); return
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            if s.count(old) != 1:
                print(id, "REJECT: text occurs", s.count(old), "times in", f); return
            open(r + "/" + f, "w").write(s.replace(old, new))
        b = run(["go", "vet", "./..."], r) if False else build()
        if b.returncode != 0:
            print(id, "REJECT: does not build", b.stderr[-800:]); return
        t = run(["go", "test", "-count=1", "-json", "./..."], r)
        passed = {}
        for l in t.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Test") and e.get("Action") in ("pass", "fail"):
                passed[e["Package"] + " " + e["Test"]] = e["Action"]
        failed = [k for k, v in passed.items() if v == "fail"]
        base = json.dumps(json.load(open("/opt/vp/BASELINE.json")))
        bad = [k for k in failed if k.split()[1] in base]
        if bad:
            print(id, "REJECT: stable tests fail", bad); return
        p = run(["bash", demofile], r)
        if p.returncode == 0:
            print(id, "REJECT: demo passes with the change"); return
        os.makedirs(d, exist_ok=True)
        diff = run(["git", "diff"], r).stdout
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(demofile, d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        if check:
            res = []
            for s in ("1", "2"):
                c = run(["/verif/check.sh", prop], "/verif", env=dict(ENV, VERIF_REPO=r, VERIF_SEED=s, VERIF_TIER="quick"))
                res.append("caught" if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout else "MISSED(%d)" % c.returncode)
            print(id, prop, *res, "| demo:", (p.stdout.strip().splitlines() or ["?"])[-1][:150])
        else:
            print(id, prop, "kept")
    finally:
        shutil.rmtree(w, ignore_errors=True)
