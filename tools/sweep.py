"""sweep.py MUTANTS.jsonl OUT.jsonl [N]: runs the checks against small changes (tools/mutate) in scratch copies of /repo;
a line per change: killed (by which check), build (does not compile), tests (the existing tests fail), survived."""
# GOCACHE: a cache of its own that can be thrown away afterwards (SWEEP_GOCACHE)
import json, os, random, shutil, subprocess, sys, tempfile, threading, queue
from seed import ENV
V = "/verif"
MAP = [("format/liquibase/generator", "C09 C10"), ("format/liquibase/diff", "C10 C21"), ("format/liquibase/cli", "C09 C25 C20"),
  ("format/jpa/cli", "C13 C25 C20"), ("format/jpa", "C13"), ("format/sqlalchemy/cli", "C14 C25 C20"), ("format/sqlalchemy", "C14"), ("format/diff/diff", "C11 C24 C21"),
  ("format/diff/markdown", "C11"), ("format/diff/changeset", "C11 C24"), ("format/diff/cli", "C11 C24 C10 C25 C20"), ("format/diff", "C24"),
  ("format/mysql/exporter", "C02 C24 C04"), ("format/mysql/importer", "C03 C04"), ("format/mysql/cli", "C02 C03 C25 C23"), ("format/gorm/cli", "C12 C25 C20"), ("format/gorm", "C12"),
  ("format/xlsx/exporter", "C05"), ("format/xlsx/importer", "C06 C05"), ("format/xlsx", "C05 C06 C25 C23"), ("format/ojson", "C07 C23 C25"), ("format/octopus", "C01 C02 C05 C12 C13 C16 C11 C20 C23"),
  ("format/dbml", "C17 C20 C25"), ("format/protobuf/cli", "C15 C25 C20"), ("format/protobuf", "C15"), ("format/graphql", "C16 C25"), ("format/plantuml", "C18 C25"), ("format/quickdbd", "C19 C25"),
  ("format/staruml", "C08 C25 C23"), ("format/common/annotation", "C13"), ("format/common/prefix", "C12 C13 C15"), ("format/common", "C25 C12 C15"),
  ("main.go", "C25 C23"), ("util/io", "C23 C22"), ("util", "C01 C12 C13 C14 C15 C16 C11 C10 C08 C06 C03")]
LAST = "C22 C23 C21 C20 C25".split()
def props(f):
    for p, l in MAP:
        if f.startswith(p):
            l = l.split()
            return l + [x for x in LAST if x not in l]
    return LAST
def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, GOCACHE=os.environ.get('SWEEP_GOCACHE', ENV['GOCACHE']), **(env or {})), capture_output=True, text=True, timeout=timeout)
muts = [json.loads(l) for l in open(sys.argv[1])]
done = set()
if os.path.exists(sys.argv[2]):
    for l in open(sys.argv[2]):
        m = json.loads(l); done.add((m["file"], m["from"], m["to"], m["repl"]))
random.Random(7).shuffle(muts)
q = queue.Queue()
for m in muts:
    if (m["file"], m["from"], m["to"], m["repl"]) not in done:
        q.put(m)
FULL = bool(os.environ.get("SWEEP_FULL"))  # all related checks and the existing tests, not only the first check
COUNTS = os.environ.get("SWEEP_COUNTS", "600,4000,2500").split(",")  # first check, other related checks, the rest
lock = threading.Lock()
out = open(sys.argv[2], "a")
def work(k):
    w = tempfile.mkdtemp(prefix="mw.", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        v = w + "/verif"; os.mkdir(v)
        for d in ("findings", "regress"):
            shutil.copytree(f"{V}/{d}", f"{v}/{d}")
        shutil.copy(f"{V}/known_findings.txt", v)
        shutil.copy(f"{V}/harness/sa_runner.py", v) ; shutil.copytree(f"{V}/harness", v + "/harness")
        sh(["go", "build", "-o", w + "/harness", "."], v + "/harness")
        json.dump({"Replace": {f"{w}/repo/zz_verif_helper/main.go": f"{V}/harness/helper/main.go.src"}}, open(w + "/overlay.json", "w"))
        os.mkdir(w + "/scratch")
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            f = f"{w}/repo/{m['file']}"
            src = open(f, "rb").read()
            open(f, "wb").write(src[:m["from"]] + m["repl"].encode() + src[m["to"]:])
            try:
                b = sh(["go", "build", "-o", w + "/oct", "."], w + "/repo")
                ps = props(m["file"])
                if not FULL: ps = ps[:1]
                if b.returncode == 0 and "C01" in ps: b = sh(["go", "build", "-overlay", w + "/overlay.json", "-o", w + "/helper", "./zz_verif_helper"], w + "/repo")
                res = "build"
                if b.returncode == 0:
                    res = ""
                    tested = not FULL
                    for i, p in enumerate(ps):
                        full = i > 0 and tested
                        c = sh([w + "/harness", "-property", p, "-oct", w + "/oct", "-helper", w + "/helper", "-scratch", w + "/scratch", "-verif", v, "-count", COUNTS[0] if i == 0 else COUNTS[1] if p not in LAST else COUNTS[2]],
                               w, {"VERIF_SEED": "5", "VERIF_TIER": "quick", "VERIF_SHRINK": "0s"})
                        if c.returncode == 1: res = "killed " + p; break
                        if c.returncode != 0: res = "error %s %s" % (p, (c.stdout + c.stderr)[-300:]); break
                        if not tested:
                            tested = True
                            t = sh(["go", "test", "-vet=off", "./..."], w + "/repo")
                            if t.returncode != 0 and "FAIL" in t.stdout: 
                                bad = [l for l in t.stdout.splitlines() if l.startswith("--- FAIL") or "build failed" in l]
                                if bad: res = "tests"; break
                    res = res or "survived"
            except subprocess.TimeoutExpired: res = "timeout"
            finally: open(f, "wb").write(src)
            m["res"] = res
            m["text"] = src[m["from"]:m["to"]].decode(errors="replace")[:120]
            with lock:
                out.write(json.dumps(m) + "\n"); out.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(int(sys.argv[3]) if len(sys.argv) > 3 else 4)]
[t.start() for t in ts]; [t.join() for t in ts]
