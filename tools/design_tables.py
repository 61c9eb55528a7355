"""design_tables.py: rewrites the tables at the end of DESIGN.md (findings, repairs, planted bugs) from known_findings.txt and seeded/."""
import json, os, re
V = "/verif"
missed = set("C05-desc-empty-group C07-group-carry C09-pk-not-null C13-anno-group-prefix C14-bit-import C14-reserved-override C11-default-fn C21-sort-groups-only".split())
t = open(V + "/DESIGN.md").read()
mark = "<!-- tables: tools/design_tables.py -->\n"
t = t.split(mark)[0] + mark
kf = [l.rstrip("\n") for l in open(V + "/known_findings.txt") if l.strip() and l[0] != "#"]
t += "\n## Defects found on the original tree\n\nRecorded, not repaired (each is a known finding with its input in `findings/`; a check prints KNOWN-FINDING only while exactly that input fails, and the generators of the check stay clear of exactly that trigger):\n\n"
for l in kf:
    m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
    if m: t += f"- {m[1]} `{m[2]}`: {m[3]}\n"
fx = {}
for l in kf:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.setdefault(m[1], []).append(f"{m[3]} ({m[2]})")
t += "\nRepaired by `fix:` commits (the failing inputs are replayed first on every run from `regress/`):\n\n"
for k in sorted(fx): t += f"- {k}: " + "; ".join(fx[k]) + "\n"
t += "\n## Planted bugs\n\nEvery planted bug in `seeded/` is caught by the check of its property. Those marked * were missed by the check as it stood when they were planted and led to it being widened.\n\n| bug | needs |\n|---|---|\n"
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    t += f"| {i}{' *' if i in missed or m.get('missed_at_first') else ''} | {m['needs']} |\n"
open(V + "/DESIGN.md", "w").write(t)
