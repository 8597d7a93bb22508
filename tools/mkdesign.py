"""Write DESIGN.md from tools/design.in.md, the rules and the planted bugs."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from apgsa.about import RULE, NOT_APPLICABLE, BOUNDS
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
s = open(HERE + "/tools/design.in.md").read()
out = []
for p in props:
    i = p["id"]
    if i in RULE:
        out.append("**%s %s.** *Rule:* %s *Shapes:* %s *Beyond the tests:* %s\n" % (i, p["title"], RULE[i], BOUNDS[i], p["why_tests_cant"]))
s = s.replace("@@PROPS@@", "\n".join(out))
fixed = []
for l in open(HERE + "/known_findings.txt"):
    if l.startswith("fixed: "):
        a, c, *t = l[7:].split()
        fixed.append("| %s | %s | %s |" % (a.split("=")[1], c, " ".join(t)))
s = s.replace("@@FIXED@@", "\n".join(fixed))
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
res = {}
try:
    res = json.load(open(HERE + "/tools/caught.json"))
except OSError:
    pass
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, d)))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], res.get(d, "?")))
s = s.replace("@@SEEDS@@", "\n".join(rows))
rf = []
for f in sorted(os.listdir(HERE + "/tools/refac")):
    if f.endswith(".py"):
        fs = [l.split()[2] for l in open(HERE + "/tools/refac/" + f) if l.startswith("#@ file")]
        rf.append("* `%s`: %s" % (f[:-3], ", ".join(dict.fromkeys(fs))))
s = s.replace("@@REFAC@@", "\n".join(rf))
s = s.replace("@@NA@@", "\n".join("* **%s** (%s): %s" % (p["id"], p["title"], NOT_APPLICABLE[p["id"]]) for p in props if p["id"] in NOT_APPLICABLE))
open(HERE + "/DESIGN.md", "w").write(s)
