import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mc")
from checks import CHECKS
from design_def import HEAD, X, TAIL, CAUGHT
o = [HEAD, "## Properties\n\n"]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; c = CHECKS[i]; why, lim = X[i][:2]
    o.append("### %s %s\n\n%s\n\n" % (i, p["title"], p["statement"]))
    o.append("* *How it is decided:* %s (%s).\n" % (c["technique"], ", ".join("`%s.cpp`" % x["harness"] for x in c["parts"])))
    o.append("* *Explored:* %s.\n* *Bounds:* %s.\n* *Oracle:* %s\n" % (c["rule"], c["bound"], c["note"]))
    o.append("* *Assumptions:* %s.\n" % "; ".join(c["assumptions"]))
    o.append("* *Beyond the tests:* %s\n" % why)
    if lim: o.append("* *Limits and notes:* %s\n" % lim)
    t = X[i][2] if len(X[i]) > 2 else None
    o.append("\n")
o.append(TAIL)
o.append("## Seeded bugs\n\nEach was written from a property's text and the code, with a demonstration of its own (`seeded/<id>/`).\n\n| id | property | needs | breaks | caught |\n|---|---|---|---|---|\n")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = f.split("/")[-2]; m = json.load(open(f))
    o.append("| %s | %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], m["what_it_breaks"], CAUGHT.get(b, "by " + m["property"])))
open(V + "/DESIGN.md", "w").write("".join(o))
