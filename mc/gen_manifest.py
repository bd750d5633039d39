import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mc")
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 mc/setup.py", checks=[], not_applicable=[], notes="See DESIGN.md. Every check builds the natrium library and its harness from /repo's working tree into /verif/build (git-ignored, keyed by content).")
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 mc/run.py %s --tier quick" % p, thorough_cmd="python3 mc/run.py %s --tier thorough" % p,
            evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
