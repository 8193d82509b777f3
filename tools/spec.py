#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, check=None, note=None, technique=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, check=check,
                  note=note, technique=technique, observe=observe, na=na))


exec(open(os.path.join(V, "tools", "spec_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        for fn in p["files"]:
            assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    cmd = "python3-vt checks/%s.py" % p["check"]
    assert os.path.exists(os.path.join(V, "checks", p["check"] + ".py")), p["check"]
    checks.append({"property": p["id"], "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough",
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis, numpy, scipy, mpmath'", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [p["id"] for p in P])
