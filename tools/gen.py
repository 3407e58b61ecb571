#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, level="model_checking"):
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                           anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])),
                  technique=technique, note=note, level=level))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["rec"]["title"]) <= 80, x["rec"]["title"]
        f.write(json.dumps(x["rec"]) + "\n")
checks, na = [], []
for x in P:
    i = x["rec"]["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=x["technique"], level=x["level"], level_note=x["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check is still being built")))
json.dump(dict(version=1, setup_cmd="python3 setup.py",
               hooks=dict(guard="none", enable="no hooks: the checks build the unmodified sources of /repo", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="TLA+ with TLC. Every check rebuilds the sources of /repo's working tree; see DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
