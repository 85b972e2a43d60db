#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "rust/pact_models/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, level_note="", state=None):
    a = {"files": [f if f.startswith("rust/") else M + f for f in files],
         "mechanism": [{"name": n, "where": w if w.startswith("rust/") else M + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
              technique, level_note))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q, _, _ in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")

checks, na = [], []
for q, tech, note in P:
    if os.path.exists(os.path.join(V, "drv", q["id"].lower() + ".py")) and tech:
        checks.append({"property": q["id"], "quick_cmd": "bin/check %s" % q["id"],
                       "thorough_cmd": "bin/check %s --tier thorough" % q["id"],
                       "evidence_file": "evidence/%s.json" % q["id"],
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": q["id"], "reason": "the specification and its conformance check are still being written"})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked by TLC; the real code is bound to them by the executor in harness/ (and harness_m/), whose observations TLC judges."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
