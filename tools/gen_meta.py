#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(),
                  mech=[m.split(" @ ") for m in mech], technique=technique, note=note, state=state))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        o = {"id": x["id"], "title": x["title"], "statement": x["statement"],
             "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"],
             "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}
        if x["state"]:
            o["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in x["state"]]
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "cd crates && CARGO_NET_OFFLINE=true cargo build --offline --locked --workspace",
     "checks": [], "not_applicable": NOT_APPLICABLE}
if HOOKS:
    m["hooks"] = HOOKS
for x in P:
    if x["id"] in [n["property"] for n in NOT_APPLICABLE]:
        continue
    m["checks"].append({"property": x["id"], "quick_cmd": f"python3 bin/check.py {x['id']} quick",
                        "thorough_cmd": f"python3 bin/check.py {x['id']} thorough",
                        "technique": x["technique"], "level": "model_checking", "level_note": x["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
