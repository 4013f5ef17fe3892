#!/usr/bin/env python3
"""Source of the property list: writes properties.jsonl, props.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
Y, G, R = "engines/yayamls", "engines/goyaml", "."

def H(module, pkg, package, files, run, covers, quick=4000, thorough=60000):
    return {"module": module, "pkg": pkg, "package": package, "files": files.split(","), "run": run, "covers": covers, "quick_ms": quick, "thorough_ms": thorough}

def prop(id, title, statement, over, qtext, why, files, mech, harness, technique, note, state=None, observe=None, bounded="", level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, harness=harness,
                  technique=technique, note=note, state=state or [], observe=observe or [], bounded=bounded, level=level))

exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
               "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(rec, ensure_ascii=False) + "\n")
    for p in NA_PROPS:
        f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
json.dump([{"id": p["id"], "title": p["title"], "level": p["level"], "harness": p["harness"], "bounded": p["bounded"]} for p in P], open(os.path.join(V, "props.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks: the contracts live in /verif/spec and are checked against /repo's source as it is", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/check.sh {p['id']} quick", "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": p["rec"]["id"], "reason": p["reason"]} for p in NA_PROPS],
     "notes": "govc (/verif/govc) generates verification conditions from the SSA of /repo's current source and the contracts in /verif/spec; z3 and cvc5 discharge them. In-package Go runs laid in by -overlay replay the contracts on concrete inputs, and stand in (labelled bounded) where a function is out of reach."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
