#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/catalogue.py (the property texts) and tools/props.py (what is claimed)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from catalogue import CATALOGUE
from props import PROPS
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in CATALOGUE:
        e = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p.get("observe"):
            e["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
import subprocess
HOOKS = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--oneline"], capture_output=True, text=True).stdout.splitlines() if " verif: " in l]
checks, na = [], []
for p in CATALOGUE:
    c = PROPS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']}",
                       thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
                       technique=c["technique"], level=c.get("level", "proof"), level_note=c["note"],
                       evidence_file=f"evidence/{p['id']}.json"))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks,
         hooks=dict(guard="cfg(litcheck_verif)", enable="RUSTFLAGS='--cfg litcheck_verif' (tools/check.py, when it builds the harness)", source_commits=HOOKS),
         not_applicable=na,
         notes="Verus (deductive, function by function) on functions extracted mechanically from /repo on every run; a bounded search on the code as built replays the same contracts. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", len(na), "not applicable")
