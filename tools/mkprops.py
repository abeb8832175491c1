"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN

P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, note))


exec(open(os.path.join(VERIF, "tools", "props_core.py")).read())
full = os.path.join(VERIF, "tools", "props_full.py")
if os.path.exists(full):
    exec(open(full).read())

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

checks, na = [], []
NA = globals().get("NOT_APPLICABLE", {})
for p, note in P:
    id = p["id"]
    if id in PLAN:
        checks.append({"property": id,
                       "quick_cmd": f"bin/check {id} quick", "thorough_cmd": f"bin/check {id} thorough",
                       "technique": "TLA+ specification checked with TLC; traces of the real code validated against it with TLC",
                       "level": PLAN[id].get("level", "model_checking"), "level_note": note})
    else:
        na.append({"property": id, "reason": NA[id]})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na}
HOOKS = globals().get("HOOKS")
if HOOKS:
    m["hooks"] = HOOKS
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
