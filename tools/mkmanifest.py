"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read(), NOTES)
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "checks", pid + ".py")) and pid not in NOTES["NOT_APPLICABLE"]:
        tech, note = NOTES["NOTE"].get(pid, (NOTES["DEFAULT_TECH"], NOTES["DEFAULT_NOTE"]))
        checks.append(dict(property=pid, quick_cmd="./check " + pid, thorough_cmd="./check " + pid + " thorough", technique=tech,
                           level="model_checking", level_note=note))
    else:
        na.append(dict(property=pid, reason=NOTES["NOT_APPLICABLE"].get(pid, "not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
if NOTES.get("HOOKS"):
    m["hooks"] = NOTES["HOOKS"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
