"""Writes MANIFEST.json from the list of built checks."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(VERIF, "harness", "level_notes.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(VERIF, "harness", pid.lower() + ".py")) and pid in NOTES:
        checks.append({
            "property": pid,
            "quick_cmd": "bin/check {} --tier quick".format(pid),
            "thorough_cmd": "bin/check {} --tier thorough".format(pid),
            "technique": NOTES[pid]["technique"],
            "level": "model_checking",
            "level_note": NOTES[pid]["note"],
        })
    else:
        na.append({"property": pid, "reason": NOTES.get(pid, {}).get("na", "check not built yet")})
manifest = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specifications in spec/, drivers in harness/. No hooks in /repo: everything is observed through the public API.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")
