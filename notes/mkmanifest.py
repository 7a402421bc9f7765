"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
CLAIMED = {l.split("#")[0].strip() for l in (root / "notes/claimed.txt").read_text().splitlines() if l.strip()}
NOTE = {}
for l in (root / "notes/level_notes.txt").read_text().splitlines():
    if "|" in l:
        k, v = l.split("|", 1)
        NOTE[k.strip()] = v.strip()
checks, na = [], []
for l in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i} quick",
            "thorough_cmd": f"bin/check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "TLA+ specification checked with TLC; schedules generated from it replayed on the code, recorded traces of the code validated against it with TLC",
            "level": "model_checking",
            "level_note": NOTE.get(i, NOTE["default"]),
        })
    else:
        na.append({"property": i, "reason": "check still being built"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed")
