#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the monitors in harness/."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
have = set()
for f in glob.glob(here + "/harness/p_*.go"):
    have |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
NOTE = {}
exec(open(here + "/notes.py").read())
checks, na = [], []
for l in open(here + "/properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    if i in have:
        tech, note = NOTE.get(i, (DEFAULT_TECH, DEFAULT_NOTE))
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "not claimed yet: its monitor is not built"})
m = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
