#!/usr/bin/env python3
# Regenerates MANIFEST.json from lib/config.py and properties.jsonl.
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
from config import PROPS, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}", evidence_file=f"evidence/{i}.json",
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet: no exhaustive exploration of this property exists in this commit")))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\" && g++ --version >/dev/null && make --version >/dev/null", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
