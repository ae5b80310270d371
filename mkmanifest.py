#!/usr/bin/env python3
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import parts
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in parts.PARTS:
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
            evidence_file="evidence/%s.json" % i, technique=parts.technique(i), level="model_checking", level_note=parts.note(i)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na, notes="See DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
