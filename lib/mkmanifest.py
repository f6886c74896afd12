#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and units.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units
V = units_dir = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in units.PROPS:
        u = units.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 lib/check.py %s quick" % i, thorough_cmd="python3 lib/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="function contracts on the real C code, every obligation discharged by cbmc/goto-instrument DFCC" ,
                           level=u["level"], level_note=units.note(i)))
    else:
        na.append(dict(property=i, reason=units.NOT_APPLICABLE.get(i, "no check yet: the harness for these functions is still being built")))
hooks = dict(guard="OSHMPI_VP", enable="-DOSHMPI_VP -I/verif/model (oshmpi_vp.h gives the loop contracts; see lib/check.py)", source_commits=["9420e04", "95eea5d", "14d5ff7"])
json.dump(dict(version=1, setup_cmd="python3 lib/setup.py", hooks=hooks, checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
