#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
sys.dont_write_bytecode = True
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="bin/check " + i, evidence_file="evidence/%s.json" % i,
                           technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="ESPECIA_VERIF (not used: no hooks were needed)", enable="nothing to enable", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
