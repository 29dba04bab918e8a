#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(checks, "NOT_APPLICABLE", {})
m = dict(version=1, setup_cmd="python3 -c 'import checks'",
         hooks=dict(guard="none", enable="no hooks: the harnesses compile /repo's headers as they are against stub headers in /verif (lib/simmpi, stubs)", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"python3 run.py {p} --tier quick", thorough_cmd=f"python3 run.py {p} --tier thorough",
            evidence_file=f"evidence/{p}.json", technique=c["technique"], level=c["level"],
            level_note=c.get("note", c["rule"] + " Trusted: " + "; ".join(c.get("assumptions", [])) )))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
