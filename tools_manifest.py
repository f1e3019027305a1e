#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/checks")
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["title"], "level": c.get("level", "exploration"),
                       "level_note": c.get("note", "Generated-input search with shrinking: a violation is shown on the real code and replays; silence means no violating case among those generated (counts in the evidence file), not absence. Trusts clang, its sanitizers and the reference model in checks/.")})
    else:
        na.append({"property": i, "reason": registry.NOT_CLAIMED.get(i, "check under construction; not claimed yet")})
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": na,
     "notes": "All checks build from /repo's working tree into /verif/build (ignored by git) and draw every random choice from VERIF_SEED. Replay a violation with: python3 run.py replay <id> <file>. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not claimed")
