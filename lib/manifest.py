#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "FLBWT_VERIF_HOOKS", "enable": "-DFLBWT_VERIF_HOOKS in the build flavours o2h and asanh of lib/build.py (checks C03, C04, C05, C09, C13, C24); all other flavours build without it", "source_commits": sys.argv[1:] or ["5eb9f1f"]},
     "checks": [], "not_applicable": [{"property": p, "reason": "no check yet"} for p in props if p not in checks.CHECKS],
     "notes": "run.py check <ID> [--tier quick|thorough] [--seed N]; run.py replay <file> runs a recorded violation again. See DESIGN.md."}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py check %s" % p, "thorough_cmd": "python3 run.py check %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
                            "technique": "runtime monitoring: " + c.technique, "level": c.level, "level_note": c.note + (" Assumes: " + "; ".join(c.assumptions) + "." if c.assumptions else "")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
