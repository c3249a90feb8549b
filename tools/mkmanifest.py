#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with settings in driver/ is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/driver")
import gosim
conf = dict(gosim.CONF)
NA = {
    "N01": "a sequential function of its input: no schedule, time, I/O, fault or other party for the simulator to vary; the oracle would be a second transcriber compared on random words, which is not this family of technique",
    "N02": "pattern matching is a pure function of pattern and text; nothing to schedule or to fail",
    "N03": "composition is a pure function of a string; nothing to schedule or to fail",
    "N04": "a pure input/output relation of single calls; nothing to schedule or to fail",
    "N05": "a static relation between an expression and a computed width; nothing to schedule or to fail",
    "N06": "localization is a pure function of a string; nothing to schedule or to fail",
    "N07": "parsing an intact document that arrives whole is a pure function; the parts that depend on delivery, failure and damage are C10, C11 and C12",
    "N08": "a statement about all words in single, undisturbed calls: a fuzzing or proof obligation without schedule, clock, I/O or fault",
}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in conf:
        c = conf[p]
        checks.append({
            "property": p,
            "quick_cmd": "./check " + p,
            "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection: seeded random search over " + c["over"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet")})
m = {"version": 1, "setup_cmd": "./check --setup",
     "hooks": {"guard": "go build -overlay (no change in /repo)",
               "enable": "each check instruments a copy of /repo's working tree (simgen) and builds it through an overlay; /repo holds no hook",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Every check takes VERIF_SEED; a replay file is run with ./check PROPERTY --replay FILE."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
