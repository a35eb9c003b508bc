"""Writes MANIFEST.json (committed; run by hand when the set of checks changes)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import check, special

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification (spec/Pica.tla): TLC exhausts instances (PicaMC.tla) and validates traces of the real code (PicaTrace.tla) from transition tours, directed scripts and random walks"
NOTE = ("Exhaustive on the specification for the small instances named in the evidence; the code is bound to it by sampling: every edge of the instances' "
        "state graphs (up to a step budget), directed boundary scripts and seeded random walks are executed on the real library under virtual time and every packet, "
        "event and reply is compared by TLC with what the specification allows. Trusts the driver (harness/), TLC, and tokio's paused clock; thread preemption is not explored here.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.MC or i in special.CHECKS:
        tech, note = special.NOTES.get(i, (TECH, NOTE))
        checks.append({"property": i, "quick_cmd": "python3 lib/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ checked with TLC. No hooks in /repo: the public API and the wire already expose everything that is observed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
