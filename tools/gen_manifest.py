"""Write MANIFEST.json for the worlds which exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = ["C%02d" % i for i in list(range(1, 20)) + list(range(27, 32))]
have = [p for p in CLAIMED if os.path.exists(os.path.join(V, "dst/worlds/%s.py" % p.lower()))]
NA = {
 "C20": "A pure function of its arguments (nodes and spans in, groups out): no schedule, time, I/O, fault or history for a simulator to control.",
 "C21": "A pure function of a list of segments: no schedule, time, I/O, fault or history for a simulator to control.",
 "C22": "A pure function of the document's spans, computed in one call: nothing nondeterministic or faulty takes part.",
 "C23": "A pure function of a token list and a string: nothing nondeterministic or faulty takes part.",
 "C24": "A pure rendering function of one document's state: nothing nondeterministic or faulty takes part.",
 "C25": "Pure integer and string arithmetic on immutable offsets: nothing nondeterministic or faulty takes part.",
 "C26": "The Java implementation can be neither built nor run offline here (its Maven plugins and dependencies are absent), so the second party cannot be put into the simulation.",
}
NOTE = ("Seeded search over simulated runs, each an exactly replayable plan of operations, faults and schedule, judged by a "
        "reference model. A clean batch is evidence over the explored plans, not a proof. Trusted: the model and simulator in "
        "/verif/dst, CPython, msgpack and the compression libraries.")
LEVELNOTE = {}
checks = []
for p in have:
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "deterministic simulation with fault injection: seeded search over operation, fault and schedule plans against a reference model",
                   "level": "exploration", "level_note": LEVELNOTE.get(p, "") + NOTE})
for p in CLAIMED:
    if p not in have:
        NA[p] = "Check not built yet."
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B dst/run.py setup",
     "hooks": {"guard": "none", "enable": "No hooks: every seam is a constructor argument, a patched module attribute of the simulator process, or the thread tracer; /repo carries only fix: commits.", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
