#!/usr/bin/env python3
# Writes MANIFEST.json from the list of checks below and properties.jsonl.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks = open(here + "/tools/checks.txt").read().split()
tech = "deterministic simulation with fault injection: seeded cooperative scheduler over the instrumented real code, seeded faults, history and invariant oracles, minimised replays"
note = "seeded exploration: finds what the sampled schedules, workloads and faults reach, proves nothing beyond them"
na = {
 "N01": "a pure function of template and data: no schedule, clock or fault is involved, so a simulated execution decides no more than one direct call",
 "N02": "a pure conversion function: nothing to schedule and nothing that can fail from outside",
 "N03": "pure path resolution: nothing to schedule and nothing that can fail from outside",
 "N04": "a pure round trip between two functions: input generation, not schedules or faults, would decide it",
 "N05": "a pure parser: input generation, not schedules or faults, would decide it (what happens when the source fails is C09)",
 "N06": "a pure construction: nothing to schedule and nothing that can fail from outside",
}
m = {
 "version": 1,
 "setup_cmd": "bash run.sh setup",
 "checks": [{"property": c, "quick_cmd": "VERIF_TIER=quick bash run.sh check " + c, "thorough_cmd": "VERIF_TIER=thorough bash run.sh check " + c,
   "evidence_file": "evidence/%s.json" % c, "technique": tech, "level": "exploration", "level_note": note} for c in checks],
 "not_applicable": [{"property": p, "reason": na[p]} for p in ids if p in na],
 "notes": "Every check rebuilds the simulator around an instrumented copy of the working tree of /repo in a temporary directory; no hooks in /repo are needed. Replays: bash run.sh replay out/<file>.json",
}
missing = [p for p in ids if p not in checks and p not in na]
if missing:
    m["not_applicable"] += [{"property": p, "reason": "the check for this property is not finished yet"} for p in missing]
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
