"""Writes MANIFEST.json from the table of claimed properties."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.describe import NOTES  # noqa: E402

CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else sorted(NOTES)
NA = {
    "N01": "pure arithmetic on one value: no schedule, time, I/O, randomness or second party for a simulator to vary; "
           "random inputs would be property-based testing, not simulation",
    "N02": "pure function of one table; nothing nondeterministic takes part",
    "N03": "numerical accuracy of a pure function of network and input; no fault or schedule can influence it",
    "N04": "numerical agreement of two pure functions of an input; needs the runtimes of TensorFlow and ONNX, which are not "
           "installed and cannot take part in a simulation (what a description says is C01)",
    "N05": "pure integer arithmetic; nothing nondeterministic takes part",
}
props = [json.loads(x)["id"] for x in open("properties.jsonl")]
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CLAIMED]
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": [{
        "property": p,
        "quick_cmd": f"./check {p} --tier quick",
        "thorough_cmd": f"./check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: " + NOTES[p][0],
        "level": "exploration",
        "level_note": NOTES[p][1],
    } for p in props if p in CLAIMED],
    "not_applicable": na,
    "notes": "No hooks in /repo: threads, clocks, broker, files, randomness and crash points are replaced from outside "
             "(sys.monitoring, module stand-ins, patched primitives). Fixes of genuine defects are listed in known_findings.txt.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(na), "not applicable")
