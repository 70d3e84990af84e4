#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WIRE = "deterministic simulation: seeded search over %s, with an independent ALIGNED PER peer as oracle"
CLAIMED = {
    "C08": (WIRE % "interleaved writers, readers, snapshots and crashes over one bit buffer", "wire"),
    "C09": (WIRE % "nodes sending at every bit position", "wire"),
    "C10": (WIRE % "a simulated network with loss, duplication, reordering, delay and node crashes", "wire"),
    "C11": (WIRE % "clients that hand nodes constraint-violating messages among valid ones", "wire"),
    "C12": (WIRE % "a network that corrupts datagrams (flips, splices, inserts, deletes, forged fragments)", "wire"),
    "C13": (WIRE % "hostile buffers under an allocation meter, a processor-time watchdog and a panic trap", "wire"),
    "C14": (WIRE % "connections cut at arbitrary octets and bits", "wire"),
    "C15": (WIRE % "histories of decodes, failures, rewinds and starvation over shared buffers", "wire"),
    "C16": (WIRE % "open-type frames longer, shorter, nested and corrupted on the way", "wire"),
    "C17": (WIRE % "streams from peers of a later version", "wire"),
}
NOTE = {
    "wire": "Seeded sampling, not proof: every run is a pure function of one integer and replays exactly. Real code: codecs/ and codecs_derive/ compiled from /repo's working tree; stubs: network, clock, peers. Trusts the reference PER implementation in simcore/src/refper.rs and the random zoo of types.",
}
NA = {}
try:
    from manifest_comp import CLAIMED as C2, NOTE as N2, NA as NA2
    CLAIMED.update(C2); NOTE.update(N2); NA.update(NA2)
except ImportError:
    for i in list(range(1, 8)) + [18]:
        NA["C%02d" % i] = "its check is not built yet"
NA["C19"] = "a pure function of the text with no schedule, clock, fault or history in it; the guide asks for not-applicable rather than input generation dressed up as simulation"
checks = []
for p in sorted(CLAIMED):
    t, w = CLAIMED[p]
    checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": NOTE[w]})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
     "notes": "No hooks in /repo: every seam is one the code already has (public codec API, std::io::Read, processes and system calls). Replay a violation with ./check --replay FILE."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
