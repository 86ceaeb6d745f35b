#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "simulated sinks/sources with seeded short, split and interrupted I/O; byte and value comparison",
 "P02": "simulated failing, filling and interrupting sinks; prefix and retry check",
 "P03": "crash cuts and source failures at seeded bytes of simulated records, through every consumer",
 "P04": "simulated append log with crash cuts and per-record consumer schedule; boundary oracle",
 "P05": "simulated fleet of builds (schema histories) with rolling upgrades, I/O faults and crashes; reference upgrade model",
 "P06": "simulated mixed-version fleet and damaged revision numbers; refusal oracle",
 "P07": "simulated deployed peer: independent reference encoder/decoder over the simulated stream",
 "P08": "seeded accessor schedules over a fault-injecting source; value-tree oracle",
 "P09": "seeded accessor schedules on records of older simulated builds; upgrade model oracle",
 "P10": "seeded lookup histories with hints carried, lost or arbitrary across rows; container model",
 "P11": "simulated replicas with seeded hash state and insertion histories; byte equality",
 "P12": "seeded damage of stored records (flips, overwrites, torn and misdirected sectors) through every consumer",
 "P13": "seeded damage confined to one framed body of a simulated log; neighbour oracle",
 "P14": "seeded failures of simulated user callbacks and retries; fault-free result as oracle",
 "P15": "simulated allocator and source accounting during skips over seeded sizes and fragmentations",
 "P16": "cooperative scheduler interleaving operations at every I/O call, with failures and abandonment; solo-run oracle",
 "P18": "seeded overwriting of everything but what is accessed; answers, key and source-call counts",
 "P19": "repeated attempts under a simulated allocator and drop-tracked elements, with device, element and callback failures and unwinds",
 "P20": "seeded device failures and callback errors of every kind, identified at the caller through every consumer",
 "P21": "seeded damage, foreign encodings and read schedules; every reader's verdict on the same bytes is compared with every other's",
 "P22": "seeded histories of requests and over-reaches on several cursors over one byte string, and of envelopes on failing devices; a byte range as reference model",
}
NOTE = ("Seeded search over simulated runs of the real library code as built from the working tree; a violation is minimised "
        "to a replay file that reproduces it. Clean means no violation among the runs of this batch, not a proof. "
        "Trusts the reference model in sim/core and the generated type families; types, schema histories and feature sets "
        "outside the registry are not explored.")
m = {
 "version": 1,
 "setup_cmd": "python3 tools/check.py --build",
 "hooks": {"guard": "none", "enable": "no hooks: the library's own seams (Read, Write, BorrowedReader, BuildHasher, user callbacks, global allocator) suffice", "source_commits": []},
 "checks": [
  {"property": p, "quick_cmd": f"python3 tools/check.py {p} quick", "thorough_cmd": f"python3 tools/check.py {p} thorough",
   "technique": "deterministic simulation: " + t, "level": "exploration", "level_note": NOTE} for p, t in T.items()],
 "not_applicable": [{"property": "P17", "reason": "compile-time rejection is a function of the program text alone: there is no execution to schedule and no fault to inject"}],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
