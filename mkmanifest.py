#!/usr/bin/env python3
"""Writes MANIFEST.json (kept under version control; run after editing this file)."""
import json
T = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, "
what = {
 "C01": ("exactly-once ledger of every byte a simulated serial module takes", "bytes queued by each application session against bytes taken by the modules, at every scan, plus drain after the faults stop"),
 "C02": ("exactly-once ledger of every byte the application reads", "segments presented by the simulated modules (each has an id of its own) against the bytes every read returns, plus drain after the faults stop"),
 "C03": ("per-cycle protocol monitor of the serial control byte and segment", "input, given and returned image of every successful cycle"),
 "C04": ("startup monitor and per-session ledger across crash, restart and power cycles", "first cycles of every session, no data of an earlier session, traffic flows again"),
 "C05": ("differential twin: every module also runs alone in a coupler of its own", "image bytes, reported values and streams of each module against its lone twin in every cycle"),
 "C06": ("request ledger against an independent output codec", "every channel of every returned image, requests refused or accepted"),
 "C07": ("raw-value hold oracle with an independent output codec", "every unrequested channel of every returned image, over feedback and read-back loops with other masters"),
 "C08": ("independent reference decoder of all 18 modules", "reported inputs of every module after every successful cycle"),
 "C09": ("twin coupler that does not see the failing calls", "images, values, reads and request results of both after every call"),
 "C10": ("corruption of every block and image, with recovery oracle", "no panic, abort or hang; the next well-formed exchange succeeds"),
 "C11": ("simulated commissioning with damaged, short and extended blocks against an independent parameter table", "module list, offsets, parameter areas, every parameter field, acceptance and refusal"),
 "C12": ("independent reference decoder of outputs and a segment-once ledger", "reported outputs of every module after every successful cycle"),
 "C13": ("bounded progress after the last fault", "pending requests in the next image, serial queues drained within a number of cycles proportional to the segments"),
 "C14": ("replica couplers and reruns with other hash keys and permuted requests", "images, values, reads, results of all replicas; whole runs repeated in other threads with other hash keys"),
 "C17": ("the station driven by hand next to the coupler, with an independent reference codec", "decoded values, round trips, images, streams and results of the hand-driven station against the coupler in every cycle; refusal of data and values that do not fit"),
 "C18": ("counting allocator around every call into the library", "bytes the library holds after every cycle and after every session against a bound from the station's size and the largest backlogs so far"),
}
checks = []
for p, (t, n) in what.items():
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": T + t,
        "level": "exploration",
        "level_note": "Observed: " + n + ". The real coupler and module drivers run inside a discrete-event simulation of station, network, driver and application; one seed is one exactly repeatable run. A clean batch is evidence over the runs made, not proof. Trusts the station model and the reference codec in sim/src.",
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": [
        {"property": "C15", "reason": "Pure lookup tables: no schedule, time, I/O, fault or history the property could depend on, so there is nothing to simulate."},
        {"property": "C16", "reason": "Pure formatting of error values: no schedule, time, I/O, fault or history the property could depend on, so there is nothing to simulate."},
    ],
    "notes": "No hooks in /repo: the crate does no I/O of its own, so register images, calls and hash keys (getrandom, interposed in the simulator binary) are the only seams needed. Replay: ./replay.sh <file>.",
}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
