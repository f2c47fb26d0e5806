#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = {
 "C15": "Decided entirely while routes are registered, before the server exists: a pure function of the registration calls with no thread, clock, I/O, peer or fault to simulate; generating call sequences would be property-based testing, another technique.",
 "C16": "A pure function of one string and one type: no schedule, fault, clock or I/O can change what a parameter parses to; that parameters reach the right request under concurrency is part of C01, C02 and C10.",
 "C17": "A pure conversion of one value to one response: nothing for a simulator to interleave or break; that a converted response reaches the client intact is C07 and C13.",
}
note = ("Seeded search, not exhaustive: whole unmodified server (obsidian, hyper, tokio, mio, async-std) on a simulated kernel; "
        "every schedule, delay and fault comes from the seed. Quick: up to 36,000 simulated runs in 120 s; thorough: up to 1,000,000 in 50 minutes. "
        "Assumes the simulated system calls behave like Linux's; threads can be switched at every branch, load and store of obsidian and the test application and at every allocation, lock operation and system call of the rest. ")
EXTRA = {
 "C01": "Oracle: reference model of routing/middleware/handlers against the byte stream each client received.",
 "C02": "Oracle: reference router; histories of which handler ran, with which parameters, how often.",
 "C03": "Oracle: reference middleware onion; exact sequence of before/after steps per request and what each saw.",
 "C04": "Oracle: value decoded by the handler against the value decoded from the complete body by an independent decoder; errors for cut or broken bodies.",
 "C05": "Oracle: every connection without a fault of its own is checked as if no other existed; process must not exit, abort or stop listening.",
 "C06": "Oracle: bounded simulated time to each response once own delays are accounted for. Two findings in hyper 0.14 are listed in known_findings.txt.",
 "C07": "Oracle: reference outcome of each handler, then the next request on the same connection.",
 "C08": "Oracle: every version the file had between request and response, disk faults injected.",
 "C09": "Oracle: every path the simulated disk was asked to open, plus markers of all files outside of the mounts.",
 "C10": "Oracle: state and context as each middleware/handler recorded it, unique per request.",
 "C11": "Oracle: responses as without logger; log lines counted against the requests that passed each logger.",
 "C12": "Oracle: census of descriptors, heap bytes, state clones, context data and suspended handlers after all clients are gone, and of the latter while connections live on. One finding in hyper 0.14 is listed in known_findings.txt.",
 "C13": "Oracle: independent response parser; status, headers, body and framing against what was built, with short writes, tiny windows and stalls.",
 "C14": "Oracle: independent decoder; same input under different seeds of the process's hash keys and schedules.",
}
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append(dict(property=i, reason=NA[i]))
    else:
        m["checks"].append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique="deterministic simulation with fault injection", level="exploration", level_note=note + EXTRA[i]))
m["notes"] = "No hooks in /repo: the simulator sits at the C library boundary of the harness binary. Replay a reported file with: sim/target/debug/vsim replay FILE"
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
