#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SCHED = "seeded schedules (random and priority-based), goroutine stalls and time leaps"
NOTE = {
 "C01": "Real limiter under simulated clock, mutex and memory; " + SCHED + ", wall-clock steps. Oracle: linearizability against the window model with interval-valued window starts, plus a happens-before race check.",
 "C02": "Real limiter; " + SCHED + ", wall-clock steps. Oracle: linearizability against the leak model over simulated time, race check.",
 "C03": "Real limiter; " + SCHED + ", wall-clock steps. Oracle: linearizability against the token model over simulated time, race check.",
 "C04": "Real limiter; " + SCHED + ", wall-clock steps. Oracle: bounds on admissions in every span over the recorded history, independent of how small windows are aligned.",
 "C05": "Real limiter; " + SCHED + ", wall-clock steps. Oracle: per-strategy admission bounds over the recorded history, for several limiters built from shared strategy values.",
 "C06": "Real queue and heap; " + SCHED + ", cancellations at any point. Oracle: exactly-once, never-early and due-order checks over the recorded history.",
 "C07": "Real queue; " + SCHED + ". Oracle: bounded simulated latency while a taker waits, after subtracting the injected delay; no operation blocks.",
 "C08": "Real queue; cancellations at any point under " + SCHED + ". Oracle: prompt return, channel closed, all later operations complete.",
 "C09": "Real wheel, buckets, queue, list and heap; " + SCHED + ". Oracle: exactly-once execution inside its time bound for every timer, race check.",
 "C10": "Real wheel; stops racing cascades, runs and each other. Oracle: exactly one of run and successful stop per timer.",
 "C11": "Real wheel; generated schedulers. Oracle: arguments and times of every run against the scheduler's own sequence.",
 "C12": "Real wheel; cancellation at any instant, then a second run. Oracle: prompt return, no panic, no blocked call, pending timers delivered.",
 "C13": "Real queue and wheel; long waits. Oracle: clock reads, timers armed and steps during the wait are bounded by a constant.",
 "C14": "Real map; concurrent histories checked for linearizability against a map, panicking callbacks, race check.",
 "C15": "Real ring; one producer and one consumer, a scheduling point at every memory access. Oracle: FIFO prefix, occupancy bounds, race check.",
 "C16": "Real ring; one producer and one consumer, a scheduling point at every memory access. Oracle: FIFO prefix, occupancy bounds, race check.",
 "C17": "Real code on a simulated file system; I/O errors, short reads and writes, full disk, process crash and restart, concurrent requests. Oracle: the merged file against the acknowledged chunks.",
 "C18": "Real code on a simulated file system with I/O faults. Oracle: success implies equal content and count, source unchanged.",
 "C19": "Real code on a simulated file system with I/O faults, several mounts, crashes. Oracle: the content is whole at the source or the destination at every instant.",
 "C20": "Real code and the real archive/zip coding on a simulated file system with I/O faults, full disk and corrupted bytes. Oracle: success implies complete, faithful results.",
 "C21": "Real code on a simulated file system, hostile archives, I/O faults. Oracle: nothing outside the destination changes.",
 "C22": "Real code and encoding/csv on a simulated file system; concurrent appends, I/O faults. Oracle: rows before plus acknowledged rows, parsed back.",
 "C23": "Real readers on a simulated file system and faulty streams: short reads, errors at any point. Oracle: whole-content answer or failure.",
 "C24": "Real code on a simulated file system; concurrent creation, I/O faults. Oracle: comparison with the file tree.",
 "C25": "Real code on a simulated file system; stat faults. Oracle: comparison with the file tree.",
 "C26": "Real helpers and real gorm on a simulated database with statement failures. Oracle: table content and statement log.",
 "C27": "Real helpers and real gorm on a simulated database with statement failures and every map order. Oracle: table content and statement log.",
 "C28": "Real helpers and real gorm on a simulated database with statement failures and clock steps. Oracle: table content and statement log.",
 "C29": "Real code with simulated clock, entropy and schedules; clock readings repeat or step back. Oracle: shape and pairwise difference.",
 "C30": "Real code and real AES; a scheduling point at every memory access. Oracle: results equal a sequential run, buffers unchanged, race check.",
 "C31": "Real code on a simulated process launcher: start failures, exit codes, pipes failing or split, concurrent executions. Oracle: output and error against what the simulated shell did.",
 "C33": "Real code on a simulated file system; every call may fail. Oracle: no descriptor stays open after the calls returned.",
 "C34": "Real code; overlapping and repeated calls with shared arguments. Oracle: the result of the same call alone in a fresh state, arguments and earlier results unchanged, no data race.",
 "C35": "Real code; several instances and owners, shared instances under a simulated read-write lock. Oracle: sequential models, no data race.",
 "C44": "Real code on a simulated clock; concurrent readers under a simulated lock. Oracle: a reference set, the empty filter, and a bound of 1.7 times the requested rate plus a statistical margin; no data race.",
 "C45": "Real code; the medium between encryption and decryption is simulated and damages messages. Oracle: the standard library's AES-CBC with PKCS#7 padding.",
 "C48": "Real code; the medium between sender and receiver is simulated and damages contents, texts and digests. Oracle: the standard library's MD5 and base64.",
 "C36": "Real code on a simulated clock, scheduler, process launcher and file system. Oracle: the simulator's own lists of live goroutines, armed timers and started processes.",
 "C37": "Real helpers and real gorm on a simulated database; contexts cancelled at any instant, begin, statement and commit failing, slow statements, concurrent clients. Oracle: the transaction and context of every statement received, the rows, the transactions left open.",
 "C32": "Real code; time leaps and wall-clock steps between clock reads. Oracle: the date of some instant within the call.",
}
PURE = "a function of its arguments used by one goroutine: no schedule, clock, I/O, randomness or fault can change its outcome, so there is nothing for a simulator to decide"
NA = {
 "C40": "Sequential in-memory containers without locking: " + PURE,
 "C41": "Sequential in-memory containers without locking: " + PURE,
 "C42": "Sequential in-memory containers without locking: " + PURE,
 "C43": "Sequential in-memory container without locking: " + PURE,
 "C46": PURE[0].upper() + PURE[1:],
 "C47": PURE[0].upper() + PURE[1:],
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE and os.path.isdir(f"{V}/dst/props/{i.lower()}"):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json",
          "technique": "deterministic simulation with fault injection (seeded search over schedules and faults of the rewritten real code)",
          "level": "exploration",
          "level_note": NOTE[i] + " Samples executions rather than enumerating them; trusts the source rewriter and the simulated runtime."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "The code under test is copied and rewritten outside /repo at every check, so /repo carries no hooks. ./check.sh --replay FILE replays a violation."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
