#!/usr/bin/env python3
"""Writes ../MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: seeded search over "
TECH = {
    "C01": T + "hash keys, heap layouts, clocks, log levels and environments of whole conversions",
    "C02": T + "hash keys for schemas whose property names collide",
    "C03": T + "hash keys for merged map and union alternatives",
    "C04": T + "hash keys, comparing accept or reject",
    "C05": T + "call histories, against the same call alone in a fresh process",
    "C06": T + "call histories with failing conversions and failing log sinks",
    "C07": T + "thread interleavings at basic-block granularity, against a sequential reference",
    "C08": T + "histories and interleavings of conversions with and without their own pattern",
    "C09": T + "short and interrupted reads, writes and opens of the real command, against the library",
    "C10": T + "failing, torn, truncated and corrupted input of the real command",
    "C11": T + "failing, short and interrupted writes of the real command",
    "C12": T + "log levels and standard-error faults of the real command",
    "C13": T + "allocation failures of the real command",
    "C14": T + "interruption storms and persistent failures, bounding every I/O call",
    "C15": T + "pairs of process environments of the real command",
    "C16": T + "directory orders, command failures and kill points of the real batch script",
    "C17": T + "directory orders, I/O faults and kill points of the real build step",
    "C18": T + "kill points of the real command",
    "C19": T + "torn data, I/O faults and kill points of the real data script and its helper",
    "C20": T + "failures of the cloud programs and kill points of the real load script, over a simulated cloud",
    "C21": T + "failures of curl and tar and kill points of the real script that downloads the schemas",
    "C22": T + "failing requests, torn bodies, I/O faults and kill points of the real script that downloads the samples, over a simulated store",
}
LIB = ("Seeded search, not a proof: no counterexample among the simulated runs of this tier. The library built from /repo, its dependencies and the Rust "
       "standard library run for real; hash keys, thread scheduling, futexes, clocks, heap addresses, environment lookups and the log sink are simulated. ")
CLI = ("Seeded search, not a proof: no counterexample among the simulated runs of this tier. The whole command built from /repo runs for real; what it gets from "
       "read, write, open, malloc, getrandom, clock, getenv and isatty is decided by the seed. System calls that bypass the C library are not seen. ")
NOTE = {
    "C01": LIB + "Trusts the comparison of runs with each other; says nothing on whether the output is right.",
    "C02": LIB + "As C01, for generated groups of colliding names.",
    "C03": LIB + "As C01, for generated merges.",
    "C04": LIB + "A panic counts as a rejection.",
    "C05": LIB + "The oracle is the same library in a fresh forked process.",
    "C06": LIB + "The oracle is the same library in a fresh forked process. C code (oniguruma) is not interrupted part-way.",
    "C07": LIB + "Sequentially consistent interleavings only (no weak-memory effects), switching at basic blocks, atomics' callers, allocations, lock waits and log calls; oniguruma's C code is atomic.",
    "C08": LIB + "The oracle is a fresh process and the same pattern given as an option.",
    "C09": CLI + "The oracle is the library of the same tree in a fresh process.",
    "C10": CLI + "The oracle for well-formedness is serde_json over the bytes delivered.",
    "C11": CLI + "EBADF on standard output is left out: the Rust standard library counts it as success.",
    "C12": CLI + "The oracle is the silent fault-free run.",
    "C13": CLI + "Rust aborts on most failed allocations; the check covers every path taken.",
    "C14": CLI + "Time is simulated: a wait is seen as a call, not by waiting.",
    "C15": CLI + "The oracle is the run in the plain environment.",
    "C16": CLI + "bash, coreutils and find run for real; cargo is a stand-in, and a kill takes the whole process group at the start, middle or end of a program the script starts.",
    "C17": CLI + "Here the program is build.rs; resources that were being rewritten without a backup are outside the claim.",
    "C18": CLI + "File-system, process and network effects are seen as calls and by listing the scratch folders.",
    "C19": CLI + "Here the programs are the data script under the real bash and its helper under the real Python; the packages avro and fastavro are not installed and are small stand-ins (sim/pystubs). The oracle for what a set encodes to is a model of the documented conversion; documents it does not settle are not judged.",
    "C20": "Seeded search, not a proof: no counterexample among the simulated runs of this tier. The script runs for real under bash with coreutils, sed and grep; gcloud, gsutil and bq are a small model of buckets, datasets and load jobs, so what the real services do beyond it is not covered. A kill takes the whole process group at the start, middle or end of a program the script starts.",
    "C21": "Seeded search, not a proof: no counterexample among the simulated runs of this tier. The script runs for real under bash with the real tar and gzip; curl is a stand-in that knows one archive. What tar itself does under a full disk is modelled by an archive that is cut short. A kill takes the whole process group at the start, middle or end of a program the script starts.",
    "C22": "Seeded search, not a proof: no counterexample among the simulated runs of this tier. The script runs for real under Python; boto3 and rapidjson are stand-ins (a store of objects with pages, and a validator of a few keywords), so what the real packages do beyond them is not covered.",
}
PURE = "A pure function of one schema and option set: no schedule, clock, I/O, fault or history can make it hold or fail, so simulated schedules and faults decide nothing; deciding it needs an input-space technique (what does vary between runs of it is claimed in C01-C08)."
NA = {f"C{k}": PURE for k in range(30, 43)}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert sorted(list(TECH) + list(NA)) == sorted(ids), set(ids) ^ set(list(TECH) + list(NA))
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [
        {"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
         "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]}
        for i in ids if i in TECH],
    "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
    "notes": "No hooks in /repo: the library is linked into the simulator with sanitizer-coverage callbacks added by a RUSTC_WRAPPER, and the programs run under an interposition library. Replay: build/sim/debug/jstsim replay <file>. All genuine defects found were repaired by fix: commits (known-findings.txt).",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
