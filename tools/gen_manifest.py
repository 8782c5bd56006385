#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(H, "lib"))
from jobs import JOBS
SEQ = ("explicit-state exploration of a kqueue model with every transition executed on the real library",
       "Every operation history up to the stated depth over the stated alphabets is executed on the real library (AddressSanitizer build, virtual clock, interposed system calls) and each return value, event and resource count compared with the model. Trusted: the model's reading of kqueue semantics, the kernel's own epoll/inotify/signalfd behaviour, state merging by model state.")
SCH = ("stateless model checking: all thread interleavings of the real library up to a preemption bound",
       "Every schedule of each scenario with at most the stated number of preemptions at synchronisation operations and system calls is run on the real library and its outcome checked (sequential-consistency assumption; bounded scenarios).")
FLT = ("exhaustive fault enumeration on the real library: every single failure and every pair of failures of every call",
       "Every resource failure (and pair) at every system call and allocation reached by the scripts is injected; results, other registrations, the resource ledger and the retry are checked.")
SCHED = {"C16", "C17", "C20", "C21", "C23"}
m = {"version": 1, "setup_cmd": "./check --build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the machinery interposes at link time (ld --wrap). Every check rebuilds the library from /repo's working tree when it changed."}
for p in [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]:
    i = p["id"]
    t = FLT if i == "C19" else SCH if i in SCHED else SEQ
    m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": t[0], "level": "model_checking", "level_note": t[1]})
    assert i in JOBS
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
