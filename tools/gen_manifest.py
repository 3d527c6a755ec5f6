#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties in properties.jsonl."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
EXH = "exhaustive enumeration of the real code's executions within bounds, compared with an independent reference model"
TECH = {
 "C09": "exhaustive exploration of call histories and geometries of real layers against a reference model",
 "C10": "exhaustive exploration of call histories and geometries of real layers against a reference model (transposed Jacobian)",
 "C11": "exhaustive exploration of call histories of real layers against a reference model of the accumulated gradients",
 "C12": "exhaustive exploration of call histories of real networks against a reference model",
 "C13": "exhaustive exploration of call histories of real networks with recording layers against the chain rule",
 "C14": "exhaustive exploration of call histories of real networks against a lifecycle state machine",
 "C15": "exhaustive exploration of save/load histories of real networks and layers against a reference model",
 "C16": "exhaustive enumeration of damage patterns of network files and serialized layers on the real loader",
 "C17": "exhaustive enumeration of damage patterns of tensor files on the real loader",
 "C18": "systematic exploration of operating-system answers (deviation-bounded) under an interposed libc",
 "C19": "exhaustive enumeration of files and field orders against an independent codec",
 "C20": "exhaustive enumeration of the random generator's answers through a scripted generator",
 "C22": "exhaustive enumeration of shapes, indices, words and window geometries against the definitions",
 "C23": "exhaustive exploration of call histories and failure sequences of real networks of scripted layers against a state model",
 "C24": "exhaustive exploration of call cycles, each repeated, with the held memory, open files and directory observed",
 "C25": "exhaustive enumeration of degenerate shapes, arguments and unconfigured layers on the real code against the definitions",
 "C26": "exhaustive exploration of crash points and torn writes of save histories under an interposed libc",
 "C21": "exhaustive interleaving exploration of two objects' call sequences under a controlled scheduler, a fresh process per schedule",
}
NOTE = "Every execution within the bounds listed in the evidence file (driver by driver) is run on the real code and compared with an independent reference model written in the harness; no sampling. Trusted: the reference model, the harness, the Rust toolchain. Says nothing about sizes, depths and values outside the stated bounds."
EXTRA = {
 "C24": " Growth is judged between three numbers of repetitions; growth that stops within them (caches, reserved capacity) is allowed.",
 "C26": " The process dies, not the machine: what was written stays, in order. Restoring the directory to that moment stands for the crash.",
 "C11": " Parameter gradients are read through a cfg-guarded accessor (no other access exists).",
 "C13": " Where the derivative does not exist (ties in a pooling window, kinks of the rectifier at inexact values) the library's choice is taken over.",
 "C18": " Patterns with more deviations from the default answer than the bound are not covered; allocation failure is not modelled.",
 "C20": " The harness links a copy of rand 0.8.5 whose thread-local generator returns scripted answers; if the fill does not draw from it, the range and coverage of the values are still checked on the answers it gives.",
 "C21": " Two threads hand control over between calls (and at every system call of saves and loads); data races inside a call are outside it (the crate has no unsafe code and no statics).",
}
fp = os.path.join(root, "mc", "hook_commits.txt")
hooks = open(fp).read().split() if os.path.exists(fp) else []
claimed = os.environ.get("CLAIM", "").split() or ids
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "cfg rn_mc", "enable": "RUSTFLAGS=\"--cfg rn_mc\" (check.sh builds the variant used by C11 that way)", "source_commits": hooks},
 "checks": [{
   "property": i,
   "quick_cmd": "VERIF_TIER=quick ./check.sh " + i,
   "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
   "evidence_file": "evidence/%s.json" % i,
   "technique": TECH.get(i, EXH),
   "level": "model_checking",
   "level_note": NOTE + EXTRA.get(i, ""),
 } for i in ids if i in claimed],
 "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in claimed],
 "notes": "check.sh rebuilds the harness crate (mc/) against /repo's working tree, explores, and writes evidence/<id>.json; a violation's execution is recorded in out/<id>.replay.json and repeated with ./check.sh replay <file>.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
