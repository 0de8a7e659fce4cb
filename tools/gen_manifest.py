#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CHECKS lists the properties that are claimed."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
SEQ = "stateless model checking of the real code: exhaustive enumeration of bounded operation/input sequences, every step compared with a reference model"
FAULT = "exhaustive fault enumeration on the real code (every cut, substitution, insertion, loss within bounds) against a reference decoder"
SCHED = "stateless model checking of the real client under a controlled scheduler: all interleavings and environment choices up to a deviation bound, virtual time"
TECH = {"C05": FAULT, "C06": FAULT, "C19": FAULT}
for i in range(21, 27): TECH["C%d" % i] = SCHED
TECH["C31"] = SCHED + "; and every session, message pair and frame sequence within bounds compared with its run without logger"
TECH["C26"] = SCHED + "; every explored schedule monitored by the race detector with scheduler hand-offs invisible to it"
NOTE = {}
default_note = "Every execution within the bounds given in the evidence file is run on the real code built from the working tree; nothing beyond those bounds is claimed. Trusts the Go toolchain and the reference codecs/models in mc/ref and mc/checks."
sched_note = "Every schedule and environment behaviour within the deviation bound given in the evidence file is run on the real client code, whose goroutines, channels, locks, timers and sockets are redirected to a cooperative scheduler by a source rewrite at build time. Trusts that rewrite and the scripted peer."
CHECKS = os.environ.get("CHECKS", "").split() or open(os.path.join(root, "tools", "claimed.txt")).read().split()
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: checks use exported API, or rewrite the sources at build time through go build -overlay", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "quick and thorough run the same scenarios with different bounds; see DESIGN.md. replay.sh FILE re-runs a reported case."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, SEQ), "level": "model_checking",
            "level_note": NOTE.get(i, sched_note if TECH.get(i, "").startswith(SCHED) else default_note)})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
