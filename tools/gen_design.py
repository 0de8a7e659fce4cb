#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.*.md, design_notes.json, the
scenario lists of the two programs (given as arguments: mc sched) and the planted bugs."""
import json, os, subprocess, sys, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = lambda f: open(os.path.join(root, "tools", f)).read()
notes = json.loads(T("design_notes.json"))
lists = {}
for i, prog in enumerate(sys.argv[1:3]):
    for l in subprocess.run([prog, "list"], capture_output=True, text=True).stdout.splitlines():
        p = l[:3]
        own = (p in ("C21", "C22", "C23", "C24", "C25", "C26", "C31")) == (i == 1)
        if own: lists.setdefault(p, []).append(l[4:])
out = [T("design.head.md")]
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    out.append("### %s – %s\n" % (i, p["title"]))
    out.append(notes[i] + "\n")
    try:
        e = json.load(open(os.path.join(root, "evidence", i + ".json")))
        c = e["coverage"]
        out.append("Cost (%s, 8 cores): %.0f s; %s executions, %s transitions.\n" % (e["tier"], e["wall_s"], c.get("traces_validated_against_impl", "?"), c.get("transitions", "?")))
    except (OSError, KeyError): pass
    seen = set()
    rows = []
    for s in lists.get(i, []):
        if len(s) > 240: s = s[:237] + "..."
        if "bytes over" in s and s.startswith("strings for") and i == "C05":
            if "strings" in seen: continue
            seen.add("strings"); s = "strings for each of 30 entry points: every string of up to 4 (thorough 5) bytes over its tags, lengths and markers"
        if i == "C29" and s.startswith("ops-"):
            if "ops" in seen: continue
            seen.add("ops"); s = "every sequence of 5 (thorough 7) reader operations on any live reader of 19 messages (nested, mixed length forms, empty, zeros, overrunning, unterminated, deep, long strings)"
        if i == "C19" and "-" in s.split(" ")[0]:
            k = s.split("-")[0]
            if k in seen: continue
            seen.add(k); s = k + " (five frames): " + s.split(" ", 1)[1]
        rows.append("* " + s)
    out.append("\n".join(rows) + "\n")
out.append("## 4. Planted bugs\n\nEach was written from a property and the code alone; `demo.sh` fails with it and passes without. Caught by the quick check of its property:\n")
caught = dict(l.split(None, 1) for l in T("caught.txt").splitlines() if l.strip())
out.append("| bug | property | needs | caught |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, "not run").strip()))
out.append(T("design.tail.md"))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
