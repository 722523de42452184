#!/usr/bin/env python3
"""BOUNDS.md from the evidence of the last quick runs:  python3 bounds.py"""
import json, glob
out = ["# Scenarios of the quick tier\n", "Written by bounds.py from evidence/*.json: what each check enumerates, completely, within which bounds.",
       "The thorough tier explores the same scenarios with longer histories and larger alphabets, and more of them.\n"]
for f in sorted(glob.glob("evidence/C*.json")):
    d = json.load(open(f))
    if d["tier"] != "quick":
        raise SystemExit(f + " is not of the quick tier")
    c = d["coverage"]
    out.append("## %s: %d executions, %d transitions\n" % (d["property"], c["traces_validated_against_impl"], c["transitions"]))
    out.append("| scenario | bounds | executions |\n|---|---|---|")
    for s in c["scenarios"]:
        out.append("| %s | %s | %d |" % (s["scenario"].replace("|", "\\|"), s["bounds"].replace("|", "\\|"), s["executions"]))
    out.append("")
open("BOUNDS.md", "w").write("\n".join(out))
