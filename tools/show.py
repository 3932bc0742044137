#!/usr/bin/env python3
"""Prints a replay file: script, then the trace with the rejected event marked."""
import json
import sys
d = json.load(open(sys.argv[1]))
print(d.get("what"), d.get("module"), d.get("env"), d.get("args"))
if "script" in d:
    print(d["script"])
n = d.get("accepted_events", -1)
ev = d.get("trace", {}).get("ev", [])
full = len(sys.argv) > 2
for i, e in enumerate(ev):
    if not full and n >= 0 and (i < n - 60 or i > n + 6):
        continue
    print("%s%3d %-5s t%-2s %-8s %s -> %s %s" % (
        ">>" if i == n else "  ", i + 1, e.get("e"), e.get("t"), e.get("o", ""),
        [e[x] for x in "abc" if x in e], e.get("r"), e.get("s", "")))
