#!/usr/bin/env python3
"""Writes spec/DefaultCdfs.json from a recording of the cdftab driver (done once, on the repaired tree)."""
import json, sys
tabs = {}
for l in open(sys.argv[1]):
    c = json.loads(l)
    tabs.setdefault(c["in"]["Field"], {})[c["in"]["Q"]] = c["out"]["tab"]
out = {}
for f, v in tabs.items():
    sets = [v[q] for q in (20, 60, 120, 255)]
    assert v[0] == v[20] and v[21] == v[60] and v[61] == v[120] and v[121] == v[255], f
    out[f] = sets[:1] if all(s == sets[0] for s in sets) else sets
json.dump(out, open(sys.argv[2], "w"), separators=(",", ":"))
