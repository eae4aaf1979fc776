#!/usr/bin/env python3
"""Records the loops and hinted calls that the invariants in the contracts were written for (e2/shapes.json)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../bin"))
import e2
e2.build()
os.makedirs(e2.OUT, exist_ok=True)
out = {}
for u in e2.UNITS:
    st, msg = e2.extract(u, set(), set(), f"{e2.OUT}/shapes.rs")
    out[u] = {r["key"]: r["shape"] for r in st["functions"] if r["shape"] != "|"}
json.dump(out, open(f"{e2.VERIF}/e2/shapes.json", "w"), indent=1, sort_keys=True)
