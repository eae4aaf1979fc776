#!/usr/bin/env python3
"""What the proofs alone (no search) say of each planted bug: e2seeds.py [ids]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../bin"))
import e2, lib, time
V = e2.VERIF
e2.build()
T = "/tmp/e2seeds"
e2.OUT = f"{T}/out"
for d in sorted(os.listdir(f"{V}/seeded")):
    if len(sys.argv) > 1 and d not in sys.argv[1:]:
        continue
    meta = json.load(open(f"{V}/seeded/{d}/meta.json"))
    us = e2.units_of(meta["property"])
    if not us:
        continue
    shutil.rmtree(f"{T}/r", ignore_errors=True)
    os.makedirs(f"{T}/r")
    shutil.copytree("/repo/src", f"{T}/r/src")
    r = subprocess.run(["git", "apply", f"{V}/seeded/{d}/patch.diff"], cwd=f"{T}/r", capture_output=True, text=True)
    e2.REPO = f"{T}/r"
    lib.T0 = time.time()
    for u in us:
        rep = e2.prove(u)
        got = sorted({(k, m) for k, m, _ in rep["failed"] if k is None or e2.concerns(rep, meta["property"], k)}, key=str)
        oth = sorted({k for k, m, _ in rep["failed"]} - {k for k, _ in got}, key=str)
        print(f"{d:28} {meta['property']} {u}: {rep['why'] or ('FAILS ' + '; '.join(f'{k}: {m[:40]}' for k, m in got) if got else 'proved')}"
              + (" | undecided " + str(rep["undecided"])[:300] if rep["undecided"] else "") + (f" | other {oth}" if oth else ""), flush=True)
shutil.rmtree(T, ignore_errors=True)
