#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = ("Contracts on the generated trait implementations (macro run from /repo's tree), discharged by Kani/CBMC over full-domain symbolic payload states, arguments and results; Verus contracts on the functions that make the implementations (uniform in any number of variants)",
     "Every generated method of every variant is checked against its forwarding contract for all payload states, arguments and results; enums with 3 variants (8 in the thorough tier and in native replays), buffers and strings up to 3 bytes. Trusts Kani, CBMC, rustc, parametricity in the payload type.")
T = ("Verus contracts on the functions of /repo/src, extracted mechanically on every run, every obligation discharged function by function; a bounded differential search of the real expander looks for a failing input")
N = ("For all inputs: every function of the macro that the property depends on is verified against its contract (loops by invariant, callers against callee contracts). "
     "Assumed: contracts of syn/quote/proc_macro2/std items, the extractor's rewrites (DESIGN.md), {}partial correctness only (termination and stack depth not proved). "
     "The search (seeded grammar, nesting depth 3) is bounded and supplies failing inputs; it counts as nothing proved.")
C = {p: K for p in ("C01", "C02", "C03", "C04", "C05", "C09")}
C = {k: ("proof",) + v for k, v in C.items()}
C["C06"] = ("proof", "Trait obligations quantified over all field types on the generated enums, discharged by rustc's trait solver and coherence checker",
            "For every pinned trait: Unpin provable iff every parameter is Unpin, user Unpin and Drop impls rejected; other traits unrestricted. Fixed enum shapes (2 and 4 variants). Trusts rustc.")
for p in ("C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"):
    C[p] = ("proof", T, N.format("what each trait's derive function emits (C01-C06 decide that), " if p in ("C07", "C08") else "that `syn`'s visitors reach what syn's fields hold, " if p == "C20" else ""))
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {p}",
                 "technique": t, "level": l, "level_note": n} for p, (l, t, n) in sorted(C.items())],
     "not_applicable": [], "notes": "No hooks in /repo. Findings: known-findings.txt. Design: DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
