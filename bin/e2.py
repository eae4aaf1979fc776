"""E2: contracts on the functions of /repo/src, discharged by Verus (Z3).

Each run extracts the functions mechanically from /repo's current tree (e2/x), puts the contracts of
e2/contracts on them, and has Verus prove every obligation, function by function. A function whose new
text leaves the verifier's reach (unsupported construct, a loop without invariant, solver out of
resources) is `undecided`: its contract is then assumed for its callers, the run says so, and only the
bounded check of E3 stands in for it.
"""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from lib import *

E2 = f"{VERIF}/e2"
XBIN = f"{WORK}/e2t/debug/e2x"
DEPS = f"{WORK}/e2d/debug/deps"
OUT = f"{WORK}/e2"
VERUS_RUST = "1.98.1-x86_64-unknown-linux-gnu"
UNITS = {
    "auto_enum": {"contracts": ["syn", "auto_enum", "walks", "auto_enum.gen", "auto_enum.more"], "shards": 4,
                  "props": {"C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"}},
    "types": {"contracts": ["types"], "shards": 1, "props": {"C20"}},
    "impls": {"contracts": ["impls.gen", "impls"], "shards": 1, "props": {"C01", "C02", "C03", "C04", "C05", "C06", "C09"}},
    "derives": {"contracts": ["derives.gen", "derives"], "shards": 1, "props": {"C06", "C07", "C08"}},
}
SHAPES = json.load(open(f"{VERIF}/e2/shapes.json")) if os.path.exists(f"{VERIF}/e2/shapes.json") else {u: {} for u in UNITS}
# what Verus says when an obligation is not discharged (anything else: the text is not accepted)
OBLIGATION = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                        r"possible arithmetic|possible division|possible bit shift|decreases not satisfied|could not prove termination|"
                        r"unable to prove|index out of bounds|possible overflow|broadcast proof")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit")


def build():
    for d, env in (("x", {"CARGO_TARGET_DIR": f"{WORK}/e2t", "RUSTUP_TOOLCHAIN": NIGHTLY}),
                   ("deps", {"CARGO_TARGET_DIR": f"{WORK}/e2d", "RUSTUP_TOOLCHAIN": VERUS_RUST})):
        rc, o, e = run(["cargo", "build", "--locked"], cwd=f"{E2}/{d}", env=env)
        if rc != 0:
            raise Broken(f"e2/{d} does not build: " + errors_of(e))
    os.makedirs(OUT, exist_ok=True)


def extract(unit, ext, assume, path):
    u = UNITS[unit]
    cs = ",".join(f"{E2}/contracts/{c}.vrs" for c in u["contracts"])
    rc, o, e = run([XBIN, unit, cs, path] + sorted(ext), env={"E2_SRC": f"{REPO}/src", "E2_ASSUME": ",".join(sorted(assume))}, timeout=60)
    if rc != 0:
        return None, (e.strip().splitlines() or ["?"])[-1]
    return json.loads(o), ""


def owners(path):
    """line -> the function that the extractor put there."""
    own, cur = {}, None
    with open(path, encoding="utf-8") as f:
        for i, l in enumerate(f, 1):
            if l.startswith("//@begin "):
                cur = l[9:].strip()
            own[i] = cur
            if l.startswith("//@end"):
                cur = None
    return own


def verus(path, timeout):
    lib = {n: next(f"{DEPS}/{f}" for f in sorted(os.listdir(DEPS)) if f.startswith(f"lib{n}-") and f.endswith(".rlib")) for n in ("syn", "proc_macro2")}
    cmd = ["verus", path, "--edition", "2021", "-L", f"dependency={DEPS}", "--extern", f"syn={lib['syn']}", "--extern", f"proc_macro2={lib['proc_macro2']}",
           "--triggers-mode", "silent", "--no-trait-conflicts", "--output-json", "--time-expanded", "--multiple-errors", "2", "--rlimit", "40"]
    return cmd, run(cmd, cwd=OUT, timeout=timeout)


def problems(path, err, decls):
    """(function or None, message, text of the report) for each error."""
    own, out = owners(path), []
    for b in re.split(r"\n(?=error|warning|note: )", "\n" + err):
        b = b.strip("\n")
        if not b.startswith("error") or "aborting due to" in b.split("\n")[0]:
            continue
        m = re.search(r"--> \S+?:(\d+):\d+", b)
        key = own.get(int(m.group(1))) if m else None
        if key is None or key in decls:
            ks = [own.get(int(x)) for x in re.findall(r"^\s*(\d+) +[|/]", b, re.M)]
            key = next((k for k in ks if k and k not in decls), None) or (key if key not in decls else None)
        out.append((key, b.split("\n")[0].removeprefix("error: "), b))
    return out


def plan(unit, keys, n):
    """Balanced groups, by the times of an earlier run."""
    try:
        w = json.load(open(f"{E2}/weights.json"))
    except FileNotFoundError:
        w = {}
    g = [[0, []] for _ in range(n)]
    for k in sorted(keys, key=lambda k: -w.get(k, 0.3)):
        x = min(g, key=lambda x: x[0])
        x[0] += w.get(k, 0.3)
        x[1].append(k)
    return [set(x[1]) for x in g if x[1]]


def prove(unit, only=None):
    """Runs the verifier on the unit. Returns a report."""
    os.makedirs(OUT, exist_ok=True)
    n = UNITS[unit]["shards"]
    rep = {"unit": unit, "functions": {}, "failed": [], "undecided": {}, "smt_s": 0.0, "verified": 0, "errors": 0, "cmd": "", "why": "", "rewrites": {}, "skipped": [], "inlined": []}
    ext, why = set(), {}
    for _ in range(8):
        st, msg = extract(unit, ext, set(), f"{OUT}/{unit}.rs")
        if st is None:
            rep["why"] = f"the extractor rejects the source: {msg}"
            return rep
        rows = {r["key"]: r for r in st["functions"]}
        alien = [x for x in st["fail"] if "overrides a method" in x]
        if alien:
            rep["why"] = alien[0]
            return rep
        # invariants and hints are written for the loops and calls that the function had
        for k, r in rows.items():
            if r["shape"] != SHAPES.get(unit, {}).get(k, "|") and k not in ext and r["status"] == "contract":
                why[k] = f"its loops or hinted calls are others ({SHAPES.get(unit, {}).get(k, '|')} -> {r['shape']})"
                ext.add(k)
        if ext & {k for k, r in rows.items() if r["status"] == "contract"}:
            continue
        decls = {k for k, r in rows.items() if r["status"] == "decl"}
        todo = {k for k, r in rows.items() if r["status"] == "contract"}
        groups = plan(unit, todo, n)

        def go(i):
            p = f"{OUT}/{unit}_{i}.rs"
            extract(unit, ext, todo - groups[i], p)
            cmd, (rc, o, e) = verus(p, max(30, left() - 60))
            return i, p, cmd, rc, o, e
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(go, range(len(groups))))
        probs, again = [], False
        for i, p, cmd, rc, o, e in res:
            rep["cmd"] = " ".join(cmd)
            if rc is None:
                for k in groups[i]:
                    why[k] = "out of time"
                    ext.add(k)
                again = True
                continue
            for key, msg, text in problems(p, e, decls):
                if OBLIGATION.search(msg):
                    probs.append((key, msg, text))
                elif RLIMIT.search(msg):
                    if key:
                        why[key] = "solver out of resources"
                        probs.append((key, None, text))
                elif key in todo:
                    why[key] = f"not accepted by the verifier: {msg}"
                    ext.add(key)
                    again = True
                else:
                    rep["why"] = f"the extracted text is not accepted by the verifier: {msg}"
                    rep["text"] = text
                    return rep
            if rc != 0 and not problems(p, e, decls):
                rep["why"] = "the verifier fails: " + e.strip()[-300:]
                return rep
        if again:
            if all(rc is None for _, _, _, rc, _, _ in res):
                break
            continue
        # what was proved
        for i, p, cmd, rc, o, e in res:
            j = json.loads(o[o.index("{"):])
            v = j["verification-results"]
            # lemmas and type invariants are checked in each shard: counted once
            rep["verified"] += v["verified"] if i == 0 else len(groups[i]) - v["errors"]
            rep["errors"] += v["errors"]
            rep["smt_s"] += j.get("times-ms", {}).get("smt", {}).get("total", 0) / 1000
            if v["verified"] + v["errors"] < len(groups[i]):
                rep["why"] = "fewer functions verified than extracted"
                return rep
            for m in j["times-ms"]["smt"]["smt-run-module-times"]:
                for f in m.get("function-breakdown", []):
                    rep.setdefault("times", {})[f["function"]] = round(f["time"] / 1000, 2)
        out = {k for k, m, _ in probs if m is None}
        rep["failed"] = [(k, m, t) for k, m, t in probs if m is not None and k not in out]
        for k in out:
            why.setdefault(k, "solver out of resources")
        break
    rep["undecided"] = dict(why)
    for k, r in rows.items():
        if r["status"] == "undecided" and k not in why:
            rep["undecided"][k] = "; ".join(r["why"]) or "not accepted"
    bad = {k for k, _, _ in rep["failed"]}
    for k, r in rows.items():
        s = r["status"]
        if k in rep["undecided"]:
            s = "undecided"
        elif s == "contract":
            s = "failed" if k in bad else "proved"
        rep["functions"][k] = {"status": s, "props": r["props"]}
    rep.update(rewrites=st["rewrites"], skipped=st["skipped"], inlined=st["inlined"])
    if st["fail"]:
        rep["notes"] = [f"not extracted: {x}" for x in st["fail"]]
    return rep


def concerns(rep, pid, key):
    """Does the contract of this function bear on the property? Helpers (no property of their own) bear on all."""
    p = rep["functions"].get(key, {}).get("props", [])
    return not p or pid in p


def replay_cmd(cmd):
    return f"# builds the extractor, extracts the functions from /repo and writes the text that the verifier judged\npython3 {VERIF}/bin/e2.py\n{cmd}"


def units_of(pid):
    return [u for u, d in UNITS.items() if pid in d["props"]]


def report(c, reps):
    """Puts what was proved into the evidence; returns the failed obligations of the property."""
    cov, bad = c.coverage, []
    for rep in reps:
        if rep["why"]:
            c.notes.append(f"{rep['unit']}: nothing proved on this tree ({rep['why']}); the bounded check stands in")
            cov.setdefault("units_not_proved", []).append(rep["unit"])
            continue
        fs = {k: f for k, f in rep["functions"].items() if f["status"] != "decl" and concerns(rep, c.pid, k)}
        proved = sorted(k for k, f in fs.items() if f["status"] == "proved")
        cov.setdefault("functions_under_contract", []).extend(f"{rep['unit']}::{k}" for k in proved)
        c.add("obligations", rep["verified"] + rep["errors"])
        c.add("discharged", rep["verified"])
        c.add("solver_s", round(rep["smt_s"], 1))
        cov["back_end"] = "verus 0.2026.09.13 / Z3"
        cov.setdefault("rewrites_of_the_extraction", {})[rep["unit"]] = rep["rewrites"]
        cov.setdefault("inlined", []).extend(rep["inlined"])
        c.cmds.append(rep["cmd"])
        for k, f in fs.items():
            if f["status"] == "trusted":
                c.trusted.append(f"assumed contract: {k}")
            elif f["status"] == "undecided":
                c.notes.append(f"{k}: undecided ({rep['undecided'].get(k)}); its contract is assumed, the bounded check stands in")
                cov.setdefault("undecided", []).append(k)
        c.trusted += [f"outside: {s}" for s in rep["skipped"]]
        c.notes += rep.get("notes", [])
        for k, m, t in rep["failed"]:
            if k is None or concerns(rep, c.pid, k):
                bad.append((f"{rep['unit']}::{k or 'lemma'}", m, t, rep["cmd"]))
    return bad


if __name__ == "__main__":
    build()
    for u in UNITS:
        r = prove(u)
        print(u, r["why"] or f"{r['verified']} verified, {r['errors']} errors", r["undecided"] or "")
        for k, m, t in r["failed"]:
            print(f"{k}: {t}")
