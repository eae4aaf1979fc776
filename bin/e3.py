"""E3: the macro expander, built from /repo/src of the current tree, run against a declarative oracle.

It finds and replays failing inputs (the counterexamples a deductive verifier without models cannot
give), and stands in, labelled bounded, for what the proofs of E2 do not reach.
"""
import os, re, shlex, shutil
from concurrent.futures import ThreadPoolExecutor
from lib import *
import overlay
import e2

E3 = f"{VERIF}/e3"
TGT = f"{WORK}/e3target"
BIN = f"{TGT}/debug/e3"
ENV = {"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": TGT}
FOCUS = {
    "C07": ["derive 0"], "C08": ["derive 1"], "C10": ["branches", "plain"], "C11": ["loops"], "C12": ["returns"], "C13": ["tries"],
    "C14": ["diverge"], "C15": ["nested"], "C16": ["markers"], "C17": ["plain", "nested", "returns"], "C18": ["misuse"],
    "C19": ["enums", "plain"], "C20": ["types"],
}
N = {"quick": 60000, "thorough": 800000}
RULE = ("items built from a seeded grammar of annotated functions, closures, let bindings, expressions and argument lists; "
        "non-trivial: distinct, not rejected, and at least two branches are wrapped (derive: at least two names)")


def build():
    overlay.write_msrc()
    if not os.path.exists(f"{E3}/Cargo.lock"):
        shutil.copy("/opt/vp/ws/Cargo.lock", f"{E3}/Cargo.lock")
    rc, o, e = run(["cargo", "build"], cwd=E3, env=ENV)
    if rc != 0:
        raise Broken("the expander does not build: " + errors_of(e))


def one(kind, ta, args, inp):
    cmd = [BIN, "derive-one", args, inp] if kind == "derive" else [BIN, "one", str(ta), args, inp]
    return run(cmd, timeout=60)


def replay_cmd(pid, ta, args, inp):
    return f"python3 {VERIF}/bin/check.py {pid} --replay {'derive' if pid in ('C07', 'C08') else 'auto'} {ta} {shlex.quote(args)} {shlex.quote(inp)}"


def explore(c, n=None, keep=8, only=None, base=1):
    """Runs the property's generators; every disagreement is a violation with its input."""
    jobs = []
    n = n or N.get(TIER, N["quick"])
    for f in FOCUS[c.pid]:
        derive = f.startswith("derive")
        total = n // (4 if derive else 1) // len(FOCUS[c.pid])
        first = base + (SEED - 1) * 50_000_000
        step = max(1, total // 16)
        for k in range(16):
            jobs.append(([BIN] + (f.split() if derive else ["run", f]) + [str(first + k * step), str(step), "40"], f))
    c.cmds.append("e3 " + " ".join(jobs[0][0][1:]))
    found = []

    def go(j):
        return j, run(j[0], timeout=max(10, left() - 10))
    with ThreadPoolExecutor(8) as ex:
        for (cmd, f), (rc, o, e) in ex.map(go, jobs):
            for ln in o.splitlines():
                x = ln.split("\t")
                if x[0] == "FAIL" and len(x) >= 8:
                    found.append((len(x[4]), x))
                elif x[0] == "DONE":
                    c.add("evaluations", int(x[1]) + int(x[4]))
                    c.add("distinct_nontrivial", int(x[5]))
                    c.add("rejected_inputs_agreed", int(x[2]))
                elif x[0] == "UNJUDGED":
                    c.add("unjudged", 1)
                elif x[0] == "SAMPLE" and len(c.coverage.setdefault("samples", [])) < 4:
                    c.coverage["samples"].append(x[1])
            if rc is None:
                c.notes.append(f"{f}: out of time")
            elif rc == 101:
                # a panic of the code under test is caught and judged; this one is the search's own
                c.notes.append(f"{f}: the search itself failed ({' '.join(cmd[1:])}); its inputs were not judged")
            elif rc != 0:
                # the process died: find the input it died on
                c.violation(f"the expander dies ({f})", f"exit status {rc}: {e[-400:]}", " ".join(map(shlex.quote, cmd)))
    c.coverage["rule"] = RULE
    found.sort(key=lambda x: x[0])
    seen = set()
    for _, x in found:
        if (x[1], x[5][:60]) in seen or only and not only(x):
            continue
        seen.add((x[1], x[5][:60]))
        c.violation(f"{x[1]}: #[..({x[3]})] {x[4]}", f"{x[5]}\narguments: {x[3]}\ninput: {x[4]}\nexpected: {x[6]}\ngot: {x[7]}", replay_cmd(c.pid, x[2], x[3], x[4]))
        if len(seen) >= keep:
            break
    return bool(found)


def known_inputs(c):
    """The inputs of the recorded findings: they still fail (or the finding is gone)."""
    for k in load_known(c.pid):
        if "input" not in k:
            continue
        rc, o, e = run([BIN, "raw", str(k["ta"]), k["args"], k["input"]], timeout=60)
        bad = rc != 0 or ("must_match" in k and not re.search(k["must_match"], o)) or ("must_not_match" in k and re.search(k["must_not_match"], o))
        if bad:
            c.violation(k["key"], k["what"], replay_cmd(c.pid, k["ta"], k["args"], k["input"]))


def deterministic(c):
    """The same expansions in processes with different environments."""
    cmd = [BIN, "digest", "enums", "1", "1500"]
    outs = {run(cmd, cwd=d, env=v, timeout=200)[1].strip() for d, v in (("/", {}), ("/tmp", {"HOME": "/nonexistent", "X": "y" * 999, "TZ": "Asia/Tokyo"}), (E3, {"CARGO_PKG_NAME": "other"}))}
    c.add("processes_compared", 3)
    if len(outs) != 1:
        c.violation("the expansion differs between processes", f"digests: {sorted(outs)}", " ".join(cmd))


def known_keys(c):
    return {k["key"] for k in load_known(c.pid)}


def settle(c, reps, search):
    """Reports the obligations that fail, with a failing input where the search finds one."""
    failed = e2.report(c, reps)
    if failed:
        known = known_keys(c)
        if not any(b["key"] not in known for b in c.bad) and left() > 120:
            # the verifier gives no counterexample: look longer for one
            c.notes.append("an obligation fails: the search for a failing input was extended")
            search()
        new = [b for b in c.bad if b["key"] not in known]
        text = "\n\n".join(f"obligation of {k}: {m}\n{t}" for k, m, t, _ in failed)
        if new:
            for b in new:
                b["detail"] += "\n\nobligations that fail on this tree:\n" + text
        else:
            for k in sorted({k for k, _, _, _ in failed}):
                f = next(f for f in failed if f[0] == k)
                c.violation(f"obligation of {k}: {f[1]}", f[1] + "\n" + "\n\n".join(t for k2, _, t, _ in failed if k2 == k), e2.replay_cmd(f[3]), found=False)


def check(pid):
    c = Check(pid)
    if pid == "C06":
        import e6
        return e6.check(c)
    build()
    e2.build()
    units = e2.units_of(pid)
    with ThreadPoolExecutor(max(1, len(units))) as ex:
        proofs = [ex.submit(e2.prove, u) for u in units]
        explore(c)
        known_inputs(c)
        if pid == "C19":
            deterministic(c)
        reps = [p.result() for p in proofs]
    settle(c, reps, lambda: explore(c, n=N["quick"] * 6, base=7_000_000))
    c.trusted += ["the oracle /verif/e3/src/oracle.rs", "syn, quote and proc-macro2 (vendored)"]
    return c.finish("proof" if reps else "exploration")


def replay(pid, kind, ta, args, inp):
    build()
    rc, o, e = one(kind, ta, args, inp)
    print(o, e)
    return 1 if rc else 0
