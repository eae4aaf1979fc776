"""E1: contracts on the implementations #[enum_derive] generates, discharged by Kani (CBMC).

One crate (/verif/e1), one binary per group of traits. The enum definitions in it carry
#[enum_derive(..)]; /repo's macro, built from the current tree, expands them, and Kani compiles and
verifies the expansion.
"""
import os, re
from concurrent.futures import ThreadPoolExecutor
from lib import *
import overlay

E1 = f"{VERIF}/e1"
BINS = {
    "C01": ["c01"], "C02": ["c02"], "C03": ["c03"],
    "C04": ["c04_core", "c04_futures03", "c04_tokio1", "c04_tokio03", "c04_tokio02", "c04_body"],
    "C05": ["c05_futures01", "c05_tokio01", "c05_rayon", "c05_serde"], "C09": ["c09"],
}


def native(b, wide=False):
    """Builds the replay binary; returns (path, error)."""
    tgt = f"{WORK}/e1n{'w' if wide else ''}"
    rc, o, e = run(["cargo", "build", "--features", b + (",wide" if wide else ""), "--bin", b], cwd=E1,
                   env={"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": tgt})
    if rc == 0:
        return f"{tgt}/debug/{b}", ""
    return None, e


def sample(c, b, path, n, seed, only=None, tag=""):
    """Runs the contracts natively on sampled inputs; reports failures. Returns names that failed."""
    rc, o, e = run([path, "sample", str(seed), str(n)] + ([only] if only else []), timeout=min(max(left(), 5), 240))
    bad = []
    for m in re.finditer(r"^FAILS (\S+) (\S*) (.*)$", o, re.M):
        bad.append(m[1])
        c.violation(f"{b}::{m[1]}", f"contract of {m[1]} ({b}): {m[3]}",
                    f"python3 {VERIF}/bin/check.py {c.pid} --replay {b}{tag} {m[1]} {m[2]}")
    m = re.search(r"^SAMPLED (\d+) (\d+)", o, re.M)
    if m:
        c.add("replayed_natively", int(m[1]))
    elif rc is None or rc not in (0, 1):
        c.notes.append(f"sampling {b}: no result ({rc}) {e[-200:]}")
        if rc is not None and rc < 0:
            c.violation(f"{b}::crash", f"the native run of {b} died with signal {-rc}", f"{path} sample {seed} {n}")
    return bad


def kani(c, b, feats="", extra=(), tgt=None, timeout=None, label=""):
    """Runs Kani on one binary. Returns {harness: (status, checks, failed descriptions)}."""
    cmd = ["cargo", "kani", "--features", b + feats, "--bin", b, "-j", "8", "--output-format=terse", *extra]
    rc, o, e = run(cmd, cwd=E1, env={"CARGO_TARGET_DIR": tgt or f"{WORK}/e1k"}, timeout=timeout)
    c.cmds.append("cd e1 && " + " ".join(cmd))
    res, cur = {}, {}
    for ln in o.splitlines():
        m = re.match(r"Thread (\d+): Checking harness (\S+?)\.\.\.", ln)
        if m:
            cur[m[1]] = m[2]
            last = m[1]
            res[m[2]] = ["none", 0, [], 0]
            continue
        m = re.match(r"Thread (\d+): *$", ln)
        if m:
            last = m[1]
            continue
        m = re.match(r"Checking harness (\S+?)\.\.\.", ln)
        if m:
            cur["-"] = m[1]
            last = "-"
            res[m[1]] = ["none", 0, [], 0]
            continue
        h = cur.get(last) if cur else None
        if not h:
            continue
        m = re.match(r" \*\* (\d+) of (\d+) failed", ln)
        if m:
            res[h][1], res[h][3] = int(m[2]), int(m[1])
        m = re.match(r"Failed Checks: (.*)", ln)
        if m:
            res[h][2].append(m[1].strip('" '))
        m = re.match(r" \*\* (\d+) of (\d+) cover properties satisfied", ln)
        if m and m[1] != m[2]:
            res[h][2].append(f"vacuous: {m[1]} of {m[2]} cover properties satisfied")
        m = re.match(r"VERIFICATION:- (\S+)", ln)
        if m:
            res[h][0] = m[1]
    return rc, res, o, e


SOFT = ("unwinding assertion", "is not currently supported", "vacuous", "unsupported", "reachability")


def playback(c, b, h):
    """Concrete values for a failed harness."""
    rc, o, e = run(["cargo", "kani", "--features", b, "--bin", b, "--exact", "--harness", h, "--output-format=terse",
                    "-Z", "concrete-playback", "--concrete-playback=print"], cwd=E1, env={"CARGO_TARGET_DIR": f"{WORK}/e1k"}, timeout=max(20, min(left(), 200)))
    for blk in o.split("```"):
        if "Check for `assertion`" in blk or "Check for" in blk and "`cover`" not in blk:
            return ["".join(f"{int(x):02x}" for x in re.findall(r"\d+", v)) for v in re.findall(r"vec!\[([\d, ]*)\]", blk)]
    return None


def check(pid):
    c = Check(pid)
    overlay.write_overlay()
    overlay.write_futures01()
    thorough = TIER == "thorough"
    c.trusted += ["Kani 0.68 (rustc MIR to goto translation) and CBMC 6.11 with its SAT back end",
                  "rustc's trait resolution and macro expansion",
                  "parametricity: a payload is reached by the generic generated code only through the trait, so a payload with arbitrary state and results stands for every payload type"]
    c.assumptions += ["Kani: the enum under contract has 3 variants (8 in the thorough tier and in the native runs of every tier); Verus: the functions that make the implementations treat any number of variants alike (unit impls)",
                      "buffers in the I/O contracts hold at most 3 bytes, strings at most 3; the number of elements an iterator payload feeds to a closure is 1 or 2; loops are unwound 6 times with the unwinding assertion checked",
                      "payload methods do not panic"]
    import e2
    import e3
    e2.build()
    # uniformity in the number of variants, proved on the functions that make the implementations
    pool = ThreadPoolExecutor(1)
    proof = pool.submit(e2.prove, "impls")
    for b in BINS[pid]:
        path, err = native(b)
        if not path:
            if not macro_builds():
                raise Broken("the macro crate does not build:\n" + errors_of(err))
            c.violation(f"{b}::compile", f"the generated implementations of {b} do not compile:\n{errors_of(err)}",
                        f"cd {E1} && RUSTUP_TOOLCHAIN={NIGHTLY} CARGO_NET_OFFLINE=true cargo build --features {b} --bin {b}")
            continue
        failed = set(sample(c, b, path, 20000 if thorough else 2000, SEED))
        wpath, err = native(b, True)
        if wpath:
            failed |= set(sample(c, b, wpath, 20000 if thorough else 2000, SEED, tag=",wide"))
        else:
            c.violation(f"{b}::compile-wide", f"the generated implementations of {b} do not compile for 8 variants:\n{errors_of(err)}",
                        f"cd {E1} && RUSTUP_TOOLCHAIN={NIGHTLY} CARGO_NET_OFFLINE=true cargo build --features {b},wide --bin {b}")
        runs = [("", (), "3 variants")]
        if thorough:
            runs += [(",wide", (), "8 variants"), (",dfcc", ("-Z", "function-contracts"), "3 variants, proof_for_contract with frame conditions")]
        for feats, extra, label in runs:
            rc, res, o, e = kani(c, b, feats, extra, timeout=left() if not feats else max(30, min(left() - 60, 1200)))
            want = re.findall(r"^(\S+)$", run([path, "list"])[1], re.M)
            if not res:
                c.notes.append(f"{b} ({label}): Kani gave no result: {errors_of(e, 6)}")
            for h in want:
                st = res.get(h + "::check", ["none", 0, [], 0])
                c.add("obligations", 1)
                c.add("kani_checks", st[1])
                if st[0] == "SUCCESSFUL" and not [x for x in st[2] if x.startswith("vacuous")]:
                    c.add("discharged", 1)
                    c.coverage.setdefault("functions_under_contract", []).append(f"{b}::{h}{feats}")
                    continue
                hard = [x for x in st[2] if not any(s in x for s in SOFT)]
                if st[0] != "FAILED" or not hard or feats:
                    if not (feats and h in failed):
                        c.notes.append(f"{b}::{h} ({label}): undecided by Kani ({st[0]} {st[2][:3]}); the native runs stand in (bounded)")
                    if not (feats == ",wide" and st[0] == "FAILED" and hard):
                        continue
                if h in failed:
                    continue
                tag = ",wide" if feats == ",wide" else ""
                more = set(sample(c, b, wpath if tag else path, 300000, SEED + 7, h, tag))
                if h in more:
                    failed.add(h)
                    continue
                vals = playback(c, b, h + "::check") if not tag else None
                if vals is not None:
                    rc2, o2, e2 = run([path, "replay", h, ",".join(vals)], timeout=60)
                    if rc2 == 1 and "FAILS" in o2:
                        failed.add(h)
                        c.violation(f"{b}::{h}", f"contract of {h} ({b}): {o2.strip()}", f"python3 {VERIF}/bin/check.py {pid} --replay {b} {h} {','.join(vals)}")
                        continue
                failed.add(h)
                c.violation(f"{b}::{h}", f"obligation {b}::{h}::check failed ({label}): {'; '.join(hard)}\n" + "\n".join(o.splitlines()[-60:]),
                            c.cmds[-1], found=False)
    if c.coverage["discharged"] < c.coverage["obligations"] and not c.bad:
        c.notes.append("some obligations were not discharged; see notes")
    e3.settle(c, [proof.result()], lambda: None)
    return c.finish("proof")




def macro_builds():
    rc, o, e = run(["cargo", "build", "--manifest-path", f"{WORK}/overlay/Cargo.toml", "--target-dir", f"{WORK}/ovl"],
                   env={"RUSTUP_TOOLCHAIN": NIGHTLY})
    return rc == 0


def replay(pid, spec, h, vals=""):
    overlay.write_overlay()
    overlay.write_futures01()
    b, _, w = spec.partition(",")
    path, err = native(b, bool(w))
    if not path:
        print(errors_of(err))
        return 1
    rc, o, e = run([path, "replay", h, vals])
    print(o, e)
    return rc
