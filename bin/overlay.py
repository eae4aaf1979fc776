"""Writes .work/overlay/Cargo.toml: the manifest of /repo's crate, with git-only parts left out.

Everything (features, dependencies) is read from /repo/Cargo.toml as it is now, and the library
path points at /repo/src/lib.rs, so that whatever is built from it is built from /repo's sources.
Left out: dev-dependencies (two of them have a git source), the workspace and the lints.
"""
import glob, json, os, re, tomllib

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")


def value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {value(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(map(value, v)) + "]"
    return json.dumps(v)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def manifest():
    with open(f"{REPO}/Cargo.toml", "rb") as f:
        return tomllib.load(f)


def write_overlay():
    m = manifest()
    pkg = {k: v for k, v in m["package"].items() if k in ("name", "version", "edition", "rust-version")}
    out = ["[package]"] + [f"{k} = {value(v)}" for k, v in pkg.items()]
    out += ["autotests = false", "autoexamples = false", "autobenches = false", "autobins = false", "build = false"]
    out += ["", "[lib]", 'proc-macro = true', f'path = "{REPO}/src/lib.rs"']
    for table in ("features", "dependencies"):
        out += ["", f"[{table}]"] + [f"{json.dumps(k)} = {value(v)}" for k, v in m.get(table, {}).items()]
    write_if_changed(os.path.join(WORK, "overlay", "Cargo.toml"), "\n".join(out) + "\n")
    return m


def write_futures01():
    """Copies the vendored futures 0.1 crate to .work/futures01 for Kani.

    Kani replaces assert!, panic! and unreachable! of std by its own; futures 0.1, a no_std crate,
    glob-imports the std prelude and then finds two of each. The copy imports by name what it needs
    of that prelude. Nothing else of it is changed.
    """
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = sorted(glob.glob(f"{home}/registry/src/*/futures-0.1.*"))[-1]
    dst = os.path.join(WORK, "futures01")
    for d, _, files in os.walk(src):
        rel = os.path.relpath(d, src)
        if rel.split(os.sep)[0] not in (".", "src"):
            continue
        for f in files:
            if not (f.endswith(".rs") or f == "Cargo.toml"):
                continue
            t = open(os.path.join(d, f), encoding="utf-8").read()
            t = t.replace("use std::prelude::v1::*;", "#[allow(unused_imports)] use std::{vec::Vec, boxed::Box, string::String};")
            write_if_changed(os.path.join(dst, rel, f), t)


def write_msrc():
    """Copies /repo/src to .work/msrc as an ordinary library, so that the two attribute functions
    can be called on token streams.

    The only changes are made in lib.rs: `proc_macro::TokenStream` becomes
    `proc_macro2::TokenStream` and the attribute `#[proc_macro_attribute]` goes away. Two packages
    share the sources: msrc (all features but type_analysis) and msrc_ta (all features).
    """
    m = manifest()
    dst = os.path.join(WORK, "msrc", "src")
    seen = set()
    for d, _, files in os.walk(f"{REPO}/src"):
        for f in files:
            t = open(os.path.join(d, f), encoding="utf-8").read()
            rel = os.path.relpath(os.path.join(d, f), f"{REPO}/src")
            if rel == "lib.rs":
                t = re.sub(r"\bproc_macro::", "proc_macro2::", t)
                t = re.sub(r"extern crate proc_macro;", "", t)
                t = t.replace("#[proc_macro_attribute]", "")
            seen.add(rel)
            write_if_changed(os.path.join(dst, rel), t)
    for d, _, files in os.walk(dst):
        for f in files:
            if os.path.relpath(os.path.join(d, f), dst) not in seen:
                os.remove(os.path.join(d, f))
    feats = [f for f in m.get("features", {}) if f != "default"]
    for name, ta in (("msrc", False), ("msrc_ta", True)):
        on = [f for f in feats if ta or f != "type_analysis"]
        out = ["[package]", f'name = "{name}"', 'version = "0.0.0"', f'edition = {json.dumps(m["package"].get("edition", "2021"))}', "autotests = false", "autobins = false", "autoexamples = false", "autobenches = false",
               "", "[lib]", f'path = "{dst}/lib.rs"', "", "[features]", f"default = {json.dumps(on)}"]
        out += [f"{json.dumps(k)} = {value(v)}" for k, v in m.get("features", {}).items() if k != "default"]
        out += ["", "[dependencies]"] + [f"{json.dumps(k)} = {value(v)}" for k, v in m.get("dependencies", {}).items()]
        out += ["", "[lints.rust]", 'unexpected_cfgs = "allow"']
        write_if_changed(os.path.join(WORK, name, "Cargo.toml"), "\n".join(out) + "\n")


if __name__ == "__main__":
    write_msrc()
    write_overlay()
    write_futures01()
