"""C06: obligations on the trait bounds of the generated implementations, quantified over every field
type and discharged by rustc's trait solver on the expansion of /repo's macro.

For every trait that is implemented through Pin<&mut Self>:
  unpin   for all A, B: Unpin, E<A, B>: Unpin                        has to be provable
  notA/B  for all A (B) not known to be Unpin, E<A, B>: Unpin        must not be provable (E0277)
  user    a user-written impl Unpin for E                            has to be rejected (E0119)
  drop    a user-written impl Drop for E                             has to be rejected (E0119)
and for the other traits a user-written Unpin or Drop implementation has to be accepted.
"""
import json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
from lib import *
import overlay
import e2

E6 = f"{VERIF}/e6"
TGT = f"{WORK}/e6target"
GROUPS = {
    "core": ("extern crate futures03_crate as futures;\nextern crate http_body1_crate as http_body;\nextern crate tokio1_crate as tokio;",
             ["Future", "Coroutine", "futures03::Stream", "futures03::Sink", "futures03::AsyncRead", "futures03::AsyncWrite", "futures03::AsyncSeek", "futures03::AsyncBufRead", "http_body1::Body",
              "tokio1::AsyncRead", "tokio1::AsyncWrite", "tokio1::AsyncSeek", "tokio1::AsyncBufRead"]),
    "tokio03": ("extern crate tokio03_crate as tokio;", ["tokio03::AsyncRead", "tokio03::AsyncWrite", "tokio03::AsyncSeek", "tokio03::AsyncBufRead"]),
    "tokio02": ("extern crate tokio02_crate as tokio;", ["tokio02::AsyncRead", "tokio02::AsyncWrite", "tokio02::AsyncSeek", "tokio02::AsyncBufRead"]),
}
FREE = ["Debug", "Display", "fmt::Write", "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Extend", "AsRef", "AsMut", "Deref", "DerefMut", "Index", "IndexMut", "RangeBounds",
        "Fn", "FnMut", "FnOnce", "Read", "BufRead", "Seek", "Write", "Error", "Transpose", "Clone", "PartialEq", "fmt::Binary", "fmt::LowerExp", "fmt::Pointer"]
# their methods take the enum by reference, so that an enum with Drop can have them
BYREF = ["Debug", "Display", "fmt::Write", "FusedIterator", "AsRef", "AsMut", "Deref", "DerefMut", "Index", "IndexMut", "RangeBounds", "Read", "BufRead", "Seek", "Write", "Error", "Clone", "PartialEq", "fmt::Binary", "fmt::Pointer"]
HEAD = "#![feature(coroutine_trait, fn_traits, unboxed_closures, trusted_len)]\n#![allow(dead_code, unused_imports, unused_variables, drop_bounds)]\n#![crate_type = \"lib\"]\n%s\nfn need<T: Unpin>() {}\n"
SHAPES = [  # (definition, type, generics for the universal statements, where; the parameters)
    ("enum E<A, B> { A(A), B(B) }", "E<A, B>", "", ["A", "B"]),
    ("pub enum E<A, B, C, D> where A: Sized { V0(A), V1(B), V2(C), V3(D) }", "E<A, B, C, D>", "", ["A", "B", "C", "D"]),
    ("enum E<A, B> { X(A), Y((u8, B)) }", "E<A, B>", "", ["A", "B"]),
]


def build():
    overlay.write_overlay()
    if not os.path.exists(f"{E6}/Cargo.lock"):
        shutil.copy("/opt/vp/ws/Cargo.lock", f"{E6}/Cargo.lock")
    rc, o, e = run(["cargo", "build", "--message-format=json"], cwd=E6, env={"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": TGT})
    ext = {}
    for ln in o.splitlines():
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get("reason") != "compiler-artifact":
            continue
        pid = d["package_id"]
        f = [x for x in d["filenames"] if x.endswith((".rlib", ".so"))]
        m = re.search(r"tokio[@#].*?(\d+)\.(\d+)\.\d+$", pid) or re.search(r"#tokio@(\d+)\.(\d+)\.", pid)
        if d["target"]["name"] == "tokio" and f:
            v = re.search(r"(\d+)\.(\d+)\.\d+[^/]*$", pid)
            ext["tokio1_crate" if v[1] == "1" else f"tokio0{v[2]}_crate"] = f[0]
        for n, k in (("futures_util", "futures03_crate"), ("http_body", "http_body1_crate"), ("auto_enums", "auto_enums")):
            if d["target"]["name"].replace("-", "_") == n and f:
                ext[k] = f[0]
    if rc != 0 or "auto_enums" not in ext:
        raise Broken("the macro does not build: " + errors_of(e) + errors_of(o)[:500])
    return ext


def rustc(ext, name, src):
    """[(code, line, message)] of the errors."""
    d = f"{WORK}/c06"
    os.makedirs(d, exist_ok=True)
    path = f"{d}/{name}.rs"
    with open(path, "w") as f:
        f.write(src)
    cmd = ["rustc", "--edition", "2021", "--emit=metadata", "--error-format=json", "-A", "warnings", "-o", f"{d}/{name}.rmeta", "-L", f"dependency={TGT}/debug/deps"]
    for k, v in ext.items():
        cmd += ["--extern", f"{k}={v}"]
    rc, o, e = run(cmd + [path], env={"RUSTUP_TOOLCHAIN": NIGHTLY}, timeout=120)
    errs = []
    for ln in e.splitlines():
        try:
            m = json.loads(ln)
        except ValueError:
            continue
        if m.get("level") == "error" and not m["message"].startswith("aborting"):
            errs.append(((m.get("code") or {}).get("code"), {s["line_start"] for s in m["spans"]} | {x["expansion"]["span"]["line_start"] for s in m["spans"] for x in [s] if x.get("expansion")}, m["message"], m.get("rendered", "")))
    if rc != 0 and not errs:
        raise Broken(f"rustc on {name}: {e[-500:]}")
    return errs, path, " ".join(cmd + [path])


class Prog:
    def __init__(self, head):
        self.lines = (HEAD % head).rstrip("\n").split("\n")
        self.want = []  # (first line, last line, code or None, what)

    def add(self, src, code, what):
        a = len(self.lines) + 1
        self.lines += src.split("\n")
        self.want.append((a, len(self.lines), code, what))


def check(c):
    ext = build()
    rng = random.Random(SEED)
    progs = []
    for g, (head, traits) in GROUPS.items():
        ok, un, co = Prog(head), Prog(head), Prog(head)
        lists = [t for t in traits]
        # together with others, in any order
        for _ in range(6 if TIER == "quick" else 60):
            l = [rng.choice(traits)] + rng.sample(["Debug", "Clone", "Iterator", "Display", "Error", "fmt::Write", "PartialEq"], rng.randint(1, 3))
            rng.shuffle(l)
            lists.append(", ".join(l))
        n = 0
        for l in lists:
            for s, (d, ty, _, ps) in enumerate(SHAPES if l in traits else SHAPES[:1]):
                n += 1
                mod = f"mod m{n} {{ use super::*; use auto_enums::enum_derive;\n#[enum_derive({l})] {d}"
                gen = ", ".join(ps)
                ok.add(f"{mod}\nfn all<{', '.join(p + ': Unpin' for p in ps)}>() {{ need::<{ty}>() }}\n}}", None, f"enum_derive({l}) {d}: Unpin when all fields are")
                un.add(mod, None, "definition")
                for p in ps:
                    un.add(f"fn without_{p.lower()}<{', '.join(q + (': Unpin' if q != p else '') for q in ps)}>() {{ need::<{ty}>() }}", "E0277", f"enum_derive({l}) {d}: not Unpin unless {p} is")
                un.add("}", None, "end")
                co.add(f"{mod}\nimpl<{gen}> Unpin for {ty} {{}}\n}}", "E0119", f"enum_derive({l}) {d}: a user-written Unpin impl is rejected")
                co.add(f"mod n{n} {{ use super::*; use auto_enums::enum_derive;\n#[enum_derive({l})] {d}\nimpl<{gen}> Drop for {ty} {{ fn drop(&mut self) {{}} }}\n}}", "E0119", f"enum_derive({l}) {d}: a user-written Drop impl is rejected")
        progs += [(f"{g}-unpin", ok), (f"{g}-notunpin", un), (f"{g}-coherence", co)]
    free = Prog("")
    for i, t in enumerate(FREE):
        free.add(f"mod u{i} {{ use super::*; use auto_enums::enum_derive;\n#[enum_derive({t})] enum E<A, B> {{ A(A), B(B) }}\nimpl<A, B> Unpin for E<A, B> {{}}\n}}", None, f"enum_derive({t}): a user-written Unpin impl is accepted")
        # nothing but the auto trait
        free.add(f"mod w{i} {{ use super::*; use auto_enums::enum_derive;\n#[enum_derive({t})] enum E<A, B> {{ A(A), B(B) }}\nfn all<A: Unpin, B: Unpin>() {{ need::<E<A, B>>() }}\n}}", None, f"enum_derive({t}): Unpin when the fields are")
    for i, t in enumerate(BYREF):
        if t != "FusedIterator":
            free.add(f"mod d{i} {{ use super::*; use auto_enums::enum_derive;\n#[enum_derive({t})] enum E<A, B> {{ A(A), B(B) }}\nimpl<A, B> Drop for E<A, B> {{ fn drop(&mut self) {{}} }}\n}}", None, f"enum_derive({t}): a user-written Drop impl is accepted")
    progs.append(("free", free))
    # the anonymous enums of #[auto_enum]: Unpin leaks through impl Trait exactly as the fields have it
    anon, anon_no = Prog(""), Prog("")
    f = "use auto_enums::auto_enum; use std::future::Future; fn is<T: Unpin>(_: T) {}\n#[auto_enum(Future)] fn pick<A: Future<Output = ()>, B: Future<Output = ()>>(c: bool, a: A, b: B) -> impl Future<Output = ()> { if c { a } else { b } }"
    anon.add(f + "\nfn all<A: Future<Output = ()> + Unpin, B: Future<Output = ()> + Unpin>(a: A, b: B) { is(pick(true, a, b)) }", None, "auto_enum(Future): Unpin when all branches are")
    anon_no.add(f, None, "definition")
    anon_no.add("fn one<A: Future<Output = ()>, B: Future<Output = ()> + Unpin>(a: A, b: B) { is(pick(true, a, b)) }", "E0277", "auto_enum(Future): not Unpin unless the first branch is")
    anon_no.add("fn two<A: Future<Output = ()> + Unpin, B: Future<Output = ()>>(a: A, b: B) { is(pick(true, a, b)) }", "E0277", "auto_enum(Future): not Unpin unless the second branch is")
    progs += [("anon", anon), ("anon-notunpin", anon_no)]

    def go(x):
        name, p = x
        return name, p, rustc(ext, name, "\n".join(p.lines) + "\n")
    with ThreadPoolExecutor(8) as ex:
        for name, p, (errs, path, cmd) in ex.map(go, progs):
            c.cmds.append(f"rustc {name}.rs")
            used = set()
            for a, b, code, what in p.want:
                if what in ("definition", "end"):
                    hit = [k for k, e in enumerate(errs) if any(a <= l <= b for l in e[1]) and e[0] not in ("E0277", "E0119")]
                    for k in hit:
                        used.add(k)
                        c.violation(f"{what}: {p.lines[b - 1]}", f"rejected: {errs[k][2]}\n{errs[k][3]}", cmd)
                    continue
                c.add("obligations")
                hit = [k for k, e in enumerate(errs) if any(a <= l <= b for l in e[1])]
                used |= set(hit)
                if code is None and hit:
                    c.violation(what, f"not provable: {errs[hit[0]][2]}\n{errs[hit[0]][3]}", cmd)
                elif code is not None and not any(errs[k][0] == code for k in hit):
                    c.violation(what, f"accepted by the compiler (expected {code})\n" + "\n".join(p.lines[a - 1:b]), cmd)
                else:
                    c.add("discharged")
            rest = [e for k, e in enumerate(errs) if k not in used]
            if rest and not c.bad:
                raise Broken(f"{name}: unexpected error {rest[0][2]} {rest[0][3][:600]}")
    c.trusted += ["rustc's trait solver and coherence checker (nightly-2025-03-20)", "the enumeration of traits implemented through Pin<&mut Self> (checked against the generated receivers by C07)"]
    import e3
    e3.build()
    e3.FOCUS["C06"] = ["derive 0"]
    with ThreadPoolExecutor(1) as ex:
        e2.build()
        proofs = [ex.submit(e2.prove, u) for u in e2.units_of("C06")]
        e3.explore(c, n=8000, only=lambda x: x[1] == "pin" or x[1] == "impls" and ("Unpin" in x[6]) != ("Unpin" in x[7]))
        reps = [p.result() for p in proofs]
    e3.settle(c, reps, lambda: None)
    return c.finish("proof")
