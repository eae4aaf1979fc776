//! Annotated items, generated from a seed. `Focus` selects what a property is about; every item is
//! built as source text.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T: ?Sized>(&mut self, x: &[&'a T]) -> &'a T { x[self.below(x.len())] }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus { Branches, Loops, Returns, Tries, Diverge, Nested, Markers, Plain, Misuse, Enums, Types }

pub struct Gen { pub r: Rng, pub f: Focus, depth: usize, scope: usize, markers: Vec<String>, labels: Vec<&'static str>, in_loop: bool, never: bool, n: usize, in_nested: bool }

const TRAITS: &[&str] = &["Iterator", "io::Read, fmt::Write", "Error, Clone, Copy, FnMut", "Debug", "fmt::Debug", "Clone", "fmt :: Display", "Foo", "a::b::Bar", "::core::fmt::Debug", "Iterator, Clone", "Debug, Foo, Clone", "DoubleEndedIterator, Iterator"];
const LABELS: &[&str] = &["'a", "'b", "'c"];

impl Gen {
    pub fn new(seed: u64, f: Focus) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03 | 1);
        for _ in 0..4 { r.next(); }
        Gen { r, f, depth: 0, scope: 0, markers: vec![], labels: vec![], in_loop: false, never: false, n: 0, in_nested: false }
    }
    fn atom(&mut self) -> String { self.n += 1; match self.r.below(7) { 0 => format!("f{}()", self.n), 1 => format!("x{}", self.n), 2 => format!("{}", self.n), 3 => format!("g{}(a, b)", self.n), 4 => format!("s{} + {}", self.n, self.n), 5 => format!("S{} {{ a: 1 }}.go()", self.n).replace("S", "t").replace(" { a: 1 }", ""), _ => format!("[{}]", self.n) } }
    fn weight(&self, f: Focus, on: usize, off: usize) -> usize { if self.f == f { on } else { off } }

    /// An expression in value position; `d` bounds the nesting.
    pub fn expr(&mut self, d: usize) -> String {
        let e = self.expr0(d);
        // attributes on expressions that take them in front
        if self.r.one_in(14) && simple_head(&e) { return format!("#[allow(unused)] {e}"); }
        e
    }
    fn leaf(&mut self) -> String {
        use Focus::*;
        let k = match self.f { Diverge => self.r.below(30), Returns => [0, 0, 8, 8, 9, 21][self.r.below(6)], Tries => [0, 0, 12, 12, 12, 14, 21, 13][self.r.below(8)], Loops => [0, 0, 10, 10, 11, 10, 1][self.r.below(7)], Markers => [0, 0, 20, 20, 20, 22, 8, 12][self.r.below(8)], _ => if self.r.one_in(3) { self.r.below(30) } else { 0 } };
        let a = self.atom();
        match k {
            1 => "panic!()".into(), 2 => "unreachable!(\"x\")".into(), 3 => "std::panic!()".into(), 4 => "core::unreachable!()".into(),
            5 => "foo::panic!()".into(), 6 => "::std::panic!()".into(), 7 => "todo!()".into(),
            8 => { let v = match self.r.below(10) { 0 | 1 => self.marker(), 2 if !self.in_nested => format!("#[nested] match x {{ 1 => {a}, 2 => panic!(), _ => {{ q({a}) }} }}"), _ => a }; format!("return {v}") } 9 => "return".into(),
            10 => self.brk(), 11 => if self.in_loop { "continue".into() } else { a },
            12 => format!("{a}?"), 13 => "None?".into(), 14 => format!("Err({a})?"), 15 => format!("Some({a})?"), 16 => format!("Err({a}, 1)?"),
            17 => "std::option::Option::None?".into(), 18 => format!("core::result::Result::Err({a})?"), 19 => format!("foo::Err({a})?"),
            20 | 21 => self.marker(),
            22 => format!("other!({a})"),
            23 => "option::Option::None?".into(), 24 => format!("std::Err({a})?"),
            25 => format!("panic!().go({a})"), 26 => "vec![1, 2]".into(), 27 => format!("Ok({a})?"), 28 => "Err()?".into(), 29 => "std::rt::panic!()".into(),
            _ => a,
        }
    }
    fn marker(&mut self) -> String {
        // the default name is only used where it means the own scope
        let a = self.atom();
        match self.markers.last().cloned() {
            Some(m) => { let at = if self.f == Focus::Markers && self.r.one_in(4) { "#[cfg(all())] " } else { "" }; if self.never { format!("{at}{a}") } else { format!("{at}{m}!({a})") } }
            None => a,
        }
    }
    fn brk(&mut self) -> String {
        let label = if !self.labels.is_empty() && self.r.one_in(2) { Some(self.labels[self.r.below(self.labels.len())]) } else { None };
        if label.is_none() && !self.in_loop { return self.atom(); }
        let v = match self.r.below(9) { 0 => String::new(), 8 if !self.in_nested => format!("#[nested] if n {{ {} }} else {{ {} }}", self.atom(), self.atom()), 1 if self.f == Focus::Markers || self.f == Focus::Loops => self.marker(), _ => self.atom() };
        format!("break {} {}", label.unwrap_or(""), v).replace("  ", " ")
    }
    fn expr0(&mut self, d: usize) -> String {
        if d == 0 { return self.leaf(); }
        use Focus::*;
        let mut w = vec![
            (self.weight(Branches, 6, 3), 0), (self.weight(Branches, 6, 4), 1), (self.weight(Loops, 8, 1), 2), (2, 3), (1, 4), (2, 5), (2, 6), (self.weight(Diverge, 6, 4), 7),
            (self.weight(Nested, 4, 1), 8), (self.weight(Loops, 3, 1), 9), (self.weight(Loops, 3, 1), 10), (self.weight(Loops, 3, 1), 11), (1, 12), (1, 13), (1, 14), (1, 15),
            (self.weight(Enums, 4, 1), 16), (1, 17), (1, 18),
        ];
        if self.scope >= 2 { w.retain(|x| x.1 != 16); }
        let total: usize = w.iter().map(|x| x.0).sum();
        let mut k = self.r.below(total);
        let mut c = 0;
        for (n, i) in w { if k < n { c = i; break; } k -= n; }
        match c {
            0 => self.match_(d),
            1 => self.if_(d),
            2 => { let l = self.label(); self.loop_(d, "loop", l) }
            3 => { let b = self.block(d); b }
            4 => { let b = self.block(d); format!("unsafe {b}") }
            5 => format!("({})", self.expr(d - 1)),
            6 => { let e = self.receiver(d); let a = self.leaf_plain(); format!("{e}.m({a})") }
            7 => self.leaf(),
            8 if self.f == Nested || self.r.one_in(3) => { let e = self.nested_target(d); format!("{{ #[nested] {e} }}") }
            8 => self.leaf(),
            9 => { let l = self.label(); let h = self.atom(); self.loop_(d, &format!("while {h}"), l) }
            10 => { let l = self.label(); let h = if self.r.one_in(5) { let b = self.brk(); format!("(if q {{ {b} }} else {{ {} }})", self.atom()) } else { self.atom() }; self.loop_(d, &format!("for x in {h}"), l) }
            11 => { let l = LABELS[self.r.below(3)]; self.labels.push(l); let b = self.block(d); self.labels.pop(); format!("{l}: {b}") }
            12 => { let (l, i) = (std::mem::take(&mut self.labels), std::mem::replace(&mut self.in_loop, false)); let b = self.expr(d - 1); self.labels = l; self.in_loop = i; let m = if self.r.one_in(2) { "move " } else { "" }; format!("({m}|y| {{ {b} }})") }
            13 => { let (l, i) = (std::mem::take(&mut self.labels), std::mem::replace(&mut self.in_loop, false)); let b = self.block(d); self.labels = l; self.in_loop = i; format!("async {b}") }
            14 => { let e = self.expr(d - 1); format!("h({e})") }
            15 => { let e = self.expr(d - 1); format!("{{ #[never] {{ {e} }} }}") }
            16 => self.child(d),
            17 => format!("try {}", self.block(d)),
            _ => { let e = self.expr(d - 1); let f = self.atom(); format!("(1, {e}, {f})") }
        }
    }
    fn leaf_plain(&mut self) -> String { if self.r.one_in(2) { self.leaf() } else { self.atom() } }
    fn receiver(&mut self, d: usize) -> String { match self.r.below(4) { 0 => self.match_(d), 1 => format!("({})", self.expr(d - 1)), 2 => self.block(d), _ => { self.n += 1; format!("r{}()", self.n) } } }
    fn label(&mut self) -> Option<&'static str> { if self.r.one_in(2) { Some(LABELS[self.r.below(3)]) } else { None } }
    fn loop_(&mut self, d: usize, head: &str, l: Option<&'static str>) -> String {
        let was = std::mem::replace(&mut self.in_loop, true);
        if let Some(l) = l { self.labels.push(l); }
        let b = self.block(d);
        if l.is_some() { self.labels.pop(); }
        self.in_loop = was;
        match l { Some(l) => format!("{l}: {head} {b}"), None => format!("{head} {b}") }
    }
    fn match_(&mut self, d: usize) -> String {
        let s = if self.r.one_in(8) { self.leaf() } else { self.atom() };
        let s = if simple_head(&s) && !s.starts_with("return") && !s.starts_with("break") { format!("({s})") } else { "x".into() };
        let n = match self.r.below(8) { 0 => 1, 1..=4 => 2, 5 | 6 => 3, _ => 4 };
        let mut o = format!("match {s} {{ ");
        for i in 0..n {
            let at = match self.r.below(14) { 0 => "#[never] ", 1 => "#[cfg(all())] ", 2 if self.f == Focus::Nested || self.r.one_in(4) => "#[nested] ", 3 => if self.f == Focus::Nested { "#[cfg(all())] #[nested] " } else { "" }, _ => "" };
            let g = if self.r.one_in(6) { " if q" } else { "" };
            let e = if at.contains("nested") { self.nested_target(d) } else { self.expr(d - 1) };
            let c = if e.ends_with('}') && self.r.one_in(2) && (e.starts_with('{') || e.starts_with("match")) { "" } else { "," };
            o += &format!("{at}{}{g} => {e}{c} ", if i + 1 == n { "_".to_string() } else { format!("Some({i})") });
        }
        o + "}"
    }
    fn if_(&mut self, d: usize) -> String {
        let h = if self.r.one_in(4) { "let Some(x) = y".to_string() } else { self.n += 1; format!("c{}", self.n) };
        let mut o = format!("if {h} {}", self.if_block(d));
        for _ in 0..self.r.below(3) / 2 { o += &format!(" else if d {}", self.if_block(d)); }
        let last = self.r.below(if self.f == Focus::Misuse { 6 } else { 25 });
        if last > 0 { o += &format!(" else {}", self.if_block(d)); }
        o
    }
    fn if_block(&mut self, d: usize) -> String {
        if self.f == Focus::Nested && self.r.one_in(4) { let e = self.nested_target(d); let s = self.stmts(d); return format!("{{ {s} #[nested] {e} }}"); }
        self.block(d)
    }
    fn nested_target(&mut self, d: usize) -> String { let was = std::mem::replace(&mut self.in_nested, true); let d = d.max(1); let e = match self.r.below(6) { 0 | 1 => self.match_(d), 2 => self.if_(d), 3 if self.f == Focus::Nested => { let l = self.label(); self.loop_(d, "loop", l) } 4 => self.block(d), _ => self.match_(d) }; self.in_nested = was; e }
    pub fn stmts(&mut self, d: usize) -> String {
        let mut o = String::new();
        for _ in 0..[0, 0, 0, 1, 1, 2][self.r.below(6)] { o += &self.stmt(d.saturating_sub(1)); o += " "; }
        o
    }
    fn stmt(&mut self, d: usize) -> String {
        self.n += 1;
        let n = self.n;
        match self.r.below(16) {
            0 | 1 => format!("let v{n} = {};", self.expr(d)),
            2 => format!("#[cfg(all())] let mut v{n}: u8 = {};", self.expr(d)),
            3 => format!("fn i{n}() -> u8 {{ return 1 }}"),
            4 => format!("mac{n}! {{ return a }}"),
            5 => format!("let v{n};"),
            6 if d > 0 && self.f == Focus::Nested || d > 0 && self.r.one_in(3) => { let e = self.nested_target(d.max(1)); format!("#[nested] let v{n} = {e};") }
            7 if d > 0 && self.scope < 2 && (self.f == Focus::Enums || self.f == Focus::Markers || self.r.one_in(3)) => self.child_let(d.max(1)),
            8 => format!("#[never] let v{n} = {};", self.expr(d)),
            9 => "struct T { a: u8 }".into(),
            10 => format!("let Some(v{n}) = {} else {{ {} }};", self.atom(), self.expr(d)),
            11 => format!("use a::b{n};"),
            12 if self.f == Focus::Enums || self.f == Focus::Markers => format!("#[never] {};", self.expr_block_like(d)),
            _ => { let e = self.expr(d); if e.starts_with('#') { format!("let _ = 1; {e};") } else { format!("{e};") } }
        }
    }
    fn expr_block_like(&mut self, d: usize) -> String { self.block(d) }
    pub fn block(&mut self, d: usize) -> String {
        let s = self.stmts(d);
        match self.r.below(12) {
            0 => format!("{{ {s} }}"),
            1 => format!("{{ {s} {}; }}", self.leaf()),
            2 => { let e = self.leaf(); self.n += 1; format!("{{ {s} let z{} = {e}; }}", self.n) }
            3 => format!("{{ {s} fn last() {{}} }}"),
            _ => format!("{{ {s} {} }}", self.expr(d.saturating_sub(1))),
        }
    }

    // ---- types ----
    fn bound(&mut self, d: usize) -> String {
        const ALL: &[&str] = &["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "AsRef<u8>", "AsMut<u8>", "Debug", "fmt::Debug", "Display", "fmt::Display", "fmt::Binary", "fmt::LowerExp", "fmt::LowerHex", "fmt::Octal", "fmt::Pointer", "fmt::UpperExp", "fmt::UpperHex", "fmt::Write", "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Extend<u8>", "Deref", "DerefMut", "Index<u8>", "IndexMut<u8>", "RangeBounds<u8>", "Fn(u8) -> u8", "FnMut(u8)", "FnOnce() -> u8", "Coroutine<u8>", "Future", "Read", "io::Read", "BufRead", "io::BufRead", "Write", "io::Write", "Seek", "io::Seek", "Error", "error::Error",
            "Transpose", "Foo", "Send", "Sync", "?Sized", "'static", "'l", "std::fmt::Debug", "::core::fmt::Debug", "Binary", "fmt::Iterator", "iter::Iterator", "serde::Serialize", "rayon::ParallelIterator", "futures03::Stream", "AsyncRead", "hash::Hash", "io::Error", "Debug::fmt", "fmt", "Default", "ToString", "Into<u8>", "debug", "Iter", "core::Clone", "for<'a> Fn(&'a u8) -> u8", "(Clone)", "use<'l, T>", "~const Clone", "~const Foo"];
        let b = self.r.pick(ALL).to_string();
        if d > 0 && self.r.one_in(3) {
            let t = self.ty(d - 1);
            let base = b.split(['<', '(', ' ']).next().unwrap_or("Foo").to_string();
            if base.chars().next().is_some_and(|c| c.is_alphabetic()) && !base.contains("use") {
                return match self.r.below(4) { 0 => format!("{base}<{t}>"), 1 => format!("{base}<Item = {t}>"), 2 if base.starts_with("Fn") => format!("{base}({t}) -> {t}"), _ => format!("{base}<u8, Output = {t}>") };
            }
        }
        b
    }
    fn ty(&mut self, d: usize) -> String {
        let k = if self.r.one_in(2) { 0 } else { self.r.below(16) };
        match k {
            0 | 1 | 2 => { let n = 1 + self.r.below(3); let mut b: Vec<String> = (0..n).map(|_| self.bound(d)).collect(); if self.r.one_in(6) { let x = b[0].clone(); b.push(x); } format!("impl {}", b.join(" + ")) }
            _ if d == 0 => "u8".into(),
            3 => format!("Option<{}>", self.ty(d - 1)), 4 => format!("Result<{}, {}>", self.ty(d - 1), self.ty(d - 1)), 5 => format!("({}, {})", self.ty(d - 1), self.ty(d - 1)), 6 => format!("[{}; 2]", self.ty(d - 1)),
            7 => format!("&'static ({})", self.ty(d - 1)), 8 => format!("Box<dyn Fn({}) -> {}>", self.ty(d - 1), self.ty(d - 1)), 9 => format!("fn({}) -> {}", self.ty(d - 1), self.ty(d - 1)), 10 => format!("*const {}", self.ty(d - 1)).replace("*const impl", "*const u8; impl").split(';').next().unwrap().to_string(),
            11 => format!("<{} as A<{}>>::B", self.ty(d - 1), self.ty(d - 1)), 12 => format!("a::B<{}>::C<'l, {}>", self.ty(d - 1), self.ty(d - 1)), 13 => format!("dyn A<B = {}>", self.ty(d - 1)), 14 => format!("({})", self.ty(d - 1)), _ => format!("Vec<{}>", self.ty(d - 1)),
        }
    }
    // ---- scopes ----
    fn args(&mut self, inner: bool) -> String {
        let mut t = self.r.pick(TRAITS).to_string();
        if !inner || self.r.one_in(2) { t = match self.r.below(4) { 0 => t, _ => "Debug".into() }; }
        t
    }
    /// An expression with an `#[auto_enum]` of its own.
    fn child(&mut self, d: usize) -> String {
        let (a, e) = self.child_parts(d);
        format!("{{ #[auto_enum({a})] {e} }}")
    }
    fn child_parts(&mut self, d: usize) -> (String, String) {
        self.scope += 1;
        let t = self.args(true);
        let parent_default = self.markers.last().is_some_and(|m| m == "marker");
        // `marker` in a scope below a default-named one always is a scope's own
        let own = if parent_default && self.r.one_in(2) { "marker".to_string() } else if self.f == Focus::Misuse && self.r.one_in(4) { self.markers.last().cloned().unwrap_or("m0".into()) } else { format!("m{}", self.scope) };
        let a = if own == "marker" && !(self.f == Focus::Misuse && self.r.one_in(2)) { t } else { format!("{t}, marker = {own}") };
        self.markers.push(own);
        let was = (std::mem::take(&mut self.labels), std::mem::replace(&mut self.in_loop, false), std::mem::replace(&mut self.in_nested, false));
        let e = match self.r.below(5) { 0 => self.if_(d), 1 => { let l = self.label(); self.loop_(d, "loop", l) } 2 => format!("|y| {{ {} }}", { let s = self.stmts(d); let e = self.match_(d); format!("{s} {e}") }), _ => self.match_(d) };
        (self.labels, self.in_loop, self.in_nested) = was;
        self.markers.pop();
        self.scope -= 1;
        (a, e)
    }
    fn child_let(&mut self, d: usize) -> String {
        let (a, e) = self.child_parts(d);
        self.n += 1;
        match self.r.below(6) { 0 => format!("#[auto_enum({a})] {e};"), 1 => format!("#[auto_enum] let w{} = {e};", self.n), _ => format!("#[auto_enum({a})] let w{} = {e};", self.n) }
    }

    /// `(arguments, item)`
    pub fn case(&mut self) -> (String, String) {
        use Focus::*;
        let d = 1 + self.r.below(3);
        self.scope = 1;
        let custom = self.r.one_in(if self.f == Markers { 2 } else { 5 });
        let m = if custom { "m1" } else { "marker" };
        let mut t = self.args(false);
        if self.r.one_in(if self.f == Enums || self.f == Types { 5 } else { 30 }) { t = String::new(); }
        self.markers.push(m.into());
        let mut a = if custom { match (t.is_empty(), self.r.below(3)) { (true, _) => "marker = m1".into(), (_, 0) => format!("marker = m1, {t}"), _ => format!("{t}, marker = m1") } } else { t };
        if self.r.one_in(6) && !a.is_empty() { a += ","; }
        let ty;
        let ret = match self.f {
            Tries => ["Result<u8, impl Debug>", "std::result::Result<Vec<u8>, impl Debug + Send>", "Result<impl Debug, impl Debug>", "core::result::Result<(), impl Debug>", "Result<u8, u8>", "io::Result<impl Debug>", "::std::result::Result<(), impl Debug>", "result::Result<(), impl Debug>", "Result<u8, impl A, impl B>", "Option<impl Debug>", "impl Debug", "Result::<u8, impl Debug>"][self.r.below(12)],
            Returns => ["impl Debug", "impl Iterator<Item = u8> + Clone", "Box<impl Debug>", "u8", "(impl Debug, u8)", "Option<impl Debug>", "impl Debug"][self.r.below(7)],
            Types if !self.r.one_in(4) => { ty = self.ty(3); &ty }
            Types => ["impl Iterator<Item = u8>", "impl Iterator<Item = impl Debug>", "impl fmt::Debug + Clone", "Option<impl std::fmt::Debug>", "impl Fn(u8) -> u8", "Box<dyn Fn() -> impl Clone>", "impl Foo + 'static", "(impl Debug, [impl Clone; 2])", "impl Future<Output = Result<impl io::Read, impl Debug>>", "impl ?Sized + Error", "impl error::Error + Debug", "impl ::std::fmt::Debug", "impl for<'a> Fn(&'a u8) + Copy + Eq", "u8", "impl Iterator<Item = u8> + Iterator", "&'static impl io :: Write"][self.r.below(16)],
            _ => ["impl Debug", "u8", "Result<u8, impl Debug>", "impl Iterator"][self.r.below(4)],
        };
        let kind = match self.f { Returns | Tries => [0, 0, 0, 2, 3, 4][self.r.below(6)], Loops => [1, 1, 1, 3, 0][self.r.below(5)], Types => [0, 0, 3, 3, 5][self.r.below(5)], Misuse => self.r.below(16), _ => self.r.below(6) };
        let item = match kind {
            0 => { let s = self.stmts(d); let s2 = self.stmts(d); let tail = match self.r.below(8) { 0 => self.expr(d), 1 => format!("{};", self.expr(d)), 2 => self.if_(d), _ => self.match_(d) }; let at = ["", "#[inline] ", "pub ", "pub(crate) const ", "#[cfg(all())] #[must_use] pub "][self.r.below(5)]; let arrow = if self.r.one_in(12) { String::new() } else { format!("-> {ret} ") }; format!("{at}fn f<'l, T: Clone>(x: &'l [T], mut y: u8) {arrow}where T: Copy {{ {s} {s2} {tail} }}") }
            1 => { let l = self.label(); let e = self.loop_(d, "loop", l); if self.r.one_in(3) { format!("let v = {e};") } else { e } }
            2 => { let s = self.stmts(d); let e = self.value(d); match self.r.below(3) { 0 => format!("|x| {e}"), 1 => format!("move |x: u8, y| {{ {s} {e} }}"), _ => format!("let c = |x| -> R {{ {s} {e} }};") } }
            3 => { let e = self.value(d); let p = ["v", "mut v", "(a, b)", "ref v"][self.r.below(4)]; let ty = if self.f == Types { format!(": {ret}") } else { ["", ": u8", ": impl Debug"][self.r.below(3)].into() }; let el = if self.r.one_in(10) { format!(" else {{ {} }}", self.leaf()) } else { String::new() }; let at = if self.r.one_in(4) { "#[cfg(all())] " } else { "" }; format!("{at}let {p}{ty} = {e}{el};") }
            4 => { let e = self.value(d); if self.r.one_in(4) { format!("{e};") } else { e } }
            5 => { let e = self.value(d); if self.f == Types { format!("let v: {ret} = {e};") } else { e } }
            // misuse
            6 => "let v;".into(), 7 => "fn f() -> u8 {}".into(), 8 => "struct S { a: u8 }".into(), 9 => "mod m {}".into(),
            10 => { let e = self.match_(d); let b = ["#[nested(a)]", "#[never = 1]", "#[rec]", "#[never(x)]", "#[nested = \"x\"]"][self.r.below(5)]; let at = self.atom(); format!("match x {{ {b} 1 => {e}, 2 => {at}, 3 => {{ #[cfg(a)] 7 }}, _ => 8 }}") }
            11 => { let m = ["marker!()", "marker!(a, b)", "marker!(let)", "marker!(a b)"][self.r.below(4)]; self.markers[0] = "marker".into(); a = "Debug".into(); format!("match x {{ 1 => {m}, 2 => f(), _ => g() }}") }
            12 => { a = ["Debug, marker", "Debug,, Clone", "marker = a, marker = b", "Debug, marker = 1", "1", "Debug Clone", "marker = m!, Debug", "Debug, foo = b", "Debug, marker = a::b", "(Debug)", "Debug = 1", ",", "Debug, marker =", "marker(x)"][self.r.below(14)].into(); "match x { 1 => f(), 2 => g(), _ => h() }".into() }
            13 => { let x = ["#[auto_enum = 1]", "#[auto_enum]", "#[auto_enum(1)]", "#[auto_enum(Debug, marker = marker)]", "#[auto_enum(Debug Debug)]", "#[auto_enum()]"][self.r.below(6)]; let l = if self.r.one_in(2) { "let w = " } else { "" }; let e = ["match y { 1 => f(), _ => g() }", "if a { b } else { c }", "if a { b }", "match y { 1 => f(), _ => panic!() }"][self.r.below(4)]; format!("match x {{ 1 => {{ {x} {l}{e}; k() }}, 2 => f2(), _ => g2() }}") }
            14 => { let e = self.match_(d); format!("{e} + 1") }
            _ => ["x", "let x = 1", "match x {", "fn f(", "if a { b }", "match x {}", "f()", "", "impl S {}", "{}", "if a { b } else { c } else { d }", "const X: u8 = 1;", "loop {}", "match x { 1 => f() }", "return", "let v = if a { b };", "mac! { x }", "mac!(x);", "extern crate a;", "..", "async {}"][self.r.below(21)].into(),
        };
        (a, item)
    }
    fn value(&mut self, d: usize) -> String { match self.r.below(9) { 0 => self.expr(d), 1 | 2 => self.if_(d), 3 => { let l = self.label(); self.loop_(d, "loop", l) } 4 => { let r = self.match_(d); format!("{r}.map(|x| x)") } 5 if self.f == Focus::Returns || self.f == Focus::Tries => { let e = self.expr(d); let m = self.match_(d); format!("|x| {{ let q = {e}; {m} }}") } _ => self.match_(d) } }
}
fn simple_head(e: &str) -> bool { e.chars().next().is_some_and(|c| c.is_alphabetic()) && !e.contains(" + ") && !e.contains('{') && !e.contains("return") && !e.contains("break") && !e.ends_with('?') && !e.contains('.') }
