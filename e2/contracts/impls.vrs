=== prelude
// ---- tokens, by what they were made from ----
// Item: a part of the enum that does not depend on a variant (0 its name, 1 its generics); Var(k), Ty(k): the
// k-th variant's name and field type; Num(k): its position; T: the text with that number and what is
// interpolated in it; Rep: what a repetition goes through; Dep: chosen by a look at the enum.
pub enum Ts { Item(int), Var(int), Ty(int), Num(int), Hole(int), Dep(Box<Ts>), T(int, Box<Args>), Rep(Seq<Ts>) }
pub enum Args { Nil, C(Box<Ts>, Box<Args>) }
pub use Args::Nil;
pub open spec fn c(a: Ts, l: Args) -> Args { Args::C(Box::new(a), Box::new(l)) }
pub open spec fn dep(t: Ts) -> Ts { Ts::Dep(Box::new(t)) }
pub open spec fn T(i: int, l: Args) -> Ts { Ts::T(i, Box::new(l)) }
// What a term looks like from variant k: that variant's own parts are holes.
pub open spec fn sh(t: Ts, k: int) -> Ts decreases t {
    match t { Ts::Var(j) => if j == k { Ts::Hole(0) } else { t }, Ts::Ty(j) => if j == k { Ts::Hole(1) } else { t }, Ts::Num(j) => if j == k { Ts::Hole(2) } else { t },
        Ts::T(i, a) => Ts::T(i, Box::new(shs(*a, k))), _ => t }
}
pub open spec fn shs(l: Args, k: int) -> Args decreases l { match l { Args::Nil => Args::Nil, Args::C(a, r) => Args::C(Box::new(sh(*a, k)), Box::new(shs(*r, k))) } }
// The tokens treat all n variants alike: no variant is mentioned outside a repetition, and each repetition
// has one element for each variant, in order, and they are instances of one template.
// Nothing is chosen by a look at the enum.
pub open spec fn uniform(t: Ts, n: int) -> bool decreases t {
    match t { Ts::Item(_) => true, Ts::T(_, a) => unis(*a, n), Ts::Rep(s) => s.len() == n && forall|k: int| 0 <= k < n ==> sh(#[trigger] s[k], k) == sh(s[0], 0), _ => false }
}
pub open spec fn unis(l: Args, n: int) -> bool decreases l { match l { Args::Nil => true, Args::C(a, r) => uniform(*a, n) && unis(*r, n) } }
// ---- sequences: the iterators over the variants, `map`, `skip`, `take`, `rev` ----
pub open spec fn rp(n: int, f: spec_fn(int) -> Ts) -> Seq<Ts> { Seq::new(if n < 0 { 0 } else { n as nat }, f) }
pub open spec fn vars(n: int) -> Seq<Ts> { rp(n, |k: int| Ts::Var(k)) }
pub open spec fn tys(n: int) -> Seq<Ts> { rp(n, |k: int| Ts::Ty(k)) }
pub open spec fn nums(n: int) -> Seq<Ts> { rp(n, |k: int| Ts::Num(k)) }
pub open spec fn skip(s: Seq<Ts>, i: int) -> Seq<Ts> { if i >= s.len() { Seq::empty() } else { s.subrange(i, s.len() as int) } }
pub open spec fn take(s: Seq<Ts>, i: int) -> Seq<Ts> { if i >= s.len() { s } else { s.subrange(0, i) } }
pub open spec fn rev(s: Seq<Ts>) -> Seq<Ts> { Seq::new(s.len(), |k: int| s[s.len() - 1 - k]) }
// Conditions on tokens.
pub uninterp spec fn truth(t: Ts) -> bool;
pub uninterp spec fn same(a: Ts, b: Ts) -> bool;
// ---- assumed: tokens, the enum, derive_utils::EnumImpl (a record of what was put into it) ----
#[verifier::external_body] pub struct Error {}
#[verifier::external_body] pub struct Data {}
impl Data { pub uninterp spec fn n_(&self) -> nat; pub open spec fn n(&self) -> int { self.n_() as int } }
pub struct Cx { pub pin: bool }
impl Cx { pub fn needs_pin_projection(&mut self) ensures final(self).pin { self.pin = true; } }
pub struct Tok { pub v: Ghost<Ts> }
impl Tok {
    pub open spec fn view(self) -> Ts { self.v@ }
    pub fn put(&mut self, m: u64, Ghost(a): Ghost<Ts>) ensures final(self)@ == T(m as int, c(old(self)@, c(a, Args::Nil))) { self.v = Ghost(T(m as int, c(self.v@, c(a, Args::Nil)))); }
}
pub struct Reps { pub v: Ghost<Seq<Ts>> }
impl Reps {
    pub open spec fn view(self) -> Seq<Ts> { self.v@ }
    pub fn put_all(&mut self, Ghost(a): Ghost<Seq<Ts>>) ensures final(self)@ == old(self)@ + a { self.v = Ghost(self.v@ + a); }
}
pub fn tok__(Ghost(t): Ghost<Ts>) -> (r: Tok) ensures r@ == t { Tok { v: Ghost(t) } }
pub fn rep__(Ghost(t): Ghost<Seq<Ts>>) -> (r: Reps) ensures r@ == t { Reps { v: Ghost(t) } }
#[verifier::external_body] pub fn holds__(Ghost(b): Ghost<bool>) -> (r: bool) ensures r == b { unimplemented!() }
#[verifier::external_body] pub fn err__() -> Error { unimplemented!() }
pub broadcast axiom fn ax_n(d: Data) ensures (#[trigger] d.n_()) >= 0;
pub broadcast group base { ax_n }
