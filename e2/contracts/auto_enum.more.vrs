=== in trait Attrs
spec fn sattrs(&self) -> Seq<Attribute>;
spec fn swith(&self, v: Vec<Attribute>) -> Self;
spec fn shas(&self) -> bool;
proof fn law(&self) ensures self.shas() ==> self.swith(vec_of(self.sattrs())) == *self;
=== in impl Attrs for Expr
open spec fn sattrs(&self) -> Seq<Attribute> { e_attrs(*self) }
open spec fn swith(&self, v: Vec<Attribute>) -> Self { e_with_attrs(*self, v) }
open spec fn shas(&self) -> bool { e_has_attrs(*self) }
proof fn law(&self) { broadcast use base; }
=== in impl Attrs for Stmt
open spec fn sattrs(&self) -> Seq<Attribute> { stmt_attrs(*self) }
open spec fn swith(&self, v: Vec<Attribute>) -> Self { stmt_with_attrs(*self, v) }
open spec fn shas(&self) -> bool { stmt_has_attrs(*self) }
proof fn law(&self) { broadcast use base; }
=== in impl Attrs for Arm
open spec fn sattrs(&self) -> Seq<Attribute> { self.attrs@ }
open spec fn swith(&self, v: Vec<Attribute>) -> Self { Arm { attrs: v, ..*self } }
open spec fn shas(&self) -> bool { true }
proof fn law(&self) { broadcast use base; }
=== in impl Attrs for Local
open spec fn sattrs(&self) -> Seq<Attribute> { self.attrs@ }
open spec fn swith(&self, v: Vec<Attribute>) -> Self { Local { attrs: v, ..*self } }
open spec fn shas(&self) -> bool { true }
proof fn law(&self) { broadcast use base; }
=== in impl Attrs for StmtMacro
open spec fn sattrs(&self) -> Seq<Attribute> { self.attrs@ }
open spec fn swith(&self, v: Vec<Attribute>) -> Self { StmtMacro { attrs: v, ..*self } }
open spec fn shas(&self) -> bool { true }
proof fn law(&self) { broadcast use base; }
=== fn Attrs::attrs
ensures r@ == self.sattrs()
=== fn Attrs::attrs_mut
ensures old(self).shas() ==> r is Some && r->0@ == old(self).sattrs() && *final(self) == old(self).swith(*final(r->0)),
    !old(self).shas() ==> r is None && *final(self) == *old(self) && old(self).sattrs().len() == 0
=== fn Attrs::any_attr
ensures r == has_attr(self.sattrs(), ident@)
--- loop 0
invariant 0 <= $i <= $s@.len(), $s@ == self.sattrs(), forall|j: int| 0 <= j < $i ==> !(is_attr($s@[j], ident@)), $r ==> $i < $s@.len() && is_attr($s@[$i as int], ident@)
=== fn Attrs::any_empty_attr
ensures r == has_empty(self.sattrs(), ident@)
--- loop 0
invariant 0 <= $i <= $s@.len(), $s@ == self.sattrs(), forall|j: int| 0 <= j < $i ==> !(is_empty_attr($s@[j], ident@)), $r ==> $i < $s@.len() && is_empty_attr($s@[$i as int], ident@)
=== fn Attrs::find_remove_attr
ensures r == strip(old(self).sattrs(), ident@).0, r is None ==> *final(self) == *old(self),
    r is Some ==> old(self).shas() && *final(self) == old(self).swith(vec_of(strip(old(self).sattrs(), ident@).1))
--- loop 0
invariant 0 <= $i <= $s@.len(), $s@ == old(self).sattrs(), forall|j: int| 0 <= j < $i ==> !is_attr($s@[j], ident@), $r is Some ==> $i < $s@.len() && $r->0 == $i && strip($s@, ident@) == (Some($s@[$i as int]), $s@.remove($i as int)), $r is None && $i == $s@.len() ==> strip($s@, ident@) == (None::<Attribute>, $s@)
--- loop 0 end
proof { if $r is Some { lemma_strip_some($s@, ident@, $i as int); } else if $i == $s@.len() { lemma_strip_none($s@, ident@); } }
--- entry
proof { old(self).law(); if old(self).sattrs().len() == 0 { lemma_strip_none(old(self).sattrs(), ident@); } }
=== prelude
pub struct VS { pub cx: Context, pub scope: Scope }
pub struct DS { pub cx: Context }
pub struct LS { pub cx: Context, pub label: Option<Ident>, pub nested: bool }
pub struct NS { pub has: bool }
pub struct FS { pub env: Env, pub scope: Scope, pub try_: int, pub return_: int }
pub open spec fn pre_Visitor(s: VS) -> bool { c_live(s.cx) }
pub open spec fn pre_Dummy(s: DS) -> bool { c_live(s.cx) }
pub open spec fn pre_LoopVisitor(s: LS) -> bool { c_live(s.cx) }
pub open spec fn pre_FindNested(s: NS) -> bool { true }
pub open spec fn pre_FnVisitor(s: FS) -> bool { true }
pub open spec fn inv_Visitor(a: VS, b: VS) -> bool { c_step(a.cx, b.cx) && a.scope == b.scope }
pub open spec fn inv_Dummy(a: DS, b: DS) -> bool { c_step(a.cx, b.cx) }
pub open spec fn inv_LoopVisitor(a: LS, b: LS) -> bool { c_step(a.cx, b.cx) && a.label == b.label && a.nested == b.nested && (c_err(b.cx) ==> c_err(a.cx)) && a.cx.has_child == b.cx.has_child && a.cx.markers == b.cx.markers }
pub open spec fn inv_FindNested(a: NS, b: NS) -> bool { a.has ==> b.has }
pub open spec fn inv_FnVisitor(a: FS, b: FS) -> bool { a.env == b.env && a.scope == b.scope && a.try_ <= b.try_ && a.return_ <= b.return_ }
pub uninterp spec fn parsed<A, T>(a: A) -> Result<T>;
#[verifier::external_body] pub fn parse2__<T>(a: TokenStream) -> (r: Result<T>) ensures r == parsed::<TokenStream, T>(a) { unimplemented!() }
pub uninterp spec fn tokens_of<T>(n: T) -> TokenStream;
#[verifier::external_body] pub fn tokens__<T>(n: &T) -> (r: TokenStream) ensures r == tokens_of(*n) { unimplemented!() }
#[verifier::external_body] pub fn to_string__<S: StrLike + ?Sized>(a: &S) -> (r: String) ensures r@ == a.sv() { unimplemented!() }
#[verifier::external_body] pub fn to_owned__(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body] pub fn contains__(a: &Vec<String>, b: &String) -> (r: bool) ensures r == exists|i: int| 0 <= i < a@.len() && (#[trigger] a@[i])@ == b@ { unimplemented!() }
pub uninterp spec fn sip(fed: Seq<Seq<u8>>) -> u64;
pub uninterp spec fn bytes(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn shown(t: TokenStream) -> Seq<char>;
/// SipHash with its fixed keys, of the whole item's text.
pub open spec fn hash_of(t: TokenStream) -> u64 { sip(seq![bytes(shown(t))]) }
#[verifier::external_body] pub struct DefaultHasher { x: u8 }
impl View for DefaultHasher { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl DefaultHasher {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self, b: &[u8]) ensures final(self)@ == old(self)@.push(b@) { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == sip(self@) { unimplemented!() }
}
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == bytes(s@);
impl StrLike for TokenStream { open spec fn sv(&self) -> Seq<char> { shown(*self) } }
pub assume_specification [<Pat as Clone>::clone] (t: &Pat) -> (r: Pat) ensures r == *t;
pub assume_specification [<TokenStream as Clone>::clone] (t: &TokenStream) -> (r: TokenStream) ensures r == *t;
pub assume_specification [TokenStream::new] () -> (r: TokenStream) ensures r == dflt::<TokenStream>();
=== fn path
ensures r == path_of(segments@)
=== fn block
ensures r == block_of(stmts)
=== fn expr_block
ensures r == block_expr(block)
=== fn expr_call
ensures r == call_of(attrs, path, arg)
=== fn unit
ensures r == unit_expr()
=== fn path_eq
requires expected_path@.len() > 0, expected_path@.len() < usize::MAX
ensures r == path_is(*path, expected_crates@, expected_path@)
--- loop 0
invariant 0 <= $i <= $s@.len(), $s@ == expected_crates@, forall|j: int| 0 <= j < $i ==> !(id_str(pseq(path.segments)[0].ident) == expected_crates@[j]@), $r ==> $i < $s@.len() && id_str(pseq(path.segments)[0].ident) == expected_crates@[$i as int]@
--- loop 1
invariant 1 <= $i <= pseq(path.segments).len(), pseq(path.segments).len() == expected_path@.len() + 1, forall|j: int| 1 <= j < $i ==> id_str(#[trigger] pseq(path.segments)[j].ident) == expected_path@[j - 1]@
=== fn Builder::new
ensures r.variants@.len() == 0, r.ident == fident("__Enum{}"@, hash_of(*input) as int)
=== fn Builder::next_expr
ensures r == wrap_of(old(self).ident, old(self).variants@.len() as int, attrs, expr), *final(self) == (Builder { variants: vec_of(old(self).variants@.push(variant(old(self).variants@.len() as int))), ..*old(self) })
--- entry
broadcast use base;
=== fn Builder::build
ensures r == enum_item(*self, args@, traits@)
=== prelude
/// The enum: the arguments, then the traits that type analysis found; one type parameter and one variant of it per use.
pub open spec fn enum_item(b: Builder, args: Seq<Path>, traits: Seq<Path>) -> ItemEnum {
    quoted3::<ItemEnum, Seq<Path>, Ident, Seq<Ident>>("# [allow (non_camel_case_types)] # [:: auto_enums :: enum_derive (# (# _0) ,*)] enum # _1 <# (# _2) ,*> { # (# _2 (# _2) ,) * }"@, args + traits, b.ident, b.variants@)
}
// Assumed: syn and quote read what is interpolated, not how it is held.
pub uninterp spec fn quoted3<T, A, B, C>(s: Seq<char>, a: A, b: B, c: C) -> T;
#[verifier::external_body] pub fn parse_quote3__<T, A: Held, B: Held, C: Held>(s: &str, a: &A, b: &B, c: &C) -> (r: T) ensures r == quoted3::<T, A::V, B::V, C::V>(s@, a.held(), b.held(), c.held()) { unimplemented!() }
pub trait Held: Sized { type V; spec fn held(self) -> Self::V; }
impl Held for &Ident { type V = Ident; open spec fn held(self) -> Ident { *self } }
impl Held for &Vec<Ident> { type V = Seq<Ident>; open spec fn held(self) -> Seq<Ident> { self@ } }
impl Held for Vec<&Path> { type V = Seq<Path>; open spec fn held(self) -> Seq<Path> { self@.map_values(|p: &Path| *p) } }
#[verifier::external_body] pub fn chain_refs__<'a>(a: &'a [Path], b: &'a [Path]) -> (r: Vec<&'a Path>) ensures r@.map_values(|p: &Path| *p) == a@ + b@ { unimplemented!() }

=== prelude
// Assumed: what syn parses. The else branch of an `if` is an `if` or a block; a path has a segment.
#[verifier::external_body] pub fn not_syn__<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body] pub fn last_segment__(p: &syn::punctuated::Punctuated<PathSegment, token::PathSep>) -> (r: &PathSegment) ensures pseq(*p).len() > 0, *r == pseq(*p).last() { unimplemented!() }
// Assumed: a function has fewer than 2^64 of anything counted.
#[verifier::external_body] pub fn inc__(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
=== prelude
// ---- syn::parse: a cursor over the tokens; what is parsed from its place, and what is left ----
#[verifier::external_body] pub struct Toks__ { x: u8 }
#[verifier::external_body] pub struct Tok { x: u8 }
#[verifier::external_body] pub struct kw__marker { x: u8 }
impl View for Toks__ { type V = Seq<Tok>; uninterp spec fn view(&self) -> Seq<Tok>; }
impl Toks__ { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() } }
pub uninterp spec fn syn_parse<T>(s: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
#[verifier::external_body] pub fn parse__<T>(i: &mut Toks__) -> (r: Result<T>)
    ensures match syn_parse::<T>(old(i)@) { Some((v, rest)) => r == Ok::<T, Error>(v) && final(i)@ == rest, None => r is Err } { unimplemented!() }
pub broadcast axiom fn ax_parse<T>(s: Seq<Tok>) ensures #[trigger] syn_parse::<T>(s) is Some ==> syn_parse::<T>(s)->Some_0.1.len() < s.len();
pub uninterp spec fn peeks<T>(s: Seq<Tok>, at: int) -> bool;
#[verifier::external_body] pub fn peek__<T>(i: &Toks__) -> (r: bool) ensures r == peeks::<T>(i@, 0) { unimplemented!() }
#[verifier::external_body] pub fn peek2__<T>(i: &Toks__) -> (r: bool) ensures r == peeks::<T>(i@, 1) { unimplemented!() }
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
/// The arguments, separated by commas: paths, in the order they are written, and `marker = name` at most once.
pub open spec fn arguments(s: Seq<Tok>, p: Seq<Path>, m: Option<Ident>) -> Option<(Seq<Path>, Option<Ident>)> decreases s.len(), 0int {
    if s.len() == 0 { Some((p, m)) } else if peeks::<kw__marker>(s, 0) && peeks::<syn::token::Eq>(s, 1) {
        match syn_parse::<kw__marker>(s) { None => None, Some((_, a)) => match syn_parse::<syn::token::Eq>(a) { None => None, Some((_, b)) =>
            match syn_parse::<Ident>(b) { None => None, Some((i, c)) => if m is Some || c.len() >= s.len() { None } else { comma(c, p, Some(i)) } } } }
    } else { match syn_parse::<Path>(s) { None => None, Some((x, c)) => if c.len() >= s.len() { None } else { comma(c, p.push(x), m) } } }
}
pub open spec fn comma(s: Seq<Tok>, p: Seq<Path>, m: Option<Ident>) -> Option<(Seq<Path>, Option<Ident>)> decreases s.len(), 1int {
    if s.len() == 0 { Some((p, m)) } else { match syn_parse::<syn::token::Comma>(s) { None => None, Some((_, t)) => if t.len() >= s.len() { None } else { arguments(t, p, m) } } }
}
=== fn Args::parse complex
props: C16 C18
ensures match arguments(old(input)@, Seq::<Path>::empty(), None) { Some((p, m)) => r is Ok && r->Ok_0.args@ == p && r->Ok_0.marker == m, None => r is Err },
--- entry
broadcast use ax_parse;
--- loop 0
invariant arguments(input@, args@, marker) == arguments(old(input)@, Seq::<Path>::empty(), None),
ensures input@.len() == 0,
=== fn hash
props: C19
ensures r == hash_of(*input)
--- entry
assert(Seq::<Seq<u8>>::empty().push(bytes(shown(*input))) =~= seq![bytes(shown(*input))]);
