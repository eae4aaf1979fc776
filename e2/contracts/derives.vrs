=== files
enum_derive.rs
=== tree
derive
=== strings
=== methods
extend ts_extend__ mut
replace str_replace__ ref
split_for_impl split_for_impl__ ref
into_token_stream into_token_stream__ val
=== skip
=== prelude
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(P)]
pub struct ExPunctuated<T, P>(syn::punctuated::Punctuated<T, P>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTokenStream(proc_macro2::TokenStream);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIdent(proc_macro2::Ident);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExError(syn::Error);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPath(syn::Path);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAttribute(syn::Attribute);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExVisibility(syn::Visibility);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGenerics(syn::Generics);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExVariant(syn::Variant);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemTrait(syn::ItemTrait);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTEnum(syn::token::Enum);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTBrace(syn::token::Brace);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTComma(syn::token::Comma);
#[verifier::external_type_specification] pub struct ExItemEnum(syn::ItemEnum);
/// derive_utils::EnumData
#[verifier::external_body] pub struct Data { x: u8 }
pub uninterp spec fn enum_of(d: Data) -> ItemEnum;
/// A function pointer is the path of the function.
#[derive(Clone, Copy)] pub struct DeriveFn { pub path: &'static str }
pub fn fn_ptr__(p: &'static str) -> (r: DeriveFn) ensures r.path@ == p@ { DeriveFn { path: p } }

// ---- assumed contracts: std, syn, quote, derive_utils ----
/// A list of tokens, as the pieces it was built from.
#[verifier::external_body] pub struct Piece { x: u8 }
pub uninterp spec fn pieces(t: TokenStream) -> Seq<Piece>;
pub assume_specification [TokenStream::new] () -> (r: TokenStream) ensures pieces(r) == Seq::<Piece>::empty();
#[verifier::external_body] pub fn ts_extend__(a: &mut TokenStream, b: TokenStream) ensures pieces(*final(a)) == pieces(*old(a)) + pieces(b) { unimplemented!() }
pub uninterp spec fn tk<T>(t: T) -> Seq<Piece>;
#[verifier::external_body] pub fn into_token_stream__<T>(t: T) -> (r: TokenStream) ensures pieces(r) == tk(t) { unimplemented!() }
#[verifier::external_body] pub struct ImplG { x: u8 } #[verifier::external_body] pub struct TypeG { x: u8 }
#[verifier::external_body] pub fn split_for_impl__(g: &syn::Generics) -> (r: (ImplG, TypeG, Option<u8>)) { unimplemented!() }
#[verifier::external_body] pub fn format_err__() -> (r: Error) { unimplemented!() }
pub uninterp spec fn template<T>(s: Seq<char>) -> T;
pub uninterp spec fn template1<T, A>(s: Seq<char>, a: A) -> T;
#[verifier::external_body] pub fn parse_quote0__<T>(s: &str) -> (r: T) ensures r == template::<T>(s@) { unimplemented!() }
#[verifier::external_body] pub fn parse_quote1__<T, A>(s: &str, a: &A) -> (r: T) ensures r == template1::<T, A>(s@, *a) { unimplemented!() }
#[verifier::external_body] pub fn quote4__<A, B, C, D>(s: &str, a: &A, b: &B, c: &C, d: &D) -> (r: TokenStream) { unimplemented!() }
pub mod derive_utils { use super::*;
#[verifier::external_body] pub fn derive_trait(d: &Data, p: &Path, s: Option<u8>, t: ItemTrait) -> (r: TokenStream) { unimplemented!() } }
/// syn::parse2
pub trait Parsed: Sized { spec fn from(t: TokenStream) -> Option<Self>; }
pub uninterp spec fn data_of(t: TokenStream) -> Option<Data>;
// syn::parse: a cursor over the tokens; what is parsed from its place, and what is left
#[verifier::external_body] pub struct Toks__ { x: u8 }
#[verifier::external_body] pub struct Tok { x: u8 }
impl View for Toks__ { type V = Seq<Tok>; uninterp spec fn view(&self) -> Seq<Tok>; }
impl Toks__ { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() } }
pub uninterp spec fn syn_parse<T>(s: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
#[verifier::external_body] pub fn parse__<T>(i: &mut Toks__) -> (r: Result<T>)
    ensures match syn_parse::<T>(old(i)@) { Some((v, rest)) => r == Ok::<T, Error>(v) && final(i)@ == rest, None => r is Err } { unimplemented!() }
pub broadcast axiom fn ax_parse<T>(s: Seq<Tok>) ensures #[trigger] syn_parse::<T>(s) is Some ==> syn_parse::<T>(s)->Some_0.1.len() < s.len();
pub uninterp spec fn tokens_of(p: Path) -> TokenStream;
pub trait Toks { spec fn tk(&self) -> TokenStream; }
impl Toks for Path { open spec fn tk(&self) -> TokenStream { tokens_of(*self) } }
impl<T: Toks> Toks for &T { open spec fn tk(&self) -> TokenStream { (**self).tk() } }
#[verifier::external_body] pub fn tokens__<T: Toks>(n: &T) -> (r: TokenStream) ensures r == n.tk() { unimplemented!() }
pub uninterp spec fn shown(t: TokenStream) -> Seq<char>;
#[verifier::external_body] pub fn to_string__(t: &TokenStream) -> (r: String) ensures r@ == shown(*t) { unimplemented!() }
pub uninterp spec fn replaced(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn str_replace__(s: &String, c: char, t: &str) -> (r: String) ensures r@ == replaced(s@, c, t@) { unimplemented!() }
/// The name that a path is looked up under.
pub open spec fn name_of(p: Path) -> Seq<char> { replaced(shown(tokens_of(p)), ' ', ""@) }
pub type Req = (String, Path);
/// Paths, separated by commas, each with its name.
pub open spec fn paths(s: Seq<Tok>) -> Option<Seq<Path>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else { match syn_parse::<Path>(s) {
        None => None,
        Some((p, r)) => if r.len() == 0 { Some(seq![p]) } else { match syn_parse::<syn::token::Comma>(r) {
            None => None,
            Some((_, t)) => if t.len() < s.len() { match paths(t) { Some(v) => Some(seq![p] + v), None => None } } else { None },
        } },
    } }
}
pub open spec fn named(v: Seq<Req>, p: Seq<Path>) -> bool { v.len() == p.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1 == p[i] && v[i].0@ == name_of(p[i]) }
pub uninterp spec fn args_of(t: TokenStream) -> Option<Args>;
impl Parsed for Data { open spec fn from(t: TokenStream) -> Option<Self> { data_of(t) } }
impl Parsed for Args { open spec fn from(t: TokenStream) -> Option<Self> { args_of(t) } }
#[verifier::external_body] pub fn parse2__<T: Parsed>(t: TokenStream) -> (r: Result<T>) ensures r is Ok <==> T::from(t) is Some, r is Ok ==> T::from(t) == Some(r->Ok_0) { unimplemented!() }
pub trait Conv<T>: Sized { spec fn conv(self) -> T; }
impl Conv<ItemEnum> for Data { open spec fn conv(self) -> ItemEnum { enum_of(self) } }
#[verifier::external_body] pub fn into__<A: Conv<B>, B>(a: A) -> (r: B) ensures r == a.conv() { unimplemented!() }
/// What the function at a path makes of an enum (E1 has the contracts of the implementations).
pub uninterp spec fn made(path: Seq<char>, d: Data) -> Option<Seq<Piece>>;
/// It reaches a variant's value through a pinned reference.
pub uninterp spec fn pins(path: Seq<char>) -> bool;
#[verifier::external_body] pub fn call_ptr__(f: DeriveFn, cx: &mut DeriveContext, d: &Data) -> (r: Result<TokenStream>)
    ensures r is Ok <==> made(f.path@, *d) is Some, r is Ok ==> pieces(r->Ok_0) == made(f.path@, *d)->Some_0,
        final(cx).needs_pin_projection == (old(cx).needs_pin_projection || pins(f.path@)) { unimplemented!() }
pub trait StrLike { spec fn sv(&self) -> Seq<char>; }
impl StrLike for str { open spec fn sv(&self) -> Seq<char> { self@ } }
impl StrLike for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl<T: StrLike + ?Sized> StrLike for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } }
#[verifier::external_body] pub fn str_eq__<A: StrLike + ?Sized, S: StrLike + ?Sized>(a: &A, b: &S) -> (r: bool) ensures r == (a.sv() == b.sv()) { unimplemented!() }

// ---- what the list of requested traits becomes ----
pub open spec fn supported(s: Seq<char>) -> bool { selects(s) is Some }
/// Two names of one trait.
pub open spec fn same(a: Seq<char>, b: Seq<char>) -> bool { a == b || other(a) == Some(b) }
pub type Ent<'a> = (&'a str, Option<&'a Path>);
pub open spec fn listed(v: Seq<Ent<'_>>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && same(#[trigger] v[i].0@, s) }
pub open spec fn requested(a: Seq<(String, Path)>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == s }
pub open spec fn distinct(a: Seq<(String, Path)>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).0@ != (#[trigger] a[j]).0@ }
/// Every requested trait and everything it needs is listed.
pub open spec fn has_deps(v: Seq<Ent<'_>>, a: Seq<(String, Path)>, i: int, m: int) -> bool {
    forall|k: int| 0 <= k < m ==> listed(v, #[trigger] needs(a[i].0@)[k]) || requested(a, needs(a[i].0@)[k])
}
pub open spec fn covers(v: Seq<Ent<'_>>, a: Seq<(String, Path)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> listed(v, (#[trigger] a[i]).0@) && has_deps(v, a, i, needs(a[i].0@).len() as int)
}
pub open spec fn complete(v: Seq<Ent<'_>>, a: Seq<(String, Path)>) -> bool {
    forall|i: int| 0 <= i < a.len() ==> listed(v, (#[trigger] a[i]).0@) && forall|k: int| 0 <= k < needs(a[i].0@).len() ==> listed(v, #[trigger] needs(a[i].0@)[k])
}
/// No trait is listed twice.
pub open spec fn once(v: Seq<Ent<'_>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> !same((#[trigger] v[i]).0@, (#[trigger] v[j]).0@) }
/// Nothing else is listed.
pub open spec fn only(v: Seq<Ent<'_>>, a: Seq<(String, Path)>, n: int, m: int) -> bool {
    forall|i: int| 0 <= i < v.len() ==> match (#[trigger] v[i]).1 {
        Some(p) => exists|k: int| 0 <= k < n && (#[trigger] a[k]).0@ == v[i].0@ && a[k].1 == *p,
        None => !requested(a, v[i].0@) && exists|k: int| 0 <= k < m && needs((#[trigger] a[k]).0@).contains(v[i].0@),
    }
}
/// The requested paths that have no implementation here, in order.
pub open spec fn unsupported(a: Seq<(String, Path)>, n: int) -> Seq<Path> decreases n {
    if n <= 0 { Seq::empty() } else if supported(a[n - 1].0@) { unsupported(a, n - 1) } else { unsupported(a, n - 1).push(a[n - 1].1) }
}
pub open spec fn passed(v: Seq<Ent<'_>>, n: int) -> Seq<Path> decreases n {
    if n <= 0 { Seq::empty() } else if supported(v[n - 1].0@) || v[n - 1].1 is None { passed(v, n - 1) } else { passed(v, n - 1).push(*v[n - 1].1->Some_0) }
}
/// The implementations for a list, one after the other.
pub open spec fn all_made(v: Seq<Ent<'_>>, d: Data, n: int) -> Option<Seq<Piece>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else if !supported(v[n - 1].0@) { all_made(v, d, n - 1) } else {
        match (all_made(v, d, n - 1), made(selects(v[n - 1].0@)->Some_0, d)) { (Some(x), Some(y)) => Some(x + y), _ => None }
    }
}
pub open spec fn any_pins(v: Seq<Ent<'_>>, n: int) -> bool { exists|i: int| 0 <= i < n && supported((#[trigger] v[i]).0@) && pins(selects(v[i].0@)->Some_0) }
pub open spec fn derefs(v: Seq<&Path>) -> Seq<Path> { v.map_values(|p: &Path| *p) }
/// The output for a list of traits v: the enum, unchanged but for #[derive] of the paths u, then the
/// implementations, each once; something more only if a variant's value is reached through a pin.
pub open spec fn emitted(p: Seq<Piece>, d: Data, impls: Seq<Piece>, v: Seq<Ent<'_>>, u: Seq<Path>, it: ItemEnum, w: Vec<&Path>, extra: Seq<Piece>) -> bool {
    &&& p == tk(it) + (impls + extra)
    &&& !any_pins(v, v.len() as int) ==> extra.len() == 0
    &&& derefs(w@) =~= u
    &&& it == (ItemEnum { attrs: it.attrs, ..enum_of(d) })
    &&& it.attrs@ =~= if u.len() == 0 { enum_of(d).attrs@ } else { enum_of(d).attrs@.push(template1::<Attribute, Vec<&Path>>("# [derive (# (# _0) ,*)]"@, w)) }
}
pub open spec fn emits(p: Seq<Piece>, d: Data, impls: Seq<Piece>, v: Seq<Ent<'_>>, u: Seq<Path>) -> bool { exists|it: ItemEnum, w: Vec<&Path>, extra: Seq<Piece>| #[trigger] emitted(p, d, impls, v, u, it, w, extra) }
pub open spec fn output(r: Result<TokenStream>, d: Data, v: Seq<Ent<'_>>, u: Seq<Path>) -> bool {
    match all_made(v, d, v.len() as int) {
        None => r is Err,
        Some(impls) => r is Ok && emits(pieces(r->Ok_0), d, impls, v, u),
    }
}
/// Two names select the same implementation exactly if they are names of the same trait.
pub proof fn lem_selects(a: Seq<char>, b: Seq<char>)
    ensures supported(a) && supported(b) ==> (selects(a) == selects(b) <==> same(a, b))
{ broadcast use ax_code; broadcast use ax_path; if supported(a) && supported(b) { assert(pcode(selects(a)->Some_0) == pcode(selects(b)->Some_0) <==> selects(a) == selects(b)); } }
pub open spec fn has_alias(v: Seq<Ent<'_>>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && other(s) == Some((#[trigger] v[i]).0@) }
pub open spec fn has_name(v: Seq<Ent<'_>>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == s }
/// After n requests.
pub open spec fn after(v: Seq<Ent<'_>>, a: Seq<(String, Path)>, n: int) -> bool {
    0 <= n <= a.len() && covers(v, a, n) && (distinct(a) ==> once(v)) && only(v, a, n, n) && passed(v, v.len() as int) == unsupported(a, n)
}
/// After n requests and m dependencies of the next one.
pub open spec fn within(v: Seq<Ent<'_>>, a: Seq<(String, Path)>, n: int, m: int) -> bool {
    0 <= n < a.len() && 0 <= m <= needs(a[n].0@).len() && covers(v, a, n) && (distinct(a) ==> once(v)) && only(v, a, n, n + 1) && passed(v, v.len() as int) == unsupported(a, n) && has_deps(v, a, n, m)
}
pub proof fn lem_begin(v: Seq<Ent<'_>>, a: Seq<(String, Path)>, n: int) requires after(v, a, n), n < a.len() ensures within(v, a, n, 0) {
    assert(only(v, a, n, n + 1));
}
pub proof fn lem_alias(v: Seq<Ent<'_>>, s: Seq<char>) ensures has_alias(v, s) || has_name(v, s) ==> listed(v, s) {
    if has_alias(v, s) { let j = choose|j: int| 0 <= j < v.len() && other(s) == Some((#[trigger] v[j]).0@); lem_sym(v[j].0@, s); }
    else if has_name(v, s) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0@ == s; assert(same(v[j].0@, s)); }
}
pub proof fn lem_skip(v: Seq<Ent<'_>>, a: Seq<(String, Path)>, n: int, m: int)
    requires within(v, a, n, m), m < needs(a[n].0@).len(), requested(a, needs(a[n].0@)[m]) || has_alias(v, needs(a[n].0@)[m]) || has_name(v, needs(a[n].0@)[m])
    ensures within(v, a, n, m + 1)
{ lem_alias(v, needs(a[n].0@)[m]); }
pub proof fn lem_only_dep(v: Seq<Ent<'_>>, e: Ent<'_>, a: Seq<(String, Path)>, n: int, m: int)
    requires 0 <= n < a.len(), only(v, a, n, n + 1), 0 <= m < needs(a[n].0@).len(), e.0@ == needs(a[n].0@)[m], e.1 is None, !requested(a, e.0@)
    ensures only(v.push(e), a, n, n + 1)
{
    hide(needs);
    let w = v.push(e);
    assert(needs(a[n].0@).contains(e.0@));
    assert forall|i: int| 0 <= i < w.len() implies match (#[trigger] w[i]).1 {
        Some(p) => exists|k: int| 0 <= k < n && (#[trigger] a[k]).0@ == w[i].0@ && a[k].1 == *p,
        None => !requested(a, w[i].0@) && exists|k: int| 0 <= k < n + 1 && needs((#[trigger] a[k]).0@).contains(w[i].0@),
    } by { if i < v.len() { assert(w[i] == v[i]); } else { assert(a[n] == a[n]); } }
}
pub proof fn lem_dep(v: Seq<Ent<'_>>, e: Ent<'_>, a: Seq<(String, Path)>, n: int, m: int)
    requires within(v, a, n, m), m < needs(a[n].0@).len(), e.0@ == needs(a[n].0@)[m], e.1 is None, !requested(a, e.0@), !has_alias(v, e.0@), !has_name(v, e.0@)
    ensures within(v.push(e), a, n, m + 1)
{
    hide(only);
    hide(needs);
    lem_push(v, e, a, n);
    lem_only_dep(v, e, a, n, m);
    if distinct(a) { lem_once(v, e); }
    assert(has_deps(v.push(e), a, n, m));
}
pub proof fn lem_new(v: Seq<Ent<'_>>, e: Ent<'_>, a: Seq<(String, Path)>, n: int, j: int)
    requires 0 <= n < a.len(), only(v, a, n, n + 1), distinct(a), e.0@ == a[n].0@, 0 <= j < v.len(), v[j].0@ == e.0@ ensures false
{
    if v[j].1 is None { assert(a[n].0@ == v[j].0@); assert(requested(a, v[j].0@)); }
    else { let k = choose|k: int| 0 <= k < n && (#[trigger] a[k]).0@ == v[j].0@ && a[k].1 == *v[j].1->Some_0; assert(a[k].0@ != a[n].0@); }
}
pub proof fn lem_only(v: Seq<Ent<'_>>, e: Ent<'_>, a: Seq<(String, Path)>, n: int)
    requires 0 <= n < a.len(), only(v, a, n, n + 1), e.0@ == a[n].0@, e.1 is Some, *e.1->Some_0 == a[n].1 ensures only(v.push(e), a, n + 1, n + 1)
{
    let w = v.push(e);
    assert forall|i: int| 0 <= i < w.len() implies match (#[trigger] w[i]).1 {
        Some(p) => exists|k: int| 0 <= k < n + 1 && (#[trigger] a[k]).0@ == w[i].0@ && a[k].1 == *p,
        None => !requested(a, w[i].0@) && exists|k: int| 0 <= k < n + 1 && needs((#[trigger] a[k]).0@).contains(w[i].0@),
    } by { if i < v.len() { assert(w[i] == v[i]); } else { assert(a[n] == a[n]); } }
}
pub proof fn lem_arg(v: Seq<Ent<'_>>, e: Ent<'_>, a: Seq<(String, Path)>, n: int)
    requires within(v, a, n, needs(a[n].0@).len() as int), e.0@ == a[n].0@, e.1 is Some, *e.1->Some_0 == a[n].1, !has_alias(v, e.0@)
    ensures after(v.push(e), a, n + 1)
{
    hide(only);
    hide(needs);
    lem_push(v, e, a, n);
    lem_only(v, e, a, n);
    if distinct(a) {
        assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).0@ != e.0@ && other(e.0@) != Some(v[j].0@) by { if v[j].0@ == e.0@ { lem_new(v, e, a, n, j); } }
        lem_once(v, e);
    }
    assert(has_deps(v.push(e), a, n, needs(a[n].0@).len() as int));
}
pub proof fn lem_known(v: Seq<Ent<'_>>, a: Seq<(String, Path)>, n: int)
    requires within(v, a, n, needs(a[n].0@).len() as int), has_alias(v, a[n].0@)
    ensures after(v, a, n + 1)
{
    lem_alias(v, a[n].0@);
    lem_other(a[n].0@);
}
pub open spec fn list_for(v: Seq<Ent<'_>>, a: Seq<(String, Path)>) -> bool { complete(v, a) && (distinct(a) ==> once(v)) && only(v, a, a.len() as int, a.len() as int) }

pub proof fn lem_other(s: Seq<char>)
    ensures other(s) is Some ==> supported(s) && other(other(s)->Some_0) == Some(s) && other(s) != Some(s)
{ broadcast use ax_code; }
pub proof fn lem_sym(a: Seq<char>, b: Seq<char>) ensures same(a, b) == same(b, a) { lem_other(a); lem_other(b); }
pub proof fn lem_passed(v: Seq<Ent<'_>>, e: Ent<'_>, n: int)
    requires 0 <= n <= v.len() ensures passed(v.push(e), n) == passed(v, n) decreases n
{ if n > 0 { lem_passed(v, e, n - 1); } }
pub proof fn lem_listed(v: Seq<Ent<'_>>, e: Ent<'_>, s: Seq<char>)
    ensures listed(v, s) ==> listed(v.push(e), s), same(e.0@, s) ==> listed(v.push(e), s)
{
    if listed(v, s) { let i = choose|i: int| 0 <= i < v.len() && same(#[trigger] v[i].0@, s); assert(v.push(e)[i] == v[i]); }
    assert(v.push(e)[v.len() as int] == e);
}
pub proof fn lem_push(v: Seq<Ent<'_>>, e: Ent<'_>, a: Seq<(String, Path)>, n: int)
    requires 0 <= n <= a.len()
    ensures covers(v, a, n) ==> covers(v.push(e), a, n),
        forall|i: int, m: int| #![trigger has_deps(v.push(e), a, i, m)] has_deps(v, a, i, m) ==> has_deps(v.push(e), a, i, m),
        passed(v.push(e), (v.len() + 1) as int) == if supported(e.0@) || e.1 is None { passed(v, v.len() as int) } else { passed(v, v.len() as int).push(*e.1->Some_0) },
        listed(v.push(e), e.0@)
{
    lem_passed(v, e, v.len() as int);
    lem_listed(v, e, e.0@);
    assert forall|i: int, m: int| has_deps(v, a, i, m) implies #[trigger] has_deps(v.push(e), a, i, m) by {
        assert forall|k: int| 0 <= k < m implies listed(v.push(e), #[trigger] needs(a[i].0@)[k]) || requested(a, needs(a[i].0@)[k]) by { lem_listed(v, e, needs(a[i].0@)[k]); }
    }
    if covers(v, a, n) {
        assert forall|i: int| 0 <= i < n implies listed(v.push(e), (#[trigger] a[i]).0@) && has_deps(v.push(e), a, i, needs(a[i].0@).len() as int) by { lem_listed(v, e, a[i].0@); }
    }
}
pub proof fn lem_once(v: Seq<Ent<'_>>, e: Ent<'_>)
    requires once(v), forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).0@ != e.0@ && other(e.0@) != Some(v[j].0@)
    ensures once(v.push(e))
{
    assert forall|i: int, j: int| 0 <= i < j < v.push(e).len() implies !same((#[trigger] v.push(e)[i]).0@, (#[trigger] v.push(e)[j]).0@) by {
        if j == v.len() { lem_sym(v[i].0@, e.0@); assert(v.push(e)[i] == v[i]); } else { assert(v.push(e)[i] == v[i] && v.push(e)[j] == v[j]); }
    }
}
pub proof fn lem_made(v: Seq<Ent<'_>>, d: Data, n: int, m: int)
    requires 0 <= n <= m ensures all_made(v, d, n) is None ==> all_made(v, d, m) is None decreases m - n
{ if n < m { lem_made(v, d, n, m - 1); } }
pub proof fn lem_complete(v: Seq<Ent<'_>>, a: Seq<(String, Path)>)
    requires covers(v, a, a.len() as int) ensures complete(v, a)
{
    assert forall|i: int| 0 <= i < a.len() implies listed(v, (#[trigger] a[i]).0@) && forall|k: int| 0 <= k < needs(a[i].0@).len() ==> listed(v, #[trigger] needs(a[i].0@)[k]) by {
        assert(has_deps(v, a, i, needs(a[i].0@).len() as int));
        assert forall|k: int| 0 <= k < needs(a[i].0@).len() implies listed(v, #[trigger] needs(a[i].0@)[k]) by {
            let x = needs(a[i].0@)[k];
            if requested(a, x) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0@ == x; assert(listed(v, a[j].0@)); }
        }
    }
}
pub proof fn lem_start(a: Seq<(String, Path)>) ensures after(Seq::empty(), a, 0) {}
pub proof fn lem_list(v: Seq<Ent<'_>>, a: Seq<(String, Path)>) requires after(v, a, a.len() as int) ensures list_for(v, a), passed(v, v.len() as int) == unsupported(a, a.len() as int) { lem_complete(v, a); }
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
pub open spec fn ident(x: int) -> int { x }
pub broadcast proof fn triv(x: int) ensures #[trigger] ident(x) == x {}
broadcast group base { triv }
pub open spec fn expanded(args: TokenStream, input: TokenStream, r: Result<TokenStream>) -> bool {
    match (data_of(input), args_of(args)) {
        (Some(d), Some(a)) => exists|v: Seq<Ent<'_>>| #[trigger] list_for(v, a.inner@) && output(r, d, v, unsupported(a.inner@, a.inner@.len() as int)),
        _ => r is Err,
    }
}
pub uninterp spec fn compile_error_of(e: Error) -> TokenStream;
pub assume_specification [syn::Error::into_compile_error] (e: Error) -> (r: TokenStream) ensures r == compile_error_of(e);

=== fn Args::parse complex
props: C07 C08
ensures match paths(old(input)@) { Some(p) => r is Ok && named(r->Ok_0.inner@, p), None => r is Err },
--- entry
broadcast use ax_parse;
let ghost all = paths(input@);
let ghost mut done: Seq<Path> = Seq::empty();
proof { if let Some(v) = all { assert(Seq::<Path>::empty() + v =~= v); } }
--- loop 0
invariant named(inner@, done), match paths(input@) { Some(v) => all == Some(done + v), None => all is None },
ensures all == Some(done),
--- loop 0 begin
let ghost s0 = input@;
let ghost done0 = done;
--- before push 0
proof { done = done.push(path); if let Some(v) = paths(input@) { assert(done0 + (seq![path] + v) =~= done + v); } assert(done0 + seq![path] =~= done); }

=== fn attribute
props: C07 C08
ensures exists|x: Result<TokenStream>| #[trigger] expanded(args, input, x) && r == match x { Ok(t) => t, Err(e) => compile_error_of(e) },

=== fn DeriveContext::needs_pin_projection mutself
ensures final(self).needs_pin_projection,

=== fn get_derive
props: C08
ensures match r { Some(f) => selects(s@) == Some(f.path@), None => selects(s@) is None },
--- entry
broadcast use ax_code;

=== fn get_trait_deps
props: C07
ensures match r { Some(x) => views(x@) =~= needs(s@), None => needs(s@).len() == 0 },
--- entry
broadcast use ax_code;

=== fn exists_alias__get_alias
props: C07
ensures match r { Some(x) => other(s@) == Some(x@), None => other(s@) is None },
--- entry
broadcast use ax_code;

=== fn exists_alias
props: C07
ensures r == has_alias(v@, s@),
--- loop 0
invariant $i <= v@.len(), (*$s)@ == v@, $r ==> has_name(v@, x@), !$r ==> forall|i: int| 0 <= i < $i ==> (#[trigger] v@[i]).0@ != x@,

=== fn expand rlimit
props: C06 C07 C08
ensures expanded(args, input, r),
--- entry
hide(selects);
hide(other);
hide(needs);
hide(after);
hide(within);
hide(has_alias);
hide(unsupported);
let ghost args0 = args;
let ghost input0 = input;
--- before acc__ 0
let ghost a = args@;
proof { assert(args_of(args0) is Some && args_of(args0)->Some_0.inner@ == a); assert(data_of(input0) == Some(data)); }
proof { lem_start(a); }
--- loop 0
invariant $i <= args@.len(), after(acc__@, a, $i as int),
--- loop 0 begin
let ghost n = $i as int;
let ghost mut v1: Seq<Ent<'_>> = acc__@;
let ghost mut pushed = false;
proof { lem_begin(acc__@, a, n); }
--- loop 0 end
proof { if pushed { lem_arg(v1, acc__@.last(), a, n); assert(v1.push(acc__@.last()) =~= acc__@); } else { lem_known(acc__@, a, n); } }
--- loop 1
invariant $i <= traits@.len(), within(v@, a, n, $i as int),
--- loop 1 begin
let ghost m = $i as int;
let ghost mut dep = false;
let ghost v2 = v@;
proof { assert(views(traits@)[m] == traits@[m]@); }
--- loop 1 end
proof { if dep { lem_dep(v2, v@.last(), a, n, m); assert(v2.push(v@.last()) =~= v@); } else { lem_skip(v@, a, n, m); } }
--- loop 2
invariant $i <= args@.len(), $r ==> requested(a, x@), !$r ==> forall|j: int| 0 <= j < $i ==> (#[trigger] a[j]).0@ != x@,
--- loop 3
invariant $i <= v@.len(), (*$s)@ == v@, $r ==> has_name(v@, s@), !$r ==> forall|j: int| 0 <= j < $i ==> (#[trigger] v@[j]).0@ != s@,
--- before push 2
proof { dep = true; }
--- before push 3
proof { v1 = v@; pushed = true; }
--- loop 4
invariant $i <= va.len(), all_made(va, data, $i as int) == Some(pieces(items)), derefs(derive@) =~= passed(va, $i as int), cx.needs_pin_projection == any_pins(va, $i as int),
--- loop 4 begin
let ghost m = $i as int;
--- before call_ptr__ 0
proof {
    assert(selects(va[m].0@) == Some(f.path@));
    lem_made(va, data, m + 1, va.len() as int);
    if made(f.path@, data) is None { assert(all_made(va, data, m + 1) is None); assert(all_made(va, data, va.len() as int) is None); assert(list_for(va, a)); assert(forall|r: Result<TokenStream>| r is Err ==> #[trigger] output(r, data, va, unsupported(a, a.len() as int))); }
}
--- before into_token_stream__ 0
let ghost it0 = item;
let ghost p0 = pieces(items);
let ghost impls = all_made(va, data, va.len() as int)->Some_0;
let ghost extra = p0.subrange(impls.len() as int, p0.len() as int);
proof {
    assert(p0 =~= impls + extra);
    assert(emitted(tk(it0) + p0, data, impls, va, unsupported(a, a.len() as int), it0, derive, extra));
}
--- before Ok 1
proof {
    assert(pieces(item) == tk(it0) + p0);
    assert(emitted(pieces(item), data, impls, va, unsupported(a, a.len() as int), it0, derive, extra));
    assert(all_made(va, data, va.len() as int) == Some(impls));
}
--- before derive 0
let ghost va = args@;
proof { lem_list(va, a); }
