#!/usr/bin/env python3
"""Writes contracts/types.vrs (type analysis). The list of traits is the documentation's."""
import os
K="""Clone Copy PartialEq Eq PartialOrd Ord Hash AsRef AsMut Debug fmt::Debug Display fmt::Display fmt::Binary fmt::LowerExp fmt::LowerHex fmt::Octal fmt::Pointer fmt::UpperExp fmt::UpperHex fmt::Write
Iterator DoubleEndedIterator ExactSizeIterator FusedIterator TrustedLen Extend Deref DerefMut Index IndexMut RangeBounds Fn FnMut FnOnce Coroutine Future
Read io::Read BufRead io::BufRead Write io::Write Seek io::Seek Error error::Error""".split()
known=" || ".join(f's == "{k}"@' for k in K)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'contracts/types.vrs'), 'w').write('''=== files
auto_enum/type_analysis.rs
=== strings
=== methods
visit_type_mut visit_type_mut__ mut
replace str_replace__ ref
=== prelude
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(P)]
pub struct ExPunctuated<T, P>(syn::punctuated::Punctuated<T, P>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTokenStream(proc_macro2::TokenStream);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIdent(proc_macro2::Ident);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExLifetime(syn::Lifetime);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPreciseCapture(syn::PreciseCapture);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBoundLifetimes(syn::BoundLifetimes);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTraitBoundModifier(syn::TraitBoundModifier);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExType(syn::Type);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTParen(syn::token::Paren);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTPlus(syn::token::Plus);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTImpl(syn::token::Impl);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTPathSep(syn::token::PathSep);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAngle(syn::AngleBracketedGenericArguments);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParenArgs(syn::ParenthesizedGenericArguments);
#[verifier::external_type_specification] pub struct ExPathArguments(syn::PathArguments);
#[verifier::external_type_specification] pub struct ExPathSegment(syn::PathSegment);
#[verifier::external_type_specification] pub struct ExPath(syn::Path);
#[verifier::external_type_specification] pub struct ExTraitBound(syn::TraitBound);
#[verifier::external_type_specification] pub struct ExTypeParamBound(syn::TypeParamBound);
#[verifier::external_type_specification] pub struct ExTypeImplTrait(syn::TypeImplTrait);
pub trait StrLike { spec fn sv(&self) -> Seq<char>; }
impl StrLike for str { open spec fn sv(&self) -> Seq<char> { self@ } }
impl StrLike for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl<T: StrLike + ?Sized> StrLike for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } }

// ---- assumed contracts: std, syn, proc-macro2 ----
#[verifier::external_body] pub fn str_eq__<A: StrLike + ?Sized, S: StrLike + ?Sized>(a: &A, b: &S) -> (r: bool) ensures r == (a.sv() == b.sv()) { unimplemented!() }
pub uninterp spec fn pseq<T, P>(p: syn::punctuated::Punctuated<T, P>) -> Seq<T>;
pub uninterp spec fn punct_of<T, P>(s: Seq<T>) -> syn::punctuated::Punctuated<T, P>;
pub assume_specification<T, P> [syn::punctuated::Punctuated::<T, P>::len] (p: &syn::punctuated::Punctuated<T, P>) -> (r: usize) ensures r == pseq(*p).len();
#[verifier::external_body] pub fn pidx__<T, P>(p: &syn::punctuated::Punctuated<T, P>, i: usize) -> (r: &T) requires i < pseq(*p).len() ensures *r == pseq(*p)[i as int] { unimplemented!() }
pub assume_specification [<Ident as Clone>::clone] (i: &Ident) -> (r: Ident) ensures r == *i;
pub open spec fn seg_of(i: Ident) -> PathSegment { PathSegment { ident: i, arguments: PathArguments::None } }
pub trait Conv<T>: Sized { spec fn conv(self) -> T; }
impl Conv<PathSegment> for Ident { open spec fn conv(self) -> PathSegment { seg_of(self) } }
#[verifier::external_body] pub fn into__<A: Conv<B>, B>(a: A) -> (r: B) ensures r == a.conv() { unimplemented!() }
pub open spec fn path_of(s: Seq<PathSegment>) -> Path { Path { leading_colon: None, segments: punct_of(s) } }
/// utils::path (its body is verified in the unit auto_enum)
#[verifier::external_body] pub fn path(s: Vec<PathSegment>) -> (r: Path) ensures r == path_of(s@) { unimplemented!() }
pub uninterp spec fn tokens_of(n: Path) -> TokenStream;
pub trait Toks { spec fn tk(&self) -> TokenStream; }
impl Toks for Path { open spec fn tk(&self) -> TokenStream { tokens_of(*self) } }
impl<T: Toks> Toks for &T { open spec fn tk(&self) -> TokenStream { (**self).tk() } }
#[verifier::external_body] pub fn tokens__<T: Toks>(n: &T) -> (r: TokenStream) ensures r == n.tk() { unimplemented!() }
pub uninterp spec fn shown(t: TokenStream) -> Seq<char>;
#[verifier::external_body] pub fn to_string__(t: &TokenStream) -> (r: String) ensures r@ == shown(*t) { unimplemented!() }
pub uninterp spec fn replaced(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn str_replace__(s: &String, c: char, t: &str) -> (r: String) ensures r@ == replaced(s@, c, t@) { unimplemented!() }
/// The impl Trait types within a type, however nested: what is inside of another one comes first.
pub uninterp spec fn impls(t: Type) -> Seq<TypeImplTrait>;
/// The same for what is inside of an impl Trait type.
pub uninterp spec fn below(t: TypeImplTrait) -> Seq<TypeImplTrait>;

// ---- type analysis ----
/// A path as a string.
pub open spec fn text(p: Path) -> Seq<char> { shown(tokens_of(p)) }
pub open spec fn segs(s: Seq<PathSegment>, n: int) -> Seq<PathSegment> decreases n { if n <= 0 { Seq::empty() } else { segs(s, n - 1).push(seg_of(s[n - 1].ident)) } }
/// The path without generic arguments.
pub open spec fn plain(p: Path) -> Path { path_of(segs(pseq(p.segments), pseq(p.segments).len() as int)) }
/// The traits that type analysis supports.
pub open spec fn known(s: Seq<char>) -> bool { KNOWN }
pub open spec fn lists(v: Seq<Path>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && text(#[trigger] v[i]) == s }
pub open spec fn bname(b: TypeParamBound) -> Path { match b { TypeParamBound::Trait(t) => plain(t.path), _ => arbitrary() } }
/// The bound that adds a trait.
pub open spec fn adds(b: TypeParamBound, args: Seq<Path>) -> bool { b is Trait && known(replaced(text(bname(b)), ' ', ""@)) && !lists(args, text(bname(b))) }
pub struct TS { pub args: Seq<Path>, pub traits: Seq<Path>, pub found: bool }
pub open spec fn bound(s: TS, b: TypeParamBound) -> TS {
    if !adds(b, s.args) { s } else { let p = bname(b); TS { args: s.args, traits: if lists(s.traits, text(p)) { s.traits } else { s.traits.push(p) }, found: true } }
}
pub open spec fn bounds(s: TS, v: Seq<TypeParamBound>, n: int) -> TS decreases n { if n <= 0 { s } else { bound(bounds(s, v, n - 1), v[n - 1]) } }
pub open spec fn one(s: TS, t: TypeImplTrait) -> TS { bounds(s, pseq(t.bounds), pseq(t.bounds).len() as int) }
pub open spec fn all(s: TS, v: Seq<TypeImplTrait>, n: int) -> TS decreases n { if n <= 0 { s } else { one(all(s, v, n - 1), v[n - 1]) } }
pub open spec fn st(c: CollectImplTrait<'_>) -> TS { TS { args: c.args@, traits: c.traits@, found: c.has_impl_trait } }
/// syn's walk over a type calls the visitor for each impl Trait type that is not inside of another one;
/// with the visitor's contract, that is every impl Trait type.
#[verifier::external_body] pub fn visit_type_mut__(v: &mut CollectImplTrait<'_>, t: &mut Type)
    ensures st(*final(v)) == all(st(*old(v)), impls(*old(t)), impls(*old(t)).len() as int), *final(t) == *old(t), *final(final(v).traits) == *final(old(v).traits) { unimplemented!() }
#[verifier::external_body] pub fn walk_type_impl_trait__CollectImplTrait(v: &mut CollectImplTrait<'_>, t: &mut TypeImplTrait)
    ensures st(*final(v)) == all(st(*old(v)), below(*old(t)), below(*old(t)).len() as int), *final(t) == *old(t) { unimplemented!() }
pub open spec fn ident(x: int) -> int { x }
pub broadcast proof fn triv(x: int) ensures #[trigger] ident(x) == x {}
broadcast group base { triv }

// ---- what that means ----
/// The traits that the impl Trait types name.
pub open spec fn named(v: Seq<TypeImplTrait>, n: int, args: Seq<Path>, s: Seq<char>) -> bool { exists|i: int, j: int| #![trigger pseq(v[i].bounds)[j]] 0 <= i < n && 0 <= j < pseq(v[i].bounds).len() && adds(pseq(v[i].bounds)[j], args) && text(bname(pseq(v[i].bounds)[j])) == s }
pub open spec fn named1(v: Seq<TypeParamBound>, n: int, args: Seq<Path>, s: Seq<char>) -> bool { exists|j: int| 0 <= j < n && adds(#[trigger] v[j], args) && text(bname(v[j])) == s }
pub open spec fn once(v: Seq<Path>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> text(#[trigger] v[i]) != text(#[trigger] v[j]) }
pub proof fn lem_push(v: Seq<Path>, p: Path, s: Seq<char>) ensures lists(v.push(p), s) == (lists(v, s) || text(p) == s) {
    if lists(v, s) { let i = choose|i: int| 0 <= i < v.len() && text(#[trigger] v[i]) == s; assert(v.push(p)[i] == v[i]); }
    if lists(v.push(p), s) { let i = choose|i: int| 0 <= i < v.push(p).len() && text(#[trigger] v.push(p)[i]) == s; if i < v.len() { assert(v[i] == v.push(p)[i]); } }
    assert(v.push(p)[v.len() as int] == p);
}
pub proof fn lem_bounds(s: TS, v: Seq<TypeParamBound>, n: int, x: Seq<char>)
    requires 0 <= n <= v.len()
    ensures ({ let r = bounds(s, v, n); &&& r.args == s.args &&& lists(r.traits, x) == (lists(s.traits, x) || named1(v, n, s.args, x)) &&& once(s.traits) ==> once(r.traits)
        &&& r.found == (s.found || exists|j: int| 0 <= j < n && adds(#[trigger] v[j], s.args)) })
    decreases n
{
    if n > 0 {
        lem_bounds(s, v, n - 1, x);
        let q = bounds(s, v, n - 1);
        let b = v[n - 1];
        if adds(b, s.args) { let p = bname(b); lem_push(q.traits, p, x); assert(adds(v[n - 1], s.args));
            if once(q.traits) && !lists(q.traits, text(p)) { assert(once(q.traits.push(p))); }
        }
        if named1(v, n, s.args, x) { let j = choose|j: int| 0 <= j < n && adds(#[trigger] v[j], s.args) && text(bname(v[j])) == x; if j < n - 1 { assert(adds(v[j], s.args)); } }
        if named1(v, n - 1, s.args, x) { let j = choose|j: int| 0 <= j < n - 1 && adds(#[trigger] v[j], s.args) && text(bname(v[j])) == x; assert(adds(v[j], s.args)); }
    }
}
/// C20: exactly the supported traits that are named and not arguments are added, each once; found iff there is one.
pub proof fn lem_types(s: TS, v: Seq<TypeImplTrait>, n: int, x: Seq<char>)
    requires 0 <= n <= v.len()
    ensures ({ let r = all(s, v, n); &&& r.args == s.args &&& lists(r.traits, x) == (lists(s.traits, x) || named(v, n, s.args, x)) &&& once(s.traits) ==> once(r.traits)
        &&& r.found == (s.found || exists|y: Seq<char>| #[trigger] named(v, n, s.args, y)) })
    decreases n
{
    if n > 0 {
        lem_types(s, v, n - 1, x);
        let q = all(s, v, n - 1);
        let w = pseq(v[n - 1].bounds);
        lem_bounds(q, w, w.len() as int, x);
        assert(named1(w, w.len() as int, s.args, x) ==> named(v, n, s.args, x)) by {
            if named1(w, w.len() as int, s.args, x) { let j = choose|j: int| 0 <= j < w.len() && adds(#[trigger] w[j], s.args) && text(bname(w[j])) == x; assert(adds(pseq(v[n - 1].bounds)[j], s.args)); }
        }
        assert forall|y: Seq<char>| named(v, n - 1, s.args, y) implies #[trigger] named(v, n, s.args, y) by {
            let (i, j) = choose|i: int, j: int| #![trigger pseq(v[i].bounds)[j]] 0 <= i < n - 1 && 0 <= j < pseq(v[i].bounds).len() && adds(pseq(v[i].bounds)[j], s.args) && text(bname(pseq(v[i].bounds)[j])) == y;
            assert(adds(pseq(v[i].bounds)[j], s.args));
        }
        assert forall|y: Seq<char>| #[trigger] named(v, n, s.args, y) implies named(v, n - 1, s.args, y) || named1(w, w.len() as int, s.args, y) by {
            let (i, j) = choose|i: int, j: int| #![trigger pseq(v[i].bounds)[j]] 0 <= i < n && 0 <= j < pseq(v[i].bounds).len() && adds(pseq(v[i].bounds)[j], s.args) && text(bname(pseq(v[i].bounds)[j])) == y;
            if i == n - 1 { assert(adds(w[j], s.args)); }
        }
        let r = all(s, v, n);
        assert(r == bounds(q, w, w.len() as int));
        if exists|j: int| 0 <= j < w.len() && adds(#[trigger] w[j], s.args) {
            let j = choose|j: int| 0 <= j < w.len() && adds(#[trigger] w[j], s.args);
            assert(adds(pseq(v[n - 1].bounds)[j], s.args));
            assert(named(v, n, s.args, text(bname(w[j]))));
        }
        if exists|y: Seq<char>| #[trigger] named(v, n - 1, s.args, y) { let y = choose|y: Seq<char>| #[trigger] named(v, n - 1, s.args, y); assert(named(v, n, s.args, y)); }
        if exists|y: Seq<char>| #[trigger] named(v, n, s.args, y) {
            let y = choose|y: Seq<char>| #[trigger] named(v, n, s.args, y);
            if !named(v, n - 1, s.args, y) { let j = choose|j: int| 0 <= j < w.len() && adds(#[trigger] w[j], s.args) && text(bname(w[j])) == y; assert(adds(w[j], s.args)); }
        }
    }
}

=== fn collect_impl_trait
props: C20
ensures ({ let s = all(TS { args: args@, traits: old(traits)@, found: false }, impls(*old(ty)), impls(*old(ty)).len() as int); final(traits)@ == s.traits && r == s.found }), *final(ty) == *old(ty),

=== fn CollectImplTrait::visit_type_impl_trait_mut
props: C20
ensures st(*final(self)) == one(all(st(*old(self)), below(*old(node)), below(*old(node)).len() as int), *old(node)), *final(node) == *old(node),
--- loop 0
invariant $i <= pseq(node.bounds).len(), *node == n0, st(*self) == bounds(s1, pseq(n0.bounds), $i as int),
--- loop 0 begin
let ghost s2 = st(*self);
--- loop 1
invariant $i <= pseq(ty.path.segments).len(), $v@ == segs(pseq(ty.path.segments), $i as int),
--- loop 2
invariant $i <= $s.len(), $s@ == s2.args, $r ==> lists(s2.args, ty_str@), !$r ==> forall|j: int| 0 <= j < $i ==> text(#[trigger] s2.args[j]) != ty_str@,
--- loop 3
invariant $i <= $s.len(), $s@ == s2.traits, $r ==> lists(s2.traits, ty_str@), !$r ==> forall|j: int| 0 <= j < $i ==> text(#[trigger] s2.traits[j]) != ty_str@,
--- before walk_type_impl_trait__CollectImplTrait 0
let ghost n0 = *node;
--- entry
let ghost s1 = all(st(*old(self)), below(*old(node)), below(*old(node)).len() as int);
'''.replace('KNOWN',known).replace(', final(v).traits.FIN',''))
