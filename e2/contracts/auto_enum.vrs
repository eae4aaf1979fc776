=== files
utils.rs auto_enum/mod.rs auto_enum/context.rs auto_enum/expr.rs auto_enum/visitor.rs
=== visitors
Visitor
Dummy
FindNested
FnVisitor
=== skip
impl Drop for Context | panics if a context is dropped unchecked; `check` takes the error out first (its contract)
=== prelude
// ---- assumed contracts: std, syn, proc_macro2, quote ----
pub uninterp spec fn dflt<T>() -> T;
pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T: core::default::Default> [core::mem::take] (a: &mut T) -> (r: T) ensures r == *old(a), *final(a) == dflt::<T>();
#[verifier::external_body] pub fn tok__<T: core::default::Default>() -> (r: T) ensures r == dflt::<T>() { T::default() }
#[verifier::external_body] pub fn format_err__() -> (r: Error) ensures r == an_error() { unimplemented!() }
pub uninterp spec fn an_error() -> Error;
pub uninterp spec fn err_add(a: Error, b: Error) -> Error;
pub assume_specification [syn::Error::combine] (a: &mut Error, b: Error) ensures *final(a) == err_add(*old(a), b);
pub fn rt_assert(b: bool) requires b {}
#[verifier::external_body] pub fn panic__<T>() -> (r: T) requires false { unimplemented!() }
// A vector is its elements.
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_vec_of<T>(s: Seq<T>) ensures (#[trigger] vec_of(s))@ == s;
pub broadcast axiom fn ax_vec_view<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v;
pub broadcast axiom fn ax_dflt_vec<T>() ensures #[trigger] dflt::<Vec<T>>() == vec_of(Seq::<T>::empty());
// So is a punctuated list (the separators carry no meaning).
pub uninterp spec fn pseq<T, P>(p: syn::punctuated::Punctuated<T, P>) -> Seq<T>;
pub assume_specification<T, P> [syn::punctuated::Punctuated::<T, P>::len] (p: &syn::punctuated::Punctuated<T, P>) -> (r: usize) ensures r == pseq(*p).len();
#[verifier::external_body] pub fn pidx__<T, P>(p: &syn::punctuated::Punctuated<T, P>, i: usize) -> (r: &T) requires i < pseq(*p).len() ensures *r == pseq(*p)[i as int] { unimplemented!() }
pub assume_specification<T, P> [syn::punctuated::Punctuated::<T, P>::last] (p: &syn::punctuated::Punctuated<T, P>) -> (r: Option<&T>)
    ensures pseq(*p).len() == 0 ==> r is None, pseq(*p).len() > 0 ==> r == Some(&pseq(*p).last());
// Identifiers are their text.
pub uninterp spec fn id_str(i: Ident) -> Seq<char>;
pub trait StrLike { spec fn sv(&self) -> Seq<char>; }
impl StrLike for str { open spec fn sv(&self) -> Seq<char> { self@ } }
impl StrLike for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl StrLike for Ident { open spec fn sv(&self) -> Seq<char> { id_str(*self) } }
impl<T: StrLike + ?Sized> StrLike for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } }
#[verifier::external_body] pub fn ident_eq__<S: StrLike + ?Sized>(a: &Ident, b: &S) -> (r: bool) ensures r == (id_str(*a) == b.sv()) { unimplemented!() }
#[verifier::external_body] pub fn str_eq__<A: StrLike + ?Sized, S: StrLike + ?Sized>(a: &A, b: &S) -> (r: bool) ensures r == (a.sv() == b.sv()) { unimplemented!() }
#[verifier::external_body] pub fn is_ident__<S: StrLike + ?Sized>(a: &Path, b: &S) -> (r: bool) ensures r == is_id(*a, b.sv()) { unimplemented!() }
pub open spec fn is_id(p: Path, s: Seq<char>) -> bool {
    p.leading_colon is None && pseq(p.segments).len() == 1 && pseq(p.segments)[0].arguments is None && id_str(pseq(p.segments)[0].ident) == s
}
pub open spec fn meta_path(m: Meta) -> Path { match m { Meta::Path(p) => p, Meta::List(l) => l.path, Meta::NameValue(n) => nv_path(n) } }
pub uninterp spec fn nv_path(n: MetaNameValue) -> Path;
pub assume_specification [Attribute::path] (a: &Attribute) -> (r: &Path) ensures *r == meta_path(a.meta);
pub assume_specification [Meta::require_path_only] (m: &Meta) -> (r: Result<&Path>) ensures r is Ok <==> *m is Path;
pub assume_specification [Meta::require_list] (m: &Meta) -> (r: Result<&MetaList>) ensures r is Ok <==> *m is List, match *m { Meta::List(l) => r == Ok::<&MetaList, Error>(&l), _ => true };

// ---- attributes ----
pub open spec fn is_attr(a: Attribute, s: Seq<char>) -> bool { is_id(meta_path(a.meta), s) }
pub open spec fn is_empty_attr(a: Attribute, s: Seq<char>) -> bool { match a.meta { Meta::Path(p) => is_id(p, s), _ => false } }
pub open spec fn has_attr(v: Seq<Attribute>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] is_attr(v[i], s) }
pub open spec fn has_empty(v: Seq<Attribute>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] is_empty_attr(v[i], s) }
/// The first attribute named s, and the others.
pub open spec fn strip(v: Seq<Attribute>, s: Seq<char>) -> (Option<Attribute>, Seq<Attribute>) decreases v.len() {
    if v.len() == 0 { (None, v) } else if is_attr(v[0], s) { (Some(v[0]), v.drop_first()) }
    else { let (r, t) = strip(v.drop_first(), s); (r, seq![v[0]] + t) }
}
pub proof fn lemma_strip_some(v: Seq<Attribute>, s: Seq<char>, i: int)
    requires 0 <= i < v.len(), is_attr(v[i], s), forall|j: int| 0 <= j < i ==> !is_attr(v[j], s)
    ensures strip(v, s) == (Some(v[i]), v.remove(i)) decreases v.len()
{ if i == 0 { assert(v.drop_first() =~= v.remove(0)); } else { assert forall|j: int| 0 <= j < i - 1 implies !is_attr(v.drop_first()[j], s) by { assert(!is_attr(v[j + 1], s)); } lemma_strip_some(v.drop_first(), s, i - 1); assert(seq![v[0]] + v.drop_first().remove(i - 1) =~= v.remove(i)); } }
pub proof fn lemma_strip_none(v: Seq<Attribute>, s: Seq<char>)
    requires forall|j: int| 0 <= j < v.len() ==> !is_attr(v[j], s)
    ensures strip(v, s) == (None::<Attribute>, v) decreases v.len()
{ if v.len() > 0 { assert(!is_attr(v[0], s)); assert forall|j: int| 0 <= j < v.len() - 1 implies !is_attr(v.drop_first()[j], s) by { assert(!is_attr(v[j + 1], s)); } lemma_strip_none(v.drop_first(), s); assert(seq![v[0]] + v.drop_first() =~= v); } }
/// A node that has attributes (or cannot have any).
pub open spec fn stmt_attrs(s: Stmt) -> Seq<Attribute> { match s { Stmt::Expr(e, _) => e_attrs(e), Stmt::Local(l) => l.attrs@, Stmt::Macro(m) => m.attrs@, Stmt::Item(_) => Seq::empty() } }
pub open spec fn stmt_with_attrs(s: Stmt, v: Vec<Attribute>) -> Stmt { match s { Stmt::Expr(e, x) => Stmt::Expr(e_with_attrs(e, v), x), Stmt::Local(l) => Stmt::Local(Local { attrs: v, ..l }), Stmt::Macro(m) => Stmt::Macro(StmtMacro { attrs: v, ..m }), Stmt::Item(_) => s } }
pub open spec fn stmt_has_attrs(s: Stmt) -> bool { match s { Stmt::Expr(e, _) => e_has_attrs(e), Stmt::Item(_) => false, _ => true } }
pub trait To<T>: Sized { spec fn to(self) -> T; }
impl To<PathSegment> for Ident { open spec fn to(self) -> PathSegment { seg(self) } }
impl To<Item> for ItemEnum { open spec fn to(self) -> Item { Item::Enum(self) } }
#[verifier::external_body] pub fn into__<A: To<B>, B>(a: A) -> (r: B) ensures r == a.to() { unimplemented!() }
pub uninterp spec fn punct_of<T, P>(s: Seq<T>) -> syn::punctuated::Punctuated<T, P>;
pub broadcast axiom fn ax_punct_of<T, P>(s: Seq<T>) ensures pseq(#[trigger] punct_of::<T, P>(s)) == s;
#[verifier::external_body] pub fn vec1__<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { vec![a] }
#[verifier::external_body] pub fn vec2__<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { vec![a, b] }
#[verifier::external_body] pub fn chain__<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn collect__<T, P>(a: Vec<T>) -> (r: syn::punctuated::Punctuated<T, P>) ensures r == punct_of::<T, P>(a@) { unimplemented!() }
#[verifier::external_body] pub fn punct_new__<T, P>() -> (r: syn::punctuated::Punctuated<T, P>) ensures r == punct_of::<T, P>(Seq::empty()) { unimplemented!() }
pub trait IntLike { spec fn iv(&self) -> int; }
impl IntLike for usize { open spec fn iv(&self) -> int { *self as int } }
impl IntLike for u64 { open spec fn iv(&self) -> int { *self as int } }
pub uninterp spec fn fident(s: Seq<char>, n: int) -> Ident;
#[verifier::external_body] pub fn format_ident1__<T: IntLike>(s: &str, x: T) -> (r: Ident) ensures r == fident(s@, x.iv()) { unimplemented!() }
pub broadcast axiom fn ax_fident(s: Seq<char>, a: int, b: int) ensures id_str(#[trigger] fident(s, a)) == id_str(#[trigger] fident(s, b)) ==> a == b;
pub assume_specification [<Ident as Clone>::clone] (i: &Ident) -> (r: Ident) ensures r == *i;
pub broadcast proof fn ext_pair<T>(a: T, b: T) ensures #[trigger] (seq![a] + seq![b]) == seq![a, b] { assert(seq![a] + seq![b] =~= seq![a, b]); }
pub broadcast proof fn ext_same<T>(s: Seq<T>, i: int, x: T) requires 0 <= i < s.len(), s[i] == x ensures #[trigger] s.update(i, x) == s { assert(s.update(i, x) =~= s); }
pub broadcast proof fn ext_last<T>(s: Seq<T>, x: T) requires s.len() > 0 ensures #[trigger] s.drop_last().push(x) == s.update(s.len() - 1, x) { assert(s.drop_last().push(x) =~= s.update(s.len() - 1, x)); }
pub broadcast proof fn ext_pop<T>(s: Seq<T>, x: T) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub broadcast group base { ext_pop, ext_pair, ext_same, ext_last, ax_vec_of, ax_vec_view, ax_dflt_vec, ax_punct_of, path_ext1, path_ext2, path_ext3 }

// ---- what is generated ----
pub open spec fn seg(i: Ident) -> PathSegment { PathSegment { ident: i, arguments: PathArguments::None } }
pub open spec fn path_of(s: Seq<PathSegment>) -> Path { Path { leading_colon: None, segments: punct_of(s) } }
pub open spec fn block_of(s: Vec<Stmt>) -> Block { Block { brace_token: dflt(), stmts: s } }
pub open spec fn block_expr(b: Block) -> Expr { Expr::Block(ExprBlock { attrs: vec_of(Seq::empty()), label: None, block: b }) }
pub open spec fn call_of(attrs: Vec<Attribute>, p: Path, e: Expr) -> Expr {
    Expr::Call(ExprCall { attrs, func: Box::new(Expr::Path(ExprPath { attrs: vec_of(Seq::empty()), qself: None, path: p })), paren_token: dflt(), args: punct_of(seq![e]) })
}
pub open spec fn unit_expr() -> Expr { Expr::Tuple(ExprTuple { attrs: vec_of(Seq::empty()), paren_token: dflt(), elems: punct_of(Seq::empty()) }) }
/// The k-th variant of a scope's enum.
pub open spec fn variant(k: int) -> Ident { fident("__Variant{}"@, k) }
/// `Enum::VariantK(e)`
pub open spec fn wrap_of(id: Ident, k: int, attrs: Vec<Attribute>, e: Expr) -> Expr { call_of(attrs, path_of(seq![seg(id), seg(variant(k))]), e) }

// ---- the state of a scope ----
pub open spec fn c_n(c: Context) -> int { c.builder.variants@.len() as int }
/// One more variant.
pub open spec fn c_next(c: Context) -> Context { Context { builder: Builder { variants: vec_of(c.builder.variants@.push(variant(c_n(c)))), ..c.builder }, ..c } }
/// e in the next variant.
pub open spec fn c_wrap(c: Context, e: Expr) -> Expr { wrap_of(c.builder.ident, c_n(c), vec_of(Seq::empty()), e) }
/// Not yet checked (an unchecked context panics when dropped).
pub open spec fn c_live(c: Context) -> bool { c.error is Some }
pub open spec fn c_err(c: Context) -> bool { c.error is Some && c.error->0 is Some }
pub open spec fn c_error(c: Context, m: Error) -> Context { Context { error: Some(Some(match c.error->0 { Some(e) => err_add(e, m), None => m })), ..c } }
/// The variants are the numbered ones, each once.
pub open spec fn c_wf(c: Context) -> bool { c_live(c) && forall|k: int| 0 <= k < c_n(c) ==> #[trigger] c.builder.variants@[k] == variant(k) }
/// What decides which macros are markers.
pub struct Env { pub cur: Seq<char>, pub root: bool, pub markers: Seq<String> }
pub open spec fn env(c: Context) -> Env { Env { cur: c.current_marker@, root: c.root, markers: c.markers@ } }
pub open spec fn is_marker(v: Env, m: Macro) -> bool { is_id(m.path, v.cur) || (!v.root && exists|i: int| 0 <= i < v.markers.len() && is_id(m.path, (#[trigger] v.markers[i])@)) }
pub open spec fn is_marker_e(v: Env, e: Expr) -> bool { match e { Expr::Macro(m) => is_marker(v, m.mac), _ => false } }
pub open spec fn may_last(c: Context) -> bool { !(c.visit_last_mode is Never) && !(c.visit_mode is Try) }
/// What every step on a scope keeps, and how the rest may change.
pub open spec fn c_step(a: Context, b: Context) -> bool {
    b.current_marker == a.current_marker && (b.markers == a.markers || (c_err(b) && b.markers@.len() == 0)) && b.root == a.root && b.visit_mode == a.visit_mode && b.visit_last_mode == a.visit_last_mode
    && b.span == a.span && b.args == a.args && b.traits == a.traits && b.builder.ident == a.builder.ident
    && (c_live(a) ==> c_live(b)) && (c_err(a) ==> c_err(b)) && (a.has_child ==> b.has_child)
    && c_n(a) <= c_n(b) && (forall|k: int| 0 <= k < c_n(a) ==> #[trigger] b.builder.variants@[k] == a.builder.variants@[k]) && (c_wf(a) ==> c_wf(b))
}

// ---- C14: expressions that yield no value ----
pub open spec fn path_is(p: Path, crates: Seq<&str>, rest: Seq<&str>) -> bool {
    let s = pseq(p.segments);
    (s.len() == 1 && rest.len() > 0 && id_str(s[0].ident) == rest.last()@)
    || (s.len() == rest.len() + 1 && (exists|i: int| 0 <= i < crates.len() && id_str(s[0].ident) == #[trigger] crates[i]@) && forall|i: int| 1 <= i < s.len() ==> id_str(#[trigger] s[i].ident) == rest[i - 1]@)
}
pub open spec fn std_path(p: Path, a: &str, b: &str, c: &str) -> bool { path_is(p, seq!["std", "core"], seq![a, b, c]) }
pub open spec fn std_macro(p: Path, n: &str) -> bool { path_is(p, seq!["std", "core"], seq![n]) }
pub broadcast proof fn path_ext3(p: Path, c: Seq<&str>, r: Seq<&str>) requires c.len() == 2, r.len() == 3 ensures #[trigger] path_is(p, c, r) == path_is(p, seq![c[0], c[1]], seq![r[0], r[1], r[2]])
{ assert(c =~= seq![c[0], c[1]]); assert(r =~= seq![r[0], r[1], r[2]]); }
pub broadcast proof fn path_ext2(p: Path, c: Seq<&str>, r: Seq<&str>) requires c.len() == 2, r.len() == 2 ensures #[trigger] path_is(p, c, r) == path_is(p, seq![c[0], c[1]], seq![r[0], r[1]])
{ assert(c =~= seq![c[0], c[1]]); assert(r =~= seq![r[0], r[1]]); }
pub broadcast proof fn path_ext1(p: Path, c: Seq<&str>, r: Seq<&str>) requires c.len() == 2, r.len() == 1 ensures #[trigger] path_is(p, c, r) == path_is(p, seq![c[0], c[1]], seq![r[0]])
{ assert(c =~= seq![c[0], c[1]]); assert(r =~= seq![r[0]]); }
pub open spec fn no_value_macro(v: Env, m: Macro) -> bool { std_macro(m.path, "unreachable") || std_macro(m.path, "panic") || is_marker(v, m) }
pub open spec fn no_value(v: Env, e: Expr) -> bool decreases e {
    has_empty(e_attrs(e), "never"@) || has_attr(e_attrs(e), "auto_enum"@) || match e {
        Expr::Block(b) => no_value_last(v, b.block),
        Expr::Unsafe(b) => no_value_last(v, b.block),
        Expr::Break(_) => true, Expr::Continue(_) => true, Expr::Return(_) => true,
        Expr::Macro(m) => no_value_macro(v, m.mac),
        Expr::Match(m) => forall|i: int| 0 <= i < m.arms@.len() ==> has_empty(#[trigger] m.arms@[i].attrs@, "never"@) || no_value(v, *m.arms@[i].body),
        Expr::Try(t) => match *t.expr {
            Expr::Path(p) => p.qself is None && std_path(p.path, "option", "Option", "None"),
            Expr::Call(c) => pseq(c.args).len() == 1 && match *c.func { Expr::Path(p) => p.qself is None && std_path(p.path, "result", "Result", "Err"), _ => false },
            _ => false },
        Expr::MethodCall(m) => no_value(v, *m.receiver),
        Expr::Paren(p) => no_value(v, *p.expr),
        _ => false,
    }
}
pub open spec fn no_value_last(v: Env, b: Block) -> bool decreases b { b.stmts@.len() > 0 && no_value_stmt(v, b.stmts@[b.stmts@.len() - 1]) }
pub open spec fn no_value_stmt(v: Env, s: Stmt) -> bool decreases s {
    match s {
        Stmt::Expr(e, _) => no_value(v, e),
        Stmt::Local(l) => match l.init { Some(i) => no_value(v, *i.expr), None => false },
        Stmt::Item(_) => true,
        Stmt::Macro(m) => no_value_macro(v, m.mac),
    }
}
