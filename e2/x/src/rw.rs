//! The rewrites that bring a function of /repo into the subset Verus accepts. Each keeps what the
//! function does; DESIGN.md lists what each drops.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote as pq, *};

pub struct Rw<'a> {
    /// Functions that are inlined where they are called (those with a closure parameter, and those
    /// without a contract): key -> function.
    pub inline: &'a BTreeMap<String, ItemFn>,
    pub self_ty: Option<String>,
    pub fn_key: String,
    pub n: usize,
    pub used: BTreeSet<String>,
    /// let-bound names with the struct they were built from
    pub vars: BTreeMap<String, String>,
    pub log: BTreeMap<&'static str, usize>,
    pub depth: usize,
    /// parameters of type &mut
    pub muts: BTreeSet<String>,
    /// remove match guards (the verifier loses track of unused mutable borrows across them)
    pub noguards: bool, pub own: bool,
    pub fail: Vec<String>,
}

const MODS: &[&str] = &["super", "self", "crate", "visitor", "utils", "expr", "context", "type_analysis", "auto_enum", "mem"];

pub fn toks(t: &impl ToTokens) -> String { t.to_token_stream().to_string() }

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
            Some((p, (*c.body).clone()))
        }
        _ => None,
    }
}
/// `x.iter()` -> `x`
fn iter_of(e: &Expr) -> Option<Expr> {
    match e { Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((*m.receiver).clone()), _ => None }
}
fn has_escape(e: &Expr) -> bool {
    struct F(bool, usize);
    impl VisitMut for F {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e { Expr::Closure(_) => {} Expr::Return(_) | Expr::Try(_) => self.0 = true, Expr::Macro(m) if m.mac.path.is_ident("bail") => self.0 = true, _ => visit_mut::visit_expr_mut(self, e) }
        }
        fn visit_stmt_mut(&mut self, s: &mut Stmt) { if let Stmt::Macro(m) = s { if m.mac.path.is_ident("bail") { self.0 = true; } } visit_mut::visit_stmt_mut(self, s) }
    }
    let mut f = F(false, 0);
    f.visit_expr_mut(&mut e.clone());
    f.0
}
/// Replaces `return e` (and `e?`, which may leave) of a body by leaving the labelled loop.
struct Leave { label: Lifetime, var: Ident }
impl VisitMut for Leave {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e { return; }
        visit_mut::visit_expr_mut(self, e);
        let (l, v) = (&self.label, &self.var);
        if let Expr::Return(r) = e {
            let x = r.expr.clone().map_or(pq!(()), |x| *x);
            *e = pq!({ #v = #x; break #l; });
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// Renames variables bound in a pattern or body (hygiene of inlining).
pub struct Rename(pub BTreeMap<String, String>);
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()); } }
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) { self.visit_expr_mut(&mut m.receiver); for a in &mut m.args { self.visit_expr_mut(a); } }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } self.visit_expr_mut(&mut f.expr); }
    fn visit_path_mut(&mut self, p: &mut Path) { if p.segments.len() == 1 { visit_mut::visit_path_mut(self, p); } }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let r = &self.0;
        fn go(t: TokenStream, r: &BTreeMap<String, String>) -> TokenStream { t.into_iter().map(|x| match x {
            proc_macro2::TokenTree::Ident(i) if r.contains_key(&i.to_string()) => Ident::new(&r[&i.to_string()], i.span()).into(),
            proc_macro2::TokenTree::Group(g) => proc_macro2::Group::new(g.delimiter(), go(g.stream(), r)).into(), x => x }).collect() }
        m.tokens = go(std::mem::take(&mut m.tokens), r);
    }
}
fn bound_names(b: &Block) -> Vec<String> {
    struct B(Vec<String>);
    impl VisitMut for B { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident.to_string().chars().next().unwrap().is_lowercase() { self.0.push(p.ident.to_string()); } visit_mut::visit_pat_ident_mut(self, p) } fn visit_item_mut(&mut self, _: &mut Item) {} }
    let mut v = B(vec![]);
    v.visit_block_mut(&mut b.clone());
    v.0
}

/// `let S { a, b, .. } = x;` with x a parameter of type &mut, at the start of a body: a is x.a from there on.
pub fn undestructure(f: &mut ItemFn, rw: &mut Rw) {
    let Some(Stmt::Local(l)) = f.block.stmts.first() else { return };
    let (Pat::Struct(p), Some(i)) = (&l.pat, &l.init) else { return };
    let Expr::Path(x) = &*i.expr else { return };
    let Some(x) = x.path.get_ident().filter(|x| rw.muts.contains(&x.to_string())).cloned() else { return };
    let mut names = BTreeSet::new();
    for q in &p.fields { if q.colon_token.is_some() { return; } match (&q.member, &*q.pat) { (Member::Named(n), Pat::Ident(i)) if i.by_ref.is_none() && i.ident == *n => { names.insert(n.to_string()); } _ => return } }
    let mut b = (*f.block).clone();
    b.stmts.remove(0);
    if bound_names(&b).iter().any(|n| names.contains(n)) { return; }
    struct U { x: Ident, names: BTreeSet<String> }
    impl U { fn name(&self, e: &Expr) -> Option<Ident> { match e { Expr::Path(p) => p.path.get_ident().filter(|i| self.names.contains(&i.to_string())).cloned(), _ => None } } }
    impl VisitMut for U {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let x = &self.x;
            let inner = match e { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.name(&u.expr), _ => None };
            if let Some(n) = inner { *e = pq!((#x.#n)); return; }
            match e { Expr::Field(f) => if let Some(n) = self.name(&f.base) { *f.base = pq!(#x.#n); return; }, Expr::MethodCall(m) => if let Some(n) = self.name(&m.receiver) { *m.receiver = pq!(#x.#n); }, _ => {} }
            if let Some(n) = self.name(e) { *e = pq!((&mut #x.#n)); return; }
            visit_mut::visit_expr_mut(self, e)
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    U { x, names }.visit_block_mut(&mut b);
    rw.hit("let S { a, .. } = x with x: &mut S at the start of a body: a is x.a");
    *f.block = b;
}

/// stmts as an expression without `return` (what follows a branch that may return goes into its other branches), if they have that shape.
fn elim(mut stmts: Vec<Stmt>) -> Option<Expr> {
    let escapes = |s: &Stmt| has_escape(&pq!({ #s }));
    let Some(n) = stmts.iter().position(escapes) else { return Some(pq!({ #(#stmts)* })) };
    let rest = stmts.split_off(n + 1);
    let s = stmts.pop().unwrap();
    // the value of the whole when the branch yields e without returning
    enum K { Stmt, Tail, Let(Pat) }
    fn names_in(t: &[Stmt]) -> std::collections::BTreeSet<String> {
        fn go(t: TokenStream, v: &mut std::collections::BTreeSet<String>) { for x in t { match x { proc_macro2::TokenTree::Ident(i) => { v.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => go(g.stream(), v), _ => {} } } }
        let mut v = Default::default();
        for s in t { go(s.to_token_stream(), &mut v); }
        v
    }
    fn branch(e: &Expr, k: &K, rest: &[Stmt]) -> Option<Expr> {
        let (mut b, tail): (Vec<Stmt>, Option<Expr>) = match e {
            Expr::Block(x) if x.label.is_none() && x.attrs.is_empty() => {
                let mut b = x.block.stmts.clone();
                let bound: Vec<String> = bound_names(&Block { brace_token: Default::default(), stmts: b.iter().filter(|s| matches!(s, Stmt::Local(_))).cloned().collect() });
                let used = names_in(rest);
                if bound.iter().any(|x| used.contains(x)) { return None; }
                let t = match b.last() { Some(Stmt::Expr(e, None)) => { let e = e.clone(); b.pop(); Some(e) } _ => None };
                (b, t)
            }
            e => (vec![], Some(e.clone())),
        };
        match (k, tail) {
            (K::Tail, Some(t)) => b.push(Stmt::Expr(t, None)),
            (K::Tail, None) => {}
            (K::Stmt, t) => { if let Some(t) = t { b.push(Stmt::Expr(t, Some(Default::default()))); } b.extend(rest.iter().cloned()); }
            (K::Let(p), Some(Expr::Return(r))) => { b.push(Stmt::Expr(Expr::Return(r), None)); let _ = p; }
            (K::Let(p), Some(t)) => { b.push(pq!(let #p = #t;)); b.extend(rest.iter().cloned()); }
            (K::Let(_), None) => match b.last() { Some(Stmt::Expr(Expr::Return(_), _)) => {} _ => return None },
        }
        elim(b)
    }
    let (e, k) = match s {
        Stmt::Expr(e, semi) => { let k = if rest.is_empty() && semi.is_none() { K::Tail } else { K::Stmt }; (e, k) }
        Stmt::Local(l) => { let i = l.init?; if i.diverge.is_some() { return None; } (*i.expr, K::Let(l.pat)) }
        _ => return None,
    };
    let out: Expr = match e {
        Expr::Return(r) => { let x = r.expr.map_or(pq!(()), |x| *x); if has_escape(&x) { return None; } x }
        Expr::Block(_) => branch(&e, &k, &rest)?,
        Expr::If(i) => {
            let mut c: Expr = Expr::Verbatim(Default::default()); std::mem::swap(&mut c, &mut *i.cond.clone());
            if has_escape(&c) { return None; }
            if let Expr::Let(l) = &c { let used = names_in(&rest); if bound_names(&{ let p = &l.pat; pq!({ let #p = x; }) }).iter().any(|x| used.contains(x)) { return None; } }
            let t = branch(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch }), &k, &rest)?;
            let f = match i.else_branch { Some((_, f)) => branch(&f, &k, &rest)?, None => branch(&pq!({}), &k, &rest)? };
            pq!(if #c { #t } else { #f })
        }
        Expr::Match(m) => {
            if has_escape(&m.expr) { return None; }
            let used = names_in(&rest);
            let mut arms: Vec<Arm> = vec![];
            for a in m.arms {
                if a.guard.as_ref().map_or(false, |g| has_escape(&g.1)) { return None; }
                let p = &a.pat;
                if bound_names(&pq!({ let #p = x; })).iter().any(|x| used.contains(x)) { return None; }
                let b = branch(&a.body, &k, &rest)?;
                let g = a.guard.map(|(_, g)| quote!(if #g));
                arms.push(pq!(#p #g => { #b }));
            }
            let e = m.expr;
            pq!(match #e { #(#arms)* })
        }
        _ => return None,
    };
    Some(pq!({ #(#stmts)* #out }))
}

/// Pass 1: macros.
pub struct Macros { pub fail: Vec<String>, pub alias: std::collections::BTreeMap<String, String> }
struct Args(Vec<Expr>);
impl parse::Parse for Args { fn parse(i: parse::ParseStream) -> Result<Self> { Ok(Args(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)?.into_iter().collect())) } }
struct Matches(Expr, Pat, Option<Expr>);
impl parse::Parse for Matches { fn parse(i: parse::ParseStream) -> Result<Self> {
    let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
    let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
    let _ = i.parse::<Option<Token![,]>>()?;
    Ok(Matches(e, p, g)) } }
/// The interpolated names of a quotation, in order, and its tokens as a string.
/// Names that stand for the same place count as one.
fn quoted(t: TokenStream, alias: &std::collections::BTreeMap<String, String>) -> (String, Vec<Ident>) {
    fn go(t: TokenStream, v: &mut Vec<Ident>) {
        let mut hash = false;
        for x in t { match x {
            proc_macro2::TokenTree::Punct(p) if p.as_char() == '#' => hash = true,
            proc_macro2::TokenTree::Ident(i) => { if hash { v.push(i); } hash = false; }
            proc_macro2::TokenTree::Group(g) => { go(g.stream(), v); hash = false; }
            _ => hash = false } }
    }
    let mut v = vec![];
    go(t.clone(), &mut v);
    let place = |i: &Ident| { let n = i.to_string(); alias.get(&n).cloned().unwrap_or(n) };
    let mut ps: Vec<String> = vec![];
    let mut ns: std::collections::BTreeMap<String, usize> = Default::default();
    let mut w = vec![];
    for i in &v { let p = place(i); let k = match ps.iter().position(|q| *q == p) { Some(k) => k, None => { ps.push(p); w.push(i.clone()); ps.len() - 1 } }; ns.insert(i.to_string(), k); }
    let v = w;
    fn norm(t: TokenStream, ns: &std::collections::BTreeMap<String, usize>) -> TokenStream {
        let mut hash = false;
        t.into_iter().map(|x| { let h = hash; hash = matches!(&x, proc_macro2::TokenTree::Punct(p) if p.as_char() == '#'); match x {
            proc_macro2::TokenTree::Ident(i) if h => { let k = ns.get(&i.to_string()).copied().unwrap_or(99); format_ident!("_{}", k).into() }
            proc_macro2::TokenTree::Group(g) => proc_macro2::Group::new(g.delimiter(), norm(g.stream(), ns)).into(),
            x => x } }).collect()
    }
    (norm(t, &ns).to_string(), v)
}
impl Macros {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        Some(match &name[..] {
            "format_err" => pq!(format_err__()),
            "bail" => pq!(return Err(format_err__())),
            "debug_assert" | "assert" => { let a = parse2::<Args>(m.tokens.clone()).ok()?.0; let c = &a[0]; pq!(rt_assert(#c)) }
            "debug_assert_eq" | "assert_eq" => { let a = parse2::<Args>(m.tokens.clone()).ok()?.0; let (c, d) = (&a[0], &a[1]); pq!(rt_assert(#c == #d)) }
            "unreachable" if m.tokens.to_string() == "\"wrong_if\"" => pq!(not_syn__()),
            "unreachable" | "panic" => pq!(panic__()),
            "vec" => { let a = parse2::<Args>(m.tokens.clone()).ok()?.0; match a.len() { 0 => pq!(Vec::new()), n => { let f = format_ident!("vec{}__", n); pq!(#f(#(#a),*)) } } }
            "matches" => { let Matches(e, p, g) = parse2(m.tokens.clone()).ok()?; let g = g.map(|g| quote!(if #g)); pq!(match #e { #p #g => true, _ => false }) }
            "parse_quote" | "quote" => { let (s, v) = quoted(m.tokens.clone(), &self.alias); let f = format_ident!("{}{}__", name, v.len()); pq!(#f(#s #(, &#v)*)) }
            "format_ident" => { let a = parse2::<Args>(m.tokens.clone()).ok()?.0; let f = format_ident!("format_ident{}__", a.len() - 1); pq!(#f(#(#a),*)) }
            _ => return None,
        })
    }
}
impl VisitMut for Macros {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = self.alias.clone();
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
            if let Stmt::Local(l) = s { 
                match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(i)) if p.mutability.is_none() && p.by_ref.is_none() => { match &*i.expr { Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Field(_) | Expr::Path(_)) => { self.alias.insert(p.ident.to_string(), toks(&r.expr)); } _ => { self.alias.remove(&p.ident.to_string()); } } }
                    (p, _) => for t in toks(p).split(|c: char| !c.is_alphanumeric() && c != '_') { self.alias.remove(t); },
                } }
        }
        self.alias = old;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s { match self.mac(&m.mac) { Some(e) => *s = Stmt::Expr(e, m.semi_token), None => self.fail.push(format!("macro {}", toks(&m.mac.path))) } }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { match self.mac(&m.mac) { Some(x) => *e = x, None => self.fail.push(format!("macro {}", toks(&m.mac.path))) } }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// Items and statements under a cfg: feature = "x" is on if x is in `on`.
pub struct Cfg { pub on: bool }
impl Cfg {
    pub fn keep(&self, attrs: &mut Vec<Attribute>) -> bool {
        let mut ok = true;
        attrs.retain(|a| {
            if a.path().is_ident("cfg") { let s = toks(&a.meta); let neg = s.contains("not"); let ta = s.contains("feature"); ok &= if ta { self.on != neg } else { neg }; false }
            else { false }
        });
        ok
    }
}
impl VisitMut for Cfg {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let me = &*self;
        b.stmts.retain_mut(|s| match s {
            Stmt::Expr(e, _) => expr_attrs(e).map_or(true, |a| me.keep(a)),
            Stmt::Local(l) => me.keep(&mut l.attrs),
            Stmt::Macro(m) => me.keep(&mut m.attrs),
            Stmt::Item(_) => true,
        });
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) { let me = &*self; m.arms.retain_mut(|a| me.keep(&mut a.attrs)); visit_mut::visit_expr_match_mut(self, m) }
}
fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    match e { Expr::Block(x) => Some(&mut x.attrs), Expr::If(x) => Some(&mut x.attrs), Expr::Match(x) => Some(&mut x.attrs), Expr::MethodCall(x) => Some(&mut x.attrs), Expr::Call(x) => Some(&mut x.attrs), Expr::Macro(x) => Some(&mut x.attrs), _ => None }
}

impl<'a> Rw<'a> {
    fn hit(&mut self, s: &'static str) { *self.log.entry(s).or_default() += 1; }
    fn fresh(&mut self, s: &str) -> Ident { self.n += 1; format_ident!("{}_{}__", s, self.n) }
    /// A body that may leave early, as an expression.
    fn leave(&mut self, mut body: Expr) -> Expr {
        if !has_escape(&body) { return body; }
        if let Expr::Block(b) = &body { if b.label.is_none() && b.attrs.is_empty() { if let Some(x) = elim(b.block.stmts.clone()) {
            if !has_escape(&x) { self.hit("early exit of an inlined body: what follows moved into the branches that stay"); return x; } } } }
        let var = self.fresh("ret");
        let label = Lifetime::new(&format!("'{}", self.fresh("l")), var.span());
        Leave { label: label.clone(), var: var.clone() }.visit_expr_mut(&mut body);
        if has_escape(&body) { self.fail.push("`?` in an inlined body".into()); }
        self.hit("early exit of an inlined body to a one-pass loop");
        pq!({ let #var; #label: loop { #var = #body; break #label; } #var })
    }
    /// let p1 = a1; ..; body with the parameters and locals renamed
    fn inline_call(&mut self, f: &ItemFn, recv: Option<Expr>, args: Vec<Expr>) -> Expr {
        self.hit("function with a closure parameter or without a contract inlined at its call");
        self.n += 1;
        let k = self.n;
        let mut names = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut clos: BTreeMap<String, Expr> = BTreeMap::new();
        let mut args = args.into_iter();
        let mut body = (*f.block).clone();
        for b in bound_names(&body) { names.insert(b.clone(), format!("{b}_{k}__")); }
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(_) if recv.as_ref().map_or(false, |r| matches!(r, Expr::Path(p) if p.path.get_ident().is_some())) => { let Some(Expr::Path(p)) = &recv else { unreachable!() }; names.insert("self".into(), p.path.get_ident().unwrap().to_string()); }
                FnArg::Receiver(_) => { names.insert("self".into(), format!("self_{k}__")); let v = format_ident!("self_{}__", k); let r = recv.clone().unwrap(); lets.push(pq!(let #v = #r;)); }
                FnArg::Typed(t) => {
                    let Some(x) = args.next() else { self.fail.push("argument count".into()); continue };
                    let Pat::Ident(p) = &*t.pat else { self.fail.push("pattern parameter of an inlined function".into()); continue };
                    if let Expr::Closure(_) = x { clos.insert(p.ident.to_string(), x); continue; }
                    if toks(&t.ty).contains("impl Fn") { clos.insert(p.ident.to_string(), x); continue; }
                    names.insert(p.ident.to_string(), format!("{}_{k}__", p.ident));
                    let v = format_ident!("{}_{}__", p.ident, k);
                    if toks(&t.ty).contains("impl ") { lets.push(pq!(let #v = #x;)); } else { let ty = &t.ty; 
                        let x = if let (Type::Reference(r), Expr::Reference(_)) = (&**ty, &x) { if r.mutability.is_some() && toks(&r.elem) == "Expr" && toks(&x).ends_with("body") { let Expr::Reference(i) = &x else { unreachable!() }; let y = &i.expr; pq!(&mut *#y) } else { x } } else { x };
                        lets.push(pq!(let #v: #ty = #x;)); }
                }
            }
        }
        Rename(names).visit_block_mut(&mut body);
        struct Sub<'b>(&'b BTreeMap<String, Expr>);
        impl VisitMut for Sub<'_> { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if let Some(x) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) { *e = x.clone(); return; } } visit_mut::visit_expr_mut(self, e) } }
        let mut e: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: body });
        Sub(&clos).visit_expr_mut(&mut e);
        if lets.is_empty() { let e = self.leave(e); return e; }
        let e = self.leave(e);
        pq!({ #(#lets)* #e })
    }
    fn call_key(&self, p: &Path) -> String {
        let n = p.segments.last().unwrap().ident.to_string();
        if p.segments.len() == 2 { let t = p.segments[0].ident.to_string(); let t = if t == "Self" { self.self_ty.clone().unwrap_or_default() } else { t }; return format!("{t}::{n}"); }
        n
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let it = iter_of(r);
        match (&name[..], m.args.len()) {
            ("any" | "all", 1) if it.is_some() => {
                let (x, (p, b)) = (it.unwrap(), closure1(&m.args[0])?);
                self.hit("iter().any/all(closure) to an index loop");
                let (v, i, s) = (self.fresh("r"), self.fresh("i"), self.fresh("s"));
                let d = name == "all";
                let c: Expr = if d { pq!(!(#b)) } else { pq!(#b) };
                let (p, lets) = unref(p);
                let nd = !d;
                Some(pq!({ let #s = &#x; let mut #v = #d; let mut #i = 0; while #i < #s.len() && #v == #d { let #p = &#s[#i]; #(#lets)* if #c { #v = #nd; } else { #i += 1; } } #v }))
            }
            ("position", 1) if it.is_some() => {
                let (x, (p, b)) = (it.unwrap(), closure1(&m.args[0])?);
                self.hit("iter().position(closure) to an index loop");
                let (v, i, s) = (self.fresh("r"), self.fresh("i"), self.fresh("s"));
                let (p, lets) = unref(p);
                Some(pq!({ let #s = &*#x; let mut #v: Option<usize> = None; let mut #i = 0; while #i < #s.len() && #v.is_none() { let #p = &#s[#i]; #(#lets)* if #b { #v = Some(#i); } else { #i += 1; } } #v }))
            }
            ("map_or", 2) => { let (p, b) = closure1(&m.args[1])?; let c = &m.args[0]; let b = self.leave(b); self.hit("map_or(closure) to match"); Some(pq!(match #r { Some(#p) => #b, None => #c })) }
            ("map", 1) => {
                let (p, b) = closure1(&m.args[0])?; let b = self.leave(b);
                self.hit("map(closure) to match");
                if matches!(&p, Pat::Tuple(t) if t.elems.is_empty()) { return Some(pq!(match #r { Ok(#p) => Ok(#b), Err(e__) => Err(e__) })); }
                Some(pq!(match #r { Some(#p) => Some(#b), None => None }))
            }
            ("and_then", 1) => { let (p, b) = closure1(&m.args[0])?; let b = self.leave(b); self.hit("and_then(closure) to match"); Some(pq!(match #r { Ok(#p) => #b, Err(e__) => Err(e__) })) }
            ("unwrap_or_else", 1) if matches!(&m.args[0], Expr::Path(_)) => { let f = &m.args[0]; self.hit("unwrap_or_else(function) to match"); Some(pq!(match #r { Ok(v__) => v__, Err(e__) => #f(e__) })) }
            ("unwrap_or_else", 1) => { let (p, b) = closure1(&m.args[0])?; let b = self.leave(b); self.hit("unwrap_or_else(closure) to match"); Some(pq!(match #r { Ok(v__) => v__, Err(#p) => #b })) }
            ("get_or_insert_with", 1) => {
                let Expr::Closure(c) = &m.args[0] else { return None };
                let b = &c.body;
                self.hit("get_or_insert_with(closure) to match");
                Some(pq!({ if #r.is_none() { *#r = Some(#b); } #r.as_mut().unwrap() }))
            }
            ("borrow" | "borrow_mut", 0) => { self.hit("RefCell borrow to plain access"); Some((**r).clone()) }
            _ => {
                let k = name.clone();
                let ks = [self.self_ty.as_ref().map(|t| format!("{t}::{k}")), Some(format!("Context::{k}")), Some(format!("VecExt::{k}"))];
                let key = ks.iter().flatten().find(|k| self.inline.contains_key(*k))?.clone();
                if key.starts_with("Context") && !matches!(&toks(r)[..], "self" | "cx" | "self . cx") { return None; }
                if key == self.fn_key || self.depth > 8 { return None; }
                let f = self.inline[&key].clone();
                self.used.insert(key);
                let rv = (**r).clone();
                let by_ref = f.sig.receiver().map_or(false, |x| x.reference.is_some());
                let rv: Expr = if by_ref && toks(&rv) != "self" && toks(&rv) != "cx" && !matches!(rv, Expr::MethodCall(_) | Expr::Match(_) | Expr::Try(_)) { if f.sig.receiver().unwrap().mutability.is_some() { pq!(&mut #rv) } else { pq!(&#rv) } } else { rv };
                Some(self.inline_call(&f, Some(rv), m.args.iter().cloned().collect()))
            }
        }
    }
}
/// `|&x|` takes `&x` apart after the element is bound.
fn unref(p: Pat) -> (Pat, Vec<Stmt>) {
    match p {
        Pat::Reference(r) => { let q = *r.pat; (pq!(x__), vec![pq!(let #q = *x__;)]) }
        Pat::Tuple(_) => (pq!(x__), vec![pq!(let #p = x__;)]),
        p => (p, vec![]),
    }
}

/// Names bound (not constants or unit variants) by a pattern?
fn binds(p: &Pat) -> bool {
    struct B(bool);
    impl VisitMut for B { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident.to_string().starts_with(|c: char| c.is_lowercase()) { self.0 = true; } visit_mut::visit_pat_ident_mut(self, p) } }
    let mut b = B(false);
    b.visit_pat_mut(&mut p.clone());
    b.0
}
pub fn flat(p: &mut Path) {
    while p.segments.len() > 1 && MODS.contains(&&p.segments[0].ident.to_string()[..]) {
        if p.segments[0].ident == "mem" { *p = { let l = &p.segments[1].ident; pq!(core::mem::#l) }; return; }
        let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
        p.leading_colon = None;
        p.segments = rest.into_iter().collect();
    }
}
/// Inherent and trait methods known per type ("Visitor::visit_expr_mut").
pub struct Known(pub BTreeSet<String>);

pub struct Pass<'a, 'b> { pub rw: &'b mut Rw<'a>, pub known: &'b BTreeSet<String>, pub consts: &'b BTreeMap<String, Expr>, pub mono: Option<(String, String)> }
impl Pass<'_, '_> {
    fn visitor_of(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Reference(r) => self.visitor_of(&r.expr),
            Expr::Call(c) => if let Expr::Path(p) = &*c.func { Some(p.path.segments[0].ident.to_string()) } else { None },
            Expr::Struct(s) => Some(s.path.segments[0].ident.to_string()),
            Expr::Path(p) => { let n = toks(&p.path); if n == "self" { self.rw.self_ty.clone() } else { self.rw.vars.get(&n).cloned() } }
            Expr::Paren(p) => self.visitor_of(&p.expr),
            _ => None,
        }
    }
}
impl VisitMut for Pass<'_, '_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) { if let Expr::Struct(s) = &*i.expr { self.rw.vars.insert(p.ident.to_string(), s.path.segments[0].ident.to_string()); } }
        visit_mut::visit_local_mut(self, l)
    }
    fn visit_path_mut(&mut self, p: &mut Path) { flat(p); visit_mut::visit_path_mut(self, p) }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let arms = std::mem::take(&mut m.arms);
        for a in arms {
            match &a.pat {
                Pat::Or(o) if binds(&a.pat) || a.guard.is_some() => {
                    self.rw.hit("or-pattern that binds split into arms");
                    for c in &o.cases { let mut b = a.clone(); b.pat = c.clone(); b.comma = Some(Default::default()); m.arms.push(b); }
                }
                _ => m.arms.push(a),
            }
        }
        visit_mut::visit_expr_match_mut(self, m)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `match v.last_mut() { Some(P) => a, .. }` looks at v[v.len() - 1].
        fn last_mut(e: &Expr) -> Option<&Expr> { match e { Expr::MethodCall(m) if m.method == "last_mut" && m.args.is_empty() && matches!(&*m.receiver, Expr::Field(_) | Expr::Path(_)) => Some(&m.receiver), _ => None } }
        fn some_of(p: &Pat) -> Option<&Pat> { match p { Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => Some(&t.elems[0]), _ => None } }
        let mut new = None;
        match e {
            Expr::Match(m) => if let Some(v) = last_mut(&m.expr) {
                let (mut some, mut none) = (vec![], None);
                for a in &m.arms {
                    let g = a.guard.as_ref().map(|(_, g)| quote!(if #g)); let b = &a.body;
                    match &a.pat {
                        Pat::Wild(_) => { some.push(quote!(_ #g => #b,)); if none.is_none() && g.is_none() { none = Some((**b).clone()); } }
                        p if some_of(p).is_some() => { let p = some_of(p).unwrap(); some.push(quote!(#p #g => #b,)); }
                        Pat::Ident(p) if p.ident == "None" => if none.is_none() { none = Some((**b).clone()) },
                        _ => { none = None; some.clear(); break }
                    }
                }
                if let (Some(none), false) = (none, some.is_empty()) { let n = self.rw.fresh("n"); new = Some(pq!(if #v.len() > 0 { let #n = #v.len() - 1; match &mut #v[#n] { #(#some)* } } else { #none })); }
            },
            Expr::If(i) => if let Expr::Let(l) = &*i.cond { if let (Some(v), Some(p)) = (last_mut(&l.expr), some_of(&l.pat)) {
                let n = self.rw.fresh("n"); let a = &i.then_branch;
                let b: Expr = i.else_branch.as_ref().map_or(pq!({}), |x| (*x.1).clone());
                new = Some(pq!(if #v.len() > 0 { let #n = #v.len() - 1; match &mut #v[#n] { #p => #a, _ => #b } } else { #b }));
            } },
            _ => {}
        }
        if let Some(n) = new { self.rw.hit("match on v.last_mut() as a match on v[v.len() - 1]"); *e = n; }
        if self.rw.noguards { if let Expr::Match(m) = e { if let (Expr::Reference(ExprReference { mutability: None, .. }), Some(k)) = (&*m.expr, m.arms.iter().position(|a| a.guard.is_some())) {
            if k + 1 < m.arms.len() {
                self.rw.hit("guard moved into its arm, the later arms repeated in its else");
                let (x, p, b, g) = (&m.expr, &m.arms[k].pat, &m.arms[k].body, &m.arms[k].guard.as_ref().unwrap().1);
                let (before, after) = (&m.arms[..k], &m.arms[k + 1..]);
                let after: Vec<Arm> = after.iter().cloned().map(|mut a| { a.comma = Some(Default::default()); a }).collect();
                *e = pq!(match #x { #(#before)* #p => if #g { #b } else { match #x { #(#after)* } }, #(#after)* });
            }
        } } }
        // A match on a number with a guard, as ifs.
        if let Expr::Match(m) = e {
            let simple = |p: &Pat| matches!(p, Pat::Wild(_)) || matches!(p, Pat::Lit(PatLit { lit: Lit::Int(_), .. })) || matches!(p, Pat::Or(o) if o.cases.iter().all(|c| matches!(c, Pat::Lit(PatLit { lit: Lit::Int(_), .. }))));
            let n = m.arms.len();
            if n > 1 && m.arms.iter().any(|a| a.guard.is_some()) && m.arms.iter().all(|a| simple(&a.pat)) && matches!(m.arms[n - 1].pat, Pat::Wild(_)) && m.arms[n - 1].guard.is_none() {
                self.rw.hit("match on a number with a guard as ifs");
                let v = self.rw.fresh("m");
                let last = &m.arms[n - 1].body;
                let mut out: Expr = pq!({ #last });
                for a in m.arms[..n - 1].iter().rev() {
                    let mut c: Vec<Expr> = vec![];
                    match &a.pat { Pat::Lit(l) => { let l = &l.lit; c.push(pq!(#v == #l)); } Pat::Or(o) => { let t: Vec<Expr> = o.cases.iter().map(|p| pq!(#v == #p)).collect(); c.push(pq!((#(#t)||*))); } _ => {} }
                    if let Some((_, g)) = &a.guard { c.push(pq!((#g))); }
                    if c.is_empty() { c.push(pq!(true)); }
                    let b = &a.body;
                    out = pq!(if #(#c)&&* { #b } else { #out });
                }
                let x = &m.expr;
                *e = pq!({ let #v = #x; #out });
            }
        }
        // `match place { P if guard => b, .. }` with P binding by mutable reference: the guard is
        // evaluated on a shared borrow first.
        if let Expr::Match(m) = e {
            let place = if let Expr::Path(p) = &*m.expr { p.path.get_ident().map_or(false, |i| self.rw.muts.contains(&i.to_string())) } else { false };
            if let Some(k) = m.arms.iter().position(|a| a.guard.is_some() && binds(&a.pat)).filter(|_| place) {
                self.rw.hit("guard of an arm that binds by mutable reference evaluated first");
                let x = &m.expr;
                let (arm, g) = (&m.arms[k], &m.arms[k].guard.as_ref().unwrap().1);
                let p = &arm.pat;
                let body = &arm.body;
                let mut before: Vec<TokenStream> = vec![];
                for a in &m.arms[..k] { let p = &a.pat; let g = a.guard.as_ref().map(|g| { let g = &g.1; quote!(if #g) }); before.push(quote!(#p #g => false,)); }
                let mut rest = m.clone();
                rest.arms.remove(k);
                let t = self.rw.fresh("g");
                *e = pq!({ let #t: bool = match &*#x { #(#before)* #p if #g => true, _ => false }; if #t { match #x { #p => #body, _ => panic__() } } else { #rest } });
            }
        }
        // `for_each`: a `for` loop
        if let Expr::MethodCall(m) = e { if m.method == "for_each" && m.args.len() == 1 { if let (Expr::MethodCall(r), Some((p, b))) = (&*m.receiver, closure1(&m.args[0])) {
            if (r.method == "iter" || r.method == "iter_mut") && r.args.is_empty() && !has_escape(&b) {
                let x = &m.receiver;
                self.rw.hit("for_each(closure) to a for loop");
                *e = match b { Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => { let b = b.block; pq!(for #p in #x #b) } b => pq!(for #p in #x { #b; }) };
            }
        } } }
        // `for`: index loops
        if let Expr::ForLoop(f) = e {
            let (p, mut b) = ((*f.pat).clone(), f.body.clone());
            let i = self.rw.fresh("i");
            if !step_before_continue(&mut b, &i) { self.rw.fail.push("labelled continue".into()); }
            // `x.iter_mut()` is `&mut x`, and a name is taken for a reference to a vector (anything else does not type)
            let over: Expr = match &*f.expr { Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => { let x = &m.receiver; pq!(&mut #x) } Expr::Path(x) => pq!(&#x), x => x.clone() };
            let new: Option<Expr> = match &over {
                Expr::Reference(r) => { let x = &r.expr; let s = &b.stmts; let m = r.mutability.is_some();
                    let el: Expr = if m { pq!(&mut #x[#i]) } else { pq!(&#x[#i]) };
                    Some(pq!({ let mut #i = 0; while #i < #x.len() { let #p = #el; #(#s)* #i += 1; } })) }
                Expr::Range(r) if r.start.is_some() && r.end.is_some() => { let (lo, hi) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap()); let s = &b.stmts;
                    Some(pq!({ let mut #i = #lo; while #i < #hi { let #p = #i; #(#s)* #i += 1; } })) }
                Expr::MethodCall(m) if m.method == "iter" => { let x = &m.receiver; let s = &b.stmts;
                    let p = match &p { Pat::Reference(r) => { let q = &r.pat; quote!(let x__ = &#x[#i]; let #q = *x__;) } p => quote!(let #p = &#x[#i];) };
                    Some(pq!({ let mut #i = 0; while #i < #x.len() { #p #(#s)* #i += 1; } })) }
                _ => None,
            };
            match new { Some(n) => { self.rw.hit("for loop to an index loop"); *e = n; } None => self.rw.fail.push(format!("for over {}", toks(&f.expr))) }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e { if let Some(c) = p.path.get_ident().and_then(|i| self.consts.get(&i.to_string())) { self.rw.hit("constant slice inlined"); *e = c.clone(); } }
        if let Expr::Call(c) = e {
            let args: Vec<Expr> = c.args.iter().cloned().collect();
            let callee = match &*c.func { Expr::Paren(p) => &*p.expr, f => f };
            if let Expr::Closure(k) = callee {
                self.rw.hit("call of a closure literal to let and block");
                let (k, args) = (k.clone(), &args);
                let ps = k.inputs.iter(); let b = self.rw.leave((*k.body).clone());
                *e = pq!({ #(let #ps = #args;)* #b });
                return;
            }
            if let Expr::Path(p) = &mut *c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                let first = segs[0].clone();
                if last == "default" && (first == "token" || toks(&p.qself.as_ref().map(|q| q.ty.to_token_stream()).unwrap_or_default()).starts_with("Token")) { self.rw.hit("default token"); let ty: Type = if let Some(q) = &p.qself { (*q.ty).clone() } else { let n = format_ident!("{}", segs[1]); pq!(syn::token::#n) }; *e = pq!(tok__::<#ty>()); return; }
                if first == "syn" && last == "parse2" || first == "parse2" { let g = &p.path.segments.last().unwrap().arguments; let g: TokenStream = if let PathArguments::AngleBracketed(g) = g { quote!(#g) } else { quote!() }; *e = pq!(parse2__ #g (#(#args),*)); return; }
                if first == "Punctuated" && last == "new" { *e = pq!(punct_new__()); return; }
                if first == "RefCell" { self.rw.hit("RefCell to plain field"); *e = args[0].clone(); return; }
                if first == "visit_mut" { self.rw.hit("syn's default walk to its trusted contract"); let v = self.mono.as_ref().map(|m| m.0.clone()).or(self.rw.self_ty.clone()).unwrap_or_default(); let n = format_ident!("walk_{}__{}", last.trim_start_matches("visit_").trim_end_matches("_mut"), v); *e = pq!(#n(#(#args),*)); return; }
                if first == "iter" && last == "once" { self.rw.hit("iterator of known length to a vector"); *e = { let a = &args[0]; pq!(vec1__(#a)) }; return; }
                if first == "VisitStmt" || (first == "Self" && self.mono.is_some()) { let n = format_ident!("VisitStmt__{}", last); self.rw.hit("default trait method copied per implementor"); *e = pq!(Self::#n(#(#args),*)); return; }
                let key = self.rw.call_key(&p.path);
                if let (Some(f), true) = (self.rw.inline.get(&key), key != self.rw.fn_key && self.rw.depth < 8) {
                    let f = f.clone();
                    self.rw.used.insert(key);
                    self.rw.depth += 1;
                    let mut x = self.rw.inline_call(&f, None, args);
                    self.visit_expr_mut(&mut x);
                    self.rw.depth -= 1;
                    *e = x;
                }
            }
            return;
        }
        if let Expr::Index(x) = e {
            let b = toks(&x.expr);
            if b.ends_with("segments") || b.ends_with("bounds") || !self.rw.own && b.ends_with("args") || !self.rw.own && b.rsplit(' ').next().map_or(false, |n| n.starts_with("args_")) { self.rw.hit("index of a punctuated list to its trusted contract"); let (b, i) = (&x.expr, &x.index); *e = pq!(*pidx__(&#b, #i)); }
            return;
        }
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)) { self.rw.hit("|= and &= on bool to || and &&"); let (l, r) = (&b.left, &b.right); *e = if matches!(b.op, BinOp::BitOrAssign(_)) { pq!(#l = { let t__: bool = #r; #l || t__ }) } else { pq!(#l = { let t__: bool = #r; #l && t__ }) }; return; }
            if matches!(b.op, BinOp::Add(_)) && toks(&b).contains("count .") { self.rw.hit("counter treated as mathematical"); let (l, r) = (&b.left, &b.right); *e = pq!(inc__(#l, #r)); return; }
            if matches!(b.op, BinOp::AddAssign(_)) && toks(&b.left).contains("count .") { self.rw.hit("counter treated as mathematical"); let l = &b.left; let r = &b.right; *e = pq!(#l = inc__(#l, #r)); return; }
            let (l, r) = (toks(&b.left), toks(&b.right));
            let ne = matches!(b.op, BinOp::Ne(_));
            let konst = |s: &str| s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c == '_') && !s.contains(' ');
            if (ne || matches!(b.op, BinOp::Eq(_))) && (konst(&r) || konst(&l)) {
                self.rw.hit("comparison of a string with a constant to its trusted contract");
                let (x, y) = if konst(&r) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                *e = if ne { pq!(!str_eq__(&#x, &#y)) } else { pq!(str_eq__(&#x, &#y)) };
                return;
            }
            if (ne || matches!(b.op, BinOp::Eq(_))) && (l.ends_with(". ident") || r.ends_with(". ident")) {
                self.rw.hit("comparison of an identifier to its trusted contract");
                let (x, y) = if l.ends_with(". ident") { (&b.left, &b.right) } else { (&b.right, &b.left) };
                *e = if ne { pq!(!ident_eq__(&#x, &#y)) } else { pq!(ident_eq__(&#x, &#y)) };
            }
            return;
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if n == "unwrap" { if let Expr::MethodCall(l) = &*m.receiver { let r = &l.receiver; if l.method == "last" && toks(r).ends_with(". segments") { self.rw.hit("last segment of a path to its trusted contract"); *e = pq!(last_segment__(&#r)); return; } } }
            if n == "is_ident" && m.args.len() == 1 { let (r, a) = (&m.receiver, &m.args[0]); let a = if let Expr::Reference(x) = a { &x.expr } else { a }; *e = pq!(is_ident__(&#r, &#a)); return; }
            if n == "cx" && m.args.is_empty() && self.mono.is_some() { let r = &m.receiver; *e = pq!(#r.cx); return; }
            if n == "visited" && m.args.len() == 1 {
                match self.visitor_of(&m.args[0]) { Some(v) => { self.rw.hit("generic visitor parameter copied per visitor"); m.method = format_ident!("visited__{}", v); }
                    None => self.rw.fail.push(format!("visitor of {}", toks(&m.args[0]))) }
                return;
            }
            if n.starts_with("visit_") && n.ends_with("_mut") {
                let v = self.visitor_of(&m.receiver).or(self.mono.as_ref().map(|m| m.1.clone()));
                if let Some(v) = v {
                    if !self.known.contains(&format!("{v}::{n}")) {
                        self.rw.hit("syn's default walk to its trusted contract");
                        let f = format_ident!("walk_{}__{}", n.trim_start_matches("visit_").trim_end_matches("_mut"), v);
                        let (r, a) = (&m.receiver, &m.args[0]);
                        *e = if matches!(&**r, Expr::Struct(_)) { pq!({ let mut v__ = #r; #f(&mut v__, #a); }) } else if self.mono.is_some() { pq!(#f(#r, #a)) } else if toks(r) == "self" { pq!(#f(&mut *#r, #a)) } else { pq!(#f(&mut #r, #a)) };
                    } else if matches!(&*m.receiver, Expr::Struct(_)) { let (r, a, me) = (&m.receiver, &m.args[0], &m.method); *e = pq!({ let mut v__ = #r; v__.#me(#a); }); }
                }
                return;
            }
            if n == "into" && m.args.is_empty() { let r = &m.receiver; self.rw.hit("into() to its trusted contract"); *e = pq!(into__(#r)); return; }
            if n == "to_string" && m.args.is_empty() { let r = &m.receiver; *e = pq!(to_string__(&#r)); return; }
            if n == "to_owned" && m.args.is_empty() { let r = &m.receiver; *e = pq!(to_owned__(#r)); return; }
            if n == "contains" && m.args.len() == 1 { let (r, a) = (&m.receiver, &m.args[0]); *e = pq!(contains__(&#r, #a)); return; }
            if n == "into_token_stream" && !self.rw.own { let r = &m.receiver; *e = pq!(tokens__(&#r)); return; }
            if n == "to_token_stream" && m.args.is_empty() { let r = &m.receiver; *e = if self.rw.own { pq!(tokens__(&#r)) } else { pq!(tokens__(&*#r)) }; return; }
            if n == "chain" { let (a, b) = (&m.receiver, &m.args[0]); if toks(a).starts_with("vec1__") { *e = pq!(chain__(#a, #b)); } else if let Expr::MethodCall(i) = &**a { if i.method == "iter" && i.args.is_empty() { let a = &i.receiver; self.rw.hit("iterator of known length to a vector"); *e = pq!(chain_refs__(#a, #b)); } } return; }
            if n == "collect" { let r = &m.receiver; let r2 = if let Expr::MethodCall(k) = &**r { if k.method == "into_iter" { k.receiver.clone() } else { r.clone() } } else { r.clone() }; *e = pq!(collect__(#r2)); return; }
            if let Some(mut x) = { let m = m.clone(); self.rw.method(&m) } { self.rw.depth += 1; if self.rw.depth < 9 { self.visit_expr_mut(&mut x); } self.rw.depth -= 1; *e = x; }
        }
    }
}

/// A `continue` of this loop takes the step of the index first.
pub fn step_before_continue(b: &mut Block, i: &Ident) -> bool {
    struct C<'a>(&'a Ident, bool, usize);
    impl VisitMut for C<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Continue(c) if c.label.is_some() => self.1 = false,
                Expr::Continue(_) if self.2 == 0 => { let i = self.0; *e = pq!({ #i += 1; continue }); }
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => { self.2 += 1; visit_mut::visit_expr_mut(self, e); self.2 -= 1; }
                Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    let mut c = C(i, true, 0);
    c.visit_block_mut(b);
    c.1
}
