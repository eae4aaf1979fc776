//! Canonical form of an expansion, and the comparison of an expansion with what is expected:
//! the generated enums are taken out and checked, the `?` desugaring is recognised, and generated
//! names are matched up to renaming.
use std::collections::{HashMap, HashSet};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use syn::{visit_mut::{self, VisitMut}, *};
use crate::oracle::{key, Scope};

pub struct Enum { pub name: String, pub variants: Vec<String>, pub traits: Vec<String>, pub bad: Option<String> }

#[derive(Default)]
pub struct Canon { pub enums: Vec<Enum>, visible: Vec<Vec<String>>, pub invisible: Vec<String>, strip: bool }

fn generated(i: &ItemEnum) -> Option<Enum> {
    let a = i.attrs.iter().find(|a| a.path().segments.last().is_some_and(|s| s.ident == "enum_derive"))?;
    let mut e = Enum { name: i.ident.to_string(), variants: i.variants.iter().map(|v| v.ident.to_string()).collect(), traits: vec![], bad: None };
    match a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) {
        Ok(p) => e.traits = p.iter().map(key).collect(),
        Err(_) => e.bad = Some("the enum_derive list is malformed".into()),
    }
    let params: Vec<String> = i.generics.params.iter().map(|p| match p { GenericParam::Type(t) if t.bounds.is_empty() => t.ident.to_string(), _ => "?".into() }).collect();
    let fields: Vec<String> = i.variants.iter().map(|v| match &v.fields { Fields::Unnamed(f) if f.unnamed.len() == 1 => f.unnamed[0].ty.to_token_stream().to_string(), _ => "??".into() }).collect();
    let (mut a, mut b) = (params.clone(), fields.clone());
    a.sort(); b.sort();
    let distinct = a.iter().collect::<HashSet<_>>().len() == a.len();
    if a != b || !distinct || i.generics.where_clause.is_some() { e.bad = Some(format!("the enum does not have one type parameter per variant: <{}> {{{}}}", params.join(","), fields.join(","))); }
    if e.variants.iter().collect::<HashSet<_>>().len() != e.variants.len() { e.bad = Some("a variant is declared twice".into()); }
    Some(e)
}

impl Canon {
    fn find(stmts: &[Stmt]) -> Vec<Enum> { stmts.iter().filter_map(|s| if let Stmt::Item(Item::Enum(i)) = s { generated(i) } else { None }).collect() }
    fn is_wrap(&self, e: &Expr) -> Option<Path> {
        let Expr::Path(p) = e else { return None };
        let s = &p.path.segments;
        (s.len() == 2 && p.qself.is_none() && s.iter().all(|s| s.arguments.is_empty())
            && (s[0].ident.to_string().starts_with("__SCOPE") || self.visible.iter().flatten().any(|v| s[0].ident == v))).then(|| p.path.clone())
    }
    /// `match x { Ok(v) => v, Err(e) => return Err(W(e)) }`
    fn desugared(&self, m: &ExprMatch) -> Option<Path> {
        if m.arms.len() != 2 || m.arms.iter().any(|a| !a.attrs.is_empty() || a.guard.is_some()) { return None; }
        let pat = |p: &Pat, n: &str| match p {
            Pat::TupleStruct(t) if t.elems.len() == 1 && t.path.segments.last().is_some_and(|s| s.ident == n) => match &t.elems[0] { Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.clone()), _ => None },
            _ => None,
        };
        let is = |e: &Expr, i: &Ident| matches!(e, Expr::Path(p) if p.path.is_ident(i));
        let (ok, err) = if pat(&m.arms[0].pat, "Ok").is_some() { (&m.arms[0], &m.arms[1]) } else { (&m.arms[1], &m.arms[0]) };
        let (v, e) = (pat(&ok.pat, "Ok")?, pat(&err.pat, "Err")?);
        if !is(peel(&ok.body), &v) { return None; }
        let Expr::Return(r) = peel(&err.body) else { return None };
        if !r.attrs.is_empty() { return None; }
        let Expr::Call(c) = &**r.expr.as_ref()? else { return None };
        if !matches!(&*c.func, Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Err")) || c.args.len() != 1 || !c.attrs.is_empty() { return None; }
        let Expr::Call(w) = &c.args[0] else { return None };
        if w.args.len() != 1 || !is(&w.args[0], &e) || !w.attrs.is_empty() { return None; }
        self.is_wrap(&w.func)
    }
}
fn peel(e: &Expr) -> &Expr {
    match e { Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e, _) => peel(e), _ => e }, _ => e }
}
impl VisitMut for Canon {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let found = if self.strip { Self::find(&b.stmts) } else { vec![] };
        self.visible.push(found.iter().map(|e| e.name.clone()).collect());
        self.enums.extend(found);
        if self.strip { b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Enum(i)) if generated(i).is_some())); }
        visit_mut::visit_block_mut(self, b);
        self.visible.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() && b.block.stmts.len() == 1 => match b.block.stmts.pop() {
                Some(Stmt::Expr(x, None)) => Some(x),
                Some(s) => { b.block.stmts.push(s); None }
                None => None,
            },
            Expr::Paren(x) if x.attrs.is_empty() => Some((*x.expr).clone()),
            Expr::Match(m) => {
                for a in &mut m.arms { a.comma = Some(Default::default()); }
                self.desugared(m).map(|w| {
                    // built, not parsed: what is inside may by now have lost the braces its text needs
                    let mut call: syn::ExprCall = parse_quote!(__try());
                    call.attrs = m.attrs.clone();
                    call.args.push((*m.expr).clone());
                    call.args.push(parse_quote!(#w));
                    Expr::Call(call)
                })
            }
            _ => None,
        };
        if let Some(x) = new { *e = x; }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if self.strip && p.segments.len() == 2 {
            let n = p.segments[0].ident.to_string();
            if !self.visible.iter().flatten().any(|v| *v == n) { self.invisible.push(n); }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

pub fn canonical(t: TokenStream, strip: bool) -> Option<(TokenStream, Canon)> {
    let mut c = Canon { strip, ..Default::default() };
    match parse2::<Stmt>(t.clone()) {
        Ok(mut s) => { match &mut s { Stmt::Item(Item::Fn(f)) => c.visit_item_fn_mut(f), s => c.visit_stmt_mut(s) } Some((match s { Stmt::Expr(e, None) => e.into_token_stream(), s => s.into_token_stream() }, c)) }
        Err(_) => { let mut e = parse2::<Expr>(t).ok()?; c.visit_expr_mut(&mut e); Some((e.into_token_stream(), c)) }
    }
}

fn flat(t: TokenStream, out: &mut Vec<String>) {
    for t in t { match t {
        TokenTree::Group(g) => {
            let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
            if !a.is_empty() { out.push(a.into()); }
            flat(g.stream(), out);
            if !b.is_empty() { out.push(b.into()); }
        }
        t => out.push(t.to_string()),
    } }
}

/// What kind of difference there is, and where.
pub fn compare(want: TokenStream, scopes: &[Scope], got: TokenStream) -> std::result::Result<(), (&'static str, String)> {
    let Some((want, _)) = canonical(want, false) else { return Err(("oracle", "the expected output does not parse".into())) };
    let Some((got, c)) = canonical(got, true) else { return Err(("syntax", "the expansion does not parse".into())) };
    let (mut a, mut b) = (vec![], vec![]);
    flat(want, &mut a); flat(got, &mut b);
    let enums: HashMap<&str, &Enum> = c.enums.iter().map(|e| (&*e.name, e)).collect();
    let mut names: HashMap<String, String> = HashMap::new();
    let mut used: HashMap<String, Vec<String>> = HashMap::new();
    let mut i = 0;
    let mut prev: Option<String> = None;
    while i < a.len() && i < b.len() {
        let (x, y) = (&a[i], &b[i]);
        if x.starts_with("__SCOPE") && enums.contains_key(&**y) {
            if *names.entry(x.clone()).or_insert(y.clone()) != *y { return Err(("scope", format!("a branch of one scope is wrapped in another enum at {}", around(&b, i)))); }
            prev = Some(y.clone());
        } else if x == "__V" {
            if let Some(e) = &prev { used.entry(e.clone()).or_default().push(y.clone()); }
        } else if x != y { return Err(("shape", format!("expected `{}` found `{}`", around(&a, i), around(&b, i)))); }
        i += 1;
    }
    if a.len() != b.len() { return Err(("shape", format!("expected `{}` found `{}`", around(&a, i), around(&b, i)))); }
    if c.enums.len() != enums.len() { return Err(("enum", "two enums have the same name".into())); }
    let distinct: HashSet<&String> = names.values().collect();
    if distinct.len() != names.len() { return Err(("enum", "two scopes share one enum".into())); }
    let built = scopes.iter().filter(|s| s.built).count();
    if enums.len() != built { return Err(("enum", format!("{built} enums expected, {} generated", enums.len()))); }
    for (k, s) in scopes.iter().enumerate().filter(|(_, s)| s.built) {
        let Some(n) = names.get(&format!("__SCOPE{k}")) else { return Err(("oracle", format!("scope {k} is not used"))) };
        let e = enums[&**n];
        if let Some(b) = &e.bad { return Err(("enum", b.clone())); }
        let mut u = used.remove(n).unwrap_or_default();
        let mut d = e.variants.clone();
        u.sort(); d.sort();
        if u != d { return Err(("enum", format!("declared variants {d:?}, used constructors {u:?}"))); }
        let set = |t: &[String]| { let mut t = t.to_vec(); t.sort(); t.dedup(); t };
        if set(&e.traits) != set(&s.traits) { return Err(("traits", format!("expected traits {:?}, found {:?}", s.traits, e.traits))); }
    }
    if c.invisible.iter().any(|i| enums.contains_key(&**i)) { return Err(("enum", format!("an enum is used where it is not visible: {:?}", c.invisible))); }
    Ok(())
}
fn around(t: &[String], i: usize) -> String { t[i.saturating_sub(6).min(t.len())..(i + 8).min(t.len())].join(" ") }
