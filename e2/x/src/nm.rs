//! Tables that the code looks up through module paths (`crate::derive::a::b::NAME`), strings, and
//! iterator chains that are loops.
use crate::rw::{toks, Rw};
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote as pq, *};

/// module path -> the literals of its NAME
pub type Names = BTreeMap<String, Vec<String>>;

/// Reads the module tree below `dir/mod.rs`.
pub fn tree(root: &str, rel: &str, at: &str, out: &mut Names, fail: &mut Vec<String>) {
    let mut p = format!("{root}/{rel}.rs");
    let mut dir = rel.to_string();
    if !std::path::Path::new(&p).exists() { p = format!("{root}/{rel}/mod.rs"); }
    if rel.ends_with("/mod") { dir = rel.trim_end_matches("/mod").into(); }
    let Ok(t) = std::fs::read_to_string(&p) else { fail.push(format!("{p}: not found")); return };
    match parse_file(&t) { Ok(f) => items(root, &dir, at, f.items, &mut BTreeMap::new(), out, fail), Err(e) => fail.push(format!("{p}: {e}")) }
}
fn join(a: &str, b: &str) -> String { if a.is_empty() { b.into() } else { format!("{a}::{b}") } }
fn items(root: &str, dir: &str, at: &str, v: Vec<Item>, macros: &mut BTreeMap<String, TokenStream>, out: &mut Names, fail: &mut Vec<String>) {
    for i in v {
        match i {
            Item::Mod(m) => {
                let n = m.ident.to_string();
                let n = n.trim_end_matches("::").to_string();
                match m.content {
                    Some((_, v)) => items(root, dir, &join(at, &n), v, macros, out, fail),
                    None => { let f = m.attrs.iter().find(|a| a.path().is_ident("path")).map(|a| toks(&a.meta).split('"').nth(1).unwrap_or("").trim_end_matches(".rs").to_string()).unwrap_or(n.trim_start_matches("r#").into()); tree(root, &format!("{dir}/{f}"), &join(at, &n), out, fail) }
                }
            }
            Item::Fn(f) => crate::imp::FNS.with(|x| { x.borrow_mut().insert(join(at, &f.sig.ident.to_string()), f); }),
            Item::Const(c) if c.ident == "NAME" => {
                let mut v = vec![];
                match &*c.expr { Expr::Reference(r) => match &*r.expr { Expr::Array(a) => for e in &a.elems { match e { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => v.push(s.value()), e => fail.push(format!("{at}::NAME: {}", toks(e))) } }, e => fail.push(format!("{at}::NAME: {}", toks(e))) }, e => fail.push(format!("{at}::NAME: {}", toks(e))) }
                out.insert(at.into(), v);
            }
            Item::Macro(m) => match m.ident {
                Some(i) => { macros.insert(i.to_string(), m.mac.tokens); }
                None => if let Some(d) = macros.get(&toks(&m.mac.path)).cloned() { match crate::mr::expand(d, m.mac.tokens.clone()).and_then(|t| parse2::<File>(t).ok()) { Some(f) => items(root, dir, at, f.items, macros, out, fail), None => fail.push(format!("macro {} in {at}", toks(&m.mac.path))) } },
            },
            _ => {}
        }
    }
}

fn derive_path(e: &Expr) -> Option<(String, String)> {
    let Expr::Path(p) = e else { return None };
    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
    if s.len() < 4 || s[0] != "crate" || s[1] != "derive" { return None; }
    Some((s[2..s.len() - 1].join("::"), s[s.len() - 1].clone()))
}
pub struct Tables<'a> { pub names: &'a Names, pub log: &'a mut BTreeMap<&'static str, usize>, pub fail: Vec<String> }
impl VisitMut for Tables<'_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // NAME.iter().any(|x| c): c for each of the names
        if let Expr::MethodCall(m) = e { if m.method == "any" || m.method == "contains" {
            let base = match &*m.receiver { Expr::MethodCall(r) if r.method == "iter" => &*r.receiver, x => x };
            if let Some((p, n)) = derive_path(base) { if n == "NAME" {
                let Some(v) = self.names.get(&p) else { self.fail.push(format!("no {p}::NAME")); return };
                *self.log.entry("lookup in a constant table of names spelled out").or_default() += 1;
                let c: Vec<Expr> = v.iter().filter_map(|s| if m.method == "contains" { let a = &m.args[0]; Some(pq!(str_eq__(&#s, &#a))) } else { let Expr::Closure(c) = &m.args[0] else { return None }; let (x, b) = (&c.inputs[0], &c.body); let x = match x { Pat::Reference(r) => { let q = &r.pat; quote!(#q = #s) } x => quote!(#x = &#s) }; Some(pq!({ let #x; #b })) }).collect();
                if c.len() != v.len() { self.fail.push("lookup".into()); return; }
                *e = if c.is_empty() { pq!(false) } else { pq!(#(#c)||*) };
                visit_mut::visit_expr_mut(self, e);
                return;
            } }
        } }
        if let Expr::Index(x) = e { if let (Some((p, n)), Expr::Lit(ExprLit { lit: Lit::Int(k), .. })) = (derive_path(&x.expr), &*x.index) { if n == "NAME" {
            match self.names.get(&p).and_then(|v| v.get(k.base10_parse::<usize>().unwrap())) { Some(s) => { *self.log.entry("lookup in a constant table of names spelled out").or_default() += 1; *e = pq!(#s) } None => self.fail.push(format!("{p}::NAME[{k}]")) }
            return;
        } } }
        if let Some((p, n)) = derive_path(e) { if n == "derive" {
            if !self.names.contains_key(&p) { self.fail.push(format!("no {p}")); }
            *self.log.entry("function as a value to its path").or_default() += 1;
            *e = pq!(fn_ptr__(#p));
            return;
        } }
        visit_mut::visit_expr_mut(self, e)
    }
}

/// Strings: `==` and `match` to str_eq__; iterator chains and calls that the main pass does not know.
pub struct Strings<'a> { pub log: &'a mut BTreeMap<&'static str, usize>, pub n: usize, pub methods: &'a BTreeMap<String, (String, String)>, pub fns: &'a std::collections::BTreeSet<String>, pub slices: &'a BTreeMap<String, Expr> }
impl Strings<'_> { fn hit(&mut self, s: &'static str) { *self.log.entry(s).or_default() += 1; } fn fresh(&mut self, s: &str) -> Ident { self.n += 1; format_ident!("{}_s{}__", s, self.n) } }
fn strs(p: &Pat) -> Option<Vec<LitStr>> {
    match p { Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]), Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(strs(c)?); } Some(v) } Pat::Paren(p) => strs(&p.pat), _ => None }
}
fn closure(e: &Expr) -> Option<&ExprClosure> { match e { Expr::Closure(c) => Some(c), _ => None } }
impl VisitMut for Strings<'_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // what was a Cell is now changed through a mutable reference
        let t = toks(b);
        for s in &mut b.stmts { if let Stmt::Local(l) = s { if let Pat::Ident(i) = &mut l.pat { if i.mutability.is_none() && t.contains(&format!("& mut {} ,", i.ident)) { i.mutability = Some(Default::default()); } } } }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Match(m) = e { if m.arms.iter().any(|a| strs(&a.pat).is_some()) {
            let last = m.arms.last().unwrap();
            let catch = match &last.pat { Pat::Wild(_) => None, Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.clone()), _ => return };
            if m.arms.iter().rev().skip(1).all(|a| strs(&a.pat).is_some()) && last.guard.is_none() {
                self.hit("match on a string as ifs");
                let v = self.fresh("m");
                let b = &last.body;
                let mut out: Expr = match catch { Some(i) => pq!({ let #i = #v; #b }), None => pq!({ #b }) };
                for a in m.arms.iter().rev().skip(1) {
                    let c: Vec<Expr> = strs(&a.pat).unwrap().iter().map(|s| pq!(str_eq__(&#v, &#s))).collect();
                    let g: TokenStream = a.guard.as_ref().map_or(quote!(), |(_, g)| quote!(&& (#g)));
                    let b = &a.body;
                    out = pq!(if (#(#c)||*) #g { #b } else { #out });
                }
                let x = &m.expr;
                *e = pq!({ let #v = #x; #out });
            }
        } }
        if let Expr::MethodCall(m) = e {
            // v.iter().fold(init, |acc, x| body)
            if m.method == "fold" && m.args.len() == 2 { if let (Expr::MethodCall(it), Some(c)) = (&*m.receiver, closure(&m.args[1])) { if it.method == "iter" && c.inputs.len() == 2 {
                let (a, x, b, init, v) = (format_ident!("acc__"), &c.inputs[1], &c.body, &m.args[0], &it.receiver);
                let acc = match &c.inputs[0] { Pat::Ident(i) => { let mut i = i.clone(); i.mutability = Some(Default::default()); i } _ => return };
                *e = pq!({ let mut #a = #init; for #x in &#v { let #acc = #a; #a = #b; } #a });
                self.hit("fold(closure) to a loop");
            } } }
        }
        // f(v.iter().map(|x| body)): the argument as a vector
        if let Expr::Call(c) = e { for a in &mut c.args { if let Expr::MethodCall(m) = a { if m.method == "map" && m.args.len() == 1 { if let (Expr::MethodCall(it), Some(c)) = (&*m.receiver, closure(&m.args[0])) { if it.method == "iter" && c.inputs.len() == 1 {
            let (x, b, v, t) = (&c.inputs[0], &c.body, &it.receiver, self.fresh("v"));
            *a = pq!({ let mut #t = Vec::new(); for #x in &#v { #t.push(#b); } #t });
            self.hit("map(closure) in an argument to a loop that fills a vector");
        } } } } } }
        // TABLE.contains(x)
        if let Expr::MethodCall(m) = e { if m.method == "contains" { if let Some(Expr::Reference(r)) = toks(&m.receiver).parse::<TokenStream>().ok().and_then(|t| parse2::<Ident>(t).ok()).and_then(|i| self.slices.get(&i.to_string())) { if let Expr::Array(t) = &*r.expr {
            let (a, t) = (&m.args[0], t.elems.iter());
            *e = pq!(({ let x__ = #a; #(str_eq__(&#t, &x__))||* }));
            self.hit("lookup in a constant table of names spelled out");
        } } } }
        if let Expr::MethodCall(m) = e {
            if m.method == "map_err" { if let Some(c) = closure(&m.args[0]) { let (p, b, r) = (&c.inputs[0], &c.body, &m.receiver); self.hit("map_err(closure) to match"); *e = pq!(match #r { Ok(v__) => Ok(v__), Err(#p) => Err(#b) }); } }
        }
        if let Expr::ForLoop(f) = e {
            // for p in v.iter().filter(|x| c) / for p in v
            if let Expr::MethodCall(m) = &*f.expr { if m.method == "filter" { if let (Expr::MethodCall(it), Some(c)) = (&*m.receiver, closure(&m.args[0])) { if it.method == "iter" && !has_continue(&f.body) {
                let (p, b, x, y, v) = (&f.pat, &f.body, self.fresh("x"), &c.inputs[0], &it.receiver);
                let cond = &c.body;
                let y = match y { Pat::Reference(r) => { let q = &r.pat; quote!(let #q = #x;) } q => quote!(let #q = &#x;) };
                *e = pq!(for #x in &#v { let c__ = { #y #cond }; if c__ { let #p = #x; #b } });
                self.hit("filter(closure) in a for loop to if");
            } } } }
        }
        if let Expr::ForLoop(f) = e { if let Expr::Path(_) = &*f.expr {
            let i = self.fresh("i");
            let mut body = f.body.clone();
            if !crate::rw::step_before_continue(&mut body, &i) { return; }
            let (p, x, b) = (&f.pat, &f.expr, &body.stmts);
            self.hit("for loop over the copies in a vector to an index loop");
            *e = pq!({ let mut #i = 0; while #i < #x.len() { let #p = #x[#i]; #(#b)* #i += 1; } });
        } }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let num = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Int(_) | Lit::Bool(_), .. })) || toks(x).ends_with("len ()");
                if !num(&b.left) && !num(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    let n = if matches!(b.op, BinOp::Ne(_)) { quote!(!) } else { quote!() };
                    *e = pq!(#n str_eq__(&#l, &#r));
                    self.hit("comparison of strings to its trusted contract");
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "get" && m.args.is_empty() && matches!(&*m.receiver, Expr::Field(_)) { *e = (*m.receiver).clone(); self.hit("Cell access to plain access"); }
                else if n == "set" && m.args.len() == 1 && matches!(&*m.receiver, Expr::Field(_)) { let (r, a) = (&m.receiver, &m.args[0]); *e = pq!(#r = #a); self.hit("Cell access to plain access"); }
                else if let Some((f, by)) = self.methods.get(&n) { let f = format_ident!("{}", f); let (r, a) = (&m.receiver, m.args.iter()); let r: Expr = match &by[..] { "mut" => pq!(&mut #r), "ref" => pq!(&#r), _ => (**r).clone() }; *e = pq!(#f(#r #(, #a)*)); self.hit("method of a token list or syntax tree to its trusted contract"); }
            }
            Expr::Call(c) => if let Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { let n = i.to_string(); if n.len() == 1 && !self.fns.contains(&n) {
                let a: Vec<Expr> = c.args.iter().enumerate().map(|(k, a)| if k == 0 { match a { Expr::Reference(r) => { let x = &r.expr; pq!(&mut #x) } a => a.clone() } } else { a.clone() }).collect();
                *e = pq!(call_ptr__(#i #(, #a)*)); self.hit("call of a function pointer to its trusted contract");
            } } },
            _ => {}
        }
    }
}
fn has_continue(b: &Block) -> bool { toks(b).contains("continue") }

/// A function over a ParseStream: its cursor is a value that is changed through a mutable reference.
pub struct ParseFn { pub fail: Vec<String> }
impl ParseFn {
    pub fn run(f: &mut ItemFn) -> Vec<String> {
        let mut p = ParseFn { fail: vec![] };
        for i in &mut f.sig.inputs { if let FnArg::Typed(t) = i { if toks(&t.ty).starts_with("ParseStream") { *t.ty = pq!(&mut Toks__); } } }
        p.visit_block_mut(&mut f.block);
        p.fail
    }
    fn token(&mut self, m: &Macro) -> Type {
        match &toks(&m.tokens)[..] { "=" => pq!(syn::token::Eq), "," => pq!(syn::token::Comma), x => { self.fail.push(format!("token {x}")); pq!(()) } }
    }
    fn kind(&mut self, e: &Expr) -> Type {
        match e { Expr::Macro(m) => self.token(&m.mac), Expr::Path(p) => { let l = format_ident!("kw__{}", p.path.segments.last().unwrap().ident); pq!(#l) } e => { self.fail.push(format!("peek {}", toks(e))); pq!(()) } }
    }
}
impl VisitMut for ParseFn {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        match t {
            Type::Macro(m) => { let m = m.mac.clone(); *t = self.token(&m); }
            Type::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "kw" => { let l = format_ident!("kw__{}", p.path.segments[1].ident); *t = pq!(#l); }
            t => visit_mut::visit_type_mut(self, t),
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let (r, g) = (m.receiver.clone(), m.turbofish.clone());
            let n = m.method.to_string();
            match (&n[..], m.args.len()) {
                ("parse", 0) => { *e = match g { Some(g) => pq!(parse__ #g (&mut *#r)), None => pq!(parse__(&mut *#r)) }; if let Expr::Call(c) = e { self.visit_expr_mut(&mut c.func); } return; }
                ("peek" | "peek2", 1) => { let k = self.kind(&m.args[0]); let f = format_ident!("{}__", n); *e = pq!(#f::<#k>(&*#r)); return; }
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
