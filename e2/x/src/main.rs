//! Extracts functions from /repo/src, joins them with their contracts, and writes one Verus file.
//!   e2x UNIT CONTRACTS OUT [--external KEY]..
mod imp;
mod mr;
mod nm;
mod rw;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use rw::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote as pq, *};

#[derive(Default, Debug, Clone)]
struct Contract { flags: Vec<String>, ret: String, props: Vec<String>, head: String, loops: BTreeMap<usize, [String; 3]>, entry: String, exit: String, at: Vec<(String, usize, String)> }
#[derive(Default)]
struct Spec { prelude: String, post: String, fns: BTreeMap<String, Contract>, within: BTreeMap<String, String>, skip: BTreeMap<String, String>, files: Vec<String>, mono: Vec<(String, String)>, visitors: Vec<String>, consts: Vec<String>, tree: Vec<String>, impls: String, methods: BTreeMap<String, (String, String)>, own: bool }

fn read_spec(paths: &str) -> Spec {
    let mut s = Spec::default();
    let text: String = paths.split(',').map(|p| std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}")) + "\n").collect();
    for sec in format!("\n{text}").split("\n=== ").skip(1) {
        let (h, body) = sec.split_once('\n').unwrap_or((sec, ""));
        let w: Vec<&str> = h.split_whitespace().collect();
        match w[0] {
            "prelude" => s.prelude += body,
            "post" => s.post += body,
            "files" => s.files.extend(body.split_whitespace().map(String::from)),
            "visitors" => s.visitors.extend(body.split_whitespace().map(String::from)),
            "impls" => s.impls = body.to_string(),
            "tree" => s.tree.extend(body.split_whitespace().map(String::from)),
            "methods" => for l in body.lines() { let v: Vec<&str> = l.split_whitespace().collect(); if v.len() == 3 { s.methods.insert(v[0].into(), (v[1].into(), v[2].into())); } },
            "strings" => s.own = true,
            "mono" => s.mono.extend(body.lines().filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.into(), b.trim().into()))),
            "skip" => for l in body.lines() { if let Some((k, why)) = l.split_once(" | ") { s.skip.insert(k.into(), why.trim().into()); } },
            "in" => { s.within.insert(w[1..].join(" "), body.into()); }
            "fn" => {
                let mut c = Contract { ret: "r".into(), flags: w[2..].iter().map(|x| x.to_string()).collect(), ..Default::default() };
                let mut cur = ("head".to_string(), 0usize, String::new());
                for l in body.lines() {
                    if let Some(x) = l.strip_prefix("props: ") { c.props = x.split_whitespace().map(String::from).collect(); continue; }
                    if let Some(x) = l.strip_prefix("ret: ") { c.ret = x.trim().into(); continue; }
                    if let Some(x) = l.strip_prefix("--- ") {
                        let v: Vec<&str> = x.split_whitespace().collect();
                        cur = match v[0] { "loop" => (format!("loop{}", v.get(2).unwrap_or(&"")), v[1].parse().unwrap(), String::new()), "before" => { c.at.push((v[1].to_string(), v.get(2).map_or(0, |x| x.parse().unwrap()), String::new())); ("at".into(), 0, String::new()) } k => (k.into(), 0, String::new()) };
                        continue;
                    }
                    let t = match &cur.0[..] { "head" => &mut c.head, "entry" => &mut c.entry, "exit" => &mut c.exit, "at" => &mut c.at.last_mut().unwrap().2, "loop" => &mut c.loops.entry(cur.1).or_default()[0], "loopbegin" => &mut c.loops.entry(cur.1).or_default()[1], _ => &mut c.loops.entry(cur.1).or_default()[2] };
                    t.push_str(l);
                    t.push('\n');
                }
                s.fns.insert(w[1].into(), c);
            }
            _ => panic!("section {h}"),
        }
    }
    s
}

/// Token text with a line per statement.
fn show(t: TokenStream, out: &mut String) {
    let mut glue = true;
    for x in t {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Brace => ("{\n", "}\n"), Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                if a == "{\n" && !out.ends_with(' ') { out.push(' '); }
                out.push_str(a);
                show(g.stream(), out);
                if a == "{\n" && !out.ends_with('\n') { out.push('\n'); }
                out.push_str(b);
                glue = true;
                if b == "}\n" { glue = true; }
            }
            TokenTree::Punct(p) => { let c = p.as_char(); if !glue && c != ';' && c != ',' && c != '.' { out.push(' '); } out.push(c); if c == ';' { out.push('\n'); } glue = p.spacing() == Spacing::Joint || c == '.' || c == '&' || c == ';'; }
            x => { if !glue || (!out.ends_with(|c: char| c.is_whitespace() || "([{.&:<'#!".contains(c))) { if !out.ends_with(|c: char| "(['.&".contains(c)) && !out.ends_with('\n') { out.push(' '); } } out.push_str(&x.to_string()); glue = false; }
        }
    }
}
fn shown(t: &impl ToTokens) -> String { let mut s = String::new(); show(t.to_token_stream(), &mut s); s }

#[derive(Clone)]
struct Fun { key: String, f: ItemFn, self_ty: Option<String>, container: Option<String>, mono: Option<(String, String)>, consts: BTreeMap<String, Expr>, file: String }
#[derive(Default)]
struct Src { funs: Vec<Fun>, items: Vec<(String, String)>, containers: Vec<(String, String)>, macros: BTreeMap<String, TokenStream>, fail: Vec<String>, known: BTreeSet<String>, traits: BTreeMap<String, ItemTrait>, impls: Vec<ItemImpl> }

fn ty_name(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), t => toks(t) } }
struct Vis;
impl VisitMut for Vis {
    fn visit_visibility_mut(&mut self, v: &mut Visibility) { *v = pq!(pub); }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t { flat(&mut p.path); let l = p.path.segments.last().unwrap(); if l.ident == "RefCell" || l.ident == "Cell" { if let PathArguments::AngleBracketed(a) = &l.arguments { if let GenericArgument::Type(x) = &a.args[0] { *t = x.clone(); } } } }
    }
}
fn imethod(m: &ImplItemFn) -> ItemFn { ItemFn { attrs: m.attrs.clone(), vis: pq!(pub), sig: m.sig.clone(), block: Box::new(m.block.clone()) } }

fn derives(attrs: &[Attribute], what: &str) -> bool { attrs.iter().any(|a| a.path().is_ident("derive") && toks(&a.meta).split(|c: char| !c.is_alphanumeric()).any(|x| x == what)) }
fn lift(src: &mut Src, file: &str, outer: &str, b: &mut Block, consts: &mut BTreeMap<String, Expr>) {
    let mut ren = BTreeMap::new();
    let stmts = std::mem::take(&mut b.stmts);
    for s in stmts {
        match s {
            Stmt::Item(Item::Fn(mut f)) => { let n = format!("{outer}__{}", f.sig.ident); ren.insert(f.sig.ident.to_string(), n.clone()); f.sig.ident = Ident::new(&n, f.sig.ident.span()); collect(src, file, vec![Item::Fn(f)], consts); }
            Stmt::Item(Item::Const(c)) => { if toks(&c.ty).contains('[') { consts.insert(c.ident.to_string(), (*c.expr).clone()); } else { collect(src, file, vec![Item::Const(c)], consts); } }
            Stmt::Item(Item::Use(_)) => {}
            Stmt::Item(Item::Macro(m)) if m.ident.is_some() => { src.macros.insert(m.ident.unwrap().to_string(), m.mac.tokens); }
            Stmt::Item(i) => collect(src, file, vec![i], consts),
            Stmt::Macro(m) if m.mac.path.get_ident().map_or(false, |i| src.macros.contains_key(&i.to_string())) => {
                let d = src.macros[&m.mac.path.get_ident().unwrap().to_string()].clone();
                match mr::expand(d, m.mac.tokens.clone()).and_then(|t| Block::parse_within.parse2(t).ok()) { Some(v) => b.stmts.extend(v), None => src.fail.push(format!("macro {}", toks(&m.mac.path))) }
            }
            s => b.stmts.push(s),
        }
    }
    let lifted: Vec<String> = ren.values().cloned().collect();
    if !ren.is_empty() { struct R(BTreeMap<String, String>); impl VisitMut for R { fn visit_expr_call_mut(&mut self, c: &mut ExprCall) { if let Expr::Path(p) = &mut *c.func { if let Some(n) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) { p.path = { let i = format_ident!("{}", n); pq!(#i) }; } } visit_mut::visit_expr_call_mut(self, c) } } let mut r = R(ren); r.visit_block_mut(b); for f in &mut src.funs { if lifted.contains(&f.key) { r.visit_block_mut(&mut f.f.block); } } }
}
use syn::parse::Parser;
fn collect(src: &mut Src, file: &str, items: Vec<Item>, consts: &BTreeMap<String, Expr>) {
    for it in items {
        match it {
            Item::Fn(mut f) => { let mut c = consts.clone(); let n = f.sig.ident.to_string(); lift(src, file, &n, &mut f.block, &mut c); src.known.insert(n.clone());
                // macros that stand for statements
                src.funs.push(Fun { key: n, f, self_ty: None, container: None, mono: None, consts: c, file: file.into() }); }
            Item::Struct(mut s) => {
                let dflt = derives(&s.attrs, "Default"); let cp = derives(&s.attrs, "Copy");
                s.attrs.clear(); Vis.visit_item_struct_mut(&mut s); s.vis = pq!(pub);
                for f in &mut s.fields { f.attrs.clear(); f.vis = pq!(pub); }
                let n = s.ident.to_string();
                let mut t = String::new();
                if cp { t += "#[derive(Clone, Copy)]\n"; }
                t += &shown(&s);
                if dflt {
                    let (ig, tg, _) = s.generics.split_for_impl();
                    let fs: Vec<TokenStream> = s.fields.iter().map(|f| { let n = &f.ident; let ty = &f.ty; let v: TokenStream = match &toks(ty)[..] { "bool" => quote!(false), "usize" => quote!(0), _ => { src.fail.push(format!("Default of {}", toks(ty))); quote!() } }; quote!(#n: #v) }).collect();
                    let id = &s.ident;
                    t += &format!("impl {} {} {} {{ pub fn default() -> (r: Self) ensures r == ({} {{ {} }}) {{ {} {{ {} }} }} }}\n", toks(&ig), n, toks(&tg), toks(id), toks(&quote!(#(#fs),*)), toks(id), toks(&quote!(#(#fs),*)));
                }
                src.items.push((n, t));
            }
            Item::Enum(mut e) => { let eq = derives(&e.attrs, "PartialEq"); e.attrs.clear(); e.vis = pq!(pub); for v in &mut e.variants { v.attrs.clear(); } src.items.push((e.ident.to_string(), format!("{}{}", if eq { "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" } else { "" }, shown(&e)))); }
            Item::Const(mut c) => { if toks(&c.ty).contains('[') { src.items.push((c.ident.to_string(), format!("//slice {}", toks(&c.expr)))); continue; } c.vis = pq!(pub); if let Type::Reference(r) = &mut *c.ty { if r.lifetime.is_none() { r.lifetime = Some(pq!('static)); } } c.attrs.clear(); src.items.push((c.ident.to_string(), shown(&c))); }
            Item::Impl(i) => {
                let ty = ty_name(&i.self_ty);
                let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                for m in &i.items { if let ImplItem::Fn(m) = m { src.known.insert(format!("{}::{}", if tr.as_deref() == Some("VecExt") { "VecExt" } else { &ty }, m.sig.ident)); } }
                src.impls.push(i);
            }
            Item::Trait(t) => { src.traits.insert(t.ident.to_string(), t); }
            Item::Macro(m) => match &m.ident {
                Some(i) => { src.macros.insert(i.to_string(), m.mac.tokens.clone()); }
                None => { let n = m.mac.path.segments.last().unwrap().ident.to_string(); if let Some(d) = src.macros.get(&n).cloned() { match mr::expand(d, m.mac.tokens.clone()).and_then(|t| parse2::<File>(t).ok()) { Some(f) => collect(src, file, f.items, consts), None => src.fail.push(format!("macro {n}")) } } }
            },
            _ => {}
        }
    }
}
/// After everything is collected: the methods of every impl and trait.
fn methods(src: &mut Src, spec: &Spec) {
    for i in std::mem::take(&mut src.impls) {
        let ty = ty_name(&i.self_ty);
        let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
        let mut gen = i.generics.clone();
        gen.where_clause = None;
        let (g, st) = (toks(&gen), toks(&i.self_ty));
        let (cont, keep): (Option<String>, bool) = match tr.as_deref() {
            None | Some("VisitMut" | "Parse") => (Some(format!("impl {g} {st}")), true),
            Some("Attrs") | Some("Node") => (Some(format!("impl {} for {st}", tr.clone().unwrap())), true),
            Some("VecExt") => (Some("VecExt".into()), true),
            Some("VisitStmt") => (Some(format!("impl {g} {st}")), false),
            Some(x) => if spec.skip.contains_key(&format!("impl {x} for {ty}")) { continue } else { src.fail.push(format!("impl {x} for {ty}")); continue },
        };
        let mut items = i.items.clone();
        if tr.as_deref() == Some("VisitMut") {
            // the methods of syn's trait that the visitor leaves alone, spelled out; those it has and no contract speaks of
            let own: Vec<String> = items.iter().filter_map(|m| if let ImplItem::Fn(m) = m { Some(m.sig.ident.to_string()) } else { None }).collect();
            for (k, t) in [("expr", "Expr"), ("stmt", "Stmt"), ("arm", "Arm"), ("local", "Local"), ("block", "Block"), ("item_fn", "ItemFn"), ("item", "Item")] {
                let (m, t) = (format_ident!("visit_{}_mut", k), format_ident!("{}", t));
                if spec.fns.contains_key(&format!("{ty}::{m}")) && !own.contains(&m.to_string()) { items.push(pq!(fn #m(&mut self, node: &mut #t) { visit_mut::#m(self, node) })); }
            }
            for m in own { if !spec.fns.contains_key(&format!("{ty}::{m}")) { src.fail.push(format!("{ty}::{m} overrides a method that no contract speaks of")); } }
        }
        for m in &items { let ImplItem::Fn(m) = m else { continue }; if !keep { continue; }
            let mut f = imethod(m);
            if tr.as_deref() == Some("VisitMut") { for a in &mut f.sig.inputs { if let FnArg::Typed(a) = a { if matches!(*a.pat, Pat::Wild(_)) { *a.pat = pq!(node); } } } }
            if tr.as_deref() == Some("Parse") { src.fail.extend(nm::ParseFn::run(&mut f)); }
            let mut consts = BTreeMap::new();
            let key = if tr.as_deref() == Some("VecExt") { format!("VecExt::{}", f.sig.ident) } else { format!("{ty}::{}", f.sig.ident) };
            lift(src, "", &key.replace("::", "_"), &mut f.block, &mut consts);
            if tr.as_deref() == Some("Node") {
                for v in &spec.visitors { let mut f = f.clone(); f.sig.ident = format_ident!("visited__{}", v); set_visitor(&mut f.sig, v); src.funs.push(Fun { key: format!("{ty}::visited__{v}"), f, self_ty: Some(ty.clone()), container: cont.clone(), mono: Some((ty.clone(), v.clone())), consts: consts.clone(), file: "".into() }); }
                continue;
            }
            src.funs.push(Fun { key, f, self_ty: Some(ty.clone()), container: cont.clone(), mono: None, consts, file: "".into() });
        }
        if tr.as_deref() == Some("VisitStmt") {
            let t = src.traits.get("VisitStmt").cloned();
            for m in t.iter().flat_map(|t| &t.items) { if let TraitItem::Fn(TraitItemFn { sig, default: Some(b), .. }) = m {
                let mut f = ItemFn { attrs: vec![], vis: pq!(pub), sig: sig.clone(), block: Box::new(b.clone()) };
                f.sig.ident = format_ident!("VisitStmt__{}", sig.ident);
                src.funs.push(Fun { key: format!("{ty}::VisitStmt__{}", sig.ident), f, self_ty: Some(ty.clone()), container: cont.clone(), mono: Some((ty.clone(), ty.clone())), consts: BTreeMap::new(), file: "".into() });
            } }
        }
    }
    for n in ["Attrs", "Node"] {
        let Some(t) = src.traits.get(n).cloned() else { continue };
        for m in &t.items { if let TraitItem::Fn(TraitItemFn { sig, default, .. }) = m {
            let mut f = ItemFn { attrs: vec![], vis: Visibility::Inherited, sig: sig.clone(), block: Box::new(default.clone().unwrap_or(pq!({ __DECL__(); }))) };
            if n == "Node" { for v in &spec.visitors { f.sig.ident = format_ident!("visited__{}", v); set_visitor(&mut f.sig, v); src.funs.push(Fun { key: format!("{n}::visited__{v}"), f: f.clone(), self_ty: Some(n.into()), container: Some(format!("trait {n}")), mono: None, consts: BTreeMap::new(), file: "".into() }); } continue; }
            src.funs.push(Fun { key: format!("{n}::{}", sig.ident), f, self_ty: Some(n.into()), container: Some(format!("trait {n}")), mono: None, consts: BTreeMap::new(), file: "".into() });
        } }
    }
}
fn set_visitor(s: &mut Signature, v: &str) { if let FnArg::Typed(t) = &mut s.inputs[1] { let v = format_ident!("{}", v); *t.ty = pq!(&mut #v); } }

/// `a || b` and `a && b`, where b has a loop, as `if`.
struct LazyLoops;
impl LazyLoops {
    /// At the end of the function: an early return.
    fn tail(b: &mut Block) {
        while let Some(Stmt::Expr(Expr::Binary(x), None)) = b.stmts.last().cloned() {
            if !toks(&x.right).contains("while ") { return; }
            let (l, mut r) = (x.left, *x.right);
            while let Expr::Paren(p) = r { r = *p.expr; }
            match x.op { BinOp::Or(_) => { b.stmts.pop(); b.stmts.push(pq!(if #l { return true; })); } BinOp::And(_) => { b.stmts.pop(); b.stmts.push(pq!(if !(#l) { return false; })); } _ => return }
            b.stmts.push(Stmt::Expr(r, None));
        }
    }
}
impl VisitMut for LazyLoops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e { if toks(&b.right).contains("while ") {
            let (l, r) = (&b.left, &b.right);
            match b.op { BinOp::Or(_) => *e = pq!({ if #l { true } else { #r } }), BinOp::And(_) => *e = pq!({ if #l { #r } else { false } }), _ => {} }
        } }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// Puts __LOOP__(k) at the start and __LOOPEND__(k) at the end of every loop body.
struct Loops { kinds: Vec<&'static str>, n: usize, labels: bool, names: BTreeMap<usize, BTreeMap<char, String>> }
impl VisitMut for Loops {
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        let k = self.n;
        self.n += 1;
        let c = toks(&w.cond);
        self.kinds.push(if c.ends_with("== true") { "all" } else if c.ends_with("== false") { "any" } else if c.ends_with("is_none ()") { "position" } else { "for" });
        let mut m = BTreeMap::new();
        for t in (toks(&w.cond) + " " + &toks(&w.body)).split(|c: char| !c.is_alphanumeric() && c != '_') { if t.ends_with("__") && t.as_bytes().get(1) == Some(&b'_') { m.entry(t.chars().next().unwrap()).or_insert(t.to_string()); } }
        self.names.insert(k, m);
        visit_mut::visit_expr_while_mut(self, w);
        w.body.stmts.insert(0, pq!(__LOOP__(#k);));
        w.body.stmts.push(pq!(__LOOPEND__(#k);));
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// Puts __AT__(k) before the k-th recorded call.
struct At<'a> { at: &'a [(String, usize, String)], seen: BTreeMap<String, usize> }
impl VisitMut for At<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let t = toks(&s);
            for (k, (name, nth, _)) in self.at.iter().enumerate() {
                let here = match &s { Stmt::Expr(Expr::Call(_) | Expr::MethodCall(_) | Expr::Assign(_), _) => t.contains(&format!("{name} ")) , Stmt::Local(_) => t.contains(&format!("{name} ")) && !t.contains("match "), Stmt::Expr(Expr::If(i), _) => format!("{} ", toks(&i.cond)).contains(&format!("{name} ")), Stmt::Expr(Expr::Match(m), _) => format!("{} ", toks(&m.expr)).contains(&format!("{name} ")), _ => false };
                if here { let c = self.seen.entry(format!("{name}/{k}")).or_default(); if *c == *nth { b.stmts.push(pq!(__AT__(#k);)); } *c += 1; }
            }
            self.visit_stmt_mut(&mut s);
            b.stmts.push(s);
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("E2_SRC").unwrap_or("/repo/src".into());
    let assume: BTreeSet<String> = std::env::var("E2_ASSUME").unwrap_or_default().split(',').map(String::from).collect();
    let ext: BTreeSet<String> = a.iter().skip(4).cloned().collect();
    let spec = read_spec(&a[2]);
    let mut src = Src::default();
    for f in &spec.files {
        let t = std::fs::read_to_string(format!("{root}/{f}")).unwrap_or_default();
        match parse_file(&t) { Ok(mut x) => { let c = Cfg { on: true }; x.items.retain_mut(|i| match i { Item::Fn(f) => c.keep(&mut f.attrs.clone()), Item::Macro(_) => true, _ => true }); collect(&mut src, f, x.items, &BTreeMap::new()) } Err(e) => src.fail.push(format!("{f}: {e}")) }
    }
    methods(&mut src, &spec);
    for n in spec.fns.keys() { if !src.funs.iter().any(|f| f.key == *n) && !spec.fns[n].flags.iter().any(|f| f == "given") { src.fail.push(format!("lost {n}")); } }
    let mut slices: BTreeMap<String, Expr> = BTreeMap::new();
    for (n, t) in &src.items { if let Some(e) = t.strip_prefix("//slice ") { if let Ok(e) = parse_str(e) { slices.insert(n.clone(), e); } } }
    let mut fails: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut log: BTreeMap<&'static str, usize> = BTreeMap::new();
    let mut names = nm::Names::new();
    for t in &spec.tree { nm::tree(&root, &format!("{t}/mod"), "", &mut names, &mut src.fail); }
    if a[1] == "impls" { return imp::unit(&spec.prelude, &spec.impls, &names, &ext, &assume, src.fail.clone(), &a[3]); }
    let funs: Vec<Fun> = src.funs.iter().filter(|f| !spec.skip.contains_key(&f.key)).cloned().map(|mut f| {
        let mut m = Macros { fail: vec![], alias: Default::default() };
        Cfg { on: true }.visit_block_mut(&mut f.f.block);
        m.visit_block_mut(&mut f.f.block);
        if spec.own {
            let mut t = nm::Tables { names: &names, log: &mut log, fail: vec![] };
            t.visit_block_mut(&mut f.f.block);
            m.fail.extend(t.fail);
            nm::Strings { log: &mut log, n: 0, methods: &spec.methods, fns: &src.known, slices: &slices }.visit_block_mut(&mut f.f.block);
        }
        if !m.fail.is_empty() { fails.entry(f.key.clone()).or_default().extend(m.fail); }
        f.f.attrs.clear();
        for i in &mut f.f.sig.inputs { if let FnArg::Typed(t) = i { if let Type::ImplTrait(it) = &*t.ty { if toks(&it.bounds).starts_with("IntoIterator") { if let TypeParamBound::Trait(b) = &it.bounds[0] { if let PathArguments::AngleBracketed(a) = &b.path.segments[0].arguments { if let GenericArgument::AssocType(x) = &a.args[0] { let ty = &x.ty; *t.ty = pq!(Vec<#ty>); } } } } } Vis.visit_type_mut(&mut t.ty); t.attrs.clear(); } }
        if let ReturnType::Type(_, t) = &mut f.f.sig.output { Vis.visit_type_mut(t); }
        f
    }).collect();
    let in_trait = |f: &Fun| f.container.as_ref().map_or(false, |c| c.contains(" for ") || c.starts_with("trait "));
    let mut inline = BTreeMap::new();
    for f in &funs {
        let clos = f.f.sig.inputs.iter().any(|i| toks(i).contains("impl Fn"));
        if clos || (!spec.fns.contains_key(&f.key) && !in_trait(f)) { inline.insert(f.key.clone(), f.f.clone()); }
    }
    let mut out = String::from("#![allow(unused, non_snake_case)]\nuse vstd::prelude::*;\nuse syn::*;\nuse proc_macro2::{Ident, TokenStream};\nverus! {\n");
    out += &spec.prelude;
    for (n, t) in &src.items { if !t.starts_with("//slice") && !spec.skip.contains_key(n) { out += &format!("//@item {n}\n{t}\n"); } }
    let mut used: BTreeSet<String> = BTreeSet::new();
    let mut rows = vec![];
    let mut conts: Vec<String> = vec![];
    for f in &funs { let c = f.container.clone().unwrap_or_default(); if !conts.contains(&c) { conts.push(c); } }
    for c in conts {
        if c == "VecExt" { continue; }
        let mut free = String::new();
        if !c.is_empty() { out += &if c.starts_with("trait ") { format!("pub {c}: Sized {{\n") } else { format!("{c} {{\n") }; if let Some(w) = spec.within.get(&c) { out += w; } }
        for f in funs.iter().filter(|f| f.container.clone().unwrap_or_default() == c) {
            if inline.contains_key(&f.key) { continue; }
            let ct = spec.fns.get(&f.key).cloned().unwrap_or_default();
            let flag = |x: &str| ct.flags.iter().any(|y| y == x);
            let mut g = f.f.clone();
            let mut consts = slices.clone();
            consts.extend(f.consts.clone());
            let mut rw = Rw { inline: &inline, self_ty: f.self_ty.clone(), fn_key: f.key.clone(), n: 0, used: BTreeSet::new(), vars: BTreeMap::new(), log: BTreeMap::new(), depth: 0, muts: BTreeSet::new(), fail: vec![], noguards: flag("noguards"), own: spec.own };
            // parameters whose type is a known visitor
            for i in &g.sig.inputs { if let FnArg::Typed(t) = i { if let (Pat::Ident(p), Type::Reference(r)) = (&*t.pat, &*t.ty) { rw.vars.insert(p.ident.to_string(), ty_name(&r.elem)); if r.mutability.is_some() { rw.muts.insert(p.ident.to_string()); } } } }
            if flag("noguards") { undestructure(&mut g, &mut rw); }
            Pass { rw: &mut rw, known: &src.known, consts: &consts, mono: f.mono.clone() }.visit_block_mut(&mut g.block);
            let mut fl = fails.get(&f.key).cloned().unwrap_or_default();
            fl.extend(rw.fail.clone());
            for u in &rw.used { used.insert(u.clone()); if let Some(x) = fails.get(u) { fl.extend(x.clone()); } }
            for (k, n) in rw.log { *log.entry(k).or_default() += n; }
            if flag("mutself") {
                match &mut g.sig.inputs[0] { FnArg::Receiver(r) if r.reference.is_some() => { r.mutability = Some(Default::default()); *r.ty = pq!(&mut Self); } FnArg::Receiver(_) => { let mut ren = BTreeMap::new(); ren.insert("self".to_string(), "self__".to_string()); Rename(ren).visit_block_mut(&mut g.block); g.block.stmts.insert(0, pq!(let mut self__ = self;)); } _ => {} }
                *log.entry("&self of a function that reports errors to &mut self (RefCell removed)").or_default() += 1;
            }
            for a in &mut g.sig.inputs { if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &mut *t.pat { if p.mutability.take().is_some() { let i = &p.ident; g.block.stmts.insert(0, pq!(let mut #i = #i;)); } } } }
            LazyLoops::tail(&mut g.block);
            LazyLoops.visit_block_mut(&mut g.block);
            let mut lp = Loops { kinds: vec![], n: 0, labels: false, names: BTreeMap::new() };
            lp.visit_block_mut(&mut g.block);
            let mut at = At { at: &ct.at, seen: BTreeMap::new() };
            at.visit_block_mut(&mut g.block);
            let shape = format!("{}|{}", lp.kinds.join(" "), at.seen.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(" "));
            let trusted = flag("trusted");
            if !trusted {
                let body = toks(&g.block);
                for (k, (name, n, _)) in ct.at.iter().enumerate() { if !body.contains(&format!("__AT__ ({k}usize)")) { fl.push(format!("the place of a hint is gone: before {name} {n}")); } }
                for k in ct.loops.keys() { if *k >= lp.n { fl.push(format!("loop {k}, which has an invariant, is gone")); } }
                if ct.head.contains("ensures") { for k in 0..lp.n { if !ct.loops.contains_key(&k) { fl.push(format!("loop {k} has no invariant")); } } }
            }
            let real_ext = ext.contains(&f.key) || !fl.is_empty();
            let external = real_ext || assume.contains(&f.key);
            let st = if trusted { "trusted" } else if real_ext { "undecided" } else { "contract" };
            out += &format!("//@begin {}\n", f.key);
            let decl = toks(&g.block).contains("__DECL__");
            if !decl { if trusted || external { out += "#[verifier::external_body]\n"; } else { out += "#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n"; } if flag("complex") { out += "#[verifier::allow_complex_invariants]\n"; } if flag("rlimit") { out += "#[verifier::rlimit(60)]\n"; } }
            let node_impl = f.container.as_deref().map_or(false, |c| c.starts_with("impl Node for "));
            let mut head = ct.head.clone();
            if node_impl {
                out = out.trim_end().rsplit_once("//@begin").unwrap().0.to_string();
                out += &format!("#[verifier::external_body]\nfn {}({}) {{ unimplemented!() }}\n", g.sig.ident, g.sig.inputs.iter().map(|i| toks(i)).collect::<Vec<_>>().join(", "));
                let me = f.self_ty.clone().unwrap();
                let mut ren = BTreeMap::new();
                ren.insert("self".to_string(), "this__".to_string());
                Rename(ren).visit_block_mut(&mut g.block);
                let ty = format_ident!("{}", me);
                g.sig.inputs[0] = pq!(this__: &mut #ty);
                g.sig.ident = format_ident!("{}__{}", me, g.sig.ident);
                head = spec.fns.get(&format!("Node::{}", f.f.sig.ident)).map_or(String::new(), |c| c.head.replace("(self)", "(this__)"));
            }
            let mut buf = String::new();
            let real = std::mem::take(&mut out);
            if node_impl { out += &format!("//@begin {}\n", f.key); if external { out += "#[verifier::external_body]\n"; } else { out += "#[verifier::exec_allows_no_decreases_clause]\n"; } out += "pub "; }
            let sig = &g.sig;
            let (ig, _, _) = sig.generics.split_for_impl();
            let inputs: Vec<String> = sig.inputs.iter().map(|i| toks(i)).collect();
            if !in_trait(f) { out += "pub "; }
            out += &format!("fn {}{}({})", sig.ident, toks(&ig), inputs.join(", "));
            if let ReturnType::Type(_, t) = &sig.output { out += &format!(" -> ({}: {})", ct.ret.if_empty("r"), toks(t)); }
            out += &format!("\n{}", head);
            if decl { out += ";\n"; } else if trusted || external { out += "{ unimplemented!() }\n"; } else {
                let mut b = String::new();
                show(g.block.to_token_stream(), &mut b);
                let (hide, entry): (Vec<_>, Vec<_>) = ct.entry.lines().filter(|l| *l != "broadcast use base;").partition(|l| l.starts_with("hide("));
                let b = b.replacen("{\n", &format!("{{\n{}\nbroadcast use base;\n{}\n", hide.join("\n"), entry.join("\n")), 1);
                let mut b = b;
                for k in 0..lp.n {
                    let [inv, beg, end] = ct.loops.get(&k).cloned().unwrap_or_default().map(|t| lp.names.get(&k).into_iter().flatten().fold(t, |t, (c, n)| t.replace(&format!("${c}"), n)));
                    b = re(&b, &format!("__LOOP__({k}usize);\n"), |before| { let i = before.rfind("{\n").unwrap(); format!("{}\n{}{{\n{}", &before[..i], inv, beg) });
                    b = b.replacen(&format!("__LOOPEND__({k}usize);\n"), &end, 1);
                }
                for (k, (_, _, t)) in ct.at.iter().enumerate() { let m = format!("__AT__({k}usize);\n"); if !b.contains(&m) { fails.entry(f.key.clone()).or_default().push(format!("hint position {k} not found")); } b = b.replace(&m, t); }
                if !ct.exit.is_empty() { let i = b.rfind('}').unwrap(); b = format!("{}{}{}", &b[..i], ct.exit, &b[i..]); }
                // vacuity check: neither the start nor the end of a body may be contradictory
                match std::env::var("E2_VACUOUS").as_deref() {
                    Ok("entry") => b = b.replacen("broadcast use base;\n", "broadcast use base;\nassert(false); // VACUOUS\n", 1),
                    Ok("end") => { for h in &hide { b = b.replacen(h, "", 1); } b = format!("{{ {}\nlet r__vac: {} = {b};\nassert(false); // VACUOUS\nr__vac }}\n", hide.join("\n"), if let ReturnType::Type(_, t) = &sig.output { toks(t) } else { "()".into() }) }
                    _ => {}
                }
                out += &b;
            }
            out += "//@end\n";
            buf.push_str(&out);
            out = real;
            if node_impl { free += &buf; } else { out += &buf; }
            rows.push(format!("{{\"key\":{:?},\"status\":{:?},\"props\":{:?},\"why\":{:?},\"ensures\":{},\"shape\":{shape:?}}}", f.key, if decl { "decl" } else { st }, ct.props, fl, ct.head.contains("ensures") || in_trait(f)));
        }
        if !c.is_empty() { out += "}\n"; }
        out += &free;
    }
    out += &spec.post;
    out += "}\nfn main() {}\n";
    std::fs::write(&a[3], out).unwrap();
    let skip: Vec<String> = spec.skip.iter().map(|(k, w)| format!("{k}: {w}")).collect();
    println!("{{\"functions\":[{}],\"fail\":{:?},\"inlined\":{:?},\"rewrites\":{{{}}},\"skipped\":{:?}}}", rows.join(","), src.fail, used.iter().collect::<Vec<_>>(), log.iter().map(|(k, v)| format!("{k:?}:{v}")).collect::<Vec<_>>().join(","), skip);
}
trait IfEmpty { fn if_empty(&self, d: &str) -> String; }
impl IfEmpty for String { fn if_empty(&self, d: &str) -> String { if self.is_empty() { d.into() } else { self.clone() } } }
/// Replaces the first `needle`, letting `f` rewrite everything before it.
fn re(s: &str, needle: &str, f: impl Fn(&str) -> String) -> String { match s.find(needle) { Some(i) => f(&s[..i]) + &s[i + needle.len()..], None => s.into() } }
