//! Second stage of the generator: takes a generated item and changes it at random places: other
//! attributes on any node, every kind of surrounding expression, large and unusual shapes, nested
//! items full of things that must not be touched. What it makes is again just an input.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::str::FromStr;
use syn::{visit_mut::{self, VisitMut}, *};
use crate::gen::Rng;

pub struct Deco<'r> { pub r: &'r mut Rng, rate: usize, fresh: usize }
const ATTRS: &[&str] = &["#[allow(unused)]", "#[deny(unused_variables)]", "#[cfg(all())]", "#[rustfmt::skip]", "#[doc = \"x\"]", "#[a::never]", "#[a::nested]", "#[never::a]", "#[auto_enum::x]", "#[inline]", "#[must_use]", "#[expect(dead_code)]", "#[nested_]", "#[cfg_attr(all(), nested)]", "#[warn(unreachable_code)]", "#[x = 1]", "#[derive(A)]", "#[test]"];
const ITEMS: &[&str] = &[
    "fn i() -> Result<u8, u8> { a?; b?; c?; return Ok(marker!(1)) }", "const C: u8 = { loop { break 1; } };", "static S: u8 = match 1 { 1 => return, _ => { a?; b? } };",
    "impl S { fn f() -> u8 { #[nested] match x { _ => return 1 } } }", "mod m { fn f() { marker!(x); m1!(x); return; } }", "trait T { fn f(&self) { return a?; } }",
    "fn i() -> u8 { #[never] { #[auto_enum(Debug)] match x { 1 => marker!(2), _ => return 3 } } }", "#[auto_enum(Debug)] fn i() -> impl Debug { if a { 1 } else { return 2 } }", "#[never] const X: u8 = 1;", "#[nested] struct N;", "#[rec] use a::b;",
    "enum __Enum0 { A(u8) }", "macro_rules! k { () => { return marker!(1) } }", "union U { a: u8 }", "type A = [u8; { return 1 }];", "static mut M: fn() = { 'a: loop { break 'a b?; } };", "extern \"C\" { fn e(); }",
];

impl Deco<'_> {
    fn attr(&mut self) -> Attribute {
        let s = self.r.pick(ATTRS);
        let t = TokenStream::from_str(s).unwrap();
        let l: Local = match parse2(quote!(#t let x = 1;)) { Ok(Stmt::Local(l)) => l, _ => unreachable!() };
        l.attrs.into_iter().next().unwrap()
    }
    fn put(&mut self, a: &mut Vec<Attribute>) { let n = self.attr(); let k = self.r.below(a.len() + 1); a.insert(k, n); }
    fn item(&mut self) -> Stmt { let s = self.r.pick(ITEMS); Stmt::Item(parse_str(s).unwrap()) }
    fn name(&mut self) -> Ident { self.fresh += 1; quote::format_ident!("q{}", self.fresh) }
    /// Some expression with `e` in it.
    fn surround(&mut self, e: Expr) -> Expr {
        let n = self.name();
        let t = match self.r.below(40) {
            0 => quote!(&#e), 1 => quote!(&mut (#e)), 2 => quote!(-(#e)), 3 => quote!(!(#e)), 4 => quote!(*(#e)), 5 => quote!((#e) as u8), 6 => quote!(#n[#e]), 7 => quote!((#e)[#n]),
            8 => quote!((#e).f), 9 => quote!((#e).await), 10 => quote!(S { a: #e, ..b }), 11 => quote!([#e; 3]), 12 => quote!([#n, #e]), 13 => quote!(#n = #e), 14 => quote!(#n += #e),
            15 => quote!((#e)..#n), 16 => quote!(..=(#e)), 17 => quote!(const { #e }), 18 => quote!(h(|y| #e, #n)), 19 => quote!(h(|y| #n, #e)), 20 => quote!(h(async { #e }, #n)), 21 => quote!(h(async { #n }, #e)),
            22 => quote!((#n) + (#e)), 23 => quote!((#e) && #n), 24 => quote!((#e, )), 25 => quote!((#e)(#n)), 26 => quote!(#n.m(#e)), 27 => quote!((#e).m::<u8>(#n).k()), 28 => quote!(if let Some(z) = (#e) { #n } else { q() }),
            29 => quote!(match (#e) { _ if #n => 1, z => 2 }), 30 => quote!(yield #e), 31 => quote!(while let Some(z) = (#e) { #n }), 32 => quote!(for z in (#e) { #n }), 33 => quote!(h(try { #e }, #n)), 34 => quote!(h(try { #n }, #e)),
            35 => quote!({ #n }.m(#e)), 36 => quote!(static || #e), 37 => quote!(unsafe { #e }), 38 => quote!(h(#n?, (#e)?)), _ => quote!((#e) == #n),
        };
        parse2(t).unwrap_or(e)
    }
}

impl VisitMut for Deco<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::If(i) = e { if self.r.one_in(self.rate) { let n = self.name(); *i.cond = match self.r.below(3) { 0 => parse_quote!(let Some(z) = #n), 1 => parse_quote!(#n && let Some(z) = y), _ => parse_quote!(let 1 = match #n { 1 => a, _ => b }) }; } }
        if let Expr::Match(m) = e { if self.r.one_in(self.rate) { match self.r.below(4) {
            0 => { let n = [9, 17, 33, 70][self.r.below(4)]; if let (Some(l), true) = (m.arms.iter().position(|a| matches!(&*a.body, Expr::Path(_) | Expr::Call(_) | Expr::Lit(_))), m.arms.len() < 8) { for k in 0..n { let mut a = m.arms[l].clone(); let (v, b) = (k as usize + 100, self.name()); a.pat = parse_quote!(#v); *a.body = parse_quote!(#b); a.comma = Some(Default::default()); m.arms.insert(l, a); } } }
            1 => for a in &mut m.arms { a.comma = if matches!(*a.body, Expr::Block(_) | Expr::Match(_) | Expr::If(_)) { None } else { Some(Default::default()) } },
            2 => { m.arms.clear(); }
            _ => if let Some(a) = m.arms.first_mut() { a.guard = Some((Default::default(), parse_quote!({ let Some(z) = (if c { a } else { b }) else { d }; z }))); }
        } } }
        if self.r.one_in(3 * self.rate) { let x = std::mem::replace(e, Expr::Verbatim(TokenStream::new())); *e = self.surround(x); }
        if self.r.one_in(self.rate) { let a = self.attr(); if let Some(at) = crate::oracle::attrs_mut(e) { at.push(a); } }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) { visit_mut::visit_arm_mut(self, a); if self.r.one_in(self.rate) { self.put(&mut a.attrs); } }
    fn visit_local_mut(&mut self, l: &mut Local) { visit_mut::visit_local_mut(self, l); if self.r.one_in(self.rate) { self.put(&mut l.attrs); } }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if self.r.one_in(self.rate) { let k = self.r.below(b.stmts.len() + 1); if k < b.stmts.len() || self.r.one_in(4) { let i = self.item(); b.stmts.insert(k, i); } }
        if self.r.one_in(6 * self.rate) { for _ in 0..40 { let n = self.name(); b.stmts.insert(0, parse_quote!(let #n = f(#n);)); } }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

/// `input` with changes, or `None` if it does not parse or print.
pub fn decorate(r: &mut Rng, input: &str) -> Option<String> {
    let rate = [4, 8, 16, 40][r.below(4)];
    let mut d = Deco { r, rate, fresh: 0 };
    match parse_str::<Stmt>(input) {
        Ok(mut s) => { match &mut s { Stmt::Item(Item::Fn(f)) => { d.visit_block_mut(&mut f.block); if d.r.one_in(6) { d.put(&mut f.attrs); } if d.r.one_in(8) { f.sig.asyncness = Some(Default::default()); } }, s => d.visit_stmt_mut(s) } Some(s.to_token_stream().to_string()) }
        Err(_) => { let mut e = parse_str::<Expr>(input).ok()?; d.visit_expr_mut(&mut e); Some(e.to_token_stream().to_string()) }
    }
}
