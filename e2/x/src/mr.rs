//! A small macro_rules! expander: one rule, fragments ident/tt/meta/expr, nested repetitions.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree as T};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum B { One(TokenStream), Rep(Vec<BTreeMap<String, B>>) }
type Env = BTreeMap<String, B>;

fn v(t: TokenStream) -> Vec<T> { t.into_iter().collect() }
fn punct(t: Option<&T>, c: char) -> bool { matches!(t, Some(T::Punct(p)) if p.as_char() == c) }

/// Splits `$( .. ) sep op` at p[i] (the `$`): inner tokens, separator, next index.
fn rep(p: &[T], i: usize) -> Option<(Vec<T>, Vec<T>, usize)> {
    if !punct(p.get(i), '$') { return None; }
    let T::Group(g) = p.get(i + 1)? else { return None };
    if g.delimiter() != Delimiter::Parenthesis { return None; }
    let mut j = i + 2;
    let mut sep = vec![];
    while !(punct(p.get(j), '*') || punct(p.get(j), '+') || punct(p.get(j), '?')) { sep.push(p.get(j)?.clone()); j += 1; }
    Some((v(g.stream()), sep, j + 1))
}
fn same(a: &[T], b: &[T]) -> bool { a.len() <= b.len() && a.iter().zip(b).all(|(x, y)| x.to_string() == y.to_string()) }
fn matches(p: &[T], s: &[T]) -> Option<(Env, usize)> {
    let (mut e, mut i, mut j) = (Env::new(), 0, 0);
    while i < p.len() {
        if let Some((inner, sep, next)) = rep(p, i) {
            let mut all = vec![];
            loop {
                let start = j;
                if !all.is_empty() && !sep.is_empty() { if same(&sep, &s[j..]) { j += sep.len(); } else { break; } }
                match matches(&inner, &s[j..]) { Some((b, n)) if n > 0 => { j += n; all.push(b); } _ => { j = start; break; } }
            }
            for n in names(&inner) { let r = all.iter().map(|b| b.iter().filter(|(k, _)| **k == n).map(|(k, x)| (k.clone(), x.clone())).collect()).collect(); e.insert(n, B::Rep(r)); }
            i = next;
        } else if punct(p.get(i), '$') {
            let T::Ident(n) = p.get(i + 1)? else { return None };
            let T::Ident(k) = p.get(i + 3)? else { return None };
            match &k.to_string()[..] {
                "ident" => { let T::Ident(x) = s.get(j)? else { return None }; e.insert(n.to_string(), B::One(T::from(x.clone()).into())); j += 1; }
                "tt" => { e.insert(n.to_string(), B::One(s.get(j)?.clone().into())); j += 1; }
                _ => { e.insert(n.to_string(), B::One(s[j..].iter().cloned().collect())); j = s.len(); }
            }
            i += 4;
        } else if let (T::Group(g), Some(T::Group(h))) = (&p[i], s.get(j)) {
            if g.delimiter() != h.delimiter() { return None; }
            let (b, n) = matches(&v(g.stream()), &v(h.stream()))?;
            if n != v(h.stream()).len() { return None; }
            e.extend(b);
            i += 1;
            j += 1;
        } else { if s.get(j)?.to_string() != p[i].to_string() { return None; } i += 1; j += 1; }
    }
    Some((e, j))
}
fn names(p: &[T]) -> Vec<String> {
    let mut r = vec![];
    let mut i = 0;
    while i < p.len() {
        if punct(p.get(i), '$') { if let Some(T::Ident(n)) = p.get(i + 1) { r.push(n.to_string()); } }
        if let T::Group(g) = &p[i] { r.extend(names(&v(g.stream()))); }
        i += 1;
    }
    r
}
fn write(p: &[T], e: &Env) -> TokenStream {
    let mut o = TokenStream::new();
    let mut i = 0;
    while i < p.len() {
        if let Some((inner, sep, next)) = rep(p, i) {
            let ns: Vec<String> = names(&inner).into_iter().filter(|n| matches!(e.get(n), Some(B::Rep(_)))).collect();
            let len = ns.iter().map(|n| if let B::Rep(r) = &e[n] { r.len() } else { 0 }).max().unwrap_or(0);
            for k in 0..len {
                let mut f = e.clone();
                for n in &ns { if let B::Rep(r) = &e[n] { if let Some(b) = r.get(k).and_then(|b| b.get(n)) { f.insert(n.clone(), b.clone()); } } }
                if k > 0 { o.extend(sep.iter().cloned()); }
                o.extend(write(&inner, &f));
            }
            i = next;
        } else if punct(p.get(i), '$') && matches!(p.get(i + 1), Some(T::Ident(n)) if e.contains_key(&n.to_string())) {
            if let B::One(t) = &e[&p[i + 1].to_string()] { o.extend(t.clone()); }
            i += 2;
        } else {
            match &p[i] { T::Group(g) => { let mut h = Group::new(g.delimiter(), write(&v(g.stream()), e)); h.set_span(g.span()); o.extend([T::from(h)]); } t => o.extend([t.clone()]) }
            i += 1;
        }
    }
    o
}
/// Expands `input` by the first rule of `def` that matches it.
pub fn expand(def: TokenStream, input: TokenStream) -> Option<TokenStream> {
    let d = v(def);
    let s = v(input);
    let mut i = 0;
    while i + 3 < d.len() + 0 {
        let (T::Group(p), T::Group(b)) = (&d[i], &d[i + 3]) else { return None };
        if let Some((e, n)) = matches(&v(p.stream()), &s) { if n == s.len() { return Some(write(&v(b.stream()), &e)); } }
        i += 5;
    }
    None
}
