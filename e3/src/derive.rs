//! What #[enum_derive(list)] has to produce (C07, C08 and the choice of C06): which traits are
//! implemented, what is passed to #[derive], and the enum itself.
use quote::ToTokens;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use proc_macro2::TokenStream;
use syn::*;
use crate::{gen::Rng, is_error, oracle::key, Verdict};

/// names, path of the implemented trait, whether it takes `Pin<&mut Self>`, supertraits (by first name)
pub const TABLE: &[(&[&str], &str, bool, &[&str])] = &[
    (&["AsRef"], "core::convert::AsRef", false, &[]), (&["AsMut"], "core::convert::AsMut", false, &[]),
    (&["Debug", "fmt::Debug"], "core::fmt::Debug", false, &[]), (&["Display", "fmt::Display"], "core::fmt::Display", false, &[]),
    (&["fmt::Pointer"], "core::fmt::Pointer", false, &[]), (&["fmt::Binary"], "core::fmt::Binary", false, &[]), (&["fmt::Octal"], "core::fmt::Octal", false, &[]),
    (&["fmt::UpperHex"], "core::fmt::UpperHex", false, &[]), (&["fmt::LowerHex"], "core::fmt::LowerHex", false, &[]), (&["fmt::UpperExp"], "core::fmt::UpperExp", false, &[]), (&["fmt::LowerExp"], "core::fmt::LowerExp", false, &[]),
    (&["fmt::Write"], "core::fmt::Write", false, &[]),
    (&["Iterator"], "core::iter::Iterator", false, &[]), (&["DoubleEndedIterator"], "core::iter::DoubleEndedIterator", false, &["Iterator"]), (&["ExactSizeIterator"], "core::iter::ExactSizeIterator", false, &["Iterator"]),
    (&["FusedIterator"], "core::iter::FusedIterator", false, &["Iterator"]), (&["TrustedLen"], "core::iter::TrustedLen", false, &["Iterator"]), (&["Extend"], "core::iter::Extend", false, &[]),
    (&["Deref"], "core::ops::Deref", false, &[]), (&["DerefMut"], "core::ops::DerefMut", false, &["Deref"]), (&["Index"], "core::ops::Index", false, &[]), (&["IndexMut"], "core::ops::IndexMut", false, &["Index"]),
    (&["RangeBounds"], "core::ops::RangeBounds", false, &[]), (&["Fn"], "core::ops::Fn", false, &["FnMut", "FnOnce"]), (&["FnMut"], "core::ops::FnMut", false, &["FnOnce"]), (&["FnOnce"], "core::ops::FnOnce", false, &[]),
    (&["Coroutine"], "core::ops::Coroutine", true, &[]), (&["Future"], "core::future::Future", true, &[]),
    (&["Read", "io::Read"], "std::io::Read", false, &[]), (&["BufRead", "io::BufRead"], "std::io::BufRead", false, &["Read"]), (&["Seek", "io::Seek"], "std::io::Seek", false, &[]), (&["Write", "io::Write"], "std::io::Write", false, &[]),
    (&["Error", "error::Error"], "std::error::Error", false, &["Debug", "Display"]),
    (&["Transpose"], "", false, &[]),
    (&["futures03::Stream"], "futures::stream::Stream", true, &[]), (&["futures03::Sink"], "futures::sink::Sink", true, &[]), (&["futures03::AsyncRead"], "futures::io::AsyncRead", true, &[]), (&["futures03::AsyncWrite"], "futures::io::AsyncWrite", true, &[]), (&["futures03::AsyncSeek"], "futures::io::AsyncSeek", true, &[]), (&["futures03::AsyncBufRead"], "futures::io::AsyncBufRead", true, &["futures03::AsyncRead"]),
    (&["futures01::Future"], "futures::future::Future", false, &[]), (&["futures01::Stream"], "futures::stream::Stream", false, &[]), (&["futures01::Sink"], "futures::sink::Sink", false, &[]),
    (&["rayon::ParallelIterator"], "rayon::iter::ParallelIterator", false, &[]), (&["rayon::IndexedParallelIterator"], "rayon::iter::IndexedParallelIterator", false, &["rayon::ParallelIterator"]), (&["rayon::ParallelExtend"], "rayon::iter::ParallelExtend", false, &[]),
    (&["serde::Serialize"], "serde::ser::Serialize", false, &[]),
    (&["tokio1::AsyncRead"], "tokio::io::AsyncRead", true, &[]), (&["tokio1::AsyncWrite"], "tokio::io::AsyncWrite", true, &[]), (&["tokio1::AsyncSeek"], "tokio::io::AsyncSeek", true, &[]), (&["tokio1::AsyncBufRead"], "tokio::io::AsyncBufRead", true, &["tokio1::AsyncRead"]),
    (&["tokio03::AsyncRead"], "tokio::io::AsyncRead", true, &[]), (&["tokio03::AsyncWrite"], "tokio::io::AsyncWrite", true, &[]), (&["tokio03::AsyncSeek"], "tokio::io::AsyncSeek", true, &[]), (&["tokio03::AsyncBufRead"], "tokio::io::AsyncBufRead", true, &["tokio03::AsyncRead"]),
    (&["tokio02::AsyncRead"], "tokio::io::AsyncRead", true, &[]), (&["tokio02::AsyncWrite"], "tokio::io::AsyncWrite", true, &[]), (&["tokio02::AsyncSeek"], "tokio::io::AsyncSeek", true, &[]), (&["tokio02::AsyncBufRead"], "tokio::io::AsyncBufRead", true, &["tokio02::AsyncRead"]),
    (&["tokio01::AsyncRead"], "tokio::io::AsyncRead", false, &["Read"]), (&["tokio01::AsyncWrite"], "tokio::io::AsyncWrite", false, &["Write"]),
    (&["http_body1::Body"], "http_body::Body", true, &[]),
];
pub fn row(n: &str) -> Option<usize> { TABLE.iter().position(|r| r.0.contains(&n)) }

fn impls(items: &[Item]) -> Vec<String> {
    items.iter().filter_map(|i| if let Item::Impl(i) = i { Some(match &i.trait_ { Some((_, p, _)) => p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"), None => String::new() }) } else { None }).collect()
}
fn expand(args: &str, input: &str) -> std::result::Result<TokenStream, String> {
    let (Ok(a), Ok(i)) = (TokenStream::from_str(args), TokenStream::from_str(input)) else { return Err("lex".into()) };
    catch_unwind(AssertUnwindSafe(|| msrc_ta::enum_derive(a, i))).map_err(|_| "panic".into())
}
pub fn dump() {
    for r in TABLE { for n in r.0 {
        let t = expand(n, "enum E<A, B> { A(A), B(B) }").unwrap();
        let f = parse2::<File>(t);
        println!("{n}: {:?}", f.map(|f| impls(&f.items)).map_err(|e| e.to_string()));
    } }
}

pub fn judge(list: &[String], sep: &str, input: &str) -> Verdict {
    let args = list.join(sep);
    let differ = |kind: &str, detail: String, want: String, got: String| Verdict::Differ { kind: kind.into(), detail, want, got };
    // what is wanted
    let names: Vec<String> = list.iter().map(|l| l.replace(' ', "")).collect();
    let mut want: Vec<usize> = vec![];
    let mut todo: Vec<usize> = names.iter().filter_map(|n| row(n)).collect();
    while let Some(r) = todo.pop() { if !want.contains(&r) { want.push(r); todo.extend(TABLE[r].3.iter().map(|d| row(d).unwrap())); } }
    let passed: Vec<String> = list.iter().zip(&names).filter(|(_, n)| row(n).is_none()).map(|(l, _)| l.replace(' ', "")).collect();
    let pinned = want.iter().any(|r| TABLE[*r].2);
    let mut want_impls: Vec<String> = vec![];
    for r in &want { if TABLE[*r].1.is_empty() { want_impls.extend(["", "", "", ""].map(String::from)); } else { want_impls.push(TABLE[*r].1.into()); } }
    if pinned { want_impls.push("core::marker::Unpin".into()); }
    want_impls.sort();
    let got = match expand(&args, input) { Ok(g) => g, Err(e) => return if e == "lex" { Verdict::Skip } else { differ("panic", e, "an expansion".into(), "a panic".into()) } };
    if is_error(&got) { return differ("rejected", "a compile error on a valid list".into(), format!("{want_impls:?}"), got.to_string()); }
    let Ok(f) = parse2::<File>(got.clone()) else { return differ("syntax", "the expansion does not parse".into(), String::new(), got.to_string()) };
    let mut have = impls(&f.items);
    have.sort();
    if have != want_impls { return differ("impls", "the set of generated implementations is wrong".into(), want_impls.join(" "), have.join(" ")); }
    // any method that gets hold of a variant through Pin<&mut Self>
    let observed = f.items.iter().any(|i| matches!(i, Item::Impl(i) if i.items.iter().any(|i| matches!(i, ImplItem::Fn(f) if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.ty.to_token_stream().to_string().contains("Pin") || r.ty.to_token_stream().to_string().contains("pin"))))));
    if observed != pinned { return differ("pin", "a method takes Pin<&mut Self> exactly if the trait does".into(), pinned.to_string(), observed.to_string()); }
    let consts = f.items.iter().filter(|i| matches!(i, Item::Const(c) if c.to_token_stream().to_string().contains("MustNotImplDrop") || c.to_token_stream().to_string().contains("Drop"))).count();
    if (consts > 0) != pinned { return differ("pin", "the implementation that forbids Drop is there exactly if a pinned trait is implemented".into(), pinned.to_string(), consts.to_string()); }
    if f.items.iter().any(|i| !matches!(i, Item::Impl(_) | Item::Const(_) | Item::Enum(_))) { return differ("item", "unexpected item".into(), String::new(), got.to_string()); }
    // the enum and its derive
    let mut enums: Vec<ItemEnum> = f.items.into_iter().filter_map(|i| if let Item::Enum(e) = i { Some(e) } else { None }).collect();
    if enums.len() != 1 { return differ("item", "the enum is emitted exactly once".into(), "1".into(), enums.len().to_string()); }
    let mut e = enums.pop().unwrap();
    let orig: ItemEnum = parse_str(input).unwrap();
    let extra: Vec<Attribute> = if e.attrs.len() > orig.attrs.len() { e.attrs.split_off(orig.attrs.len()) } else { vec![] };
    if e.to_token_stream().to_string() != orig.to_token_stream().to_string() { return differ("item", "the enum was changed".into(), orig.to_token_stream().to_string(), e.to_token_stream().to_string()); }
    let mut derived: Vec<String> = vec![];
    for a in &extra {
        match a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) { Ok(p) if a.path().is_ident("derive") => derived.extend(p.iter().map(key)), _ => return differ("item", "unexpected attribute".into(), String::new(), a.to_token_stream().to_string()) }
    }
    if derived != passed { return differ("derive", "what is passed to #[derive]".into(), passed.join(", "), derived.join(", ")); }
    Verdict::Agree { error: false, n: list.len() }
}

const UNSUPPORTED: &[&str] = &["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "::core::fmt::Debug", "core::fmt::Debug", "std::io::Read", "foo::Bar", "a::b::C", "Iterator2", "iter::Iterator", "serde::Deserialize", "Serialize", "io::Error", "tokio::AsyncRead", "fmt::Iterator", "ops::Deref", "Pointer", "Stream", "hash :: Hash", "futures03 :: Other", "::Debug", "debug", "io::ReadX", "derive_more::Display", "r#Debug2", "Unpin"];
const ENUMS: &[&str] = &["enum E<A, B> { A(A), B(B) }", "#[repr(u8)] #[doc = \"x\"] pub enum Many<X, Y, Z> { P(X), Q(Y), R(Z) }", "pub(crate) enum W<T, U> where T: Sized, U: Clone { #[cfg(all())] One(T), Two(U) }", "#[allow(dead_code)] enum Single<T> { Only(T) }", "enum Four<A1, A2, A3, A4> { D(A1), C(A2), B(A3), A(A4) }"];
const FIXED: &[&str] = &["enum Concrete { A(u8), B(Vec<u8>) }", "enum G<'a, T: 'a> { A(&'a T), B(T), C(Box<T>) }", "enum N<const K: usize, T> { A([T; K]), B(T) }"];

const ATTRS: &[&str] = &["#[derive(Zeroize)]", "#[derive(Clone, Copy)]", "#[derive()]", "#[cfg_attr(all(), derive(Other))]", "#[repr(u8)]", "#[repr(C, u16)]", "#[doc = \"x\"]", "/// doc\n", "#[allow(dead_code, unused)]", "#[must_use = \"y\"]", "#[non_exhaustive]", "#[cfg(all())]", "#[serde(untagged)]", "#[a::b::derive]", "#[auto_enums::enum_derive(Debug)]", "#[deprecated]", "#[pin_project]", "#[nested]", "#[auto_enum]"];
fn attrs(r: &mut Rng) -> String { let mut o = String::new(); for _ in 0..[0, 0, 0, 1, 1, 2, 3][r.below(7)] { o += ATTRS[r.below(ATTRS.len())]; o += " "; } o }
/// An enum whose variants hold one type each.
fn an_enum(r: &mut Rng, params: bool) -> String {
    let n = [1, 1, 2, 2, 3, 4, 5, 9, 17, 40][r.below(10)];
    let mut o = attrs(r);
    o += ["", "", "pub ", "pub(crate) ", "pub(in a::b) "][r.below(5)];
    let name = ["E", "r#enum", "Enum1", "__E", "Drop", "Unpin", "Data"][r.below(7)];
    let ty = |i: usize| ["A", "T", "__T", "Variant"][i % 4].to_string() + &(i * 7).to_string();
    let life = if params { "" } else { ["", "'a, ", "'a: 'static, "][r.below(3)] };
    let konst = if params { "" } else { ["", ", const K: usize", ", const K: bool, const L: u8"][r.below(3)] };
    let types: Vec<String> = (0..n).map(|i| if params || r.one_in(2) { ty(i) } else { ["u8", "Vec<u8>", "&'static str", "Box<dyn Send>", "[u8; 4]", "()", "fn(u8) -> u8", "a::B<C>"][r.below(8)].to_string() }).collect();
    let gens: Vec<String> = (0..n).filter(|i| types[*i] == ty(*i)).map(|i| if params { ty(i) } else { ty(i) + ["", "", ": Clone", ": ?Sized + Send", ": a::B<u8>"][r.below(5)] }).collect();
    let g = [life.trim_end_matches(", "), &gens.join(", "), konst.trim_start_matches(", ")].iter().filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
    if params || !g.is_empty() { o += &format!("enum {name}<{g}>"); } else { o += &format!("enum {name}"); }
    if !gens.is_empty() && r.one_in(3) { o += &format!(" where {}: {}{}", ty(types.iter().enumerate().find(|(i, t)| **t == ty(*i)).unwrap().0), ["Sized", "Clone + 'static", "Iterator<Item = u8>"][r.below(3)], ["", ","][r.below(2)]); }
    o += " { ";
    for (i, t) in types.iter().enumerate() { if r.one_in(4) { o += &attrs(r); } o += &format!("{}{i}({}{t}){}", ["V", "X_", "Drop", "Self_"][r.below(4)], if r.one_in(12) { "#[doc = \"f\"] " } else { "" }, if i + 1 == n && r.one_in(2) { "" } else { ", " }); }
    o + "}"
}

/// A list (without repetitions) and an enum.
pub fn case(seed: u64, forms: bool) -> (Vec<String>, String, String) {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5851F42D4C957F2D | 1);
    for _ in 0..4 { r.next(); }
    let n = [1, 2, 2, 3, 3, 4, 5, 8, 8, 14, 25, 60][r.below(12)];
    let mut list: Vec<String> = vec![];
    let mut last: Option<usize> = None;
    for _ in 0..n {
        let x = if r.one_in(if forms { 2 } else { 6 }) { UNSUPPORTED[r.below(UNSUPPORTED.len())].to_string() } else {
            // related names are what dependencies and aliases are about
            let k = match last { Some(l) if r.one_in(2) => { let d = TABLE[l].3; if !d.is_empty() && r.one_in(2) { row(d[r.below(d.len())]).unwrap() } else { TABLE.iter().position(|t| t.3.contains(&TABLE[l].0[0])).unwrap_or(l) } } _ => r.below(TABLE.len()) };
            last = Some(k);
            TABLE[k].0[r.below(TABLE[k].0.len())].to_string()
        };
        let x = if forms && r.one_in(3) { x.replace("::", [" :: ", ":: ", " ::"][r.below(3)]) } else { x };
        if !list.iter().any(|l| l.replace(' ', "") == x.replace(' ', "")) { list.push(x); }
    }
    let fixed = !list.iter().any(|l| l == "Transpose");
    let params = !fixed || r.one_in(2);
    let e = if r.one_in(2) { an_enum(&mut r, params) } else if !params { FIXED[r.below(FIXED.len())].to_string() } else { ENUMS[r.below(ENUMS.len())].to_string() };
    (list, [", ", ","][r.below(2)].to_string(), e)
}
