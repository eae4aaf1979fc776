//! The functions that make the implementations (`derive::**::derive(cx, data)`), for enums with any
//! number of variants. Tokens are terms over what they were made from (`Ts` in contracts/impls.vrs):
//! the enum's name and generics, the k-th variant and its field type, and literal text. Iterator chains
//! over the variants are sequences, `quote!` and friends are term constructors, an `EnumImpl` is the term
//! of what was put into it. Whatever is not one of these forms makes the function undecided.
use crate::rw::toks;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

thread_local! { pub static FNS: RefCell<BTreeMap<String, ItemFn>> = Default::default(); }

#[derive(Clone, Debug)]
enum V { Tok(String), Rep(String), Zip(Vec<V>), Imp(String), Data, Cx, Num(String), Bool(String), Res(String, Box<V>), Clos(Box<ExprClosure>, Env), Fun(String), Vec(String), Unit }
type R<T> = std::result::Result<T, String>;
type Env = BTreeMap<String, V>;
struct X<'a> {
    at: String, fns: &'a BTreeMap<String, ItemFn>, texts: &'a mut Vec<String>, out: String, n: usize, k: usize, stack: Vec<String>,
    /// in a closure over the variants: what it does to an EnumImpl
    effects: Option<Vec<(String, usize, String)>>,
    /// in a branch that depends on the enum
    dep: bool,
}
fn no<T>(e: &impl quote::ToTokens) -> R<T> { let mut t = toks(e); t.truncate(90); Err(format!("not of a known form: {t}")) }
impl X<'_> {
    fn id(&mut self, t: &str) -> usize { let t = t.split_whitespace().collect::<Vec<_>>().join(" "); match self.texts.iter().position(|x| *x == t) { Some(i) => i, None => { self.texts.push(t); self.texts.len() - 1 } } }
    fn new(&mut self, s: &str) -> String { self.n += 1; format!("{}_{}", s.trim_start_matches("r#"), self.n) }
    fn t(&mut self, text: &str, args: &[String]) -> String { let i = self.id(text); format!("T({i}, {})", args.iter().rev().fold("Nil".to_string(), |l, a| format!("c({a}, {l})"))) }
    fn ts(&self, v: &V) -> R<String> { Ok(match v { V::Tok(s) => s.clone(), V::Imp(n) => format!("{n}@"), V::Num(n) => format!("Ts::Num({n})"), V::Rep(s) => format!("Ts::Rep({s})"), V::Vec(s) => format!("Ts::Rep({s}@)"), v => return Err(format!("no token: {v:?}")) }) }
    fn seq(&self, v: &V) -> R<(String, usize)> { match v { V::Vec(s) => Ok((format!("{s}@"), 1)), V::Rep(s) => Ok((s.clone(), 1)), V::Zip(x) if !x.is_empty() => Ok((self.seq(&x[0])?.0, x.len())), v => Err(format!("no sequence: {v:?}")) } }
    fn elem(&self, v: &V, k: &str) -> R<V> { Ok(match v { V::Rep(s) => V::Tok(format!("{s}[{k}]")), V::Zip(x) => V::Zip(x.iter().map(|v| self.elem(v, k)).collect::<R<_>>()?), v => return Err(format!("no sequence: {v:?}")) }) }
    fn bind(&mut self, p: &Pat, v: V, env: &mut Env) -> R<()> {
        match (p, v) {
            (Pat::Wild(_), _) => Ok(()),
            (Pat::Ident(i), v) if i.subpat.is_none() => { env.insert(i.ident.to_string(), v); Ok(()) }
            (Pat::Tuple(t), V::Zip(x)) if t.elems.len() == x.len() => { for (p, v) in t.elems.iter().zip(x) { self.bind(p, v, env)?; } Ok(()) }
            (Pat::Type(t), v) => self.bind(&t.pat, v, env),
            (Pat::Reference(r), v) => self.bind(&r.pat, v, env),
            (p, _) => no(p),
        }
    }
    /// tokens of a template: its text and what is interpolated
    fn template(&mut self, ts: TokenStream, env: &Env, rep: Option<&str>, len: &mut Option<String>) -> R<(String, Vec<String>)> {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let (mut text, mut args, mut i) = (String::new(), vec![], 0);
        while i < v.len() {
            if let (TokenTree::Punct(p), Some(n)) = (&v[i], v.get(i + 1)) { if p.as_char() == '#' {
                if let TokenTree::Ident(x) = n { if let Some(val) = env.get(&x.to_string()).cloned().map(|v| if let V::Vec(s) = v { V::Rep(format!("{s}@")) } else { v }) {
                    text += " #";
                    args.push(match (&val, rep) { (V::Rep(s), Some(k)) => { if len.is_none() { *len = Some(format!("{s}.len()")); } format!("{s}[{k}]") } (V::Rep(_), None) => return Err(format!("#{x} is an iterator")), _ => self.ts(&val)? });
                    i += 2;
                    continue;
                } else { return Err(format!("#{x} is unknown")); } }
                if let TokenTree::Group(g) = n { if g.delimiter() == Delimiter::Parenthesis {
                    let mut j = i + 2;
                    let mut sep = String::new();
                    while let Some(t) = v.get(j) { if t.to_string() == "*" { break; } sep += &t.to_string(); j += 1; if sep.len() > 2 { return Err("repetition".into()); } }
                    if j == v.len() || rep.is_some() { return Err("repetition".into()); }
                    self.k += 1;
                    let k = format!("k{}", self.k);
                    let mut l = None;
                    let (t, a) = self.template(g.stream(), env, Some(&k), &mut l)?;
                    let l = l.ok_or("a repetition over nothing")?;
                    let s = if t == " #" && l == format!("{}.len()", a[0].trim_end_matches(&format!("[{k}]"))) { l.trim_end_matches(".len()").to_string() } else { let b = self.t(&t, &a); format!("rp({l} as int, |{k}: int| {b})") };
                    text += &format!(" #(){sep}*");
                    args.push(format!("Ts::Rep({s})"));
                    i = j + 1;
                    continue;
                } }
            } }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                    let (t, a) = self.template(g.stream(), env, rep, len)?;
                    text += &format!(" {o}{t} {c}");
                    args.extend(a);
                }
                t => text += &format!(" {t}"),
            }
            i += 1;
        }
        Ok((text, args))
    }
    fn mac(&mut self, m: &Macro, env: &Env) -> R<V> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match &n[..] {
            "quote" | "parse_quote" => {
                let (t, a) = self.template(m.tokens.clone(), env, None, &mut None)?;
                // quote!(#x) is x
                if t == " #" { return Ok(V::Tok(a[0].clone())); }
                Ok(V::Tok(self.t(&t, &a)))
            }
            "quote_spanned" | "parse_quote_spanned" => {
                let s = m.tokens.to_string();
                let (_, r) = s.split_once("=>").ok_or("quote_spanned")?;
                let (t, a) = self.template(r.parse().map_err(|_| "quote_spanned")?, env, None, &mut None)?;
                Ok(V::Tok(self.t(&t, &a)))
            }
            "format_ident" => {
                let a = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
                let mut v = vec![];
                for e in a.iter().skip(1) { let x = self.pure(e, env)?; v.push(self.ts(&x)?); }
                Ok(V::Tok(self.t(&format!("ident {}", toks(&a[0])), &v)))
            }
            "bail" => Ok(V::Res("false".into(), Box::new(V::Unit))),
            "vec" => { let a = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?; if a.is_empty() { return Err("vec![]".into()); } let mut v = vec![]; for e in &a { let x = self.pure(e, env)?; v.push(self.ts(&x)?); } Ok(V::Tok(self.t("vec", &v))) }
            _ => no(m),
        }
    }
    fn closure(&mut self, c: &Expr, x: V, env: &Env) -> R<V> {
        let Expr::Closure(c) = c else {
            // a path to a conversion
            if let Expr::Path(_) = c { return Ok(x); }
            return no(c);
        };
        let (s, _) = self.seq(&x)?;
        self.k += 1;
        let k = format!("k{}", self.k);
        let e = self.elem(&x, &k)?;
        let e = match (&x, e) { (V::Rep(s), _) if s.starts_with("nums(") => V::Num(k.clone()), (_, V::Zip(v)) => { let V::Zip(src) = &x else { return no(c) }; V::Zip(v.into_iter().zip(src).map(|(v, s)| if matches!(s, V::Rep(s) if s.starts_with("nums(")) { V::Num(k.clone()) } else { v }).collect()) } (_, e) => e };
        let mut env = env.clone();
        if c.inputs.len() != 1 { return no(c); }
        self.bind(&c.inputs[0], e, &mut env)?;
        let before = self.effects.replace(vec![]);
        let r = match &*c.body { Expr::Block(b) => self.block(&b.block, env), e => self.expr(e, &env) };
        let eff = std::mem::replace(&mut self.effects, before).unwrap();
        let r = r?;
        for (i, x) in eff.iter().enumerate() { if x.1 == usize::MAX && eff[..i].iter().any(|y| y.0 == x.0 && y.1 == x.1) { return Err("two pushes in one iteration".into()); } }
        for (imp, m, a) in eff { self.put(&imp, m, format!("Ts::Rep(rp({s}.len() as int, |{k}: int| {a}))")); }
        Ok(match r { V::Unit => V::Unit, V::Zip(v) => V::Zip(v.iter().map(|v| Ok(V::Rep(format!("rp({s}.len() as int, |{k}: int| {})", self.ts(v)?)))).collect::<R<_>>()?), r => V::Rep(format!("rp({s}.len() as int, |{k}: int| {})", self.ts(&r)?)) })
    }
    fn put(&mut self, imp: &str, m: usize, a: String) {
        let a = if self.dep { format!("dep({a})") } else { a };
        match &mut self.effects { Some(e) => e.push((imp.into(), m, a)), None if m == usize::MAX => { let a = a.strip_prefix("Ts::Rep(").and_then(|a| a.strip_suffix(')')).map_or(format!("seq![{a}]"), String::from); self.out += &format!("{imp}.put_all(Ghost({a}));\n") } None => self.out += &format!("{imp}.put({m}, Ghost({a}));\n") }
    }
    /// an expression that may not change an EnumImpl (in a condition, say)
    fn pure(&mut self, e: &Expr, env: &Env) -> R<V> { let l = self.out.len(); let v = self.expr(e, env)?; if self.out.len() == l || self.effects.is_none() { Ok(v) } else { no(e) } }
    fn expr(&mut self, e: &Expr, env: &Env) -> R<V> {
        match e {
            Expr::Paren(p) => self.expr(&p.expr, env),
            Expr::Group(p) => self.expr(&p.expr, env),
            Expr::Reference(r) => self.expr(&r.expr, env),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.expr(&u.expr, env),
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => match self.expr(&u.expr, env)? { V::Bool(b) => Ok(V::Bool(format!("!({b})"))), _ => no(e) },
            Expr::Macro(m) => self.mac(&m.mac, env),
            Expr::Path(p) => { let s = toks(p); if let Some(v) = env.get(&s) { return Ok(v.clone()); } if s == "None" { return Ok(V::Tok(self.t("None", &[]))); } no(e) }
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Ok(V::Bool(b.value.to_string())),
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => Ok(V::Num(i.base10_digits().into())),
            Expr::Binary(b) => {
                let (x, y) = (self.pure(&b.left, env)?, self.pure(&b.right, env)?);
                let o = toks(&b.op);
                match (x, y, &o[..]) {
                    (V::Num(x), V::Num(y), "+" | "-") => Ok(V::Num(format!("({x} {o} {y})"))),
                    (V::Num(x), V::Num(y), "==" | "!=" | "<" | ">" | "<=" | ">=") => Ok(V::Bool(format!("({x} {o} {y})"))),
                    (V::Bool(x), V::Bool(y), "&&" | "||" | "==" | "!=") => Ok(V::Bool(format!("({x} {o} {y})"))),
                    (x, y, "==" | "!=") => { let s = format!("same({}, {})", self.ts(&x)?, self.ts(&y)?); Ok(V::Bool(if o == "!=" { format!("!{s}") } else { s })) }
                    _ => no(e),
                }
            }
            Expr::Lit(l) => Ok(V::Tok(self.t(&toks(l), &[]))),
            Expr::Tuple(t) if t.elems.is_empty() => Ok(V::Unit),
            Expr::Tuple(t) => Ok(V::Zip(t.elems.iter().map(|e| self.expr(e, env)).collect::<R<_>>()?)),
            Expr::Block(b) if b.label.is_none() => self.block(&b.block, env.clone()),
            Expr::Field(f) => match (self.expr(&f.base, env)?, toks(&f.member).as_str()) {
                (V::Data, "ident") => Ok(V::Tok("Ts::Item(0)".into())),
                (V::Data, "generics") => Ok(V::Tok("Ts::Item(1)".into())),
                (V::Tok(s), m) if !s.contains("Var(") => Ok(V::Tok(self.t(&format!(".{m}"), &[s]))),
                _ => no(e),
            },
            Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                (Some(a), Some(b), RangeLimits::HalfOpen(_)) if toks(a) == "0" => { let V::Num(n) = self.expr(b, env)? else { return no(e) }; Ok(V::Rep(format!("nums({n})"))) }
                _ => no(e),
            },
            Expr::If(i) => {
                let c = self.cond(&i.cond, env)?;
                let Some((_, els)) = &i.else_branch else { return no(e) };
                if c == "true" { return self.block(&i.then_branch, env.clone()); }
                if c == "false" { return self.expr(els, env); }
                let l = self.out.len();
                let a = self.block(&i.then_branch, env.clone())?;
                let b = self.expr(els, env)?;
                if self.out.len() != l { return no(e); }
                Ok(match (a, b) {
                    (V::Res(x, u), V::Res(y, w)) => V::Res(format!("(if {c} {{ {x} }} else {{ {y} }})"), match (*u, *w) { (V::Unit, w) => Box::new(w), (u, V::Unit) => Box::new(u), (u, w) => Box::new(V::Tok(format!("dep(if {c} {{ {} }} else {{ {} }})", self.ts(&u)?, self.ts(&w)?))) }),
                    (V::Unit, V::Unit) => V::Unit,
                    (V::Rep(x), V::Rep(y)) => V::Rep(format!("(if {c} {{ rp({x}.len() as int, |k: int| dep({x}[k])) }} else {{ {y} }})")),
                    (V::Bool(x), V::Bool(y)) => V::Bool(format!("(if {c} {{ {x} }} else {{ {y} }})")),
                    (V::Num(x), V::Num(y)) => V::Num(format!("(if {c} {{ {x} }} else {{ {y} }})")),
                    (a, b) => V::Tok(format!("dep(if {c} {{ {} }} else {{ {} }})", self.ts(&a)?, self.ts(&b)?)),
                })
            }
            Expr::Try(t) => match self.expr(&t.expr, env)? {
                V::Res(ok, v) => { if self.effects.is_some() { return no(e); } if ok != "true" { self.out += &format!("if !holds__(Ghost({ok})) {{ return Err(err__()); }}\n"); } Ok(*v) }
                _ => no(e),
            },
            Expr::Assign(a) => {
                let Expr::Field(f) = &*a.left else { return no(e) };
                let V::Imp(n) = self.expr(&f.base, env)? else { return no(e) };
                let v = self.expr(&a.right, env)?;
                let (i, v) = (self.id(&format!("set {}", toks(&f.member))), self.ts(&v)?);
                self.put(&n, i, v);
                Ok(V::Unit)
            }
            Expr::Closure(c) => Ok(V::Clos(Box::new(c.clone()), env.clone())),
            Expr::Call(c) => {
                let f = match &*c.func { Expr::Path(p) => env.get(&toks(p)).cloned(), Expr::Paren(p) => Some(self.expr(&p.expr, env)?), _ => None };
                if let Some(V::Clos(f, mut inner)) = f {
                    if f.inputs.len() != c.args.len() { return no(e); }
                    for (p, a) in f.inputs.iter().zip(&c.args) { let v = self.expr(a, env)?; self.bind(p, v, &mut inner)?; }
                    return match &*f.body { Expr::Block(b) => self.block(&b.block, inner), b => self.expr(b, &inner) };
                }
                if let Some(V::Fun(f)) = f { let mut c = c.clone(); c.func = parse_str(&f).map_err(|e| e.to_string())?; return self.call(&c, env); }
                self.call(c, env)
            }
            Expr::MethodCall(m) => self.method(m, env),
            _ => no(e),
        }
    }
    fn cond(&mut self, e: &Expr, env: &Env) -> R<String> {
        match e {
            Expr::Paren(p) => self.cond(&p.expr, env),
            e => match self.pure(e, env)? { V::Bool(b) => Ok(b), v => { let s = self.ts(&v)?; Ok(format!("truth({s})")) } },
        }
    }
    fn call(&mut self, c: &ExprCall, env: &Env) -> R<V> {
        let f = toks(&c.func).replace(' ', "");
        let arg = |x: &mut Self, i: usize| -> R<V> { x.expr(c.args.iter().nth(i).ok_or("arity")?, env) };
        let last = f.rsplit("::").next().unwrap();
        match &f[..] {
            "Ok" => { let v = arg(self, 0)?; Ok(V::Res("true".into(), Box::new(v))) }
            "Err" => Ok(V::Res("false".into(), Box::new(V::Unit))),
            "Some" => { let v = arg(self, 0)?; let s = self.ts(&v)?; Ok(V::Tok(self.t("Some", &[s]))) }
            "Vec::new" | "Vec::with_capacity" => Ok(V::Vec(String::new())),
            "TokenStream::new" => Ok(V::Tok(self.t("", &[]))),
            "TypeParam::from" | "Box::new" | "GenericParam::from" | "GenericParam::Type" | "Ok::<_,Error>" | "syn::TypeParam::from" | "syn::GenericParam::Type" => arg(self, 0),
            "EnumImpl::new" => { let V::Data = arg(self, 0)? else { return no(c) }; Ok(V::Tok(self.t("EnumImpl::new", &[]))) }
            "EnumImpl::from_trait" | "derive_trait" | "derive_utils::derive_trait" => {
                let V::Data = arg(self, 0)? else { return no(c) };
                let mut v = vec![];
                for i in 1..c.args.len() { let x = arg(self, i)?; v.push(self.ts(&x)?); }
                let t = self.t("EnumImpl::from_trait", &v);
                Ok(V::Tok(if last == "derive_trait" { self.t("build", &[t]) } else { t }))
            }
            _ => {
                let key = [format!("{}::{f}", self.at), f.trim_start_matches("super::").to_string(), f.trim_start_matches("crate::derive::").to_string()].into_iter().find(|k| self.fns.contains_key(k));
                // any module above: `super::helper`, or one that is imported
                let key = key.or_else(|| { let mut v: Vec<&String> = self.fns.keys().filter(|k| k.rsplit("::").next() == Some(last) && last != "derive").collect(); if v.len() == 1 { Some(v.pop().unwrap().clone()) } else { None } });
                let Some(key) = key else { return no(c) };
                if self.stack.contains(&key) { return Err(format!("{key} is recursive")); }
                let g = self.fns[&key].clone();
                let mut inner = Env::new();
                for (p, a) in g.sig.inputs.iter().zip(&c.args) { let FnArg::Typed(t) = p else { return no(c) }; let v = self.expr(a, env)?; self.bind(&t.pat, v, &mut inner)?; }
                let at = std::mem::replace(&mut self.at, key.rsplit_once("::").map_or(String::new(), |x| x.0.into()));
                self.stack.push(key);
                let r = self.block(&g.block, inner);
                self.stack.pop();
                self.at = at;
                r
            }
        }
    }
    fn method(&mut self, m: &ExprMethodCall, env: &Env) -> R<V> {
        let n = m.method.to_string();
        // impl_.items.push(x)
        if let Expr::Field(f) = &*m.receiver { if let (Ok(V::Imp(i)), "items") = (self.expr(&f.base, env), toks(&f.member).as_str()) {
            if !matches!(&n[..], "push" | "extend") { return no(m); }
            let v = self.expr(&m.args[0], env)?;
            let (k, v) = (self.id("push_item"), self.ts(&v)?);
            self.put(&i, k, v);
            return Ok(V::Unit);
        } }
        let r = self.expr(&m.receiver, env)?;
        let r = match (r, &n[..]) {
            (V::Vec(s), "push") => { let v = self.expr(&m.args[0], env)?; let v = self.ts(&v)?; self.put(&s, usize::MAX, v); return Ok(V::Unit); }
            (V::Vec(s), _) => V::Rep(format!("{s}@")),
            (r, _) => r,
        };
        match (r, &n[..]) {
            (V::Cx, "needs_pin_projection") => { if self.effects.is_some() { return no(m); } self.out += "cx.needs_pin_projection();\n"; Ok(V::Unit) }
            (V::Data, "variant_idents") => Ok(V::Rep("vars(n)".into())),
            (V::Data, "field_types") => Ok(V::Rep("tys(n)".into())),
            (r @ (V::Rep(_) | V::Zip(_)), "iter" | "into_iter" | "by_ref" | "cloned" | "copied" | "collect" | "clone" | "as_slice" | "to_vec") => Ok(r),
            (r @ (V::Rep(_) | V::Zip(_)), "len") => Ok(V::Num(format!("{}.len() as int", self.seq(&r)?.0))),
            (r @ (V::Rep(_) | V::Zip(_)), "map") => self.closure(&m.args[0], r, env),
            (r @ (V::Rep(_) | V::Zip(_)), "for_each") => { self.closure(&m.args[0], r, env)?; Ok(V::Unit) }
            (r @ (V::Rep(_) | V::Zip(_)), "zip") => { let b = self.expr(&m.args[0], env)?; Ok(V::Zip(vec![r, b])) }
            (r @ (V::Rep(_) | V::Zip(_)), "enumerate") => Ok(V::Zip(vec![V::Rep(format!("nums({}.len() as int)", self.seq(&r)?.0)), r])),
            (V::Zip(v), "skip" | "take" | "rev") => { let mut o = vec![]; for x in v { let V::Rep(s) = x else { return no(m) }; o.push(V::Rep(if n == "rev" { format!("rev({s})") } else { let V::Num(a) = self.expr(&m.args[0], env)? else { return no(m) }; format!("{n}({s}, {a})") })); } Ok(V::Zip(o)) }
            (V::Rep(s), "skip" | "take") => { let a = match self.expr(&m.args[0], env)? { V::Num(n) => n, _ => toks(&m.args[0]) }; if a.parse::<usize>().is_err() && !a.contains("len()") { return no(m); } Ok(V::Rep(if n == "skip" { format!("skip({s}, {a})") } else { format!("take({s}, {a})") })) }
            (V::Rep(s), "rev") => Ok(V::Rep(format!("rev({s})"))),
            (V::Rep(s), "nth") if matches!(self.expr(&m.args[0], env)?, V::Num(_)) => { let V::Num(i) = self.expr(&m.args[0], env)? else { return no(m) }; Ok(V::Tok(format!("{s}[{i}]"))) }
            (V::Rep(s), "next") => Ok(V::Tok(format!("{s}[0]"))),
            (V::Imp(i), "build") => Ok(V::Tok(self.t("build", &[format!("{i}@")]))),
            // built: the same implementation as tokens
            (V::Imp(i), "build_impl") => Ok(V::Tok(self.t("build", &[format!("{i}@")]))),
            (V::Tok(s), "build" | "build_impl") => Ok(V::Tok(self.t("build", &[s]))),
            (V::Imp(i), "push_item" | "push_method" | "push_where_predicate" | "push_generic_param" | "set_trait" | "append_items_from_trait" | "extend" | "extend_one" | "append_all") if m.args.len() == 1 => {
                let v = self.expr(&m.args[0], env)?;
                let (k, v) = (self.id(&n), self.ts(&v)?);
                self.put(&i, k, v);
                Ok(V::Unit)
            }
            (r @ (V::Tok(_) | V::Imp(_)), "clone" | "into" | "into_token_stream" | "to_token_stream" | "to_owned" | "unwrap" | "expect") => Ok(r),
            (r @ (V::Tok(_) | V::Imp(_)), n) if m.args.is_empty() => { let s = self.ts(&r)?; Ok(V::Tok(self.t(&format!(".{n}()"), &[s]))) }
            (V::Tok(s), _) => { if s.contains("Var(") { return no(m); } no(m) }
            _ => no(m),
        }
    }
    fn block(&mut self, b: &Block, mut env: Env) -> R<V> {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let Some(init) = &l.init else { return no(l) };
                    if init.diverge.is_some() { return no(l); }
                    let v = self.expr(&init.expr, &env)?;
                    let name = match &l.pat { Pat::Ident(i) => Some((i.ident.to_string(), i.mutability.is_some())), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some((i.ident.to_string(), i.mutability.is_some())), _ => None }, _ => None };
                    let v = match (name, v) {
                        (Some((x, mt)), V::Tok(s)) if self.effects.is_none() => {
                            let y = self.new(&x);
                            self.out += &format!("let {}{y} = tok__(Ghost({s}));\n", if mt { "mut " } else { "" });
                            if mt { V::Imp(y) } else { V::Tok(format!("{y}@")) }
                        }
                        (Some((x, true)), V::Vec(s)) if self.effects.is_none() && s.is_empty() => { let y = self.new(&x); self.out += &format!("let mut {y} = rep__(Ghost(Seq::empty()));\n"); V::Vec(y) }
                        (Some((x, _)), V::Rep(s)) if self.effects.is_none() => { let y = self.new(&x); self.out += &format!("let {y} = rep__(Ghost({s}));\n"); V::Rep(format!("{y}@")) }
                        (_, v) => v,
                    };
                    self.bind(&l.pat, v, &mut env)?;
                }
                Stmt::Item(Item::Use(_) | Item::Const(_)) => {}
                Stmt::Item(Item::Fn(_)) => return Err("a nested function".into()),
                Stmt::Item(x) => return no(x),
                Stmt::Expr(e, semi) => {
                    if let Expr::ForLoop(f) = e { if let Expr::Array(a) = match &*f.expr { Expr::Reference(r) => &*r.expr, x => x } {
                        for x in &a.elems {
                            let mut inner = env.clone();
                            let v = match x { Expr::Path(p) if !env.contains_key(&toks(p)) => V::Fun(toks(p)), x => self.expr(x, &env)? };
                            self.bind(&f.pat, v, &mut inner)?;
                            if !matches!(self.block(&f.body, inner)?, V::Unit) { return no(f); }
                        }
                        if i + 1 == n { return Ok(V::Unit); }
                        continue;
                    } }
                    if let (Expr::ForLoop(f), true) = (e, self.effects.is_none()) {
                        let it = self.expr(&f.expr, &env)?;
                        let (p, b) = (&f.pat, &f.body);
                        let c: Expr = parse_quote!(|#p| #b);
                        self.closure(&c, it, &env)?;
                        if i + 1 == n { return Ok(V::Unit); }
                        continue;
                    }
                    if let Expr::If(f) = e { if i + 1 < n || semi.is_some() || f.else_branch.is_none() {
                        if self.effects.is_some() { return no(e); }
                        let c = self.cond(&f.cond, &env)?;
                        let branches: Vec<(String, Option<Expr>)> = vec![(c.clone(), Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.then_branch.clone() }))), (format!("!({c})"), f.else_branch.as_ref().map(|x| (*x.1).clone()))];
                        for (b, x) in branches {
                            let Some(x) = x else { continue };
                            if c == "true" && b != c || c == "false" && b == c { continue; }
                            let constant = c == "true" || c == "false";
                            let old = self.dep;
                            self.dep = old || !constant;
                            if !constant { self.out += &format!("if holds__(Ghost({b})) {{\n"); }
                            let v = self.expr(&x, &env)?;
                            match (&v, ends_in_return(&x)) {
                                (V::Unit, false) => {}
                                (V::Res(ok, v), true) if self.stack.len() == 1 => { let t = if ok == "false" { "T(0, Nil)".into() } else { self.ts(v)? }; self.out += &format!("if holds__(Ghost({ok})) {{ return Ok(tok__(Ghost(dep({t})))); }} else {{ return Err(err__()); }}\n"); }
                                _ => return no(e),
                            }
                            if !constant { self.out += "}\n"; }
                            self.dep = old;
                        }
                        if i + 1 == n { return Ok(V::Unit); }
                        continue;
                    } }
                    if let Expr::Return(r) = e { let Some(x) = &r.expr else { return no(e) }; if i + 1 < n { return no(e); } return self.expr(x, &env); }
                    let v = self.expr(e, &env)?;
                    if i + 1 == n && semi.is_none() { return Ok(v); }
                    if let V::Res(..) = v { return no(e); }
                }
                Stmt::Macro(m) => { let v = self.mac(&m.mac, &env)?; if i + 1 == n { return Ok(v); } }
            }
        }
        Ok(V::Unit)
    }
}
/// does control leave at its end?
fn ends_in_return(e: &Expr) -> bool { match e { Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, _)) => ends_in_return(e), Some(Stmt::Macro(m)) => m.mac.path.is_ident("bail"), _ => false }, Expr::Return(_) => true, Expr::Macro(m) => m.mac.path.is_ident("bail"), _ => false } }
fn json(s: &[String]) -> String { format!("{s:?}") }

/// contracts: lines `NAME props [pin] [fallible]` in the section `impls`
pub fn unit(prelude: &str, table: &str, names: &BTreeMap<String, Vec<String>>, ext: &BTreeSet<String>, assume: &BTreeSet<String>, mut fails: Vec<String>, path: &str) {
    let fns = FNS.with(|f| f.borrow().clone());
    let mut out = String::from("#![allow(unused, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n") + prelude;
    let (mut rows, mut texts, mut inl) = (vec![], vec![], BTreeSet::new());
    for l in table.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("//")) {
        let w: Vec<&str> = l.split_whitespace().collect();
        let Some((at, _)) = names.iter().find(|(_, v)| v.iter().any(|n| n == w[0])) else { fails.push(format!("lost {}", w[0])); continue };
        let key = w[0].to_string();
        let pin = w[2..].contains(&"pin");
        let fall = w[2..].contains(&"fallible");
        let mut props: Vec<String> = w[1].split(',').map(String::from).collect();
        props.push("C06".into());
        let Some(f) = fns.get(&format!("{at}::derive")) else { fails.push(format!("lost the function of {}", w[0])); continue };
        let mut x = X { at: at.clone(), fns: &fns, texts: &mut texts, out: String::new(), n: 0, k: 0, stack: vec![format!("{at}::derive")], effects: None, dep: false };
        let mut env = Env::new();
        for i in &f.sig.inputs { if let FnArg::Typed(t) = i { let v = if toks(&t.ty).contains("Data") { V::Data } else { V::Cx }; if let Pat::Ident(p) = &*t.pat { env.insert(p.ident.to_string(), v); } } }
        let r = x.block(&f.block, env).and_then(|v| match v { V::Res(ok, v) => { let s = if ok == "false" { "T(0, Nil)".into() } else { x.ts(&v)? }; Ok((ok, s)) } v => Err(format!("returns {v:?}")) });
        let body = x.out.clone();
        let (st, why, text) = match r {
            Err(e) => ("undecided", vec![e], "{ unimplemented!() }\n".to_string()),
            Ok((ok, s)) => ("contract", vec![], format!("{{\nbroadcast use base;\nlet ghost n = data.n();\nreveal_with_fuel(uniform, 40); reveal_with_fuel(unis, 40); reveal_with_fuel(sh, 8); reveal_with_fuel(shs, 16);\n{body}{}}}\n",
                if ok == "true" { format!("Ok(tok__(Ghost({s})))\n") } else { format!("if holds__(Ghost({ok})) {{ Ok(tok__(Ghost({s}))) }} else {{ Err(err__()) }}\n") })),
        };
        let st = if ext.contains(&key) { "undecided" } else { st };
        let external = st == "undecided" || assume.contains(&key);
        out += &format!("//@begin {key}\n{}pub fn derive__{}(cx: &mut Cx, data: &Data) -> (r: Result<Tok, Error>)\n    ensures {}r is Ok ==> uniform(r->Ok_0@, data.n()), final(cx).pin == {}\n{}//@end\n",
            if external { "#[verifier::external_body]\n" } else { "" }, at.replace("::", "__"), if fall { "" } else { "r is Ok, " }, if pin { "true" } else { "old(cx).pin" },
            if external { "{ unimplemented!() }\n".into() } else { text });
        rows.push(format!("{{\"key\":{key:?},\"status\":{st:?},\"props\":{},\"why\":{},\"ensures\":true,\"shape\":\"|\"}}", json(&props), json(&why)));
        for k in fns.keys() { if k.starts_with(&format!("{at}::")) && !k.ends_with("::derive") { inl.insert(k.clone()); } }
    }
    for (i, t) in texts.iter().enumerate() { out += &format!("// {i}: {t}\n"); }
    out += "}\nfn main() {}\n";
    std::fs::write(path, out).unwrap();
    println!("{{\"functions\":[{}],\"fail\":{},\"inlined\":{},\"rewrites\":{{\"quote! template to a term over the enum, the variants and literal text\":{}}},\"skipped\":[]}}", rows.join(","), json(&fails), json(&inl.into_iter().collect::<Vec<_>>()), texts.len());
}
