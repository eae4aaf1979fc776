//! The specification of #[auto_enum], written declaratively: from an annotated item it computes
//! which nodes have to be wrapped in which scope, which `?` are desugared, which attributes go,
//! and builds the expected output from that. It shares no code with the macro.
use std::collections::{HashMap, HashSet};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::{parse::{Parse, ParseStream}, visit::{self, Visit}, visit_mut::{self, VisitMut}, *};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Default, Return(usize), Try }

pub struct Scope {
    pub traits: Vec<String>,
    marker: String,
    pub variants: usize,
    has_child: bool,
    mode: Mode,
    never_last: bool,
    dummy: bool,
    /// whether an enum is generated
    pub built: bool,
}

/// A plan: everything that has to happen, by address of the node in the input.
#[derive(Default)]
struct Plan {
    wrap: HashMap<usize, usize>,        // Expr -> scope
    wrap_block: HashMap<usize, usize>,  // Block of an if branch -> scope
    wrap_value: HashMap<usize, usize>,  // Return or Break Expr: its value -> scope
    tries: HashMap<usize, usize>,       // Expr::Try -> scope
    markers: HashMap<usize, usize>,     // Expr::Macro -> scope
    enum_expr: HashMap<usize, usize>,   // Expr annotated, or initializer -> scope
    enum_fn: Option<usize>,
    drop_attr: HashSet<usize>,
    drop_type: HashSet<usize>,          // Local whose type annotation goes
}

pub struct Args { paths: Vec<Path>, marker: Option<String> }
impl Parse for Args {
    fn parse(s: ParseStream<'_>) -> Result<Self> {
        let mut a = Args { paths: vec![], marker: None };
        while !s.is_empty() {
            if s.peek(Ident) && s.peek2(Token![=]) {
                let i: Ident = s.parse()?;
                if i != "marker" { return Err(s.error("expected `,`")); }
                let _: Token![=] = s.parse()?;
                let m: Ident = s.parse()?;
                if a.marker.replace(m.to_string()).is_some() { return Err(s.error("duplicate")); }
            } else { a.paths.push(s.parse()?); }
            if s.is_empty() { break; }
            let _: Token![,] = s.parse()?;
        }
        Ok(a)
    }
}

pub struct Oracle { type_analysis: bool, scopes: Vec<Scope>, plan: Plan, errors: Vec<String>, enclosing_markers: Vec<String>, in_try: usize, unspecified: std::cell::Cell<bool> }

pub enum Outcome { Error(Vec<String>), Ok { tokens: TokenStream, scopes: Vec<Scope> }, Unspecified }

fn p<T>(x: &T) -> usize { x as *const T as usize }

// ---- attributes ------------------------------------------------------------------------------
pub fn attrs(e: &Expr) -> &[Attribute] {
    macro_rules! a { ($($v:ident)*) => { match e { $(Expr::$v(x) => &x.attrs,)* _ => &[] } } }
    a!(Array Assign Async Await Binary Block Break Call Cast Closure Const Continue Field ForLoop Group If Index Infer Let Lit Loop Macro Match MethodCall Paren Path Range Reference Repeat Return Struct Try TryBlock Tuple Unary Unsafe While Yield)
}
pub fn attrs_mut(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    macro_rules! a { ($($v:ident)*) => { match e { $(Expr::$v(x) => Some(&mut x.attrs),)* _ => None } } }
    a!(Array Assign Async Await Binary Block Break Call Cast Closure Const Continue Field ForLoop Group If Index Infer Let Lit Loop Macro Match MethodCall Paren Path Range Reference Repeat Return Struct Try TryBlock Tuple Unary Unsafe While Yield)
}
fn named<'a>(a: &'a [Attribute], n: &str) -> Option<&'a Attribute> { a.iter().find(|a| a.path().is_ident(n)) }
fn bare(a: &[Attribute], n: &str) -> bool { a.iter().any(|a| matches!(&a.meta, Meta::Path(p) if p.is_ident(n))) }

/// `path` is `tail`, or `krate::..` spelled out in full, for krate std or core.
fn names(path: &Path, full: &[&str]) -> bool {
    let s: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
    let last = full[full.len() - 1];
    (s.len() == 1 && s[0] == last) || (s.len() == full.len() + 1 && (s[0] == "std" || s[0] == "core") && s[1..].iter().zip(full).all(|(a, b)| a == b))
}

// ---- searches over a region ------------------------------------------------------------------
/// Whether `#[nested]` occurs in the arm or block, outside items and other #[auto_enum] nodes.
#[derive(Default)] struct HasNested(bool);
impl<'a> Visit<'a> for HasNested {
    fn visit_expr(&mut self, e: &'a Expr) { if named(attrs(e), "auto_enum").is_some() { return; } if bare(attrs(e), "nested") { self.0 = true } else { visit::visit_expr(self, e) } }
    fn visit_arm(&mut self, a: &'a Arm) { if bare(&a.attrs, "nested") { self.0 = true } else { visit::visit_arm(self, a) } }
    fn visit_local(&mut self, l: &'a Local) { if named(&l.attrs, "auto_enum").is_some() { return; } if bare(&l.attrs, "nested") { self.0 = true } else { visit::visit_local(self, l) } }
    fn visit_item(&mut self, _: &'a Item) {}
}

/// The `return`s and `?`s that belong to a function body.
struct Uses<'o> { o: &'o Oracle, s: usize, returns: usize, tries: usize }
impl<'a> Visit<'a> for Uses<'_> {
    fn visit_expr(&mut self, e: &'a Expr) {
        if matches!(e, Expr::Closure(_) | Expr::Async(_)) { return; }
        if !bare(attrs(e), "never") { match e {
            Expr::Return(r) if !r.expr.as_ref().is_some_and(|x| self.o.is_marker(self.s, x)) => self.returns += 1,
            Expr::Try(t) if !self.o.is_marker(self.s, &t.expr) => self.tries += 1,
            _ => {} } }
        visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

/// The `break`s that leave a loop.
struct Breaks<'a> { label: Option<&'a Lifetime>, inner: bool, found: Vec<&'a ExprBreak>, nodes: Vec<usize> }
impl<'a> Visit<'a> for Breaks<'a> {
    fn visit_expr(&mut self, e: &'a Expr) {
        if bare(attrs(e), "never") { return; }
        let mine = self.label;
        let same = |l: Option<&Lifetime>| matches!((mine, l), (Some(a), Some(b)) if a.ident == b.ident);
        let label = match e { Expr::Loop(l) => Some(l.label.as_ref()), Expr::While(l) => Some(l.label.as_ref()), Expr::ForLoop(l) => Some(l.label.as_ref()), _ => None };
        match e {
            Expr::Closure(_) | Expr::Async(_) => {}
            Expr::Block(b) if same(b.label.as_ref().map(|l| &l.name)) => {}
            Expr::ForLoop(f) => {
                // What is iterated belongs to the loops around.
                self.visit_expr(&f.expr);
                if same(label.unwrap().map(|l| &l.name)) { return; }
                let was = std::mem::replace(&mut self.inner, true);
                visit::visit_block(self, &f.body);
                self.inner = was;
            }
            Expr::Loop(_) | Expr::While(_) => {
                if same(label.unwrap().map(|l| &l.name)) { return; }
                let was = std::mem::replace(&mut self.inner, true);
                visit::visit_expr(self, e);
                self.inner = was;
            }
            Expr::Break(b) => {
                let ours = match &b.label { None => !self.inner, Some(_) => same(b.label.as_ref()) };
                if ours { self.found.push(b); self.nodes.push(p(e)); }
                visit::visit_expr(self, e);
            }
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

pub const ANALYSED: &[&str] = &["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "AsRef", "AsMut", "Debug", "fmt::Debug", "Display", "fmt::Display", "fmt::Binary", "fmt::LowerExp", "fmt::LowerHex", "fmt::Octal", "fmt::Pointer", "fmt::UpperExp", "fmt::UpperHex", "fmt::Write", "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Extend", "Deref", "DerefMut", "Index", "IndexMut", "RangeBounds", "Fn", "FnMut", "FnOnce", "Coroutine", "Future", "Read", "io::Read", "BufRead", "io::BufRead", "Write", "io::Write", "Seek", "io::Seek", "Error", "error::Error"];
struct ImplTraits(Vec<String>);
impl<'a> Visit<'a> for ImplTraits {
    fn visit_type_impl_trait(&mut self, t: &'a TypeImplTrait) {
        visit::visit_type_impl_trait(self, t);
        for b in &t.bounds { if let TypeParamBound::Trait(t) = b {
            let s: Vec<String> = t.path.segments.iter().map(|s| s.ident.to_string()).collect();
            self.0.push(s.join("::"));
        } }
    }
}
pub fn key(p: &Path) -> String { p.to_token_stream().to_string().replace(' ', "") }

impl Oracle {
    fn scope(&mut self, args: TokenStream) -> Option<usize> {
        let a: Args = match parse2(args) { Ok(a) => a, Err(_) => { self.errors.push("arguments".into()); return None; } };
        let marker = match a.marker {
            Some(m) => { if self.enclosing_markers.contains(&m) { self.errors.push("duplicate marker name".into()); return None; } m }
            None => "marker".into(),
        };
        self.scopes.push(Scope { traits: a.paths.iter().map(key).collect(), marker, variants: 0, has_child: false, mode: Mode::Default, never_last: false, dummy: false, built: false });
        Some(self.scopes.len() - 1)
    }
    /// An #[auto_enum] that has not been taken up yet.
    fn own_scope<'a>(&self, a: &'a [Attribute]) -> Option<&'a Attribute> { named(a, "auto_enum").filter(|a| !self.plan.drop_attr.contains(&p(*a))) }
    fn is_marker(&self, s: usize, e: &Expr) -> bool { matches!(e, Expr::Macro(m) if self.is_marker_mac(s, &m.mac)) }
    fn is_marker_mac(&self, s: usize, m: &Macro) -> bool { m.path.is_ident(&self.scopes[s].marker) }
    fn visits_last(&self, s: usize) -> bool { !self.scopes[s].never_last && self.scopes[s].mode != Mode::Try }

    /// The expression yields no value (C14).
    fn diverges(&self, s: usize, e: &Expr) -> bool {
        if bare(attrs(e), "never") || self.own_scope(attrs(e)).is_some() { return true; }
        match e {
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
            Expr::Macro(m) => self.diverging_mac(s, &m.mac),
            Expr::Block(b) => self.diverging_end(s, b.block.stmts.last()),
            Expr::Unsafe(b) => self.diverging_end(s, b.block.stmts.last()),
            Expr::Paren(x) => self.diverges(s, &x.expr),
            Expr::MethodCall(x) => self.diverges(s, &x.receiver),
            Expr::Match(m) => m.arms.iter().all(|a| bare(&a.attrs, "never") || self.diverges(s, &a.body)),
            // a known finding: an enclosing scope may have desugared this `?` before
            Expr::Try(_) if self.in_try > 0 => { self.unspecified.set(true); true }
            Expr::Try(t) => match &*t.expr {
                Expr::Path(x) => x.qself.is_none() && names(&x.path, &["option", "Option", "None"]),
                Expr::Call(c) => c.args.len() == 1 && matches!(&*c.func, Expr::Path(x) if x.qself.is_none() && names(&x.path, &["result", "Result", "Err"])),
                _ => false,
            },
            _ => false,
        }
    }
    fn diverging_mac(&self, s: usize, m: &Macro) -> bool { names(&m.path, &["panic"]) || names(&m.path, &["unreachable"]) || self.is_marker_mac(s, m) }
    fn diverging_end(&self, s: usize, st: Option<&Stmt>) -> bool {
        match st {
            Some(Stmt::Expr(e, _)) => self.diverges(s, e),
            Some(Stmt::Local(l)) => l.init.as_ref().is_some_and(|i| self.diverges(s, &i.expr)),
            Some(Stmt::Item(_)) => true,
            Some(Stmt::Macro(m)) => self.diverging_mac(s, &m.mac),
            None => false,
        }
    }

    /// The branches of a value expression (C10, C11): what is wrapped.
    fn branches(&mut self, s: usize, e: &Expr) {
        if !self.visits_last(s) || bare(attrs(e), "nested") && !self.plan.drop_attr.contains(&p(named(attrs(e), "nested").unwrap())) || self.diverges(s, e) { return; }
        match e {
            Expr::Block(ExprBlock { block, .. }) | Expr::Unsafe(ExprUnsafe { block, .. }) => if let Some(Stmt::Expr(x, None)) = block.stmts.last() { self.branches(s, x) },
            Expr::Paren(x) => self.branches(s, &x.expr),
            Expr::MethodCall(x) => self.branches(s, &x.receiver),
            Expr::Match(m) => for a in &m.arms {
                let mut n = HasNested(false); n.visit_arm(a);
                if !(bare(&a.attrs, "never") || n.0 || self.diverges(s, &a.body)) { self.plan.wrap.insert(p(&*a.body), s); self.scopes[s].variants += 1; }
            },
            Expr::If(i) => self.if_branches(s, i),
            Expr::Loop(l) => {
                let mut b = Breaks { label: l.label.as_ref().map(|l| &l.name), inner: false, found: vec![], nodes: vec![] };
                b.visit_block(&l.body);
                for (b, n) in b.found.into_iter().zip(b.nodes) { if !b.expr.as_ref().is_some_and(|x| self.is_marker(s, x) || bare(attrs(x), "nested")) { self.plan.wrap_value.insert(n, s); self.scopes[s].variants += 1; } }
            }
            _ => {}
        }
    }
    fn if_branches(&mut self, s: usize, i: &ExprIf) {
        self.if_branch(s, &i.then_branch);
        match i.else_branch.as_ref().map(|(_, e)| &**e) {
            Some(Expr::Block(b)) => self.if_branch(s, &b.block),
            Some(Expr::If(i)) => self.if_branches(s, i),
            _ => self.errors.push("if without else".into()),
        }
    }
    fn if_branch(&mut self, s: usize, b: &Block) {
        let mut n = HasNested(false); n.visit_block(b);
        if !(n.0 && matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) || self.diverging_end(s, b.stmts.last())) { self.plan.wrap_block.insert(p(b), s); self.scopes[s].variants += 1; }
    }

    fn uses<'a>(&self, s: usize, f: impl FnOnce(&mut Uses<'_>)) -> (usize, usize) { let mut u = Uses { o: self, s, returns: 0, tries: 0 }; f(&mut u); (u.returns, u.tries) }

    // ---- scopes --------------------------------------------------------------------------------
    fn top_expr(&mut self, s: usize, e: &Expr, semi: bool) {
        if semi { self.scopes[s].never_last = true; }
        if self.scopes[s].traits.is_empty() { return self.dummy(s, |r| r.visit_expr(e)); }
        self.value_expr(s, e);
        self.plan.enum_expr.insert(p(e), s);
        self.finish(s);
    }
    fn value_expr(&mut self, s: usize, e: &Expr) {
        let e = match e {
            Expr::Closure(c) if self.visits_last(s) => {
                let (r, t) = self.uses(s, |u| u.visit_expr(&c.body));
                self.scopes[s].mode = if t >= 2 { Mode::Try } else { Mode::Return(r) };
                &*c.body
            }
            _ => e,
        };
        self.branches(s, e);
        if self.too_few(s) { return self.dummy_region(s, |r| r.visit_expr(e)); }
        self.region(s, |r| r.visit_expr(e));
    }
    /// type_analysis only: `#[auto_enum]` without arguments on something without branches.
    fn too_few(&self, s: usize) -> bool { let x = &self.scopes[s]; self.type_analysis && x.dummy && x.variants == 0 && matches!(x.mode, Mode::Return(n) if n < 2) }
    fn top_local(&mut self, s: usize, l: &Local) {
        self.scopes[s].dummy = self.scopes[s].traits.is_empty();
        if let (true, Pat::Type(t)) = (self.type_analysis, &l.pat) { if self.analyse(s, &t.ty) { self.plan.drop_type.insert(p(l)); } }
        if self.scopes[s].traits.is_empty() { return self.dummy(s, |r| r.visit_local(l)); }
        let Some(i) = &l.init else { self.errors.push("uninitialized let".into()); return; };
        self.value_expr(s, &i.expr);
        self.plan.enum_expr.insert(p(&*i.expr), s);
        self.finish(s);
    }
    fn top_fn(&mut self, s: usize, f: &ItemFn) {
        self.scopes[s].dummy = self.scopes[s].traits.is_empty();
        if let ReturnType::Type(_, t) = &f.sig.output {
            match &**t {
                Type::ImplTrait(_) => { let (r, _) = self.uses(s, |u| u.visit_block(&f.block)); self.scopes[s].mode = Mode::Return(r); }
                Type::Path(TypePath { qself: None, path }) if names(path, &["result", "Result"]) => if let PathArguments::AngleBracketed(a) = &path.segments.last().unwrap().arguments {
                    if a.colon2_token.is_none() && a.args.len() == 2 && matches!((&a.args[0], &a.args[1]), (GenericArgument::Type(_), GenericArgument::Type(Type::ImplTrait(_)))) {
                        let (_, t) = self.uses(s, |u| u.visit_block(&f.block));
                        if t >= 2 { self.scopes[s].mode = Mode::Try; }
                    }
                },
                _ => {}
            }
            if self.type_analysis { self.analyse(s, t); }
        }
        if self.scopes[s].traits.is_empty() { return self.dummy(s, |r| r.visit_block(&f.block)); }
        match f.block.stmts.last() {
            Some(Stmt::Expr(e, None)) => self.branches(s, e),
            Some(_) => {}
            None => self.errors.push("empty function".into()),
        }
        if self.too_few(s) { self.dummy_region(s, |r| r.visit_block(&f.block)); return; }
        self.region(s, |r| r.visit_block(&f.block));
        self.plan.enum_fn = Some(s);
        self.finish(s);
    }
    fn analyse(&mut self, s: usize, t: &Type) -> bool {
        let mut v = ImplTraits(vec![]); v.visit_type(t);
        let given = self.scopes[s].traits.clone();
        let mut any = false;
        for x in v.0 { if ANALYSED.contains(&&*x) && !(given.contains(&x) && !self.scopes[s].dummy) {
            // an argument already given contributes nothing
            any = true;
            if !self.scopes[s].traits.contains(&x) { self.scopes[s].traits.push(x); }
        } }
        any
    }
    fn finish(&mut self, s: usize) {
        let x = &mut self.scopes[s];
        if x.variants == 1 || x.variants == 0 && !x.has_child { self.errors.push("fewer than two branches".into()); }
        x.built = x.variants >= 2;
    }
    fn region(&mut self, s: usize, f: impl FnOnce(&mut Region<'_>)) { let mut r = Region { o: self, s, dummy: false, closure: false, try_block: false, foreign: false, depth: 0 }; f(&mut r); }
    fn dummy_region(&mut self, s: usize, f: impl FnOnce(&mut Region<'_>)) { let mut r = Region { o: self, s, dummy: true, closure: false, try_block: false, foreign: false, depth: 0 }; f(&mut r); }
    fn dummy(&mut self, s: usize, f: impl FnOnce(&mut Region<'_>)) { self.dummy_region(s, f) }
}

/// A walk over a scope's region: markers, `return`, `?`, nested, helper attributes and the scopes in it.
struct Region<'o> { o: &'o mut Oracle, s: usize, dummy: bool, closure: bool, try_block: bool, foreign: bool, depth: usize }
impl Region<'_> {
    fn nested(&mut self, at: &[Attribute], target: Option<&Expr>) {
        if self.dummy || self.foreign { return; }
        if let Some(a) = named(at, "nested") {
            self.o.plan.drop_attr.insert(p(a));
            if let Some(t) = target { if matches!(a.meta, Meta::Path(_)) { self.o.branches(self.s, t) } else { self.o.errors.push("nested with arguments".into()) } }
        }
    }
    fn helpers(&mut self, at: &[Attribute]) {
        if self.dummy || self.foreign { return; }
        if let Some(a) = named(at, "never") { self.o.plan.drop_attr.insert(p(a)); if !matches!(a.meta, Meta::Path(_)) { self.o.errors.push("never with arguments".into()); } }
        if let Some(_) = named(at, "rec") { self.o.errors.push("rec".into()); }
    }
    /// An #[auto_enum] inside this scope: it is a scope of its own.
    fn child(&mut self, a: &Attribute, path_ok: bool) -> Option<usize> {
        self.o.plan.drop_attr.insert(p(a));
        let args = match &a.meta { Meta::List(l) => l.tokens.clone(), Meta::Path(_) if path_ok => TokenStream::new(), _ => { self.o.errors.push("auto_enum without list".into()); return None; } };
        let m = self.o.scopes[self.s].marker.clone();
        self.o.enclosing_markers.push(m);
        let c = self.o.scope(args);
        self.o.enclosing_markers.pop();
        c
    }
    fn enter<'a>(&mut self, f: impl FnOnce(&mut Oracle)) { if self.depth == 0 { let m = self.o.scopes[self.s].marker.clone(); self.o.enclosing_markers.push(m); let t = (self.o.scopes[self.s].mode == Mode::Try) as usize; self.o.in_try += t; f(self.o); self.o.in_try -= t; self.o.enclosing_markers.pop(); } }
    fn expr(&mut self, e: &Expr, semi: bool) {
        let was = (self.closure, self.try_block, self.foreign, self.depth);
        let own = self.o.own_scope(attrs(e));
        if let Some(a) = own {
            self.o.scopes[self.s].has_child = true;
            if self.depth == 0 { if let Some(c) = self.child(a, false) { self.enter(|o| o.top_expr(c, e, semi)); } }
            if !self.dummy { self.foreign = true; }
            self.depth += 1;
        }
        match e { Expr::Closure(_) | Expr::Async(_) => self.closure = true, Expr::TryBlock(_) => self.try_block = true, _ => {} }
        let s = self.s;
        if !self.dummy && !self.closure && !bare(attrs(e), "never") {
            match (self.o.scopes[s].mode, e) {
                (Mode::Return(_), Expr::Return(r)) if !r.expr.as_ref().is_some_and(|x| self.o.is_marker(s, x) || bare(attrs(x), "nested")) => { self.o.plan.wrap_value.insert(p(e), s); self.o.scopes[s].variants += 1; }
                (Mode::Try, Expr::Try(t)) if !self.try_block && !self.o.is_marker(s, &t.expr) => { self.o.plan.tries.insert(p(e), s); self.o.scopes[s].variants += 1; }
                _ => {}
            }
        }
        self.nested(attrs(e), Some(e));
        visit::visit_expr(self, e);
        if !self.dummy && (!self.foreign || self.o.scopes[s].marker != "marker") {
            if let Expr::Macro(m) = e { if m.mac.path.is_ident(&self.o.scopes[s].marker) {
                if parse2::<Expr>(m.mac.tokens.clone()).is_err() { self.o.errors.push("marker argument".into()); }
                self.o.plan.markers.insert(p(e), s);
                self.o.scopes[s].variants += 1;
            } }
            self.helpers(attrs(e));
        }
        (self.closure, self.try_block, self.foreign, self.depth) = was;
    }
}
impl<'a> Visit<'a> for Region<'_> {
    fn visit_expr(&mut self, e: &'a Expr) { self.expr(e, false); }
    fn visit_arm(&mut self, a: &'a Arm) { self.nested(&a.attrs, Some(&a.body)); visit::visit_arm(self, a); self.helpers(&a.attrs); }
    fn visit_local(&mut self, l: &'a Local) { self.nested(&l.attrs, l.init.as_ref().map(|i| &*i.expr)); visit::visit_local(self, l); self.helpers(&l.attrs); }
    fn visit_stmt(&mut self, st: &'a Stmt) {
        match st {
            Stmt::Expr(e, semi) => self.expr(e, semi.is_some()),
            Stmt::Local(l) => {
                let was = (self.foreign, self.depth);
                if let Some(a) = self.o.own_scope(&l.attrs) {
                    self.o.scopes[self.s].has_child = true;
                    if self.depth == 0 { if let Some(c) = self.child(a, true) { self.enter(|o| o.top_local(c, l)); } }
                    if !self.dummy { self.foreign = true; }
                    self.depth += 1;
                }
                self.visit_local(l);
                (self.foreign, self.depth) = was;
            }
            Stmt::Macro(_) | Stmt::Item(_) => {}
        }
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

// ---- building the expected output --------------------------------------------------------------
fn wrapped(s: usize, at: Vec<Attribute>, e: Expr) -> Expr {
    let (x, v) = (format_ident!("__SCOPE{}", s), Ident::new("__V", proc_macro2::Span::call_site()));
    let mut c: ExprCall = parse_quote!(#x::#v(__x));
    c.attrs = at;
    c.args[0] = e;
    Expr::Call(c)
}
fn take(e: &mut Expr) -> Expr { std::mem::replace(e, Expr::Verbatim(TokenStream::new())) }
fn with_enum(e: Expr) -> Expr { e }
struct Rewrite<'o> { plan: &'o Plan }
impl Rewrite<'_> { fn attrs(&self, a: &mut Vec<Attribute>) {
    // the addresses change once one is removed
    let mut keep: Vec<bool> = a.iter().map(|a| !self.plan.drop_attr.contains(&p(a))).collect();
    keep.reverse();
    a.retain(|_| keep.pop().unwrap());
} }
impl VisitMut for Rewrite<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let at = p(e);
        // `retain` moves attributes, so they are judged by address before anything else happens
        if let Some(a) = attrs_mut(e) { self.attrs(a); }
        visit_mut::visit_expr_mut(self, e);
        if let Some(&s) = self.plan.markers.get(&at) {
            if let Expr::Macro(m) = take(e) { let arg = parse2(m.mac.tokens).unwrap_or_else(|_| parse_quote!(__bad)); *e = wrapped(s, m.attrs, arg); }
        }
        if let Some(&s) = self.plan.tries.get(&at) {
            if let Expr::Try(t) = take(e) {
                let w = wrapped(s, vec![], parse_quote!(err));
                let x = &t.expr;
                let mut m: ExprMatch = parse_quote!(match __x { ::core::result::Result::Ok(val) => val, ::core::result::Result::Err(err) => return ::core::result::Result::Err(#w), });
                m.expr = x.clone();
                m.attrs = t.attrs;
                *e = Expr::Match(m);
            }
        }
        if let Some(&s) = self.plan.wrap_value.get(&at) {
            let v = match e { Expr::Return(r) => &mut r.expr, Expr::Break(b) => &mut b.expr, _ => unreachable!() };
            let x = v.take().map_or_else(|| parse_quote!(()), |b| *b);
            *v = Some(Box::new(wrapped(s, vec![], x)));
        }
        if self.plan.enum_expr.contains_key(&at) { let x = take(e); *e = with_enum(x); }
        if let Some(&s) = self.plan.wrap.get(&at) { let x = take(e); *e = wrapped(s, vec![], x); }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let at = p(b);
        visit_mut::visit_block_mut(self, b);
        if let Some(&s) = self.plan.wrap_block.get(&at) {
            let inner = Block { brace_token: Default::default(), stmts: std::mem::take(&mut b.stmts) };
            b.stmts = vec![Stmt::Expr(wrapped(s, vec![], Expr::Block(ExprBlock { attrs: vec![], label: None, block: inner })), None)];
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) { self.attrs(&mut a.attrs); visit_mut::visit_arm_mut(self, a); }
    fn visit_local_mut(&mut self, l: &mut Local) {
        let at = p(l);
        self.attrs(&mut l.attrs);
        visit_mut::visit_local_mut(self, l);
        if self.plan.drop_type.contains(&at) { if let Pat::Type(t) = &l.pat { l.pat = (*t.pat).clone(); } }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// What #[auto_enum(args)] on `input` has to give.
pub fn expected(type_analysis: bool, args: TokenStream, input: TokenStream) -> Outcome {
    let mut o = Oracle { type_analysis, scopes: vec![], plan: Plan::default(), errors: vec![], enclosing_markers: vec![], in_try: 0, unspecified: Default::default() };
    let Some(s) = o.scope(args) else { return Outcome::Error(o.errors); };
    let tokens = match parse2::<Stmt>(input.clone()) {
        Ok(mut st) => {
            match &st {
                Stmt::Expr(e, semi) => o.top_expr(s, e, semi.is_some()),
                Stmt::Local(l) => o.top_local(s, l),
                Stmt::Item(Item::Fn(f)) => o.top_fn(s, f),
                Stmt::Item(_) => o.errors.push("unsupported item".into()),
                Stmt::Macro(_) => {}
            }
            if o.errors.is_empty() {
                match &mut st { Stmt::Item(Item::Fn(f)) => Rewrite { plan: &o.plan }.visit_item_fn_mut(f), st => Rewrite { plan: &o.plan }.visit_stmt_mut(st) }
            }
            quote!(#st)
        }
        Err(_) => match parse2::<Expr>(input) {
            Ok(mut e) => { o.top_expr(s, &e, false); if o.errors.is_empty() { Rewrite { plan: &o.plan }.visit_expr_mut(&mut e); } quote!(#e) }
            Err(_) => { o.errors.push("not an expression, statement or function".into()); TokenStream::new() }
        },
    };
    if o.unspecified.get() { return Outcome::Unspecified; }
    if o.errors.is_empty() { Outcome::Ok { tokens, scopes: o.scopes } } else { Outcome::Error(o.errors) }
}
