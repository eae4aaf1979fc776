import os
D=os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts/")
GEN = r'''
=== prelude
// ---- steps: what each function does to the state and the node ----
pub open spec fn rm<A: Attrs>(n: A, s: Seq<char>) -> A { if strip(n.sattrs(), s).0 is Some { n.swith(vec_of(strip(n.sattrs(), s).1)) } else { n } }
pub open spec fn sc_of(s: Scope, e: Expr) -> Scope { match e { Expr::Closure(_) => Scope { closure: true, ..s }, Expr::Async(_) => Scope { closure: true, ..s }, Expr::TryBlock(_) => Scope { try_block: true, ..s }, _ => s } }
pub open spec fn sc0() -> Scope { Scope { closure: false, try_block: false, foreign: false } }
/// Does the node hold a #[nested] of this scope?
pub open spec fn fe(s: NS, e: Expr) -> NS { if has_attr(e_attrs(e), NAME@) { s } else if has_empty(e_attrs(e), NESTED@) { NS { has: true } } else { w_FindNested(s, e).0 } }
pub open spec fn fa(s: NS, a: Arm) -> NS { if has_empty(a.attrs@, NESTED@) { NS { has: true } } else { w_FindNested(s, a).0 } }
pub open spec fn fl(s: NS, l: Local) -> NS { if has_attr(l.attrs@, NAME@) { s } else if has_empty(l.attrs@, NESTED@) { NS { has: true } } else { w_FindNested(s, l).0 } }
/// How many `?` and `return` of this function are there?
pub open spec fn ce(s: FS, e: Expr) -> FS {
    let sc = sc_of(s.scope, e);
    let on = !sc.closure && !has_empty(e_attrs(e), NEVER@);
    let t: int = match e { Expr::Try(t) => if on && !is_marker_e(s.env, *t.expr) { 1 } else { 0 }, _ => 0 };
    let r: int = match e { Expr::Return(r) => if on && match r.expr { None => true, Some(x) => !is_marker_e(s.env, *x) } { 1 } else { 0 }, _ => 0 };
    let s1 = FS { scope: if has_attr(e_attrs(e), NAME@) { Scope { foreign: true, ..sc } } else { sc }, try_: s.try_ + t, return_: s.return_ + r, ..s };
    FS { scope: s.scope, ..w_FnVisitor(s1, e).0 }
}
pub open spec fn cs(s: FS, n: Stmt) -> FS {
    let s1 = FS { scope: if has_attr(stmt_attrs(n), NAME@) { Scope { foreign: true, ..s.scope } } else { s.scope }, ..s };
    FS { scope: s.scope, ..w_FnVisitor(s1, n).0 }
}
pub open spec fn fs0(c: Context) -> FS { FS { env: env(c), scope: sc0(), try_: 0, return_: 0 } }
'''
NODE = "=== in trait Node\n"
LOOPS = ("expr",)
V = {"Visitor":"VS","Dummy":"DS","FindNested":"NS","FnVisitor":"FS"}
for v,s in V.items():
    NODE += f"spec fn k_{v}(self, s: {s}) -> ({s}, Self);\n"
own = {("Visitor","Expr"):"v_expr_mut(s, self)",("Visitor","Arm"):"v_arm(s, self)",("Visitor","Local"):"v_local(s, self)",("Visitor","Stmt"):"v_stmt(s, self)",
 ("Dummy","Expr"):"d_expr(s, self)",("Dummy","Stmt"):"d_stmt(s, self)",
 ("FindNested","Expr"):"(fe(s, self), self)",("FindNested","Arm"):"(fa(s, self), self)",("FindNested","Local"):"(fl(s, self), self)",
 ("FnVisitor","Expr"):"(ce(s, self), self)",("FnVisitor","Stmt"):"(cs(s, self), self)"}
for t in ["Stmt","Local","Expr","Arm","Block","ItemFn"]:
    NODE += f"=== in impl Node for {t}\n"
    for v,s in V.items():
        NODE += f"open spec fn k_{v}(self, s: {s}) -> ({s}, Self) {{ {own.get((v,t), f'w_{v}(s, self)')} }}\n"
for v,s in V.items():
    NODE += f"=== fn Node::visited__{v}\nrequires pre_{v}(st_{v}(*old(visitor)))\nensures (st_{v}(*final(visitor)), *final(self)) == old(self).k_{v}(st_{v}(*old(visitor))), inv_{v}(st_{v}(*old(visitor)), st_{v}(*final(visitor)))"
    if v in("Visitor","Dummy"): NODE += ", *final(final(visitor).cx) == *final(old(visitor).cx)"
    if v == "FnVisitor": NODE += ", final(visitor).cx == old(visitor).cx"
    if v in("FindNested","FnVisitor"): NODE += ", *final(self) == *old(self)"
    NODE += "\n"
def meth(v, m, arg, spec, props, extra="", read=False):
    cx = ", *final(final(self).cx) == *final(old(self).cx)" if v in("Visitor","Dummy","LoopVisitor") else (", final(self).cx == old(self).cx" if v=="FnVisitor" else "")
    s = f"=== fn {v}::{m}\nprops: {props}\nrequires pre_{v}(st_{v}(*old(self))){extra}\nensures (st_{v}(*final(self)), *final({arg})) == {spec}, inv_{v}(st_{v}(*old(self)), st_{v}(*final(self))){cx}"
    if read: s += f", *final({arg}) == *old({arg})"
    return s + "\n"
def S(v): return f"st_{v}(*old(self))"
F = ""
for m,f in [("expr","fe"),("arm","fa"),("local","fl")]:
    F += meth("FindNested", f"visit_{m}_mut","node",f"({f}({S('FindNested')}, *old(node)), *old(node))","C14 C15 C10",read=True)
for m,f in [("expr","ce"),("stmt","cs")]:
    F += meth("FnVisitor", f"visit_{m}_mut","node",f"({f}({S('FnVisitor')}, *old(node)), *old(node))","C12 C13",read=True)
# syn's methods that a visitor leaves alone do the default walk; items in a body are not looked into
KINDS = {"expr":"Expr","stmt":"Stmt","arm":"Arm","local":"Local","block":"Block","item_fn":"ItemFn"}
for v in list(V) + ["LoopVisitor"]:
    ps = {"Visitor":"C11 C12 C13 C16","Dummy":"C16 C14 C15","FindNested":"C14 C15","FnVisitor":"C12 C13","LoopVisitor":"C11"}[v]
    rd = v in ("FindNested","FnVisitor")
    for k,t in KINDS.items():
        if (v,t) in own or v == "LoopVisitor" and k in LOOPS: continue
        F += meth(v, f"visit_{k}_mut","node",f"w_{v}({S(v)}, *old(node))",ps,read=rd)
    F += meth(v, "visit_item_mut","node",f"({S(v)}, *old(node))",ps,read=rd)
F += r'''=== fn find_nested
props: C14 C15
ensures r == old(node).k_FindNested(NS { has: false }).0.has, *final(node) == *old(node)
=== fn visit_fn
props: C12 C13
ensures r.try_ as int == old(node).k_FnVisitor(fs0(*cx)).0.try_, r.return_ as int == old(node).k_FnVisitor(fs0(*cx)).0.return_, *final(node) == *old(node)
=== fn Scope::check_expr
props: C12 C13
ensures *final(self) == sc_of(*old(self), *expr)
'''
# unreachable, child
F += r'''=== prelude
pub open spec fn skip_arm(v: Env, a: Arm) -> bool { has_empty(a.attrs@, NEVER@) || has_empty(a.attrs@, NESTED@) || no_value(v, *a.body) || fa(NS { has: false }, a).has }
pub open spec fn skip_block(v: Env, b: Block) -> bool {
    if b.stmts@.len() > 0 { match b.stmts@[b.stmts@.len() - 1] {
        Stmt::Expr(e, None) => has_empty(e_attrs(e), NESTED@) || no_value(v, e) || w_FindNested(NS { has: false }, b).0.has,
        _ => no_value_last(v, b) } } else { false }
}
pub proof fn lemma_wrap_arms(c: Context, a: Seq<Arm>, n: int)
    requires 0 <= n <= a.len()
    ensures ({ let r = wrap_arms(c, a, n); r.1.len() == a.len() && (forall|j: int| n <= j < a.len() ==> r.1[j] == a[j]) && c_step(c, r.0) && env(r.0) == env(c) && r.0.markers == c.markers }) decreases n
{ broadcast use base; if n > 0 { lemma_wrap_arms(c, a, n - 1); let d = wrap_arms(c, a, n - 1).0; assert(c_step(d, c_next(d))); } }
/// The first n arms, each that yields a value in a variant.
pub open spec fn wrap_arms(c: Context, a: Seq<Arm>, n: int) -> (Context, Seq<Arm>) decreases n {
    if n <= 0 { (c, a) } else {
        let (d, b) = wrap_arms(c, a, n - 1);
        if skip_arm(env(c), a[n - 1]) { (d, b) } else { (c_next(d), b.update(n - 1, Arm { comma: Some(dflt()), body: Box::new(c_wrap(d, *a[n - 1].body)), ..a[n - 1] })) }
    }
}
pub open spec fn wrap_block(c: Context, b: Block) -> (Context, Block) { if skip_block(env(c), b) { (c, b) } else { (c_next(c), Block { stmts: vec_of(seq![Stmt::Expr(c_wrap(c, block_expr(block_of(b.stmts))), None)]), ..b }) } }
pub open spec fn wrap_if(c: Context, i: ExprIf) -> (Context, ExprIf) decreases i {
    let (d, t) = wrap_block(c, i.then_branch);
    match i.else_branch {
        None => (c_error(d, an_error()), ExprIf { then_branch: t, ..i }),
        Some((tok, e)) => match *e {
            Expr::Block(b) => { let (f, g) = wrap_block(d, b.block); (f, ExprIf { then_branch: t, else_branch: Some((tok, Box::new(Expr::Block(ExprBlock { block: g, ..b })))), ..i }) }
            Expr::If(j) => { let (f, k) = wrap_if(d, j); (f, ExprIf { then_branch: t, else_branch: Some((tok, Box::new(Expr::If(k)))), ..i }) }
            _ => (d, i),
        },
    }
}
pub open spec fn with_last(b: Block, e: Expr) -> Block { Block { stmts: vec_of(b.stmts@.update(b.stmts@.len() - 1, Stmt::Expr(e, None))), ..b } }
pub open spec fn child_block(c: Context, b: Block) -> (Context, Block) decreases b {
    if b.stmts@.len() > 0 { match b.stmts@[b.stmts@.len() - 1] { Stmt::Expr(e, None) => { let (d, f) = child(c, e); (d, with_last(b, f)) } _ => (c, b) } } else { (c, b) }
}
pub broadcast proof fn child_block_is(c: Context, b: Block) ensures #[trigger] child_block(c, b) == (if b.stmts@.len() > 0 { match b.stmts@[b.stmts@.len() - 1] { Stmt::Expr(e, None) => { let (d, f) = child(c, e); (d, with_last(b, f)) } _ => (c, b) } } else { (c, b) }) {}
/// The value branches of e, each in a variant.
pub open spec fn child(c: Context, e: Expr) -> (Context, Expr) decreases e {
    if !may_last(c) || has_empty(e_attrs(e), NESTED@) || no_value(env(c), e) { (c, e) } else { match e {
        Expr::Block(b) => { let (d, f) = child_block(c, b.block); (d, Expr::Block(ExprBlock { block: f, ..b })) }
        Expr::Unsafe(b) => { let (d, f) = child_block(c, b.block); (d, Expr::Unsafe(ExprUnsafe { block: f, ..b })) }
        Expr::Match(m) => { let (d, a) = wrap_arms(c, m.arms@, m.arms@.len() as int); (d, Expr::Match(ExprMatch { arms: vec_of(a), ..m })) }
        Expr::If(i) => { let (d, j) = wrap_if(c, i); (d, Expr::If(j)) }
        Expr::Loop(l) => { let (s, b) = breaks(c, l); (s.cx, Expr::Loop(ExprLoop { body: b, ..l })) }
        Expr::MethodCall(m) => { let (d, f) = child(c, *m.receiver); (d, Expr::MethodCall(ExprMethodCall { receiver: Box::new(f), ..m })) }
        Expr::Paren(p) => { let (d, f) = child(c, *p.expr); (d, Expr::Paren(ExprParen { expr: Box::new(f), ..p })) }
        _ => (c, e),
    } }
}
pub open spec fn breaks(c: Context, l: ExprLoop) -> (LS, Block) { w_LoopVisitor(LS { cx: c, label: match l.label { Some(x) => Some(x.name.ident), None => None }, nested: false }, l.body) }
pub open spec fn life(o: Option<Lifetime>) -> Option<Ident> { match o { Some(x) => Some(x.ident), None => None } }
pub open spec fn label(o: Option<Label>) -> Option<Ident> { match o { Some(x) => Some(x.name.ident), None => None } }
pub open spec fn same_label(a: Option<Ident>, b: Option<Ident>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => id_str(x) == id_str(y), _ => false } }
/// A value in the next variant, unless it is a marker or nested.
pub open spec fn boxed(c: Context, o: Option<Box<Expr>>) -> (Context, Option<Box<Expr>>) {
    let e = match o { Some(x) => *x, None => unit_expr() };
    if is_marker_e(env(c), e) || has_empty(e_attrs(e), NESTED@) { (c, Some(Box::new(e))) } else { (c_next(c), Some(Box::new(c_wrap(c, e)))) }
}
/// One node below an annotated loop.
pub open spec fn l_expr(s: LS, e: Expr) -> (LS, Expr) decreases e {
    if has_empty(e_attrs(e), NEVER@) { (s, e) } else { match e {
        Expr::Closure(_) => (s, e), Expr::Async(_) => (s, e),
        Expr::Loop(l) => l_loop(s, label(l.label), e), Expr::ForLoop(l) => l_for(s, l), Expr::While(l) => l_loop(s, label(l.label), e),
        Expr::Block(b) => if b.label is Some && same_label(s.label, label(b.label)) { (s, e) } else { w_LoopVisitor(s, e) },
        Expr::Break(b) => if !s.nested && b.label is None || same_label(s.label, life(b.label)) { let (d, x) = boxed(s.cx, b.expr); w_LoopVisitor(LS { cx: d, ..s }, Expr::Break(ExprBreak { expr: x, ..b })) } else { w_LoopVisitor(s, e) },
        _ => w_LoopVisitor(s, e),
    } }
}
/// The iterated expression belongs to the loops around.
pub open spec fn l_for(s: LS, l: ExprForLoop) -> (LS, Expr) decreases l {
    let (t, h) = l_expr(s, *l.expr); let m = ExprForLoop { expr: Box::new(h), ..l };
    if s.label is None || same_label(s.label, label(l.label)) { (t, Expr::ForLoop(m)) } else { let (u, b) = w_LoopVisitor(LS { nested: true, ..t }, l.body); (LS { nested: s.nested, ..u }, Expr::ForLoop(ExprForLoop { body: b, ..m })) }
}
pub open spec fn l_loop(s: LS, l: Option<Ident>, e: Expr) -> (LS, Expr) {
    if s.label is None || same_label(s.label, l) { (s, e) } else { let (t, f) = w_LoopVisitor(LS { nested: true, ..s }, e); (LS { nested: s.nested, ..t }, f) }
}
=== fn is_unreachable
props: C14
ensures r == no_value(env(*cx), *expr)
--- entry
reveal_with_fuel(no_value, 4); reveal_with_fuel(no_value_last, 4); reveal_with_fuel(no_value_stmt, 4);
--- loop 0
invariant 0 <= $i <= $s@.len(), $s@ == arms@, forall|j: int| 0 <= j < $i ==> has_empty(#[trigger] arms@[j].attrs@, "never"@) || no_value(env(*cx), *arms@[j].body), !$r ==> $i < $s@.len() && !(has_empty(arms@[$i as int].attrs@, "never"@) || no_value(env(*cx), *arms@[$i as int].body))
=== fn is_unreachable_macro
props: C14
ensures r == no_value_macro(env(*cx), *mac)
--- loop 0
invariant 0 <= $i <= $s@.len(), $s@ == seq!["unreachable", "panic"], forall|j: int| 0 <= j < $i ==> !path_is(mac.path, seq!["std", "core"], seq![$s@[j]]), $r ==> $i < $s@.len() && path_is(mac.path, seq!["std", "core"], seq![$s@[$i as int]])
=== fn is_unreachable_stmt
props: C14
ensures r == match stmt { None => false, Some(s) => no_value_stmt(env(*cx), *s) }
=== fn child_expr rlimit
props: C10 C14 C15
requires c_live(*old(cx))
ensures (*final(cx), *final(expr)) == child(*old(cx), *old(expr)), c_step(*old(cx), *final(cx))
--- entry
reveal_with_fuel(child, 3); reveal_with_fuel(child_block, 2);
=== fn visit_last_expr_match__skip
props: C10 C14
ensures r == skip_arm(env(*cx), *old(arm)), *final(arm) == *old(arm)
=== fn visit_last_expr_if__skip
props: C10 C14
ensures r == skip_block(env(*cx), *old(block)), final(block).stmts@ =~= old(block).stmts@, *final(block) == *old(block)
--- entry
reveal_with_fuel(no_value, 4); reveal_with_fuel(no_value_last, 4); reveal_with_fuel(no_value_stmt, 4);
=== fn visit_last_expr_match
props: C10 C14 C17
requires c_live(*old(cx))
ensures *final(expr) == (ExprMatch { arms: vec_of(wrap_arms(*old(cx), old(expr).arms@, old(expr).arms@.len() as int).1), ..*old(expr) }), *final(cx) == wrap_arms(*old(cx), old(expr).arms@, old(expr).arms@.len() as int).0, c_step(*old(cx), *final(cx))
--- loop 0
invariant 0 <= $i <= old(expr).arms@.len(), *expr == (ExprMatch { arms: expr.arms, ..*old(expr) }), expr.arms@ == wrap_arms(*old(cx), old(expr).arms@, $i as int).1, *cx == wrap_arms(*old(cx), old(expr).arms@, $i as int).0, c_live(*cx), expr.arms@.len() == old(expr).arms@.len()
--- loop 0 begin
proof { lemma_wrap_arms(*old(cx), old(expr).arms@, $i as int); lemma_wrap_arms(*old(cx), old(expr).arms@, $i + 1); }
--- loop 0 end
proof { assert(expr.arms@ =~= wrap_arms(*old(cx), old(expr).arms@, $i as int).1); }
--- entry
proof { lemma_wrap_arms(*old(cx), old(expr).arms@, old(expr).arms@.len() as int); }
=== fn visit_last_expr_if
props: C10 C14 C17 C18
requires c_live(*old(cx))
ensures (*final(cx), *final(expr)) == wrap_if(*old(cx), *old(expr)), c_step(*old(cx), *final(cx))
=== fn visit_last_expr_loop
props: C11
requires c_live(*old(cx))
ensures *final(expr) == (ExprLoop { body: breaks(*old(cx), *old(expr)).1, ..*old(expr) }), *final(cx) == breaks(*old(cx), *old(expr)).0.cx, c_step(*old(cx), *final(cx))
=== fn LoopVisitor::compare_labels
props: C11
ensures r == same_label(match self.label { Some(l) => Some(l.name.ident), None => None }, match other { Some(l) => Some(l.ident), None => None })
'''
F += meth("LoopVisitor","visit_expr_mut","node","l_expr("+S("LoopVisitor")+", *old(node))","C11")
F += r'''=== prelude
// ---- contexts ----
/// Type analysis (its contract is proved in the unit types): the traits, the type, whether an impl Trait gave one.
pub uninterp spec fn ta_traits(args: Seq<Path>, traits: Vec<Path>, t: Type) -> Vec<Path>;
pub uninterp spec fn ta_found(args: Seq<Path>, traits: Vec<Path>, t: Type) -> bool;
pub open spec fn ta(args: Seq<Path>, traits: Vec<Path>, t: Type) -> (Vec<Path>, Type, bool) { (ta_traits(args, traits, t), t, ta_found(args, traits, t)) }
#[verifier::external_body] pub fn collect_impl_trait(args: &Vec<Path>, traits: &mut Vec<Path>, ty: &mut Type) -> (r: bool)
    ensures (*final(traits), *final(ty), r) == ta(args@, *old(traits), *old(ty)) { unimplemented!() }
pub open spec fn mode_ok(c: Context) -> bool { c.visit_mode is Default && c.visit_last_mode is Default }
/// A new scope: Err if its arguments do not parse, or its marker is one of the enclosing ones.
pub open spec fn new_cx(span: TokenStream, args: TokenStream, root: bool, markers: Seq<String>, d: Option<Error>, r: Result<Context>) -> bool {
    match parsed::<TokenStream, Args>(args) {
        Err(e) => r is Err,
        Ok(a) => {
            let m = match a.marker { Some(i) => id_str(i), None => DEFAULT_MARKER@ };
            let dup = a.marker is Some && exists|i: int| 0 <= i < markers.len() && (#[trigger] markers[i])@ == m;
            if dup { r is Err } else { match r {
                Err(_) => false,
                Ok(c) => c.current_marker@ == m && c.markers@ == markers.push(c.current_marker) && c.root == root && !c.has_child && mode_ok(c) && c.span == span && c.error == Some(d)
                    && c.args == a.args && c.traits@.len() == 0 && c.builder.variants@.len() == 0 && c.builder.ident == fident("__Enum{}"@, hash_of(span) as int),
            } }
        }
    }
}
pub open spec fn taken(c: Context) -> Context { Context { markers: vec_of(Seq::empty()), error: Some(None), ..c } }
pub open spec fn join(c: Context, k: Context) -> Context {
    let d = Context { markers: vec_of(popped(k.markers@)), ..c };
    match k.error->0 { Some(m) => c_error(d, m), None => d }
}
pub open spec fn popped<T>(s: Seq<T>) -> Seq<T> { if s.len() == 0 { s } else { s.drop_last() } }
/// Errors are not told apart.
pub broadcast axiom fn ax_err(c: Context, m: Error) ensures #[trigger] c_error(c, m) == c_error(c, an_error());
pub proof fn lemma_strip_sub(v: Seq<Attribute>, s: Seq<char>, t: Seq<char>) ensures has_attr(strip(v, s).1, t) ==> has_attr(v, t), strip(v, s).0 is Some ==> has_attr(v, s) decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_first();
        assert forall|i: int| 0 <= i < w.len() implies w[i] == v[i + 1] by {}
        lemma_strip_sub(w, s, t);
        if is_attr(v[0], s) { if has_attr(w, t) { let i = choose|i: int| 0 <= i < w.len() && #[trigger] is_attr(w[i], t); assert(is_attr(v[i + 1], t)); } }
        else {
            let (r, u) = strip(w, s);
            if r is Some { let i = choose|i: int| 0 <= i < w.len() && #[trigger] is_attr(w[i], s); assert(is_attr(v[i + 1], s)); }
            if has_attr(seq![v[0]] + u, t) { let i = choose|i: int| 0 <= i < (seq![v[0]] + u).len() && #[trigger] is_attr((seq![v[0]] + u)[i], t); if i == 0 { assert(is_attr(v[0], t)); } else { assert(is_attr(u[i - 1], t)); let j = choose|j: int| 0 <= j < w.len() && #[trigger] is_attr(w[j], t); assert(is_attr(v[j + 1], t)); } }
        }
    }
}
pub broadcast proof fn strip_sub(v: Seq<Attribute>, s: Seq<char>, t: Seq<char>) ensures #[trigger] has_attr(strip(v, s).1, t) ==> has_attr(v, t) { lemma_strip_sub(v, s, t); }
pub broadcast proof fn strip_has(v: Seq<Attribute>, s: Seq<char>) ensures (#[trigger] strip(v, s)).0 is Some ==> has_attr(v, s) { lemma_strip_sub(v, s, s); }
pub broadcast group sc { ax_err, strip_sub, strip_has }
/// What is left to report, and whether the enum is put in place.
pub open spec fn builds(c: Context) -> bool { !c_err(c) && c_n(c) >= 2 }
pub open spec fn too_few(c: Context) -> bool { !c_err(c) && (c_n(c) == 1 || c_n(c) == 0 && !c.has_child) }
pub open spec fn dummy_cx(c: Context) -> bool { c.args@.len() == 0 && c.traits@.len() == 0 }
pub open spec fn built(c: Context, e: Expr) -> Expr { block_expr(block_of(vec_of(seq![Stmt::Item(Item::Enum(enum_item(c.builder, c.args@, c.traits@))), Stmt::Expr(e, None)]))) }
pub open spec fn done(c: Context, e: Expr) -> (Context, Expr) { if too_few(c) { (c_error(c, an_error()), e) } else if builds(c) { (c, built(c, e)) } else { (c, e) } }
=== fn Context::new
props: C16 C18 C19
ensures new_cx(span, args, root, markers@, diagnostic, r)
=== fn Context::root
props: C16 C18 C19
ensures new_cx(span, args, true, Seq::empty(), None, r)
=== fn Context::make_child
props: C16 C18 C19
requires c_live(*old(self)), old(self).has_child
ensures new_cx(span, args, false, old(self).markers@, old(self).error->0, r), *final(self) == taken(*old(self))
--- entry
broadcast use base;
=== fn Context::join_child
props: C16 C18
requires c_live(*old(self)), c_live(child), old(self).markers@.len() == 0
ensures *final(self) == join(*old(self), child)
--- entry
broadcast use base;
=== fn Context::error mutself
props: C18
requires c_live(*old(self))
ensures *final(self) == c_error(*old(self), message)
=== fn Context::check mutself
props: C18
requires c_live(self)
ensures r is Err <==> c_err(self), c_err(self) ==> r == Err::<(), Error>(self.error->0->0)
=== fn Context::has_error
props: C18
requires c_live(*self)
ensures r == c_err(*self)
=== fn Context::visit_last
props: C10
ensures r == may_last(*self)
=== fn Context::is_dummy
props: C19
ensures r == dummy_cx(*self)
=== fn Context::variant_is_empty
props: C19
ensures r == (c_n(*self) == 0)
=== fn Context::is_marker_expr
props: C16
ensures r == is_marker_e(env(*self), *expr)
=== fn Context::is_marker_macro
props: C16
ensures r == is_marker(env(*self), *mac)
--- loop 0
invariant 0 <= $i <= $s@.len(), $s@ == self.markers@, forall|j: int| 0 <= j < $i ==> !is_id(mac.path, (#[trigger] $s@[j])@), $r ==> $i < $s@.len() && is_id(mac.path, $s@[$i as int]@)
=== fn Context::is_marker_macro_exact
props: C16
ensures r == is_id(mac.path, self.current_marker@)
=== fn Context::next_expr
props: C10 C19
ensures r == c_wrap(*old(self), expr), *final(self) == c_next(*old(self))
=== fn Context::next_expr_with_attrs
props: C10 C16 C19
ensures r == wrap_of(old(self).builder.ident, c_n(*old(self)), attrs, expr), *final(self) == c_next(*old(self))
=== fn Context::replace_boxed_expr
props: C11 C12
ensures (*final(self), *final(expr)) == boxed(*old(self), *old(expr))
=== fn Context::visitor
props: C12 C13 C16
requires c_live(*old(self))
ensures ({ let x = old(node).k_Visitor(VS { cx: *old(self), scope: sc0() }); *final(self) == x.0.cx && *final(node) == x.1 }), c_step(*old(self), *final(self))
=== fn Context::dummy
props: C19
requires c_live(*old(self)), old(self).args@.len() == 0
ensures ({ let x = old(node).k_Dummy(DS { cx: *old(self) }); *final(self) == x.0.cx && *final(node) == x.1 }), c_step(*old(self), *final(self))
=== fn Context::collect_impl_trait
props: C20
ensures *final(self) == (Context { traits: ta(old(self).args@, old(self).traits, *old(ty)).0, ..*old(self) }), *final(ty) == ta(old(self).args@, old(self).traits, *old(ty)).1, r == ta(old(self).args@, old(self).traits, *old(ty)).2
=== fn Visitor::new
ensures st_Visitor(r) == (VS { cx: *old(cx), scope: sc0() }), *final(r.cx) == *final(cx)
=== fn Dummy::new
ensures st_Dummy(r) == (DS { cx: *old(cx) }), *final(r.cx) == *final(cx)
=== prelude
// ---- the scope's walk ----
pub open spec fn v_err(s: VS, e: Error) -> VS { VS { cx: c_error(s.cx, e), ..s } }
pub uninterp spec fn err_of(m: Meta) -> Error;
/// #[never] goes, #[rec] is an error.
pub open spec fn v_attrs<A: Attrs>(s: VS, n: A) -> (VS, A) {
    if s.scope.foreign { (s, n) } else {
        let s1 = match strip(n.sattrs(), NEVER@).0 { Some(a) => if a.meta is Path { s } else { v_err(s, an_error()) }, None => s };
        let n1 = rm(n, NEVER@);
        (if strip(n1.sattrs(), "rec"@).0 is Some { v_err(s1, an_error()) } else { s1 }, rm(n1, "rec"@))
    }
}
pub open spec fn v_return(s: VS, e: Expr) -> (VS, Expr) {
    match e { Expr::Return(r) => if !s.scope.closure && !has_empty(e_attrs(e), NEVER@) && match r.expr { None => true, Some(x) => !is_marker_e(env(s.cx), *x) } {
            let (c, x) = boxed(s.cx, r.expr); (VS { cx: c, ..s }, Expr::Return(ExprReturn { expr: x, ..r })) } else { (s, e) },
        _ => (s, e) }
}
pub open spec fn try_match(c: Context, t: ExprTry) -> Expr {
    Expr::Match(ExprMatch { attrs: t.attrs, match_token: dflt(), expr: t.expr, brace_token: dflt(),
        arms: vec_of(seq![pq0::<Arm>(":: core :: result :: Result :: Ok (val) => val ,"@), pq1::<Arm, Expr>(":: core :: result :: Result :: Err (err) => { return :: core :: result :: Result :: Err (# _0) ; }"@, c_wrap(c, pq0::<Expr>("err"@)))]) })
}
pub open spec fn v_try(s: VS, e: Expr) -> (VS, Expr) {
    match e { Expr::Try(t) => if !s.scope.try_block && !s.scope.closure && !has_empty(e_attrs(e), NEVER@) && !is_marker_e(env(s.cx), *t.expr) { (VS { cx: c_next(s.cx), ..s }, try_match(s.cx, t)) } else { (s, e) },
        _ => (s, e) }
}
pub open spec fn v_nested(s: VS, e: Expr, a: Attribute) -> (VS, Expr) { if a.meta is Path { let (c, f) = child(s.cx, e); (VS { cx: c, ..s }, f) } else { (v_err(s, an_error()), e) } }
pub broadcast proof fn attrs_with(e: Expr, v: Vec<Attribute>) ensures e_has_attrs(e) ==> e_attrs(#[trigger] e_with_attrs(e, v)) == v@ {}
pub broadcast proof fn attrs_child(c: Context, e: Expr) ensures e_attrs((#[trigger] child(c, e)).1) == e_attrs(e) {}
pub broadcast proof fn attrs_return(s: VS, e: Expr) ensures e_attrs((#[trigger] v_return(s, e)).1) == e_attrs(e) {}
pub broadcast proof fn attrs_try(s: VS, e: Expr) ensures e_attrs((#[trigger] v_try(s, e)).1) == e_attrs(e) {}
pub broadcast group keeps_attrs { attrs_with, attrs_child, attrs_return, attrs_try }
pub broadcast proof fn step_trans(a: Context, b: Context, c: Context) requires #[trigger] c_step(a, b), #[trigger] c_step(b, c) ensures c_step(a, c) {
    assert forall|k: int| 0 <= k < c_n(a) implies #[trigger] c.builder.variants@[k] == a.builder.variants@[k] by { assert(b.builder.variants@[k] == a.builder.variants@[k]); }
}
pub broadcast proof fn step_same(a: Context) ensures #[trigger] c_step(a, a) {}
pub broadcast proof fn step_child(a: Context) ensures c_step(a, #[trigger] with_child(a)) {}
pub open spec fn with_child(a: Context) -> Context { Context { has_child: true, ..a } }
pub broadcast proof fn step_keeps(a: Context, b: Context) requires #[trigger] c_step(a, b) ensures b.current_marker == a.current_marker, b.visit_mode == a.visit_mode, c_live(a) ==> c_live(b), c_err(a) ==> c_err(b), a.has_child ==> b.has_child {}
pub broadcast group steps { step_trans, step_same, step_child, step_keeps }
pub open spec fn v_marker(s: VS, e: Expr) -> (VS, Expr) {
    match e { Expr::Macro(m) => if is_id(m.mac.path, s.cx.current_marker@) {
            match parsed::<TokenStream, Expr>(m.mac.tokens) {
                Err(x) => (v_err(s, x), pq0::<Expr>("compile_error ! (\"#[auto_enum] failed to generate error message\")"@)),
                Ok(x) => if c_err(s.cx) { (s, x) } else { (VS { cx: c_next(s.cx), ..s }, wrap_of(s.cx.builder.ident, c_n(s.cx), m.attrs, x)) },
            } } else { (s, e) },
        _ => (s, e) }
}
pub open spec fn v_enter(s: VS, named: bool) -> VS { if named { VS { cx: with_child(s.cx), scope: Scope { foreign: true, ..s.scope } } } else { s } }
pub open spec fn v_mode(s: VS, e: Expr) -> (VS, Expr) { match s.cx.visit_mode { VisitMode::Return(_) => v_return(s, e), VisitMode::Try => v_try(s, e), VisitMode::Default => (s, e) } }
pub open spec fn v_take_nested(s: VS, e: Expr) -> (VS, Expr) { if s.scope.foreign { (s, e) } else { match strip(e_attrs(e), NESTED@).0 { Some(a) => v_nested(s, rm(e, NESTED@), a), None => (s, e) } } }
pub open spec fn v_leave(s: VS, e: Expr) -> (VS, Expr) { if !s.scope.foreign || s.cx.current_marker@ != DEFAULT_MARKER@ { let (t, f) = v_marker(s, e); v_attrs(t, f) } else { (s, e) } }
/// One expression of the scope.
pub open spec fn v_expr(s: VS, e: Expr, semi: bool) -> (VS, Expr) {
    let s1 = v_enter(s, has_attr(e_attrs(e), NAME@));
    let (s2, e2) = v_mode(VS { scope: sc_of(s1.scope, e), ..s1 }, e);
    let (s3, e3) = v_take_nested(s2, e2);
    let (s4, e4) = vs_expr_Visitor(s3, e3, semi);
    let (s5, e5) = v_leave(s4, e4);
    (VS { scope: s.scope, ..s5 }, e5)
}
pub open spec fn v_expr_mut(s: VS, e: Expr) -> (VS, Expr) { if c_err(s.cx) { (s, e) } else { v_expr(s, e, false) } }
pub open spec fn v_arm(s: VS, a: Arm) -> (VS, Arm) {
    if c_err(s.cx) { (s, a) } else {
        let (s1, a1) = if s.scope.foreign { (s, a) } else { match strip(a.attrs@, NESTED@).0 { Some(t) => { let b = rm(a, NESTED@); let (u, f) = v_nested(s, *b.body, t); (u, Arm { body: Box::new(f), ..b }) } None => (s, a) } };
        let (s2, a2) = w_Visitor(s1, a1);
        v_attrs(s2, a2)
    }
}
pub open spec fn v_local(s: VS, l: Local) -> (VS, Local) {
    if c_err(s.cx) { (s, l) } else {
        let (s1, l1) = if s.scope.foreign { (s, l) } else { match strip(l.attrs@, NESTED@).0 { Some(t) => { let b = rm(l, NESTED@); match b.init { Some(i) => { let (u, f) = v_nested(s, *i.expr, t); (u, Local { init: Some(LocalInit { expr: Box::new(f), ..i }), ..b }) } None => (s, b) } } None => (s, l) } };
        let (s2, l2) = w_Visitor(s1, l1);
        v_attrs(s2, l2)
    }
}
pub open spec fn v_stmt(s: VS, n: Stmt) -> (VS, Stmt) {
    if c_err(s.cx) { (s, n) } else { match n {
        Stmt::Expr(e, semi) => { let (t, f) = v_expr(s, e, semi is Some); (t, Stmt::Expr(f, semi)) }
        _ => { let (t, m) = vs_stmt_Visitor(v_enter(s, has_attr(stmt_attrs(n), NAME@)), n); (VS { scope: s.scope, ..t }, m) }
    } }
}
pub open spec fn d_enter(s: DS, named: bool) -> DS { if named { DS { cx: with_child(s.cx) } } else { s } }
pub open spec fn d_expr(s: DS, e: Expr) -> (DS, Expr) { if c_err(s.cx) { (s, e) } else { vs_expr_Dummy(d_enter(s, has_attr(e_attrs(e), NAME@)), e, false) } }
pub open spec fn d_stmt(s: DS, n: Stmt) -> (DS, Stmt) { if c_err(s.cx) { (s, n) } else { vs_stmt_Dummy(d_enter(s, has_attr(stmt_attrs(n), NAME@)), n) } }
/// The scope of an annotated node below: what its expansion does (defined by the axioms of `scopes`).
pub uninterp spec fn x_expr(c: Context, e: Expr, semi: bool) -> (Context, Expr);
pub uninterp spec fn x_stmt(c: Context, n: Stmt) -> (Context, Stmt);
pub uninterp spec fn kid(span: TokenStream, args: TokenStream, markers: Seq<String>, d: Option<Error>) -> Result<Context>;
pub broadcast axiom fn ax_kid(span: TokenStream, args: TokenStream, markers: Seq<String>, d: Option<Error>, r: Result<Context>)
    requires #[trigger] new_cx(span, args, false, markers, d, r) ensures match r { Ok(c) => kid(span, args, markers, d) == r, Err(_) => #[trigger] kid(span, args, markers, d) is Err };
'''
for v,s,mk in [("Visitor","VS","VS { cx: %s, ..s }"),("Dummy","DS","DS { cx: %s }")]:
    T = "=== prelude\n"
    T += f'''pub open spec fn vs_expr_{v}(s: {s}, e: Expr, semi: bool) -> ({s}, Expr) {{
    match strip(e_attrs(e), NAME@).0 {{
        None => w_{v}(s, e),
        Some(a) => {{
            let e1 = rm(e, NAME@);
            match a.meta {{
                Meta::List(l) => match kid(tokens_of(e1), l.tokens, s.cx.markers@, s.cx.error->0) {{
                    Ok(k) => {{ let (t, f) = w_{v}({mk % "taken(s.cx)"}, e1); let (k2, g) = x_expr(k, f, semi); ({(mk % "join(t.cx, k2)").replace("..s","..t")}, g) }}
                    Err(_) => {{ let (t, f) = w_{v}({mk % "taken(s.cx)"}, e1); ({(mk % "c_error(t.cx, an_error())").replace("..s","..t")}, f) }}
                }},
                _ => {{ let (t, f) = w_{v}(s, e1); ({(mk % "c_error(t.cx, an_error())").replace("..s","..t")}, f) }}
            }}
        }}
    }}
}}
pub open spec fn vs_stmt_{v}(s: {s}, n: Stmt) -> ({s}, Stmt) {{
    match n {{
        Stmt::Expr(e, semi) => {{ let (t, f) = vs_expr_{v}(s, e, semi is Some); (t, Stmt::Expr(f, semi)) }}
        Stmt::Item(_) => (s, n),
        Stmt::Macro(_) => w_{v}(s, n),
        Stmt::Local(l) => match strip(l.attrs@, NAME@).0 {{
            None => w_{v}(s, n),
            Some(a) => {{
                let n1 = Stmt::Local(rm(l, NAME@));
                match a.meta {{
                    Meta::NameValue(_) => {{ let (t, f) = w_{v}(s, n1); ({(mk % "c_error(t.cx, an_error())").replace("..s","..t")}, f) }}
                    m => match kid(tokens_of(n1), match m {{ Meta::List(l) => l.tokens, _ => no_tokens() }}, s.cx.markers@, s.cx.error->0) {{
                        Ok(k) => {{ let (t, f) = w_{v}({mk % "taken(s.cx)"}, n1); let (k2, g) = x_stmt(k, f); ({(mk % "join(t.cx, k2)").replace("..s","..t")}, g) }}
                        Err(_) => {{ let (t, f) = w_{v}({mk % "taken(s.cx)"}, n1); ({(mk % "c_error(t.cx, an_error())").replace("..s","..t")}, f) }}
                    }}
                }}
            }}
        }}
    }}
}}
'''
    F += T
F += r'''=== prelude
pub open spec fn x_body(c: Context, e: Expr) -> (Context, Expr) {
    let (d, f) = child(c, e);
    match d.visit_mode { VisitMode::Return(n) => if d.args@.len() == 0 && c_n(d) == 0 && n < 2 { let (t, g) = d_expr(DS { cx: d }, f); (t.cx, g) } else { let (t, g) = v_expr_mut(VS { cx: d, scope: sc0() }, f); (t.cx, g) },
        _ => { let (t, g) = v_expr_mut(VS { cx: d, scope: sc0() }, f); (t.cx, g) } }
}
pub open spec fn fn_mode(c: Context, f: FS, t: bool) -> Context { Context { visit_mode: if t && f.try_ >= 2 { VisitMode::Try } else { VisitMode::Return(f.return_ as usize) }, ..c } }
pub open spec fn x_expand(c: Context, e: Expr) -> (Context, Expr) {
    match e {
        Expr::Closure(k) => if may_last(c) { let (d, b) = x_body(fn_mode(c, ce(fs0(c), *k.body), true), *k.body); (d, Expr::Closure(ExprClosure { body: Box::new(b), ..k })) } else { x_body(c, e) },
        _ => x_body(c, e),
    }
}
pub open spec fn x_parent_expr(c: Context, e: Expr, semi: bool) -> (Context, Expr) {
    let d = if semi { Context { visit_last_mode: VisitLastMode::Never, ..c } } else { c };
    if dummy_cx(d) { let (t, g) = d_expr(DS { cx: d }, e); (t.cx, g) } else { let (f, g) = x_expand(d, e); done(f, g) }
}
pub open spec fn ty_step(c: Context, l: Local) -> (Context, Local) {
    match l.pat { Pat::Type(p) => { let (tr, t, hit) = ta(c.args@, c.traits, *p.ty); (Context { traits: tr, ..c }, if hit { Local { pat: *p.pat, ..l } } else { Local { pat: Pat::Type(PatType { ty: Box::new(t), ..p }), ..l } }) } _ => (c, l) }
}
pub open spec fn x_parent_local(c0: Context, l0: Local) -> (Context, Local) {
    let (c, l) = ty_step(c0, l0);
    if dummy_cx(c) { let (t, g) = l.k_Dummy(DS { cx: c }); (t.cx, g) } else { match l.init {
        None => (c_error(c, an_error()), l),
        Some(i) => { let (d, e) = x_expand(c, *i.expr); let (f, g) = done(d, e); (f, Local { init: Some(LocalInit { expr: Box::new(g), ..i }), ..l }) }
    } }
}
pub open spec fn x_parent_stmt(c: Context, n: Stmt) -> (Context, Stmt) {
    match n {
        Stmt::Expr(e, semi) => { let (d, f) = x_parent_expr(c, e, semi is Some); (d, Stmt::Expr(f, semi)) }
        Stmt::Local(l) => { let (d, f) = x_parent_local(c, l); (d, Stmt::Local(f)) }
        Stmt::Item(Item::Fn(i)) => { let (d, f) = x_parent_fn(c, i); (d, Stmt::Item(Item::Fn(f))) }
        Stmt::Item(_) => (c_error(c, an_error()), n),
        Stmt::Macro(_) => (c, n),
    }
}
/// Result<T, impl Trait>
pub open spec fn result_impl(p: TypePath) -> bool {
    let s = pseq(p.path.segments);
    p.qself is None && s.len() > 0 && match s.last().arguments {
        PathArguments::AngleBracketed(g) => g.colon2_token is None && pseq(g.args).len() == 2 && path_is(p.path, seq!["std", "core"], seq!["result", "Result"]) && pseq(g.args)[0] is Type && match pseq(g.args)[1] { GenericArgument::Type(Type::ImplTrait(_)) => true, _ => false },
        _ => false }
}
pub open spec fn fn_start(c: Context, i: ItemFn) -> (Context, ItemFn) {
    match i.sig.output {
        ReturnType::Default => (c, i),
        ReturnType::Type(a, ty) => {
            let f = w_FnVisitor(fs0(c), *i.block).0;
            let d = match *ty {
                Type::ImplTrait(_) => if c.visit_last_mode is Never { c } else { fn_mode(c, f, false) },
                Type::Path(p) => if !(c.visit_last_mode is Never) && result_impl(p) && f.try_ >= 2 { Context { visit_mode: VisitMode::Try, ..c } } else { c },
                _ => c };
            let (tr, t, _) = ta(d.args@, d.traits, *ty);
            (Context { traits: tr, ..d }, ItemFn { sig: Signature { output: ReturnType::Type(a, Box::new(t)), ..i.sig }, ..i })
        }
    }
}
pub open spec fn fn_tail(c: Context, b: Block) -> (Context, Block) { if b.stmts@.len() == 0 { (c_error(c, an_error()), b) } else { child_block(c, b) } }
pub open spec fn x_parent_fn(c0: Context, i0: ItemFn) -> (Context, ItemFn) {
    let (c, i) = fn_start(c0, i0);
    if dummy_cx(c) { let (t, g) = i.k_Dummy(DS { cx: c }); (t.cx, g) } else {
        let (d, b) = fn_tail(c, *i.block);
        let j = ItemFn { block: Box::new(b), ..i };
        if d.visit_mode is Return && d.args@.len() == 0 && c_n(d) == 0 && d.visit_mode->Return_0 < 2 { let (t, g) = j.k_Dummy(DS { cx: d }); (t.cx, g) } else {
            let (t, g) = j.k_Visitor(VS { cx: d, scope: sc0() });
            if too_few(t.cx) { (c_error(t.cx, an_error()), g) } else if builds(t.cx) { (t.cx, ItemFn { block: Box::new(Block { stmts: vec_of(g.block.stmts@.insert(0, Stmt::Item(Item::Enum(enum_item(t.cx.builder, t.cx.args@, t.cx.traits@))))), ..*g.block }), ..g }) } else { (t.cx, g) }
        }
    }
}
pub broadcast group scopes { ax_kid, ax_x_expr, ax_x_stmt }
pub broadcast axiom fn ax_x_expr(c: Context, e: Expr, semi: bool) ensures #[trigger] x_expr(c, e, semi) == x_parent_expr(c, e, semi);
pub broadcast axiom fn ax_x_stmt(c: Context, n: Stmt) ensures #[trigger] x_stmt(c, n) == x_parent_stmt(c, n);
=== fn build_expr
props: C17 C19
ensures *final(expr) == block_expr(block_of(vec_of(seq![Stmt::Item(Item::Enum(item)), Stmt::Expr(*old(expr), None)])))
=== fn expand_expr
props: C10 C12 C13 C19
requires c_live(*old(cx))
ensures (*final(cx), *final(expr)) == x_expand(*old(cx), *old(expr)), x_inv(*old(cx), *final(cx))
=== fn expand_parent_expr
props: C10 C18 C19
requires c_live(*old(cx))
ensures (*final(cx), *final(expr)) == x_parent_expr(*old(cx), *old(expr), has_semi), x_inv(*old(cx), *final(cx))
--- entry
hide(x_expand); hide(x_body); hide(d_expr); hide(d_stmt); hide(v_expr_mut); hide(child); hide(vs_stmt_Dummy); hide(vs_expr_Dummy);
broadcast use sc;
=== fn expand_parent_local
props: C18 C19 C20
requires c_live(*old(cx))
ensures (*final(cx), *final(local)) == x_parent_local(*old(cx), *old(local)), x_inv(*old(cx), *final(cx))
--- entry
hide(x_expand); hide(x_body); hide(d_expr); hide(d_stmt); hide(v_expr_mut); hide(child); hide(vs_stmt_Dummy); hide(vs_expr_Dummy);
broadcast use sc;
=== fn expand_parent_item_fn noguards rlimit
props: C12 C13 C18 C19 C20
requires c_live(*old(cx))
ensures (*final(cx), *final(item)) == x_parent_fn(*old(cx), *old(item)), x_inv(*old(cx), *final(cx))
--- entry
hide(x_expand); hide(x_body); hide(d_expr); hide(d_stmt); hide(v_expr_mut); hide(child); hide(vs_stmt_Dummy); hide(vs_expr_Dummy);
broadcast use sc;
broadcast use child_block_is;
--- before is_dummy
let ghost c1 = *cx; let ghost i1 = *item; assert((c1, i1) == fn_start(*old(cx), *old(item))); assert(x_inv(*old(cx), c1));
=== fn expand_parent_stmt
props: C18
requires c_live(*old(cx))
ensures (*final(cx), *final(stmt)) == x_parent_stmt(*old(cx), *old(stmt)), x_inv(*old(cx), *final(cx))
=== prelude
// ---- the attribute ----
pub uninterp spec fn compile_error_of(e: Error) -> TokenStream;
pub assume_specification [syn::Error::to_compile_error] (e: &Error) -> (r: TokenStream) ensures r == compile_error_of(*e);
pub assume_specification [syn::Error::into_compile_error] (e: Error) -> (r: TokenStream) ensures r == compile_error_of(e);
/// What is emitted: the errors, if there are any, and otherwise the expanded code.
pub open spec fn emits<T>(x: (Context, T), r: TokenStream) -> bool { r == if c_err(x.0) { compile_error_of(x.0.error->0->0) } else { tokens_of(x.1) } }
pub open spec fn attr_of(input: TokenStream, c: Result<Context>, r: TokenStream) -> bool {
    match c {
        Err(e) => r == compile_error_of(e),
        Ok(cx) => match parsed::<TokenStream, Stmt>(input) {
            Ok(s) => emits(x_parent_stmt(cx, s), r),
            Err(_) => match parsed::<TokenStream, Expr>(input) {
                Ok(x) => emits(x_parent_expr(cx, x, false), r),
                Err(_) => exists|e: Error| r == compile_error_of(e),
            },
        },
    }
}
=== fn attribute
props: C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20
ensures exists|c: Result<Context>| #[trigger] new_cx(input, args, true, Seq::empty(), None, c) && attr_of(input, c, r)
--- entry
hide(x_parent_stmt); hide(x_parent_expr);
=== prelude
pub open spec fn markers_ok(a: Context, b: Context) -> bool { b.markers == a.markers || (c_err(b) && b.markers@.len() == 0) }
/// What expanding a scope keeps.
pub open spec fn x_inv(a: Context, b: Context) -> bool { c_live(b) && markers_ok(a, b) && b.root == a.root && b.current_marker == a.current_marker && b.args == a.args && b.span == a.span && b.builder.ident == a.builder.ident && (c_err(a) ==> c_err(b)) && (c_wf(a) ==> c_wf(b)) }
'''
for m,arg,spec,props,extra in [
 ("visit_return","node","v_return({S}, *old(node))","C12",", old(self).cx.visit_mode == VisitMode::Return(count)"),
 ("visit_try","node","v_try({S}, *old(node))","C13",", old(self).cx.visit_mode is Try"),
 ("visit_nested","node","v_nested({S}, *old(node), *attr)","C15 C18",", !old(self).scope.foreign"),
 ("visit_marker_macro","node","v_marker({S}, *old(node))","C16",", !old(self).scope.foreign || old(self).cx.current_marker@ != DEFAULT_MARKER@"),
 ("find_remove_attrs","attrs","v_attrs({S}, *old(attrs))","C17 C18",""),
 ("visit_expr","node","v_expr({S}, *old(node), has_semi)","C12 C13 C15 C16 C17",", !c_err(*old(self).cx)"),
 ("visit_expr_mut","node","v_expr_mut({S}, *old(node))","C12 C13 C15 C16 C17",""),
 ("visit_arm_mut","node","v_arm({S}, *old(node))","C15 C17",""),
 ("visit_local_mut","node","v_local({S}, *old(node))","C15 C17",""),
 ("visit_stmt_mut","node","v_stmt({S}, *old(node))","C17",""),
]:
    t = meth("Visitor",m,arg,spec.replace("{S}",S("Visitor")),props,extra)
    if m in ("visit_nested","visit_marker_macro","find_remove_attrs","visit_expr","visit_arm_mut","visit_local_mut"): t += "--- entry\n"+("hide(vs_expr_Visitor); hide(vs_stmt_Visitor); hide(child); hide(v_return); hide(v_try); hide(v_marker); hide(v_attrs); hide(v_expr_mut); hide(v_stmt); hide(e_attrs); hide(e_with_attrs); hide(e_has_attrs); hide(strip); hide(has_attr); hide(c_step);\nproof { assert(c_step(*old(self).cx, with_child(*old(self).cx))) by { reveal(c_step); } }\nbroadcast use keeps_attrs, steps;\n" if m=="visit_expr" else "")+"broadcast use sc;\n"
    if m=="visit_expr": t += """--- before visit_mode
let ghost s0 = st_Visitor(*old(self)); let ghost e0 = *old(node); let ghost s1 = v_enter(s0, has_attr(e_attrs(e0), NAME@)); let ghost (s2, e2) = v_mode(VS { scope: sc_of(s1.scope, e0), ..s1 }, e0);
assert(st_Visitor(*self) == (VS { scope: sc_of(s1.scope, e0), ..s1 }));
--- before foreign 1
let ghost (s3, e3) = v_take_nested(s2, e2); assert((st_Visitor(*self), *node) == (s2, e2)); assert(c_step(s0.cx, s2.cx));
--- before VisitStmt__visit_expr
let ghost (s4, e4) = vs_expr_Visitor(s3, e3, has_semi); let ghost (s5, e5) = v_leave(s4, e4);
assert((st_Visitor(*self), *node) == (s3, e3)); assert(c_step(s0.cx, s3.cx));
--- before foreign 2
assert((st_Visitor(*self), *node) == (s4, e4)); assert(c_step(s0.cx, s4.cx));
--- before tmp 1
assert((st_Visitor(*self), *node) == (s5, e5)); assert(c_step(s0.cx, s5.cx));
--- exit
assert(st_Visitor(*self) == (VS { scope: s0.scope, ..s5 })); assert(v_expr(s0, e0, has_semi) == (VS { scope: s0.scope, ..s5 }, e5));
"""
    if m=="find_remove_attrs": t = t.replace("find_remove_attrs","find_remove_attrs mutself",1)
    F += t
F += meth("Dummy","visit_expr_mut","node",f"d_expr({S('Dummy')}, *old(node))","C18 C19")
F += meth("Dummy","visit_stmt_mut","node",f"d_stmt({S('Dummy')}, *old(node))","C18 C19")
for v in ("Visitor","Dummy"):
    for m,a,sp in [("expr",", has_semi","vs_expr"),("stmt","","vs_stmt")]:
        F += f"=== fn {v}::VisitStmt__visit_{m}\nprops: C16 C17 C18\nrequires pre_{v}(st_{v}(*old(visitor))), has_attr({'e_attrs' if m=='expr' else 'stmt_attrs'}(*old(node)), NAME@) ==> old(visitor).cx.has_child\nensures (st_{v}(*final(visitor)), *final(node)) == {sp}_{v}(st_{v}(*old(visitor)), *old(node){a}), inv_{v}(st_{v}(*old(visitor)), st_{v}(*final(visitor))), *final(final(visitor).cx) == *final(old(visitor).cx)\n--- entry\nhide(x_parent_expr); hide(x_parent_stmt); hide(x_parent_fn); hide(x_parent_local); hide(child); hide(v_expr_mut); hide(v_stmt); hide(d_expr); hide(d_stmt); hide(e_attrs); hide(e_with_attrs); hide(e_has_attrs); hide(strip); hide(has_attr);\nbroadcast use sc, scopes;\n"
F += r'''=== prelude
pub uninterp spec fn pq0<T>(s: Seq<char>) -> T;
pub uninterp spec fn pq1<T, A>(s: Seq<char>, a: A) -> T;
#[verifier::external_body] pub fn parse_quote0__<T>(s: &str) -> (r: T) ensures r == pq0::<T>(s@) { unimplemented!() }
#[verifier::external_body] pub fn parse_quote1__<T, A>(s: &str, a: &A) -> (r: T) ensures r == pq1::<T, A>(s@, *a) { unimplemented!() }
pub open spec fn no_tokens() -> TokenStream { dflt::<TokenStream>() }
'''
open(D+"auto_enum.gen.vrs","w").write(GEN+NODE+F)
