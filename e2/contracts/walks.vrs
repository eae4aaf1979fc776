=== prelude
pub open spec fn st_Visitor(v: Visitor) -> VS { VS { cx: *v.cx, scope: v.scope } }
pub uninterp spec fn w_Visitor<T>(s: VS, n: T) -> (VS, T);
#[verifier::external_body] pub fn walk_expr__Visitor(v: &mut Visitor, n: &mut Expr) requires pre_Visitor(st_Visitor(*old(v)))
    ensures (st_Visitor(*final(v)), *final(n)) == w_Visitor(st_Visitor(*old(v)), *old(n)), inv_Visitor(st_Visitor(*old(v)), st_Visitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_stmt__Visitor(v: &mut Visitor, n: &mut Stmt) requires pre_Visitor(st_Visitor(*old(v)))
    ensures (st_Visitor(*final(v)), *final(n)) == w_Visitor(st_Visitor(*old(v)), *old(n)), inv_Visitor(st_Visitor(*old(v)), st_Visitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_arm__Visitor(v: &mut Visitor, n: &mut Arm) requires pre_Visitor(st_Visitor(*old(v)))
    ensures (st_Visitor(*final(v)), *final(n)) == w_Visitor(st_Visitor(*old(v)), *old(n)), inv_Visitor(st_Visitor(*old(v)), st_Visitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_local__Visitor(v: &mut Visitor, n: &mut Local) requires pre_Visitor(st_Visitor(*old(v)))
    ensures (st_Visitor(*final(v)), *final(n)) == w_Visitor(st_Visitor(*old(v)), *old(n)), inv_Visitor(st_Visitor(*old(v)), st_Visitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_block__Visitor(v: &mut Visitor, n: &mut Block) requires pre_Visitor(st_Visitor(*old(v)))
    ensures (st_Visitor(*final(v)), *final(n)) == w_Visitor(st_Visitor(*old(v)), *old(n)), inv_Visitor(st_Visitor(*old(v)), st_Visitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_item_fn__Visitor(v: &mut Visitor, n: &mut ItemFn) requires pre_Visitor(st_Visitor(*old(v)))
    ensures (st_Visitor(*final(v)), *final(n)) == w_Visitor(st_Visitor(*old(v)), *old(n)), inv_Visitor(st_Visitor(*old(v)), st_Visitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_item__Visitor(v: &mut Visitor, n: &mut Item) requires pre_Visitor(st_Visitor(*old(v)))
    ensures (st_Visitor(*final(v)), *final(n)) == w_Visitor(st_Visitor(*old(v)), *old(n)), inv_Visitor(st_Visitor(*old(v)), st_Visitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
pub open spec fn st_Dummy(v: Dummy) -> DS { DS { cx: *v.cx } }
pub uninterp spec fn w_Dummy<T>(s: DS, n: T) -> (DS, T);
#[verifier::external_body] pub fn walk_expr__Dummy(v: &mut Dummy, n: &mut Expr) requires pre_Dummy(st_Dummy(*old(v)))
    ensures (st_Dummy(*final(v)), *final(n)) == w_Dummy(st_Dummy(*old(v)), *old(n)), inv_Dummy(st_Dummy(*old(v)), st_Dummy(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_stmt__Dummy(v: &mut Dummy, n: &mut Stmt) requires pre_Dummy(st_Dummy(*old(v)))
    ensures (st_Dummy(*final(v)), *final(n)) == w_Dummy(st_Dummy(*old(v)), *old(n)), inv_Dummy(st_Dummy(*old(v)), st_Dummy(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_arm__Dummy(v: &mut Dummy, n: &mut Arm) requires pre_Dummy(st_Dummy(*old(v)))
    ensures (st_Dummy(*final(v)), *final(n)) == w_Dummy(st_Dummy(*old(v)), *old(n)), inv_Dummy(st_Dummy(*old(v)), st_Dummy(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_local__Dummy(v: &mut Dummy, n: &mut Local) requires pre_Dummy(st_Dummy(*old(v)))
    ensures (st_Dummy(*final(v)), *final(n)) == w_Dummy(st_Dummy(*old(v)), *old(n)), inv_Dummy(st_Dummy(*old(v)), st_Dummy(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_block__Dummy(v: &mut Dummy, n: &mut Block) requires pre_Dummy(st_Dummy(*old(v)))
    ensures (st_Dummy(*final(v)), *final(n)) == w_Dummy(st_Dummy(*old(v)), *old(n)), inv_Dummy(st_Dummy(*old(v)), st_Dummy(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_item_fn__Dummy(v: &mut Dummy, n: &mut ItemFn) requires pre_Dummy(st_Dummy(*old(v)))
    ensures (st_Dummy(*final(v)), *final(n)) == w_Dummy(st_Dummy(*old(v)), *old(n)), inv_Dummy(st_Dummy(*old(v)), st_Dummy(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_item__Dummy(v: &mut Dummy, n: &mut Item) requires pre_Dummy(st_Dummy(*old(v)))
    ensures (st_Dummy(*final(v)), *final(n)) == w_Dummy(st_Dummy(*old(v)), *old(n)), inv_Dummy(st_Dummy(*old(v)), st_Dummy(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
pub open spec fn st_LoopVisitor(v: LoopVisitor) -> LS { LS { cx: *v.cx, label: match v.label { Some(l) => Some(l.name.ident), None => None }, nested: v.nested } }
pub uninterp spec fn w_LoopVisitor<T>(s: LS, n: T) -> (LS, T);
#[verifier::external_body] pub fn walk_expr__LoopVisitor(v: &mut LoopVisitor, n: &mut Expr) requires pre_LoopVisitor(st_LoopVisitor(*old(v)))
    ensures (st_LoopVisitor(*final(v)), *final(n)) == w_LoopVisitor(st_LoopVisitor(*old(v)), *old(n)), inv_LoopVisitor(st_LoopVisitor(*old(v)), st_LoopVisitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_stmt__LoopVisitor(v: &mut LoopVisitor, n: &mut Stmt) requires pre_LoopVisitor(st_LoopVisitor(*old(v)))
    ensures (st_LoopVisitor(*final(v)), *final(n)) == w_LoopVisitor(st_LoopVisitor(*old(v)), *old(n)), inv_LoopVisitor(st_LoopVisitor(*old(v)), st_LoopVisitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_arm__LoopVisitor(v: &mut LoopVisitor, n: &mut Arm) requires pre_LoopVisitor(st_LoopVisitor(*old(v)))
    ensures (st_LoopVisitor(*final(v)), *final(n)) == w_LoopVisitor(st_LoopVisitor(*old(v)), *old(n)), inv_LoopVisitor(st_LoopVisitor(*old(v)), st_LoopVisitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_local__LoopVisitor(v: &mut LoopVisitor, n: &mut Local) requires pre_LoopVisitor(st_LoopVisitor(*old(v)))
    ensures (st_LoopVisitor(*final(v)), *final(n)) == w_LoopVisitor(st_LoopVisitor(*old(v)), *old(n)), inv_LoopVisitor(st_LoopVisitor(*old(v)), st_LoopVisitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_block__LoopVisitor(v: &mut LoopVisitor, n: &mut Block) requires pre_LoopVisitor(st_LoopVisitor(*old(v)))
    ensures (st_LoopVisitor(*final(v)), *final(n)) == w_LoopVisitor(st_LoopVisitor(*old(v)), *old(n)), inv_LoopVisitor(st_LoopVisitor(*old(v)), st_LoopVisitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_item_fn__LoopVisitor(v: &mut LoopVisitor, n: &mut ItemFn) requires pre_LoopVisitor(st_LoopVisitor(*old(v)))
    ensures (st_LoopVisitor(*final(v)), *final(n)) == w_LoopVisitor(st_LoopVisitor(*old(v)), *old(n)), inv_LoopVisitor(st_LoopVisitor(*old(v)), st_LoopVisitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
#[verifier::external_body] pub fn walk_item__LoopVisitor(v: &mut LoopVisitor, n: &mut Item) requires pre_LoopVisitor(st_LoopVisitor(*old(v)))
    ensures (st_LoopVisitor(*final(v)), *final(n)) == w_LoopVisitor(st_LoopVisitor(*old(v)), *old(n)), inv_LoopVisitor(st_LoopVisitor(*old(v)), st_LoopVisitor(*final(v))), *final(final(v).cx) == *final(old(v).cx) { unimplemented!() }
pub open spec fn st_FindNested(v: FindNested) -> NS { NS { has: v.has } }
pub uninterp spec fn w_FindNested<T>(s: NS, n: T) -> (NS, T);
#[verifier::external_body] pub fn walk_expr__FindNested(v: &mut FindNested, n: &mut Expr) requires pre_FindNested(st_FindNested(*old(v)))
    ensures (st_FindNested(*final(v)), *final(n)) == w_FindNested(st_FindNested(*old(v)), *old(n)), inv_FindNested(st_FindNested(*old(v)), st_FindNested(*final(v))), *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_stmt__FindNested(v: &mut FindNested, n: &mut Stmt) requires pre_FindNested(st_FindNested(*old(v)))
    ensures (st_FindNested(*final(v)), *final(n)) == w_FindNested(st_FindNested(*old(v)), *old(n)), inv_FindNested(st_FindNested(*old(v)), st_FindNested(*final(v))), *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_arm__FindNested(v: &mut FindNested, n: &mut Arm) requires pre_FindNested(st_FindNested(*old(v)))
    ensures (st_FindNested(*final(v)), *final(n)) == w_FindNested(st_FindNested(*old(v)), *old(n)), inv_FindNested(st_FindNested(*old(v)), st_FindNested(*final(v))), *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_local__FindNested(v: &mut FindNested, n: &mut Local) requires pre_FindNested(st_FindNested(*old(v)))
    ensures (st_FindNested(*final(v)), *final(n)) == w_FindNested(st_FindNested(*old(v)), *old(n)), inv_FindNested(st_FindNested(*old(v)), st_FindNested(*final(v))), *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_block__FindNested(v: &mut FindNested, n: &mut Block) requires pre_FindNested(st_FindNested(*old(v)))
    ensures (st_FindNested(*final(v)), *final(n)) == w_FindNested(st_FindNested(*old(v)), *old(n)), inv_FindNested(st_FindNested(*old(v)), st_FindNested(*final(v))), *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_item_fn__FindNested(v: &mut FindNested, n: &mut ItemFn) requires pre_FindNested(st_FindNested(*old(v)))
    ensures (st_FindNested(*final(v)), *final(n)) == w_FindNested(st_FindNested(*old(v)), *old(n)), inv_FindNested(st_FindNested(*old(v)), st_FindNested(*final(v))), *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_item__FindNested(v: &mut FindNested, n: &mut Item) requires pre_FindNested(st_FindNested(*old(v)))
    ensures (st_FindNested(*final(v)), *final(n)) == w_FindNested(st_FindNested(*old(v)), *old(n)), inv_FindNested(st_FindNested(*old(v)), st_FindNested(*final(v))), *final(n) == *old(n) { unimplemented!() }
pub open spec fn st_FnVisitor(v: FnVisitor) -> FS { FS { env: env(*v.cx), scope: v.scope, try_: v.count.try_ as int, return_: v.count.return_ as int } }
pub uninterp spec fn w_FnVisitor<T>(s: FS, n: T) -> (FS, T);
#[verifier::external_body] pub fn walk_expr__FnVisitor(v: &mut FnVisitor, n: &mut Expr) requires pre_FnVisitor(st_FnVisitor(*old(v)))
    ensures (st_FnVisitor(*final(v)), *final(n)) == w_FnVisitor(st_FnVisitor(*old(v)), *old(n)), inv_FnVisitor(st_FnVisitor(*old(v)), st_FnVisitor(*final(v))), final(v).cx == old(v).cx, *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_stmt__FnVisitor(v: &mut FnVisitor, n: &mut Stmt) requires pre_FnVisitor(st_FnVisitor(*old(v)))
    ensures (st_FnVisitor(*final(v)), *final(n)) == w_FnVisitor(st_FnVisitor(*old(v)), *old(n)), inv_FnVisitor(st_FnVisitor(*old(v)), st_FnVisitor(*final(v))), final(v).cx == old(v).cx, *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_arm__FnVisitor(v: &mut FnVisitor, n: &mut Arm) requires pre_FnVisitor(st_FnVisitor(*old(v)))
    ensures (st_FnVisitor(*final(v)), *final(n)) == w_FnVisitor(st_FnVisitor(*old(v)), *old(n)), inv_FnVisitor(st_FnVisitor(*old(v)), st_FnVisitor(*final(v))), final(v).cx == old(v).cx, *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_local__FnVisitor(v: &mut FnVisitor, n: &mut Local) requires pre_FnVisitor(st_FnVisitor(*old(v)))
    ensures (st_FnVisitor(*final(v)), *final(n)) == w_FnVisitor(st_FnVisitor(*old(v)), *old(n)), inv_FnVisitor(st_FnVisitor(*old(v)), st_FnVisitor(*final(v))), final(v).cx == old(v).cx, *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_block__FnVisitor(v: &mut FnVisitor, n: &mut Block) requires pre_FnVisitor(st_FnVisitor(*old(v)))
    ensures (st_FnVisitor(*final(v)), *final(n)) == w_FnVisitor(st_FnVisitor(*old(v)), *old(n)), inv_FnVisitor(st_FnVisitor(*old(v)), st_FnVisitor(*final(v))), final(v).cx == old(v).cx, *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_item_fn__FnVisitor(v: &mut FnVisitor, n: &mut ItemFn) requires pre_FnVisitor(st_FnVisitor(*old(v)))
    ensures (st_FnVisitor(*final(v)), *final(n)) == w_FnVisitor(st_FnVisitor(*old(v)), *old(n)), inv_FnVisitor(st_FnVisitor(*old(v)), st_FnVisitor(*final(v))), final(v).cx == old(v).cx, *final(n) == *old(n) { unimplemented!() }
#[verifier::external_body] pub fn walk_item__FnVisitor(v: &mut FnVisitor, n: &mut Item) requires pre_FnVisitor(st_FnVisitor(*old(v)))
    ensures (st_FnVisitor(*final(v)), *final(n)) == w_FnVisitor(st_FnVisitor(*old(v)), *old(n)), inv_FnVisitor(st_FnVisitor(*old(v)), st_FnVisitor(*final(v))), final(v).cx == old(v).cx, *final(n) == *old(n) { unimplemented!() }
