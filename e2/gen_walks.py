#!/usr/bin/env python3
"""Writes contracts/walks.vrs: the assumed contract of syn::visit_mut's default walk, per visitor.

syn::visit_mut::visit_X_mut(v, node) calls v's methods on the children of node and stores them
back. So it does something that depends on v's state and the node only (w_V), and every relation
between v's states that is reflexive and transitive and that each of v's own methods establishes
holds between its state before and after (inv_V). Each method's contract has inv_V among its
postconditions, which is what makes the assumption an induction over the tree."""
import os
kinds = {"expr": "Expr", "stmt": "Stmt", "arm": "Arm", "local": "Local", "block": "Block", "item_fn": "ItemFn", "item": "Item"}
V = {
 "Visitor": ("VS", "VS { cx: *v.cx, scope: v.scope }", True),
 "Dummy": ("DS", "DS { cx: *v.cx }", True),
 "LoopVisitor": ("LS", "LS { cx: *v.cx, label: match v.label { Some(l) => Some(l.name.ident), None => None }, nested: v.nested }", True),
 "FindNested": ("NS", "NS { has: v.has }", False),
 "FnVisitor": ("FS", "FS { env: env(*v.cx), scope: v.scope, try_: v.count.try_ as int, return_: v.count.return_ as int }", False),
}
out = "=== prelude\n"
for v, (s, view, cx) in V.items():
    out += f"pub open spec fn st_{v}(v: {v}) -> {s} {{ {view} }}\n"
    out += f"pub uninterp spec fn w_{v}<T>(s: {s}, n: T) -> ({s}, T);\n"
    for k, t in kinds.items():
        out += f"#[verifier::external_body] pub fn walk_{k}__{v}(v: &mut {v}, n: &mut {t}) requires pre_{v}(st_{v}(*old(v)))\n    ensures (st_{v}(*final(v)), *final(n)) == w_{v}(st_{v}(*old(v)), *old(n)), inv_{v}(st_{v}(*old(v)), st_{v}(*final(v)))"
        if cx:
            out += ", *final(final(v).cx) == *final(old(v).cx)"
        if v == "FnVisitor":
            out += ", final(v).cx == old(v).cx"
        if v in ("FnVisitor", "FindNested"):
            out += ", *final(n) == *old(n)"
        out += " { unimplemented!() }\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts/walks.vrs"), "w").write(out)
