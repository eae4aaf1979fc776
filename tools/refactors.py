#!/usr/bin/env python3
"""Edits that keep the behaviour; what do the proofs say?  refactors.py [ids]   (development aid)

'FAILS' on one of these is an alarm on correct code (unless it says no-failing-input-found, it must not happen)."""
import os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../bin"))
E, V, M, C, T, D, U = ("auto_enum/expr.rs", "auto_enum/visitor.rs", "auto_enum/mod.rs", "auto_enum/context.rs", "auto_enum/type_analysis.rs", "enum_derive.rs", "utils.rs")
R = {
 "match-helper": (E, [("            replace_expr(&mut arm.body, |x| cx.next_expr(x));\n", "            wrap_arm(cx, arm);\n"),
                      ("fn visit_last_expr_if(", "fn wrap_arm(cx: &mut Context, arm: &mut Arm) {\n    replace_expr(&mut arm.body, |x| cx.next_expr(x));\n}\n\nfn visit_last_expr_if(")]),
 "match-continue": (E, [("        if !skip(cx, arm) {\n            arm.comma = Some(<Token![,]>::default());\n            replace_expr(&mut arm.body, |x| cx.next_expr(x));\n        }\n",
                         "        if skip(cx, arm) {\n            continue;\n        }\n        arm.comma = Some(<Token![,]>::default());\n        replace_expr(&mut arm.body, |x| cx.next_expr(x));\n")]),
 "match-filter": (E, [("    for arm in &mut expr.arms {\n        if !skip(cx, arm) {\n            arm.comma = Some(<Token![,]>::default());\n            replace_expr(&mut arm.body, |x| cx.next_expr(x));\n        }\n    }\n",
                       "    expr.arms.iter_mut().for_each(|arm| {\n        if !skip(cx, arm) {\n            arm.comma = Some(<Token![,]>::default());\n            replace_expr(&mut arm.body, |x| cx.next_expr(x));\n        }\n    });\n")]),
 "match-iter-mut": (E, [("for arm in &mut expr.arms {", "for arm in expr.arms.iter_mut() {")]),
 "match-while-index": (E, [("    for arm in &mut expr.arms {\n", "    let mut k = 0;\n    while k < expr.arms.len() {\n        let arm = &mut expr.arms[k];\n        k += 1;\n")]),
 "match-skip-reorder": (E, [("        arm.any_empty_attr(NEVER)\n            || arm.any_empty_attr(NESTED)\n", "        arm.any_empty_attr(NESTED)\n            || arm.any_empty_attr(NEVER)\n")]),
 "match-skip-ifs": (E, [("        arm.any_empty_attr(NEVER)\n            || arm.any_empty_attr(NESTED)\n            || is_unreachable(cx, &arm.body)\n            || visitor::find_nested(arm)\n",
                         "        if arm.any_empty_attr(NEVER) || arm.any_empty_attr(NESTED) {\n            return true;\n        }\n        let never = is_unreachable(cx, &arm.body);\n        never || visitor::find_nested(arm)\n")]),
 "comma-after": (E, [("            arm.comma = Some(<Token![,]>::default());\n            replace_expr(&mut arm.body, |x| cx.next_expr(x));\n", "            replace_expr(&mut arm.body, |x| cx.next_expr(x));\n            arm.comma = Some(<Token![,]>::default());\n")]),
 "if-else-helper": (E, [("        Some(Expr::Block(expr)) => {\n            if !skip(cx, &mut expr.block) {\n                replace_block(&mut expr.block, |b| cx.next_expr(expr_block(b)));\n            }\n        }\n", "        Some(Expr::Block(expr)) => wrap_block(cx, &mut expr.block),\n"),
                        ("    if !skip(cx, &mut expr.then_branch) {\n        replace_block(&mut expr.then_branch, |b| cx.next_expr(expr_block(b)));\n    }\n", "    fn wrap_block(cx: &mut Context, block: &mut Block) {\n        if !skip(cx, block) {\n            replace_block(block, |b| cx.next_expr(expr_block(b)));\n        }\n    }\n\n    wrap_block(cx, &mut expr.then_branch);\n")]),
 "if-else-iflet": (E, [("    match expr.else_branch.as_mut().map(|(_, expr)| &mut **expr) {\n        Some(Expr::Block", "    let els = expr.else_branch.as_mut().map(|(_, expr)| &mut **expr);\n    match els {\n        Some(Expr::Block")]),
 "child-iflet": (E, [("    if !cx.visit_last() || expr.any_empty_attr(NESTED) || is_unreachable(cx, expr) {\n        return;\n    }\n", "    if !cx.visit_last() {\n        return;\n    }\n    if expr.any_empty_attr(NESTED) {\n        return;\n    }\n    if is_unreachable(cx, expr) {\n        return;\n    }\n")]),
 "child-split-arms": (E, [("        Expr::MethodCall(ExprMethodCall { receiver: expr, .. })\n        | Expr::Paren(ExprParen { expr, .. }) => child_expr(cx, expr),\n", "        Expr::MethodCall(call) => child_expr(cx, &mut call.receiver),\n        Expr::Paren(paren) => child_expr(cx, &mut paren.expr),\n")]),
 "unreachable-split": (E, [("        Expr::Break(_) | Expr::Continue(_) | Expr::Return(_) => true,\n", "        Expr::Break(_) => true,\n        Expr::Return(_) => true,\n        Expr::Continue(_) => true,\n")]),
 "unreachable-any": (E, [("arms.iter().all(|arm| arm.any_empty_attr(NEVER) || is_unreachable(cx, &arm.body))", "!arms.iter().any(|arm| !arm.any_empty_attr(NEVER) && !is_unreachable(cx, &arm.body))")]),
 "unreachable-forloop": (E, [("            arms.iter().all(|arm| arm.any_empty_attr(NEVER) || is_unreachable(cx, &arm.body))\n", "            for arm in arms {\n                if !arm.any_empty_attr(NEVER) && !is_unreachable(cx, &arm.body) {\n                    return false;\n                }\n            }\n            true\n")]),
 "unreachable-isand": (E, [("local.init.as_ref().map_or(false, |LocalInit { expr, .. }| is_unreachable(cx, expr))", "match &local.init {\n                Some(init) => is_unreachable(cx, &init.expr),\n                None => false,\n            }")]),
 "macro-or": (E, [("    UNREACHABLE_MACROS.iter().any(|i| path_eq(&mac.path, &[\"std\", \"core\"], &[i]))\n        || cx.is_marker_macro(mac)\n", "    if cx.is_marker_macro(mac) {\n        return true;\n    }\n    UNREACHABLE_MACROS.iter().any(|name| path_eq(&mac.path, &[\"std\", \"core\"], &[name]))\n")]),
 "loop-matches": (E, [("                Expr::Break(ExprBreak { label, expr, .. }) => {\n                    if !self.nested && label.is_none() || self.compare_labels(label.as_ref()) {\n", "                Expr::Break(ExprBreak { label, expr, .. }) => {\n                    let ours = if label.is_none() { !self.nested || self.label.is_none() } else { self.compare_labels(label.as_ref()) };\n                    if ours {\n")]) if False else None,
 "loop-ours": (E, [("                    if !self.nested && label.is_none() || self.compare_labels(label.as_ref()) {\n", "                    let ours = (label.is_none() && !self.nested) || self.compare_labels(label.as_ref());\n                    if ours {\n")]),
 "loop-mem-replace": (E, [("            let tmp = self.nested;\n", "            let saved = self.nested;\n"), ("            self.nested = tmp;\n", "            self.nested = saved;\n")]),
 "labels-eq": (E, [("            match (self.label, other) {\n                (None, None) => true,\n                (Some(this), Some(other)) => this.name.ident == other.ident,\n                _ => false,\n            }\n", "            match self.label {\n                None => other.is_none(),\n                Some(this) => other.map_or(false, |other| this.name.ident == other.ident),\n            }\n")]),
 "loop-named-visitor": (E, [("    LoopVisitor { cx, label: expr.label.as_ref(), nested: false }.visit_block_mut(&mut expr.body);\n", "    let mut v = LoopVisitor { cx, label: expr.label.as_ref(), nested: false };\n    v.visit_block_mut(&mut expr.body);\n")]),
 "visit-return-early": (V, [("        if !self.scope.closure && !node.any_empty_attr(NEVER) {\n            // Desugar `return <expr>` into `return Enum::VariantN(<expr>)`.\n            if let Expr::Return(ExprReturn { expr, .. }) = node {\n                // Skip if `<expr>` is a marker macro.\n                if expr.as_ref().map_or(true, |expr| !self.cx.is_marker_expr(expr)) {\n                    self.cx.replace_boxed_expr(expr);\n                }\n            }\n        }\n",
                            "        if self.scope.closure || node.any_empty_attr(NEVER) {\n            return;\n        }\n        if let Expr::Return(ret) = node {\n            let marker = match &ret.expr {\n                Some(expr) => self.cx.is_marker_expr(expr),\n                None => false,\n            };\n            if !marker {\n                self.cx.replace_boxed_expr(&mut ret.expr);\n            }\n        }\n")]),
 "visit-try-guard": (V, [("        if !self.scope.try_block && !self.scope.closure && !node.any_empty_attr(NEVER) {\n            match &node {", "        let outside = self.scope.try_block || self.scope.closure;\n        if !outside && !node.any_empty_attr(NEVER) {\n            match &node {")]),
 "visit-expr-helper": (V, [("        if node.any_attr(NAME) {\n            self.scope.foreign = true;\n            // Record whether other `auto_enum` attribute exists.\n            self.cx.has_child = true;\n        }\n        self.scope.check_expr(node);\n", "        self.enter(node);\n        self.scope.check_expr(node);\n"),
                           ("    fn visit_expr(&mut self, node: &mut Expr, has_semi: bool) {\n        debug_assert!", "    fn enter(&mut self, node: &Expr) {\n        if node.any_attr(NAME) {\n            self.scope.foreign = true;\n            self.cx.has_child = true;\n        }\n    }\n\n    fn visit_expr(&mut self, node: &mut Expr, has_semi: bool) {\n        debug_assert!")]),
 "visit-expr-order": (V, [("        if node.any_attr(NAME) {\n            self.scope.foreign = true;\n            // Record whether other `auto_enum` attribute exists.\n            self.cx.has_child = true;\n        }\n        self.scope.check_expr(node);\n", "        self.scope.check_expr(node);\n        if node.any_attr(NAME) {\n            self.cx.has_child = true;\n            self.scope.foreign = true;\n        }\n")]),
 "arm-early-return": (V, [("        if !self.cx.has_error() {\n            if !self.scope.foreign {\n                if let Some(attr) = node.find_remove_attr(NESTED) {\n                    self.visit_nested(&mut node.body, &attr);\n                }\n            }\n\n            visit_mut::visit_arm_mut(self, node);\n\n            self.find_remove_attrs(node);\n        }\n", "        if self.cx.has_error() {\n            return;\n        }\n        if !self.scope.foreign {\n            if let Some(attr) = node.find_remove_attr(NESTED) {\n                self.visit_nested(&mut node.body, &attr);\n            }\n        }\n        visit_mut::visit_arm_mut(self, node);\n        self.find_remove_attrs(node);\n")]),
 "check-expr-matches": (V, [("            Expr::Closure(_) | Expr::Async(_) => self.closure = true,\n            // `?` operator in try blocks are not supported.\n            Expr::TryBlock(_) => self.try_block = true,\n            _ => {}\n        }\n", "            Expr::TryBlock(_) => self.try_block = true,\n            Expr::Async(_) | Expr::Closure(_) => self.closure = true,\n            _ => (),\n        }\n")]),
 "check-expr-or": (V, [("        match expr {\n            // `return` and `?` in async blocks belong to the async block.\n            Expr::Closure(_) | Expr::Async(_) => self.closure = true,\n            // `?` operator in try blocks are not supported.\n            Expr::TryBlock(_) => self.try_block = true,\n            _ => {}\n        }\n", "        self.closure |= matches!(expr, Expr::Closure(_) | Expr::Async(_));\n        self.try_block |= matches!(expr, Expr::TryBlock(_));\n")]),
 "fncount-helper": (V, [("                        if !self.cx.is_marker_expr(expr) {\n                            self.count.try_ += 1;\n                        }\n", "                        if self.cx.is_marker_expr(expr) {\n                        } else {\n                            self.count.try_ = self.count.try_ + 1;\n                        }\n")]),
 "dummy-helper": (V, [("            if node.any_attr(NAME) {\n                self.cx.has_child = true;\n            }\n            VisitStmt::visit_expr(self, node, false);\n", "            let other = node.any_attr(NAME);\n            if other {\n                self.cx.has_child = true;\n            }\n            VisitStmt::visit_expr(self, node, false);\n")]),
 "visitstmt-iflet": (V, [("        match res {\n            Some(Err(e)) => visitor.cx().error(e),\n            Some(Ok(mut cx)) => {\n                super::expand_parent_expr(&mut cx, node, has_semi);\n                visitor.cx().join_child(cx);\n            }\n            None => {}\n        }\n", "        if let Some(res) = res {\n            match res {\n                Ok(mut cx) => {\n                    super::expand_parent_expr(&mut cx, node, has_semi);\n                    visitor.cx().join_child(cx);\n                }\n                Err(e) => visitor.cx().error(e),\n            }\n        }\n")]),
 "find-nested-early": (V, [("            if !node.any_attr(NAME) {\n                if node.any_empty_attr(NESTED) {\n                    self.has = true;\n                } else {\n                    visit_mut::visit_expr_mut(self, node);\n                }\n            }\n", "            if node.any_attr(NAME) {\n                return;\n            }\n            if node.any_empty_attr(NESTED) {\n                self.has = true;\n                return;\n            }\n            visit_mut::visit_expr_mut(self, node);\n")]),
 "expand-closure-mode": (M, [("            if count.try_ >= 2 {\n                cx.visit_mode = VisitMode::Try;\n            } else {\n                cx.visit_mode = VisitMode::Return(count.return_);\n            }\n            &mut **body\n", "            cx.visit_mode = if count.try_ > 1 { VisitMode::Try } else { VisitMode::Return(count.return_) };\n            &mut **body\n")]),
 "parent-stmt-order": (M, [("        Stmt::Expr(expr, semi) => expand_parent_expr(cx, expr, semi.is_some()),\n        Stmt::Local(local) => expand_parent_local(cx, local),\n", "        Stmt::Local(local) => expand_parent_local(cx, local),\n        Stmt::Expr(expr, semi) => expand_parent_expr(cx, expr, semi.is_some()),\n")]),
 "build-expr-inline": (M, [("    replace_expr(expr, |expr| {\n        expr_block(block(vec![Stmt::Item(item.into()), Stmt::Expr(expr, None)]))\n    });\n", "    replace_expr(expr, |expr| {\n        let stmts = vec![Stmt::Item(item.into()), Stmt::Expr(expr, None)];\n        expr_block(block(stmts))\n    });\n")]),
 "parent-local-match": (M, [("    let expr = if let Some(LocalInit { expr, .. }) = &mut local.init {\n        &mut **expr\n    } else {\n        cx.error(format_err!(\n            local,\n            \"the `#[auto_enum]` attribute is not supported uninitialized let statement\"\n        ));\n        return;\n    };\n", "    let expr = match &mut local.init {\n        Some(LocalInit { expr, .. }) => &mut **expr,\n        None => {\n            cx.error(format_err!(\n                local,\n                \"the `#[auto_enum]` attribute is not supported uninitialized let statement\"\n            ));\n            return;\n        }\n    };\n")]),
 "itemfn-iflet": (M, [("    match item.block.stmts.last_mut() {\n        Some(Stmt::Expr(expr, None)) => child_expr(cx, expr),\n        Some(_) => {}\n        None => cx.error(format_err!(\n            item.block,\n            \"the `#[auto_enum]` attribute is not supported empty functions\"\n        )),\n    }\n", "    if item.block.stmts.is_empty() {\n        cx.error(format_err!(\n            item.block,\n            \"the `#[auto_enum]` attribute is not supported empty functions\"\n        ));\n    } else if let Some(Stmt::Expr(expr, None)) = item.block.stmts.last_mut() {\n        child_expr(cx, expr);\n    }\n")]),
 "itemfn-count-before": (M, [("                            let count = visitor::visit_fn(cx, &mut **block);\n                            if count.try_ >= 2 {\n", "                            if visitor::visit_fn(cx, &mut **block).try_ >= 2 {\n")]),
 "new-match": (C, [("        let current_marker = if let Some(marker) = marker {", "        let given = marker;\n        let current_marker = if let Some(marker) = given {")]),
 "new-any": (C, [("            if markers.contains(&marker_string) {", "            if markers.iter().any(|m| *m == marker_string) {")]),
 "marker-or": (C, [("        let exact = self.is_marker_macro_exact(mac);\n        if exact || self.root {\n            return exact;\n        }\n\n        self.markers.iter().any(|marker| mac.path.is_ident(marker))\n", "        self.is_marker_macro_exact(mac)\n            || !self.root && self.markers.iter().any(|marker| mac.path.is_ident(marker))\n")]),
 "boxed-swap": (C, [("            if self.is_marker_expr(&expr) || expr.any_empty_attr(NESTED) {\n                // Skip if `<expr>` is a marker macro or has `#[nested]`.\n                expr\n            } else {\n                self.next_expr(expr)\n            }\n", "            if !self.is_marker_expr(&expr) && !expr.any_empty_attr(NESTED) {\n                self.next_expr(expr)\n            } else {\n                expr\n            }\n")]),
 "boxed-none": (C, [("        replace_expr(expr.get_or_insert_with(|| Box::new(unit())), |expr| {", "        if expr.is_none() {\n            *expr = Some(Box::new(unit()));\n        }\n        replace_expr(expr.as_mut().unwrap(), |expr| {")]),
 "build-flat": (C, [("            match self.builder.variants.len() {\n                1 => {}\n                0 if !self.has_child => {}\n                _ => {\n                    if !self.builder.variants.is_empty() {\n                        f(self.builder.build(&self.args, &self.traits));\n                    }\n                    return;\n                }\n            }\n", "            let n = self.builder.variants.len();\n            if n >= 2 {\n                f(self.builder.build(&self.args, &self.traits));\n                return;\n            }\n            if n == 0 && self.has_child {\n                return;\n            }\n")]),
 "builder-names": (C, [("        self.variants.push(variant);\n\n        expr_call(attrs, path, expr)\n", "        let call = expr_call(attrs, path, expr);\n        self.variants.push(variant);\n        call\n")]),
 "args-match": (C, [("                args.push(input.parse()?);\n", "                let path: Path = input.parse()?;\n                args.push(path);\n")]),
 "args-dup": (C, [("                if marker.replace(ident).is_some() {\n                    bail!(i, \"duplicate `marker` argument\");\n                }\n", "                if marker.is_some() {\n                    bail!(i, \"duplicate `marker` argument\");\n                }\n                marker = Some(ident);\n")]),
 "ta-continue": (T, [("                    if TRAITS.contains(&&*ty_trimmed)\n                        && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)\n                    {\n", "                    if !TRAITS.contains(&&*ty_trimmed) {\n                        continue;\n                    }\n                    if self.args.iter().all(|x| x.to_token_stream().to_string() != ty_str) {\n")]),
 "ta-rename": (T, [("                    let ty_str = ty.to_token_stream().to_string();\n                    let ty_trimmed = ty_str.replace(' ', \"\");\n", "                    let text = ty.to_token_stream().to_string();\n                    let ty_str = text.clone();\n                    let ty_trimmed = text.replace(' ', \"\");\n")]),
 "derive-forloop": (D, [("    let args = args.iter().fold(vec![], |mut v, (s, arg)| {", "    let mut v = vec![];\n    for (s, arg) in &args {"), ("            v.push((s, Some(arg)));\n        }\n        v\n    });\n", "            v.push((s, Some(arg)));\n        }\n    }\n    let args = v;\n"),
                        ]),
 "derive-match": (D, [("            (_, Some(arg)) => derive.push(arg),\n            _ => {}\n", "            (None, Some(arg)) => derive.push(arg),\n            (None, None) => {}\n")]),
 "derive-any-swap": (D, [("if !exists_alias(s, &v) && !v.iter().any(|(x, _)| x == s) {", "if !v.iter().any(|(x, _)| x == s) && !exists_alias(s, &v) {")]),
 "derive-filter-inline": (D, [("            for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {\n                if !exists", "            for s in traits.iter() {\n                if args.iter().any(|(a, _)| a == s) {\n                    continue;\n                }\n                if !exists")]),
 "derive-arg-name": (D, [("            let path = input.parse()?;\n            inner.push((to_trimmed_string(&path), path));\n", "            let path: Path = input.parse()?;\n            let name = to_trimmed_string(&path);\n            inner.push((name, path));\n")]),
 "path-eq-zip": (U, [("        for i in 1..path.segments.len() {\n            if path.segments[i].ident != expected_path[i - 1] {\n                return false;\n            }\n        }\n        return true;\n", "        return path.segments.iter().skip(1).zip(expected_path).all(|(s, e)| s.ident == e);\n")]),
 "path-eq-order": (U, [("        if !expected_crates.iter().any(|&c| path.segments[0].ident == c) {\n            return false;\n        }\n        for i in 1..path.segments.len() {\n            if path.segments[i].ident != expected_path[i - 1] {\n                return false;\n            }\n        }\n        return true;\n", "        for i in 0..expected_path.len() {\n            if path.segments[i + 1].ident != expected_path[i] {\n                return false;\n            }\n        }\n        return expected_crates.iter().any(|c| path.segments[0].ident == c);\n")]),
 "find-remove-loop": (U, [("        self.iter().position(predicate).map(|i| self.remove(i))\n", "        let i = self.iter().position(predicate)?;\n        Some(self.remove(i))\n")]),
 "replace-expr-let": (U, [("    *this = f(mem::replace(this, Expr::Verbatim(TokenStream::new())));\n", "    let old = mem::replace(this, Expr::Verbatim(TokenStream::new()));\n    *this = f(old);\n")]),
 "replace-block-let": (U, [("    this.stmts = vec![Stmt::Expr(f(block(stmts)), None)];\n", "    let expr = f(block(stmts));\n    this.stmts.push(Stmt::Expr(expr, None));\n")]),
 "any-attr-loop": (U, [("        self.attrs().iter().any(|attr| attr.path().is_ident(ident))\n", "        for attr in self.attrs() {\n            if attr.path().is_ident(ident) {\n                return true;\n            }\n        }\n        false\n")]),
 "noop": (V, [("        debug_assert!(!self.cx.has_error());\n", "        debug_assert!(!self.cx.has_error());\n        let _ = ();\n")]),
}


def main():
    import e2, lib
    e2.build()
    W = "/tmp/refactors"
    e2.OUT = f"{W}/out"
    for n, x in R.items():
        if not x or len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        shutil.rmtree(f"{W}/r", ignore_errors=True)
        os.makedirs(f"{W}/r")
        shutil.copytree("/repo/src", f"{W}/r/src")
        p = f"{W}/r/src/{x[0]}"
        s = open(p).read()
        for a, b in x[1]:
            assert a in s, (n, a[:60])
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
        e2.REPO = f"{W}/r"
        lib.T0 = time.time()
        for u in ("derives",) if x[0] == D else ("types",) if x[0] == T else ("auto_enum",):
            rep = e2.prove(u)
            got = sorted({f"{k}: {m[:50]}" for k, m, _ in rep["failed"]})
            print(f"{n:22} {'FAILS ' + '; '.join(got) if got else 'quiet'} {rep['why'] or ''} | undecided {str({k: v[:110] for k, v in rep['undecided'].items()})[:330]}", flush=True)
    shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    main()
