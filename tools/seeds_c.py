S = SEEDS = {}
S['error-source-many'] = dict(property='C02', needs='an error enum with more than six variants', breaks='source() of the seventh and later variants is the source of the value instead of the value',
 edits=[('src/derive/std/error.rs', '''        data.variant_idents().map(|v| quote!(#ident::#v(x) => ::std::option::Option::Some(x)));
''', '''        data.variant_idents().enumerate().map(|(i, v)| if i < 6 { quote!(#ident::#v(x) => ::std::option::Option::Some(x)) } else { quote!(#ident::#v(x) => x.source()) });
''')],
 main='''use std::error::Error; use std::num::ParseIntError;
#[auto_enums::enum_derive(Error)] enum E<A, B, C, D, F, G, H, I> { A(A), B(B), C(C), D(D), F(F), G(G), H(H), I(I) }
fn main() { type P = ParseIntError; let p = || "x".parse::<u8>().unwrap_err(); let e: E<P, P, P, P, P, P, P, P> = E::A(p()); assert!(e.source().unwrap().is::<P>()); let e: E<P, P, P, P, P, P, P, P> = E::I(p()); assert!(e.source().unwrap().is::<P>()); }
''')
S['consume-capped'] = dict(property='C04', features=['std', 'tokio1'], deps='tokio = { version = "1" }\n', needs='a buffer of more than 8 KiB consumed at once', breaks='AsyncBufRead::consume of tokio1 consumes at most 8 KiB',
 edits=[('src/derive/external/tokio1.rs', '#ident::#v(x) => <#ty as #trait_>::consume(#pin::new_unchecked(x), amt),', '#ident::#v(x) => <#ty as #trait_>::consume(#pin::new_unchecked(x), if amt < 8192 { amt } else { 8192 }),')],
 main='''use std::pin::Pin; use tokio::io::AsyncBufRead;
#[auto_enums::enum_derive(tokio1::AsyncBufRead)] enum E<A, B> { A(A), B(B) }
fn main() { let d = vec![7u8; 10000]; let mut e: E<&[u8], std::io::Cursor<Vec<u8>>> = E::A(&d); Pin::new(&mut e).consume(9000); if let E::A(x) = &e { assert_eq!(x.len(), 1000) } let mut e: E<&[u8], std::io::Cursor<Vec<u8>>> = E::B(std::io::Cursor::new(d.clone())); Pin::new(&mut e).consume(10000); if let E::B(x) = &e { assert_eq!(x.position(), 10000) } }
''')
S['drop-check-generic-only'] = dict(property='C06', needs='an enum without type parameters and with its own Drop', breaks='the check that forbids Drop is left out for enums without type parameters',
 edits=[('src/enum_derive.rs', '''        items.extend(quote! {
            const _: () = {
                trait MustNotImplDrop {}''', '''        if item.generics.type_params().next().is_some() { items.extend(quote! {
            const _: () = {
                trait MustNotImplDrop {}'''), ('src/enum_derive.rs', '''#name #ty_generics #where_clause {}
            };
        });
''', '''#name #ty_generics #where_clause {}
            };
        }); }
''')],
 main='use core::future::{Ready, Pending};\n#[auto_enums::enum_derive(Future)] enum E { A(Ready<u8>), B(Pending<u8>) }\nfn main() { let _ = (E::A(core::future::ready(1)), E::B(core::future::pending())); }\n',
 fail={'drop': 'use core::future::{Ready, Pending};\n#[auto_enums::enum_derive(Future)] enum E { A(Ready<u8>), B(Pending<u8>) }\nimpl Drop for E { fn drop(&mut self) {} }\nfn main() { let _ = (E::A(core::future::ready(1)), E::B(core::future::pending())); }\n'})
S['alias-first-only'] = dict(property='C07', needs='Error given together with fmt::Display that comes later', breaks='an alias that follows another trait is implemented again',
 edits=[('src/enum_derive.rs', 'get_alias(s).map_or(false, |x| v.iter().any(|(s, _)| *s == x))', 'get_alias(s).map_or(false, |x| v.iter().any(|(s, a)| *s == x && a.is_some()))')],
 main='#[auto_enums::enum_derive(Error, fmt::Display)] enum E<A, B> { A(A), B(B) }\nfn main() { let e: E<std::fmt::Error, std::fmt::Error> = E::A(std::fmt::Error); println!("{e} {e:?}"); let _: E<std::fmt::Error, std::fmt::Error> = E::B(std::fmt::Error); }\n')
S['derive-if-none'] = dict(property='C08', needs='an enum with its own #[derive] after enum_derive', breaks='traits for #[derive] are dropped when the enum already has a derive attribute',
 edits=[('src/enum_derive.rs', '    if !derive.is_empty() {\n', '    if !derive.is_empty() && !item.attrs.iter().any(|a| a.path().is_ident("derive")) {\n')],
 main='#[auto_enums::enum_derive(Iterator, PartialEq)] #[derive(Clone)] enum E<A, B> { A(A), B(B) }\nfn main() { let e: E<core::ops::Range<u8>, core::ops::Range<u8>> = E::A(0..3); assert!(e == e.clone()); let _: E<core::ops::Range<u8>, core::ops::Range<u8>> = E::B(0..3); }\n')
S['variant-names-wrap'] = dict(property='C19', needs='more than 32 variants', breaks='the names of variants repeat after 32',
 edits=[('src/auto_enum/context.rs', 'format_ident!("__Variant{}", self.variants.len())', 'format_ident!("__Variant{}", self.variants.len() % 32)')],
 main='#[auto_enums::auto_enum(Debug)] fn f(x: u8) -> impl core::fmt::Debug { match x { ' + ' '.join(f'{i} => [0u8; {i}],' for i in range(34)) + ' _ => "x" } }\nfn main() { f(1); f(100); }\n')
S['while-break-skipped'] = dict(property='C11', needs='a labelled break to the annotated loop out of a while loop', breaks='breaks inside while loops are left alone',
 edits=[('src/auto_enum/expr.rs', '                    self.nested = true;\n                }\n                // The label may be shadowed by the label of the block.', '                    if matches!(node, Expr::While(ExprWhile { label: None, .. })) {\n                        return;\n                    }\n                    self.nested = true;\n                }\n                // The label may be shadowed by the label of the block.')],
 main="#[auto_enums::auto_enum(Iterator)] fn f(mut x: u8) -> impl Iterator<Item = u8> { 'a: loop { if x > 5 { break 0..x; } while x < 10 { x += 1; if x == 3 { break 'a vec![x].into_iter(); } } } }\nfn main() { assert_eq!(f(0).next(), Some(3)); assert_eq!(f(7).count(), 7); }\n")
S['nested-in-else'] = dict(property='C15', needs='a #[nested] expression that is not the tail of an else branch', breaks='an else branch that contains a #[nested] expression is wrapped once more',
 edits=[('src/auto_enum/expr.rs', '''        Some(Expr::Block(expr)) => {
            if !skip(cx, &mut expr.block) {''', '''        Some(Expr::Block(expr)) => {
            let tail = expr.block.stmts.len() == 2 && matches!(&expr.block.stmts[0], Stmt::Local(l) if l.init.as_ref().map_or(false, |i| matches!(*i.expr, Expr::Block(_))));
            if tail || !skip(cx, &mut expr.block) {''')],
 main="#![feature(stmt_expr_attributes)]\n#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { if x == 0 { 0..3u8 } else { let y = { #[nested] match x { 1 => vec![5u8].into_iter(), _ => core::iter::empty() } }; y } }\nfn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).next(), Some(5)); assert_eq!(f(2).next(), None); }\n")
S['item-tail'] = dict(property='C14', needs='a branch that diverges and ends with an item', breaks='a branch that ends with an item is taken for a branch with a value',
 edits=[('src/auto_enum/expr.rs', 'Some(Stmt::Item(_)) => true,', 'Some(Stmt::Item(_)) => false,')],
 main='#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { match x { 0 => 0..3u8, 1 => vec![x].into_iter(), _ => { panic!("no {}", h()); fn h() -> u8 { 1 } } } }\nfn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).count(), 1); }\n')
S['ta-last-segment'] = dict(property='C20', features=['std', 'type_analysis'], needs='an argument and an impl Trait with the same last segment', breaks='a trait is not collected if an argument has the same last segment',
 edits=[('src/auto_enum/type_analysis.rs', '!self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)', '!self.args.iter().any(|x| x.segments.last().map(|s| &s.ident) == ty.segments.last().map(|s| &s.ident))')],
 main='use std::io;\n#[auto_enums::auto_enum(fmt::Write)] fn f(b: bool) -> impl io::Write { if b { Vec::new() } else { io::sink() } }\nfn main() { use std::io::Write; assert_eq!(f(true).write(b"ab").unwrap(), 2); f(false); }\n')
S['marker-in-return'] = dict(property='C16', needs='a marker in a return of a closure in the annotated function', breaks='markers in closures are left alone',
 edits=[('src/auto_enum/visitor.rs', 'Expr::Macro(ExprMacro { mac, .. }) if self.cx.is_marker_macro_exact(mac) => {', 'Expr::Macro(ExprMacro { mac, .. })\n                if self.cx.is_marker_macro_exact(mac)\n                    && !(self.scope.closure && self.scope.try_block) =>\n            {')],
 main='#![feature(try_blocks)]\nfn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).count(), 1); assert_eq!(f(9).count(), 0); }\n#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { let g = |y: u8| { let r: Option<_> = try { if y > 5 { None? } if y == 0 { marker!(0..3u8) } else { marker!(vec![y].into_iter()) } }; match r { Some(r) => r, None => marker!(core::iter::empty()) } }; #[never] return g(x) }\n')
S['else-labels'] = dict(property='C17', needs='a loop label on a nested loop that is a value', breaks='the label of a labelled block that is the value of a branch is dropped',
 edits=[('src/auto_enum/context.rs', '        self.builder.next_expr(attrs, expr)\n', '''        let expr = match expr {
            Expr::Loop(mut e) if e.label.is_some() && e.body.stmts.len() == 1 && matches!(e.body.stmts[0], syn::Stmt::Expr(Expr::Loop(_), _)) => {
                e.label = None;
                Expr::Loop(e)
            }
            expr => expr,
        };
        self.builder.next_expr(attrs, expr)
''')],
 main="#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { match x { 0 => 0..3u8, _ => 'a: loop { 'b: loop { if x > 1 { break 'a vec![x].into_iter(); } break 'b; } } } }\nfn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(2).count(), 1); }\n")
