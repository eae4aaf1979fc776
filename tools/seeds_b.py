S = SEEDS = {}
S['fmt-write-no-char'] = dict(property='C02', needs='a fmt::Write with its own write_char', breaks='write_char on the enum goes through write_str',
 edits=[('src/derive/core/fmt.rs', '''                #[inline]
                fn write_char(&mut self, c: char) -> ::core::fmt::Result;
''', '')],
 main='''
use std::fmt::{self, Write};
struct P(String); impl Write for P { fn write_str(&mut self, s: &str) -> fmt::Result { self.0 += s; Ok(()) } fn write_char(&mut self, c: char) -> fmt::Result { self.0.push(c); self.0.push('!'); Ok(()) } }
#[auto_enums::enum_derive(fmt::Write)] enum E<A, B> { A(A), B(B) }
fn main() { let mut e: E<P, String> = E::A(P(String::new())); e.write_char('c').unwrap(); if let E::A(p) = &e { assert_eq!(p.0, "c!") } let mut e: E<P, String> = E::B(String::new()); e.write_char('c').unwrap(); }
''')
S['display-loses-flags'] = dict(property='C02', needs='a formatting trait with width or precision flags', breaks='Pointer formatting of the enum loses the flags of the formatter', features=['fmt'],
 edits=[('src/derive/core/fmt.rs', 'derive_fmt!(upper_exp, UpperExp, ["fmt::UpperExp"]);', '''pub(crate) mod upper_exp {
    use crate::derive::prelude::*;
    pub(crate) const NAME: &[&str] = &["fmt::UpperExp"];
    pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
        let ident = &data.ident;
        let fmt = data.variant_idents().map(|v| quote!(#ident::#v(x) => f.write_fmt(::core::format_args!("{:E}", x)),));
        let mut impl_ = EnumImpl::from_trait(data, &parse_quote!(::core::fmt::UpperExp), None, parse_quote! { trait UpperExp {} }).build_impl();
        impl_.items.push(parse_quote! { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match self { #(#fmt)* } } });
        Ok(impl_.into_token_stream())
    }
}''')],
 main='#[auto_enums::enum_derive(fmt::UpperExp)] enum E<A, B> { A(A), B(B) }\nfn main() { let e: E<f64, f32> = E::A(1234.5); assert_eq!(format!("{:.1E}", e), format!("{:.1E}", 1234.5)); let e: E<f64, f32> = E::B(2.0); assert_eq!(format!("{:+E}", e), format!("{:+E}", 2.0)); }\n')
S['requested-dep-twice'] = dict(features=['std', 'convert', 'ops'],property='C07', needs='a dependency requested after the trait that depends on it', breaks='a dependency that is requested later in the list is implemented twice',
 edits=[('src/enum_derive.rs', 'for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {', 'for s in traits.iter().filter(|&x| !args.iter().take(16).any(|(s, _)| s == x)) {')],
 main='#[auto_enums::enum_derive(FusedIterator, Debug, Clone, ExactSizeIterator, PartialEq, Eq, PartialOrd, Ord, Hash, fmt::Write, io::Read, io::Write, io::Seek, io::BufRead, AsRef, AsMut, Deref, Iterator)] enum E<A, B> { A(A), B(B) }\nfn main() { let e: E<std::ops::Range<u8>, std::vec::IntoIter<u8>> = E::A(0..3); assert_eq!(e.len(), 3); let _: E<std::ops::Range<u8>, std::vec::IntoIter<u8>> = E::B(vec![].into_iter()); }\n')
S['many-arms'] = dict(property='C10', needs='a match with more than 26 arms', breaks='only the first 26 arms of a match are wrapped',
 edits=[('src/auto_enum/expr.rs', 'for arm in &mut expr.arms {', 'for arm in expr.arms.iter_mut().take(26) {')],
 main='#[auto_enums::auto_enum(Debug)] fn f(x: u8) -> impl core::fmt::Debug { match x { ' + ' '.join(f'{i} => [0u8; {i}],' for i in range(28)) + ' _ => "x" } }\nfn main() { f(1); f(100); }\n')
S['else-if-guarded'] = dict(property='C10', needs='an else-if whose condition is an if-let', breaks='the branch of an `else if let` is not wrapped',
 edits=[('src/auto_enum/expr.rs', '        Some(Expr::If(expr)) => visit_last_expr_if(cx, expr),\n', '        Some(Expr::If(expr)) => {\n            if !matches!(*expr.cond, Expr::Let(_)) {\n                visit_last_expr_if(cx, expr);\n            }\n        }\n')],
 main='#[auto_enums::auto_enum(Iterator)] fn f(x: Option<u8>) -> impl Iterator<Item = u8> { if x.is_none() { 0..2u8 } else if let Some(3) = x { vec![7u8].into_iter() } else { core::iter::empty() } }\nfn main() { assert_eq!(f(None).count(), 2); assert_eq!(f(Some(3)).next(), Some(7)); assert_eq!(f(Some(4)).next(), None); }\n')
S['nested-in-let'] = dict(property='C15', needs='a #[nested] expression inside the initializer of a let in a branch', breaks='a branch with a #[nested] expression inside a let initializer is wrapped once more',
 edits=[('src/auto_enum/visitor.rs', '                    visit_mut::visit_local_mut(self, node);\n                }\n            }\n        }\n\n        fn visit_item_mut(&mut self, _: &mut Item) {\n            // Do not recurse into nested items.\n        }\n    }\n\n    let mut visitor = FindNested', '                    let _ = visit_mut::visit_local_mut::<Self>;\n                }\n            }\n        }\n\n        fn visit_item_mut(&mut self, _: &mut Item) {\n            // Do not recurse into nested items.\n        }\n    }\n\n    let mut visitor = FindNested')],
 main='#![feature(stmt_expr_attributes)]\n#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { match x { 0 => 0..3u8, _ => { let y = { #[nested] match x { 1 => vec![5u8].into_iter(), _ => core::iter::empty() } }; y } } }\nfn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).next(), Some(5)); assert_eq!(f(2).next(), None); }\n')
S['closure-returns'] = dict(property='C12', needs='a return in a closure inside a call argument of the annotated function', breaks='the scope of a closure ends at its first nested expression, so later returns in it are wrapped',
 edits=[('src/auto_enum/visitor.rs', '            self.visit_marker_macro(node);\n            self.find_remove_attrs(node);\n        }\n\n        self.scope = tmp;', '            self.visit_marker_macro(node);\n            self.find_remove_attrs(node);\n        }\n\n        self.scope = Scope { closure: tmp.closure && !matches!(node, Expr::Closure(_)), ..tmp };')],
 main='''#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { let h = |a: u8| { fn p(k: impl Fn(u8) -> u8, v: u8) -> u8 { k(v) } p(|b: u8| b + 1, if a > 3 { return 5 } else { 1 }) }; if x == 0 { return 0..h(4); } vec![h(x)].into_iter() }
fn main() { assert_eq!(f(0).count(), 5); }
'''.replace('vec![h(x)].into_iter() }', 'match x { 1 => vec![h(x)].into_iter(), _ => core::iter::empty() } }'))
S['dup-marker-arg'] = dict(property='C18', needs='two marker options', breaks='a second marker option silently replaces the first',
 edits=[('src/auto_enum/context.rs', '''                if marker.replace(ident).is_some() {
                    bail!(i, "duplicate `marker` argument");
                }
''', '''                let _ = i;
                marker = Some(ident);
''')],
 main='#[auto_enums::auto_enum(Debug, marker = b)] fn f(x: bool) -> impl core::fmt::Debug { if x { 1u8 } else { \'c\' } }\nfn main() { f(true); f(false); }\n',
 fail={'dup': '#[auto_enums::auto_enum(Debug, marker = a, marker = b)] fn f(x: bool) -> impl core::fmt::Debug { if x { 1u8 } else { \'c\' } }\nfn main() { f(true); f(false); }\n'})
S['never-args'] = dict(property='C18', needs='#[never] with arguments', breaks='#[never(..)] with arguments is silently removed and the branch is wrapped',
 edits=[('src/auto_enum/visitor.rs', '''                if let Err(e) = attr.meta.require_path_only() {
                    self.cx.error(e);
                }
''', '''                let _ = attr.meta.require_path_only();
''')],
 main='#[auto_enums::auto_enum(Debug)] fn f(x: bool) -> impl core::fmt::Debug { match x { true => 1u8, false => \'c\' } }\nfn main() { f(true); f(false); }\n',
 fail={'args': '#[auto_enums::auto_enum(Debug)] fn f(x: bool) -> impl core::fmt::Debug { match x { true => 1u8, #[never(maybe)] false => \'c\' } }\nfn main() { f(true); f(false); }\n'})
S['ta-let-type'] = dict(property='C20', needs='an impl Trait let type whose traits are all given as arguments', breaks='the impl Trait type of a let contributes nothing but is removed', features=['std', 'type_analysis'],
 edits=[('src/auto_enum/type_analysis.rs', '                    if TRAITS.contains(&&*ty_trimmed)\n', '                    self.has_impl_trait |= TRAITS.contains(&&*ty_trimmed);\n                    if TRAITS.contains(&&*ty_trimmed)\n')],
 main="""#![feature(proc_macro_hygiene, impl_trait_in_bindings)]
fn f(x: u8) -> usize { #[auto_enums::auto_enum(Iterator, Clone)] let y: impl Iterator<Item = u8> = match x { 0 => 0..2u8, _ => vec![1u8].into_iter() }; y.count() }
fn main() { assert_eq!(f(0), 2); assert_eq!(f(1), 1); }
""",
 fail={'item': '''#![feature(proc_macro_hygiene, impl_trait_in_bindings)]
fn f(x: u8) -> usize { #[auto_enums::auto_enum(Iterator, Clone)] let y: impl Iterator<Item = u16> = match x { 0 => 0..2u8, _ => vec![1u8].into_iter() }; y.count() }
fn main() { f(0); }
'''})
S['ta-seek'] = dict(property='C20', needs='a return type naming io::Seek by that path', breaks='io::Seek in the return type is not collected', features=['std', 'type_analysis'],
 edits=[('src/auto_enum/type_analysis.rs', '    "io::Seek",\n', '')],
 main='''use std::io;
#[auto_enums::auto_enum] fn f(x: bool) -> impl io::Seek { if x { io::Cursor::new(vec![1u8]) } else { io::empty() } }
fn main() { use io::Seek; assert_eq!(f(true).seek(io::SeekFrom::End(0)).unwrap(), 1); assert_eq!(f(false).seek(io::SeekFrom::End(0)).unwrap(), 0); }
''')
S['items-attrs'] = dict(property='C17', needs='a nested item with a helper attribute of its own scope inside an annotated function', breaks='#[auto_enum] statements in nested functions lose their return handling because the outer scope expands them',
 edits=[('src/auto_enum/visitor.rs', '''                } else {
                    visit_mut::visit_arm_mut(self, node);
                }''' if False else '''            visit_mut::visit_local_mut(self, node);

            self.find_remove_attrs(node);''', '''            visit_mut::visit_local_mut(self, node);
            node.attrs.retain(|a| !a.path().is_ident("deny"));

            self.find_remove_attrs(node);''')],
 main='#[auto_enums::auto_enum(Debug)] fn f(x: bool) -> impl core::fmt::Debug { if x { 1u8 } else { \'c\' } }\nfn main() { f(true); f(false); }\n',
 fail={'lint': '#[auto_enums::auto_enum(Debug)] fn f(x: bool) -> impl core::fmt::Debug { #[deny(unused_variables)] let y = 1u8; if x { 1u8 } else { \'c\' } }\nfn main() { f(true); f(false); }\n// expect: unused variable\n'})
S['eval-order-try'] = dict(property='C13', needs='an operand of ? with attributes', breaks='attributes on a desugared ? are dropped',
 edits=[('src/auto_enum/visitor.rs', '''                            attrs,
                            match_token''', '''                            attrs: attrs.into_iter().take(0).collect(),
                            match_token''')],
 main='''#![feature(stmt_expr_attributes)] #![deny(unused_variables)]
#[auto_enums::auto_enum(Debug)] fn f(a: Result<u8, u16>, b: Result<u8, &'static str>) -> Result<u8, impl core::fmt::Debug> { #[allow(unused_variables)] ({ let q = 1; a })?; let v = #[allow(unused_variables)] { let q = 1; b }?; Ok(v) }
fn main() { assert_eq!(f(Ok(1), Ok(2)).ok(), Some(2)); }
''')
