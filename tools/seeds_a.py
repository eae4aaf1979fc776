S = SEEDS = {}
FUT = 'futures = { package = "futures-util", version = "0.3", default-features = false, features = ["std", "io", "sink"] }\n'
S['iter-no-nth'] = dict(property='C01', needs='an iterator whose nth is not the default one', breaks='nth on the enum calls next n+1 times instead of nth of the active variant',
 edits=[('src/derive/core/iter.rs', '''                #[inline]
                fn nth(&mut self, n: usize) -> ::core::option::Option<Self::Item>;
''', '')],
 main='''
struct P(u32);
impl Iterator for P { type Item = u32; fn next(&mut self) -> Option<u32> { self.0 += 1; Some(self.0) } fn nth(&mut self, n: usize) -> Option<u32> { self.0 += 100 * n as u32; Some(self.0) } }
#[auto_enums::enum_derive(Iterator)] enum E<A, B> { A(A), B(B) }
fn main() { let mut e: E<P, std::vec::IntoIter<u32>> = E::A(P(0)); assert_eq!(e.nth(3), Some(300)); let mut e: E<P, std::vec::IntoIter<u32>> = E::B(vec![1, 2].into_iter()); assert_eq!(e.nth(1), Some(2)); }
''')
S['error-source-skips'] = dict(property='C02', needs='asking an Error enum for its source', breaks='source() of the enum is the source of the inner error instead of the inner error',
 edits=[('src/derive/std/error.rs', '#ident::#v(x) => ::std::option::Option::Some(x)', '#ident::#v(x) => ::std::error::Error::source(x)')],
 main='''
use std::error::Error;
#[derive(Debug)] struct P; impl std::fmt::Display for P { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("p") } } impl Error for P {}
#[auto_enums::enum_derive(Error)] enum E<A, B> { A(A), B(B) }
fn main() { let e: E<P, std::fmt::Error> = E::A(P); assert!(e.source().unwrap().downcast_ref::<P>().is_some()); let e: E<P, std::fmt::Error> = E::B(std::fmt::Error); assert!(e.source().unwrap().is::<std::fmt::Error>()); }
''')
S['write-no-vectored'] = dict(property='C03', needs='a writer with its own write_vectored', breaks='write_vectored on the enum writes only the first non-empty buffer through write',
 edits=[('src/derive/std/io.rs', '''                #[inline]
                fn write_vectored(
                    &mut self,
                    bufs: &[::std::io::IoSlice<'_>],
                ) -> ::std::io::Result<usize>;
''', '')],
 main='''
use std::io::{IoSlice, Write};
#[auto_enums::enum_derive(Write)] enum E<A, B> { A(A), B(B) }
fn main() { let mut e: E<Vec<u8>, std::io::Sink> = E::A(vec![]); assert_eq!(e.write_vectored(&[IoSlice::new(b"ab"), IoSlice::new(b"cd")]).unwrap(), 4);
 let mut s: E<Vec<u8>, std::io::Sink> = E::B(std::io::sink()); assert_eq!(s.write_vectored(&[IoSlice::new(b"ab"), IoSlice::new(b"cd")]).unwrap(), 4); }
''')
S['futures03-close-flushes'] = dict(property='C04', needs='closing a futures AsyncWrite enum', breaks='poll_close only flushes the active variant',
 features=['std', 'futures03'], deps=FUT,
 edits=[('src/derive/external/futures03.rs', '<#ty as #trait_>::poll_close(', '<#ty as #trait_>::poll_flush(')],
 main='''
use futures::io::AsyncWrite; use std::{io, pin::Pin, task::{Context, Poll}};
#[derive(Default)] struct W { closed: u32 }
impl AsyncWrite for W {
 fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(Ok(b.len())) }
 fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
 fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.closed += 1; Poll::Ready(Ok(())) }
}
#[auto_enums::enum_derive(futures03::AsyncWrite)] enum E<A, B> { A(A), B(B) }
fn main() { let mut e: E<W, Vec<u8>> = E::A(W::default()); let mut cx = Context::from_waker(std::task::Waker::noop());
 assert!(Pin::new(&mut e).poll_close(&mut cx).is_ready()); if let E::A(w) = &e { assert_eq!(w.closed, 1) }
 let _: E<W, Vec<u8>> = E::B(vec![]); }
''')
S['future-bitcopy'] = dict(property='C04', needs='a future that keeps state between polls', breaks='the future in the active variant is polled through a bitwise copy, so it moves and its state is lost',
 edits=[('src/derive/core/future.rs', '#ident::#v(x) => <#ty as #trait_>::poll(#pin::new_unchecked(x), cx),', '#ident::#v(x) => { let mut y = ::core::mem::ManuallyDrop::new(::core::ptr::read(x)); <#ty as #trait_>::poll(#pin::new_unchecked(&mut *y), cx) }')],
 main='''
use std::{future::Future, pin::Pin, task::{Context, Poll}};
struct F(u32, *const F); impl Future for F { type Output = u32; fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> { let a: *const F = &*self; if self.0 == 0 { self.1 = a; } assert_eq!(self.1, a); self.0 += 1; if self.0 < 2 { Poll::Pending } else { Poll::Ready(self.0) } } }
#[auto_enums::enum_derive(Future)] enum E<A, B> { A(A), B(B) }
fn main() { let mut cx = Context::from_waker(std::task::Waker::noop()); let mut e: E<F, std::future::Ready<u32>> = E::A(F(0, std::ptr::null()));
 assert!(Pin::new(&mut e).poll(&mut cx).is_pending()); assert_eq!(Pin::new(&mut e).poll(&mut cx), Poll::Ready(2)); let _: E<F, std::future::Ready<u32>> = E::B(std::future::ready(1)); }
''')
S['rayon-no-optlen'] = dict(property='C05', needs='a parallel iterator with a known length', breaks='opt_len of the enum is None although the active variant knows its length',
 features=['std', 'rayon'], deps='rayon = "1"\n',
 edits=[('src/derive/external/rayon.rs', '''                #[inline]
                fn opt_len(&self) -> ::core::option::Option<usize>;
''', '')],
 main='''
use rayon::prelude::*;
#[auto_enums::enum_derive(rayon::ParallelIterator)] enum E<A, B> { A(A), B(B) }
fn main() { let e: E<rayon::vec::IntoIter<u8>, rayon::range::Iter<u8>> = E::A(vec![1u8, 2].into_par_iter()); assert_eq!(e.opt_len(), Some(2)); let e: E<rayon::vec::IntoIter<u8>, rayon::range::Iter<u8>> = E::B((0u8..3).into_par_iter()); assert_eq!(e.opt_len(), Some(3)); }
''')
S['sink03-no-pin'] = dict(property='C06', needs='a futures Sink enum with a user-written Unpin or Drop', breaks='a Sink enum can be given an unconditional Unpin impl or a Drop impl',
 features=['std', 'futures03'], deps=FUT,
 edits=[('src/derive/external/futures03.rs', '''    pub(crate) const NAME: &[&str] = &["futures03::Sink"];

    pub(crate) fn derive(cx: &Context, data: &Data) -> Result<TokenStream> {
        cx.needs_pin_projection();
''', '''    pub(crate) const NAME: &[&str] = &["futures03::Sink"];

    pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
''')],
 main='#[auto_enums::enum_derive(futures03::Sink)] #[allow(dead_code)] enum E<A, B> { A(A), B(B) }\nfn main() {}\n',
 fail={'unpin': '#[auto_enums::enum_derive(futures03::Sink)] #[allow(dead_code)] enum E<A, B> { A(A), B(B) }\nimpl<A, B> Unpin for E<A, B> {}\nfn main() {}\n',
       'drop': '#[auto_enums::enum_derive(futures03::Sink)] #[allow(dead_code)] enum E<A, B> { A(A), B(B) }\nimpl<A, B> Drop for E<A, B> { fn drop(&mut self) {} }\nfn main() {}\n'})
S['alias-requested-later'] = dict(property='C07', needs='a trait requested under its alias after a trait that depends on it', breaks='Read is implemented twice for (BufRead, io::Read)',
 features=['std'],
 edits=[('src/enum_derive.rs', '''        if !exists_alias(s, &v) {
            v.push((s, Some(arg)));
        }
''', '''        v.push((s, Some(arg)));
''')],
 main='use std::io::Read;\n#[auto_enums::enum_derive(BufRead, io::Read)] enum E<A, B> { A(A), B(B) }\nfn main() { let mut e: E<&[u8], std::io::Empty> = E::A(&[1, 2]); let mut b = [0; 4]; assert_eq!(e.read(&mut b).unwrap(), 2); let _: E<&[u8], std::io::Empty> = E::B(std::io::empty()); }\n')
S['derive-last-segment'] = dict(property='C08', needs='an unsupported trait given by a path', breaks='only the last segment of an unsupported trait path reaches #[derive]',
 edits=[('src/enum_derive.rs', '(_, Some(arg)) => derive.push(arg),', '(_, Some(arg)) => derive.extend(arg.segments.last()),')],
 main='mod m { pub use core::prelude::v1::Clone as Dup; }\n#[auto_enums::enum_derive(Iterator, m::Dup)] enum E<A, B> { A(A), B(B) }\nfn main() { let e: E<std::ops::Range<u8>, std::vec::IntoIter<u8>> = E::A(0..3); assert_eq!(e.clone().count() + e.count(), 6); let _: E<std::ops::Range<u8>, std::vec::IntoIter<u8>> = E::B(vec![].into_iter()); }\n')
S['transpose-drops-zst'] = dict(property='C09', needs='a zero-sized payload', breaks='transpose maps Some of a zero-sized payload to None',
 features=['transpose_methods'],
 edits=[('src/derive/ty_impls/transpose.rs', 'let transpose = data.variant_idents().map(|v| quote!(#ident::#v(x) => x.map(#ident::#v)));\n\n    let fields', 'let transpose = data.variant_idents().map(|v| quote!(#ident::#v(x) => x.filter(|x| ::core::mem::size_of_val(x) != 0).map(#ident::#v)));\n\n    let fields')],
 main='#[auto_enums::enum_derive(Transpose)] enum E<A, B> { A(A), B(B) }\nfn main() { let e: E<Option<u8>, Option<()>> = E::B(Some(())); assert!(matches!(e.transpose(), Some(E::B(())))); let e: E<Option<u8>, Option<()>> = E::A(None); assert!(e.transpose().is_none()); }\n')
S['unsafe-tail'] = dict(property='C10', needs='the branching expression as tail of an unsafe block', breaks='branches inside a tail unsafe block are not found',
 edits=[('src/auto_enum/expr.rs', '''        Expr::Block(ExprBlock { block, .. }) | Expr::Unsafe(ExprUnsafe { block, .. }) => {
            if let Some(Stmt::Expr(expr, None)) = block.stmts.last_mut() {''', '''        Expr::Block(ExprBlock { block, .. }) => {
            if let Some(Stmt::Expr(expr, None)) = block.stmts.last_mut() {''')],
 main='#[auto_enums::auto_enum(Iterator)] fn f(x: bool) -> impl Iterator<Item = u8> { unsafe { if x { 0..*[3u8].get_unchecked(0) } else { vec![9].into_iter() } } }\nfn main() { assert_eq!(f(true).count(), 3); assert_eq!(f(false).next(), Some(9)); }\n')
S['loop-nested-state'] = dict(property='C11', needs='a labelled loop with an inner loop before an unlabelled break', breaks='an unlabelled break after an inner loop is not wrapped',
 edits=[('src/auto_enum/expr.rs', '            visit_mut::visit_expr_mut(self, node);\n            self.nested = tmp;\n', '            visit_mut::visit_expr_mut(self, node);\n            self.nested |= tmp;\n')],
 main='#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { \'a: loop { let mut i = 0; while i < 3u8 { if i == x { break \'a 0..2u8; } i += 1; } break vec![7u8].into_iter(); } }\nfn main() { assert_eq!(f(1).count(), 2); assert_eq!(f(9).next(), Some(7)); }\n')
S['bare-return'] = dict(property='C12', needs='a return without a value', breaks='a bare return is not wrapped',
 edits=[('src/auto_enum/context.rs', 'replace_expr(expr.get_or_insert_with(|| Box::new(unit())), |expr| {', 'let _ = unit;\n        let expr = if let Some(expr) = expr { expr } else { return };\n        replace_expr(expr, |expr| {')],
 main='#[auto_enums::auto_enum(Debug)] fn f(x: u8) -> impl core::fmt::Debug { if x == 0 { return; } if x == 1 { return 1u8; } \'c\' }\nfn main() { #[auto_enums::enum_derive(Debug)] #[allow(dead_code)] enum E { A(u8) } f(1); f(2); let _ = f(0); }\n'.replace("'c'", "match x { 2 => 'c', _ => \"s\" }"))
S['try-block-scope'] = dict(property='C13', needs='a try block with ? in a function with two other ?', breaks='? inside try blocks is desugared into a return of the function',
 edits=[('src/auto_enum/visitor.rs', 'if !self.scope.try_block && !self.scope.closure && !node', 'if !self.scope.closure && !node')],
 main='''#![feature(try_blocks)]
#[auto_enums::auto_enum(Debug)] fn f(a: Result<u8, u16>, b: Result<u8, &'static str>) -> Result<u8, impl core::fmt::Debug> { let c: Result<u8, u32> = try { Err::<u8, u32>(5)? }; if c == Err(5) { Ok(a? + b?) } else { Ok(0) } }
fn main() { assert_eq!(f(Ok(1), Ok(2)).ok(), Some(3)); assert!(f(Err(1), Ok(2)).is_err()); assert!(f(Ok(1), Err("")).is_err()); }
''')
S['foreign-panic-path'] = dict(property='C14', needs='a branch ending in another macro or function whose last path segment is panic or Err', breaks='foo::panic!(..) is taken for std panic and its branch is not wrapped',
 edits=[('src/utils.rs', 'if path.segments.len() == 1 && path.segments[0].ident == expected_path.last().unwrap() {', 'if path.segments.last().map(|s| &s.ident == expected_path.last().unwrap()) == Some(true) && !expected_crates.is_empty() {')],
 main='mod foo { macro_rules! p { ($e:expr) => { $e } } pub(crate) use p as panic; }\n#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { match x { 0 => 0..3u8, 1 => foo::panic!(vec![5u8].into_iter()), _ => core::iter::empty() } }\nfn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).next(), Some(5)); assert_eq!(f(2).next(), None); }\n')
S['match-any-arm'] = dict(property='C14', needs='a branch that is a match with one diverging arm', breaks='a branch that is a match with a single diverging arm is not wrapped',
 edits=[('src/auto_enum/expr.rs', 'arms.iter().all(|arm| arm', 'arms.iter().any(|arm| arm')],
 main='#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { match x { 0 => 0..3u8, 1 => match x { 1 => vec![5u8].into_iter(), _ => panic!() }, _ => core::iter::empty() } }\nfn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).next(), Some(5)); assert_eq!(f(2).next(), None); }\n')
S['find-nested-local'] = dict(property='C15', needs='a branch whose block has a #[nested] let', breaks='a branch containing a #[nested] let binding is wrapped once more',
 edits=[('src/auto_enum/visitor.rs', '''        fn visit_local_mut(&mut self, node: &mut Local) {
            if !node.any_attr(NAME) {
                if node.any_empty_attr(NESTED) {
                    self.has = true;
                } else {
                    visit_mut::visit_local_mut(self, node);
                }
            }
        }

''', '')],
 main='#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { match x { 0 => 0..3u8, _ => { #[nested] let y = match x { 1 => vec![5u8].into_iter(), _ => core::iter::empty() }; y } } }\nfn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).next(), Some(5)); assert_eq!(f(2).next(), None); }\n')
S['marker-sibling'] = dict(property='C16', needs='two sibling nested scopes with the same custom marker name', breaks='the second of two sibling scopes with the same marker name is rejected as a duplicate of its parent',
 edits=[('src/auto_enum/context.rs', '        child.markers.pop();\n', '        child.markers.truncate(usize::MAX);\n')],
 main='''#[auto_enums::auto_enum(Iterator)] fn f(x: u8) -> impl Iterator<Item = u8> { match x { 0 => { #[auto_enum(Iterator, marker = m)] let a = match x { 0 => 0..3u8, _ => vec![1u8].into_iter() }; a } _ => { #[auto_enum(Iterator, marker = m)] let b = match x { 1 => 0..=3u8, _ => vec![1u8].into_iter() }; b } } }
fn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).count(), 4); assert_eq!(f(2).count(), 1); }
''')
S['marker-attrs'] = dict(property='C16', needs='an attribute on a marker macro', breaks='outer attributes of marker macros are dropped',
 edits=[('src/auto_enum/context.rs', '    pub(super) fn next_expr_with_attrs(&mut self, attrs: Vec<Attribute>, expr: Expr) -> Expr {\n        self.builder.next_expr(attrs, expr)', '    pub(super) fn next_expr_with_attrs(&mut self, mut attrs: Vec<Attribute>, expr: Expr) -> Expr {\n        attrs.clear();\n        self.builder.next_expr(attrs, expr)')],
 main='''#![deny(unused_variables)]
#![feature(stmt_expr_attributes)]
#[auto_enums::auto_enum(Iterator)] fn f(x: bool) -> impl Iterator<Item = u8> { let r = if x { #[allow(unused_variables)] marker!({ let unused = 1; 0..3u8 }) } else { marker!(vec![1u8].into_iter()) }; r }
fn main() { assert_eq!(f(true).count(), 3); assert_eq!(f(false).count(), 1); }
''')
S['fn-count-items'] = dict(property='C13', needs='one ? in the function and others in a nested item', breaks='? in nested items counts for the annotated function',
 edits=[('src/auto_enum/visitor.rs', '''            visit_mut::visit_stmt_mut(self, node);

            self.scope = tmp;
        }

        fn visit_item_mut(&mut self, _: &mut Item) {
            // Do not recurse into nested items.
        }
    }

    let mut visitor = FnVisitor''', '''            visit_mut::visit_stmt_mut(self, node);

            self.scope = tmp;
        }
    }

    let mut visitor = FnVisitor''')],
 main='''#[auto_enums::auto_enum(Debug)] fn f(a: Result<u8, u16>) -> Result<u8, impl core::fmt::Debug + From<u16>> { fn g(a: Result<u8, u16>) -> Result<u8, u16> { Ok(a? + a?) } let v = g(a)?; match v { 0 => marker!(Ok(1)), _ => marker!(Err(2u16)) } }
fn main() {}
'''.replace('match v { 0 => marker!(Ok(1)), _ => marker!(Err(2u16)) }', 'let _d = match v { 0 => marker!(1u8), _ => marker!("x") }; Ok::<u8, u16>(v)'))
S['nested-error-lost'] = dict(property='C18', needs='a nested scope without any value branch', breaks='an error of a nested scope is forgotten when it is joined to its parent',
 edits=[('src/auto_enum/context.rs', '''        if let Some(message) = child.error.borrow_mut().take().unwrap() {
            self.error(message);
        }
''', '''        let message = child.error.borrow_mut().take().unwrap();
        self.error.borrow_mut().get_or_insert(message);
''')],
 main='#[auto_enums::auto_enum(Debug)] fn f(x: bool) -> impl core::fmt::Debug { if x { 1u8 } else { \'c\' } }\nfn main() { f(true); f(false); }\n',
 fail={'inner': 'use auto_enums::auto_enum;\n#[auto_enum(Debug)] fn f(x: bool) -> impl core::fmt::Debug { #[auto_enum(Debug)] let _y = match x { true => 1u8, false => panic!() }; if x { 1u8 } else { \'c\' } }\nfn main() { f(true); }\n// expect: is required two or more\n'})
S['uninit-let'] = dict(property='C18', needs='an annotated let without initializer', breaks='an uninitialized let is accepted silently',
 edits=[('src/auto_enum/mod.rs', '''        cx.error(format_err!(
            local,
            "the `#[auto_enum]` attribute is not supported uninitialized let statement"
        ));
        return;''', '''        return;''')],
 main='#[auto_enums::auto_enum(Debug)] fn f(x: bool) -> impl core::fmt::Debug { if x { 1u8 } else { \'c\' } }\nfn main() { f(true); f(false); }\n',
 fail={'let': 'use auto_enums::auto_enum;\n#[auto_enum] fn f() -> u8 { #[auto_enum(Debug)] let y; y = 1u8; y }\nfn main() { f(); }\n'})
S['enum-name-first-token'] = dict(property='C19', needs='nested scopes that start with the same token and an outer marker inside the inner scope', breaks='nested scopes share the name of their enum, so an outer variant inside the inner scope names the wrong enum',
 edits=[('src/auto_enum/context.rs', 'hasher.write(input.to_string().as_bytes());', 'hasher.write(input.clone().into_iter().next().map(|t| t.to_string()).unwrap_or_default().as_bytes());')],
 main='''#![feature(proc_macro_hygiene, stmt_expr_attributes)]
fn f(n: u8) -> String { #[auto_enums::auto_enum(Display, marker = out)] let x = 'a: { #[auto_enum(Display)] let y = match n { 0 => 1u8, 1 => "x", _ => break 'a out!('c') }; out!(y.to_string()) }; x.to_string() }
fn main() { assert_eq!(f(0), "1"); assert_eq!(f(1), "x"); assert_eq!(f(2), "c"); }
''')
S['nested-impl-trait'] = dict(property='C20', needs='an impl Trait inside another impl Trait', breaks='traits of an impl Trait nested in another impl Trait are not collected', features=['std', 'type_analysis'],
 edits=[('src/auto_enum/type_analysis.rs', '            visit_mut::visit_type_impl_trait_mut(self, node);\n', '            let _ = visit_mut::visit_type_impl_trait_mut::<Self>;\n')],
 main='''trait Mk { type I; fn mk(self) -> Self::I; } struct W<T>(T); impl<T> Mk for W<T> { type I = T; fn mk(self) -> T { self.0 } }
#[auto_enums::auto_enum(Debug)] fn f(x: bool) -> impl Mk<I = impl Iterator<Item = u8>> { let v = W(if x { marker!(0..3u8) } else { marker!(vec![1u8].into_iter()) }); v }
fn main() { assert_eq!(f(true).mk().count(), 3); assert_eq!(f(false).mk().count(), 1); }
''')
