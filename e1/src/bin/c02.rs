//! C02: formatting, conversion, operator, function and Error traits.
#![feature(fn_traits, unboxed_closures, formatting_options)]
#![allow(dead_code, deprecated)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
use std::{error::Error, fmt, ops::*};

pub fn fres(r: u64) -> fmt::Result { if r & 1 == 0 { Ok(()) } else { Err(fmt::Error) } }
macro_rules! fmts { ($($T:ident $id:literal),*) => {$(
    impl<const K: u8> fmt::$T for P<K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let flags = f.alternate() as u64 | (f.sign_plus() as u64) << 1 | (f.sign_aware_zero_pad() as u64) << 2;
        let r = self.hit($id, f.width().map_or(1 << 40, |x| x as u64), f.precision().map_or(1 << 40, |x| x as u64), flags);
        if r & 2 != 0 { f.write_char2((r >> 8) as u8 as char)?; }
        fres(r)
    } } )*} }
trait W2 { fn write_char2(&mut self, c: char) -> fmt::Result; }
impl W2 for fmt::Formatter<'_> { fn write_char2(&mut self, c: char) -> fmt::Result { fmt::Write::write_char(self, c) } }
fmts!(Debug 1, Display 2, Pointer 3, Binary 4, Octal 5, LowerHex 6, UpperHex 7, LowerExp 8, UpperExp 9);
/// A sink for formatted text that remembers the last character and may fail.
pub struct Buf { x: u32, n: u8, fail: bool }
impl fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.n += 1; self.x = s.len() as u32; if self.fail { Err(fmt::Error) } else { Ok(()) } }
    fn write_char(&mut self, c: char) -> fmt::Result { self.n += 1; self.x = c as u32; if self.fail { Err(fmt::Error) } else { Ok(()) } }
}
macro_rules! with_f { (|$f:ident| $body:expr, $w:expr, $p:expr, $fl:expr) => {{
    let mut o = fmt::FormattingOptions::new();
    if $fl & 1 != 0 { o.width(Some($w)); } if $fl & 2 != 0 { o.precision(Some($p)); }
    o.alternate($fl & 4 != 0); o.sign_aware_zero_pad($fl & 8 != 0);
    if $fl & 16 != 0 { o.sign(Some(fmt::Sign::Plus)); }
    let mut buf = Buf { x: 0, n: 0, fail: $fl & 32 != 0 };
    let r = { let mut ff = fmt::Formatter::new(&mut buf, o); let $f = &mut ff; $body };
    (r, buf.x, buf.n)
}} }
type FR = (fmt::Result, u32, u8);

impl<const K: u8> fmt::Write for P<K> {
    fn write_str(&mut self, s: &str) -> fmt::Result { let b = s.as_bytes(); fres(self.hit_mut(20, b.len() as u64, b[0] as u64, b[b.len() - 1] as u64)) }
    fn write_char(&mut self, c: char) -> fmt::Result { fres(self.hit_mut(21, c as u64, 0, 0)) }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> fmt::Result { let s = a.as_str().unwrap_or("??"); fres(self.hit_mut(22, s.len() as u64, s.as_bytes()[0] as u64, 0)) }
}
impl<const K: u8> AsRef<u64> for P<K> { fn as_ref(&self) -> &u64 { self.hit(30, 0, 0, 0); &self.s } }
impl<const K: u8> AsMut<u64> for P<K> { fn as_mut(&mut self) -> &mut u64 { self.hit_mut(31, 0, 0, 0); &mut self.s } }
impl<const K: u8> Deref for P<K> { type Target = u64; fn deref(&self) -> &u64 { self.hit(32, 0, 0, 0); &self.s } }
impl<const K: u8> DerefMut for P<K> { fn deref_mut(&mut self) -> &mut u64 { self.hit_mut(33, 0, 0, 0); &mut self.s } }
impl<const K: u8> Index<u32> for P<K> { type Output = u64; fn index(&self, i: u32) -> &u64 { self.hit(34, i as u64, 0, 0); &self.s } }
impl<const K: u8> IndexMut<u32> for P<K> { fn index_mut(&mut self, i: u32) -> &mut u64 { self.hit_mut(35, i as u64, 0, 0); &mut self.s } }
fn bound(r: u64, x: &u64) -> Bound<&u64> { match r & 3 { 0 => Bound::Included(x), 1 => Bound::Excluded(x), _ => Bound::Unbounded } }
impl<const K: u8> RangeBounds<u64> for P<K> {
    fn start_bound(&self) -> Bound<&u64> { let r = self.hit(36, 0, 0, 0); bound(r, &self.s) }
    fn end_bound(&self) -> Bound<&u64> { let r = self.hit(37, 0, 0, 0); bound(r >> 2, &self.s) }
}
impl<const K: u8> FnOnce<(u64,)> for P<K> { type Output = u32; extern "rust-call" fn call_once(self, a: (u64,)) -> u32 { self.hit(40, a.0, 0, 0) as u32 } }
impl<const K: u8> FnMut<(u64,)> for P<K> { extern "rust-call" fn call_mut(&mut self, a: (u64,)) -> u32 { self.hit_mut(41, a.0, 0, 0) as u32 } }
impl<const K: u8> Fn<(u64,)> for P<K> { extern "rust-call" fn call(&self, a: (u64,)) -> u32 { self.hit(42, a.0, 0, 0) as u32 } }
impl<const K: u8> Error for P<K> {
    fn source(&self) -> Option<&(dyn Error + 'static)> { self.hit(50, 0, 0, 0); None }
    fn description(&self) -> &str { let r = self.hit(51, 0, 0, 0); &"abcdefgh"[..(r & 7) as usize] }
}
/// The reported source: for the payload of a generated Error, the payload itself.
pub trait Src2 { fn src(&self) -> Option<&(dyn Error + 'static)>; }
impl<const K: u8> Src2 for P<K> { fn src(&self) -> Option<&(dyn Error + 'static)> { Some(self) } }
#[cfg(not(feature = "wide"))] pub type ErP = Er<P<0>, P<1>, P<2>>;
#[cfg(feature = "wide")] pub type ErP = Er<P<0>, P<1>, P<2>, P<3>, P<4>, P<5>, P<6>, P<7>>;
impl Src2 for ErP { fn src(&self) -> Option<&(dyn Error + 'static)> { Error::source(self) } }

variants!(#[enum_derive(Debug, Display, fmt::Pointer, fmt::Binary, fmt::Octal, fmt::LowerHex, fmt::UpperHex, fmt::LowerExp, fmt::UpperExp)] F);
variants!(#[enum_derive(fmt::Write)] Wr);
variants!(#[enum_derive(AsRef, AsMut)] Cv);
variants!(#[enum_derive(Deref, DerefMut)] De);
variants!(#[enum_derive(Index, IndexMut)] Ix);
variants!(#[enum_derive(RangeBounds)] Rb);
variants!(#[enum_derive(Fn, FnMut, FnOnce)] Fu);
variants!(#[enum_derive(Debug, Display, Error)] Er);

contract!(debug, F, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::Debug::fmt(e, f), w, p, fl));
contract!(display, F, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::Display::fmt(e, f), w, p, fl));
pub fn ptr<T: fmt::Pointer>(e: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result { e.fmt(f) }
contract!(pointer, F, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| ptr(&*e, f), w, p, fl));
contract!(binary, F, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::Binary::fmt(e, f), w, p, fl));
contract!(octal, F, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::Octal::fmt(e, f), w, p, fl));
contract!(lower_hex, F, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::LowerHex::fmt(e, f), w, p, fl));
contract!(upper_hex, F, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::UpperHex::fmt(e, f), w, p, fl));
contract!(lower_exp, F, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::LowerExp::fmt(e, f), w, p, fl));
contract!(upper_exp, F, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::UpperExp::fmt(e, f), w, p, fl));
contract!(write_str, Wr, rf, (n: u8), fmt::Result, |e| fmt::Write::write_str(e, &"abcdefgh"[..1 + (n & 7) as usize]));
contract!(write_char, Wr, rf, (n: u8), fmt::Result, |e| fmt::Write::write_char(e, n as char));
contract!(write_fmt, Wr, rf, (n: bool), fmt::Result, |e| if n { fmt::Write::write_fmt(e, format_args!("yes")) } else { fmt::Write::write_fmt(e, format_args!("no")) });
contract!(as_ref, Cv, rf, (), u64, |e| *AsRef::<u64>::as_ref(&*e));
contract!(as_mut, Cv, rf, (x: u64), u64, |e| { let m = AsMut::<u64>::as_mut(e); let o = *m; *m = x; o });
contract!(deref, De, rf, (), u64, |e| *Deref::deref(e));
contract!(deref_mut, De, rf, (x: u64), u64, |e| { let m = DerefMut::deref_mut(e); let o = *m; *m = x; o });
contract!(index, Ix, rf, (i: u32), u64, |e| *Index::<u32>::index(e, i));
contract!(index_mut, Ix, rf, (i: u32, x: u64), u64, |e| { let m = IndexMut::<u32>::index_mut(e, i); let o = *m; *m = x; o });
contract!(start_bound, Rb, rf, (), Bound<u64>, |e| RangeBounds::<u64>::start_bound(e).cloned());
contract!(end_bound, Rb, rf, (), Bound<u64>, |e| RangeBounds::<u64>::end_bound(e).cloned());
contract!(call_once, Fu, mv, (x: u64), u32, |e| FnOnce::call_once(e, (x,)));
pub fn cm<T: FnMut(u64) -> u32>(e: &mut T, x: u64) -> u32 { e.call_mut((x,)) }
pub fn cr<T: Fn(u64) -> u32>(e: &T, x: u64) -> u32 { e.call((x,)) }
contract!(call_mut, Fu, rf, (x: u64), u32, |e| cm(e, x));
contract!(call_ref, Fu, rf, (x: u64), u32, |e| cr(&*e, x));
contract!(description, Er, rf, (), usize, |e| Error::description(&*e).len());
contract!(source, Er, rf, (), Option<usize>, |e| Src2::src(&*e).map(|x| x.description().len()));
contract!(err_debug, Er, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::Debug::fmt(e, f), w, p, fl));
contract!(err_display, Er, rf, (w: u16, p: u16, fl: u8), FR, |e| with_f!(|f| fmt::Display::fmt(e, f), w, p, fl));
harnesses!(debug, display, pointer, binary, octal, lower_hex, upper_hex, lower_exp, upper_exp, write_str, write_char, write_fmt, as_ref, as_mut, deref, deref_mut, index, index_mut, start_bound, end_bound, call_once, call_mut, call_ref, description, source, err_debug, err_display);
