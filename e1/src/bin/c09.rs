//! C09: transpose, transpose_ok, transpose_err.
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;

#[enum_derive(Transpose)]
pub enum E<A, B, C> { A(A), B(B), C(C) }
/// What an E<u64, u32, u16> (or the error side) holds.
pub type V = (u8, u64);
pub fn view(e: E<u64, u32, u16>) -> V { match e { E::A(x) => (0, x), E::B(x) => (1, x as u64), E::C(x) => (2, x as u64) } }
pub fn viewe(e: E<i64, u8, bool>) -> V { match e { E::A(x) => (0, x as u64), E::B(x) => (1, x as u64), E::C(x) => (2, x as u64) } }
pub fn cut(k: u8, v: u64) -> V { match k { 0 => (0, v), 1 => (1, v as u32 as u64), _ => (2, v as u16 as u64) } }
pub fn cute(k: u8, v: u64) -> V { match k { 0 => (0, v), 1 => (1, v as u8 as u64), _ => (2, v & 1) } }

contract_raw!(transpose_option, (k: u8, some: bool, v: u64), Option<V>,
    if some { Some(cut(k, v)) } else { None },
    { let o = if some { Some(v) } else { None };
      let e: E<Option<u64>, Option<u32>, Option<u16>> = match k { 0 => E::A(o), 1 => E::B(o.map(|v| v as u32)), _ => E::C(o.map(|v| v as u16)) };
      e.transpose().map(view) });
contract_raw!(transpose_result, (k: u8, ok: bool, v: u64), Result<V, V>,
    if ok { Ok(cut(k, v)) } else { Err(cute(k, v)) },
    { let e: E<Result<u64, i64>, Result<u32, u8>, Result<u16, bool>> = match (k, ok) {
        (0, true) => E::A(Ok(v)), (0, false) => E::A(Err(v as i64)), (1, true) => E::B(Ok(v as u32)), (1, false) => E::B(Err(v as u8)),
        (_, true) => E::C(Ok(v as u16)), (_, false) => E::C(Err(v & 1 == 1)) };
      e.transpose().map(view).map_err(viewe) });
contract_raw!(transpose_ok, (k: u8, ok: bool, v: u64), Result<V, u64>,
    if ok { Ok(cut(k, v)) } else { Err(v) },
    { let r = if ok { Ok(v) } else { Err(v) };
      let e: E<Result<u64, u64>, Result<u32, u64>, Result<u16, u64>> = match k { 0 => E::A(r), 1 => E::B(r.map(|v| v as u32)), _ => E::C(r.map(|v| v as u16)) };
      e.transpose_ok().map(view) });
contract_raw!(transpose_err, (k: u8, ok: bool, v: u64), Result<u64, V>,
    if ok { Ok(v) } else { Err(cut(k, v)) },
    { let r = if ok { Ok(v) } else { Err(v) };
      let e: E<Result<u64, u64>, Result<u64, u32>, Result<u64, u16>> = match k { 0 => E::A(r), 1 => E::B(r.map_err(|v| v as u32)), _ => E::C(r.map_err(|v| v as u16)) };
      e.transpose_err().map_err(view) });

/// Payloads of other shapes: zero-sized, with a destructor (every value is dropped exactly once, and
/// only after the caller has it), borrowed, and larger than a word. `D` records its drops.
pub struct D<'a>(pub &'a core::cell::Cell<u32>, pub u64);
impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1); } }
pub struct Z;
pub type Big = [u64; 5];
pub fn shape<'a>(e: E<(), D<'a>, Big>) -> (u8, u64) { match e { E::A(()) => (0, 0), E::B(d) => (1, d.1), E::C(b) => (2, b[0] ^ b[4].rotate_left(9)) } }
pub fn shape2<'a>(e: E<Z, &'a mut u64, D<'a>>) -> (u8, u64) { match e { E::A(Z) => (0, 0), E::B(d) => (1, *d), E::C(d) => (2, d.1) } }
pub fn want(k: u8, v: u64, w: u64) -> (u8, u64) { match k { 0 => (0, 0), 1 => (1, v), _ => (2, v ^ w.rotate_left(9)) } }
pub fn want2(k: u8, v: u64) -> (u8, u64) { match k { 0 => (0, 0), 1 => (1, v), _ => (2, v) } }

contract_raw!(option_shapes, (k: u8, some: bool, v: u64, w: u64), (Option<(u8, u64)>, u32, u32),
    (if some { Some(want(k, v, w)) } else { None }, 0, (some && k == 1) as u32),
    { let c = core::cell::Cell::new(0);
      let e: E<Option<()>, Option<D<'_>>, Option<Big>> = match k { 0 => E::A(if some { Some(()) } else { None }), 1 => E::B(if some { Some(D(&c, v)) } else { None }), _ => E::C(if some { Some([v, 0, 0, 0, w]) } else { None }) };
      let o = e.transpose(); let before = c.get(); let o = o.map(shape); (o, before, c.get()) });
contract_raw!(result_shapes, (k: u8, ok: bool, v: u64, w: u64), (Result<(u8, u64), (u8, u64)>, u32, u32),
    (if ok { Ok(want(k, v, w)) } else { Err(want2(k, v)) }, 0, if ok { (k == 1) as u32 } else { (k > 1) as u32 }),
    { let c = core::cell::Cell::new(0); let mut x = v;
      let e: E<Result<(), Z>, Result<D<'_>, &mut u64>, Result<Big, D<'_>>> = match (k, ok) {
        (0, true) => E::A(Ok(())), (0, false) => E::A(Err(Z)), (1, true) => E::B(Ok(D(&c, v))), (1, false) => E::B(Err(&mut x)),
        (_, true) => E::C(Ok([v, 0, 0, 0, w])), (_, false) => E::C(Err(D(&c, v))) };
      let o = e.transpose(); let before = c.get(); let o = o.map(shape).map_err(shape2); (o, before, c.get()) });
contract_raw!(ok_shapes, (k: u8, ok: bool, v: u64, w: u64), (Result<(u8, u64), u64>, u32, u32),
    (if ok { Ok(want(k, v, w)) } else { Err(w) }, 0, if ok { (k == 1) as u32 } else { 1 }),
    { let c = core::cell::Cell::new(0);
      let e: E<Result<(), D<'_>>, Result<D<'_>, D<'_>>, Result<Big, D<'_>>> = match (k, ok) {
        (0, true) => E::A(Ok(())), (0, false) => E::A(Err(D(&c, w))), (1, true) => E::B(Ok(D(&c, v))), (1, false) => E::B(Err(D(&c, w))),
        (_, true) => E::C(Ok([v, 0, 0, 0, w])), (_, false) => E::C(Err(D(&c, w))) };
      let o = e.transpose_ok(); let before = c.get(); let o = o.map(shape).map_err(|d| d.1); (o, before, c.get()) });
contract_raw!(err_shapes, (k: u8, ok: bool, v: u64, w: u64), (Result<u64, (u8, u64)>, u32, u32),
    (if ok { Ok(w) } else { Err(want(k, v, w)) }, 0, if ok { 1 } else { (k == 1) as u32 }),
    { let c = core::cell::Cell::new(0);
      let e: E<Result<D<'_>, ()>, Result<D<'_>, D<'_>>, Result<D<'_>, Big>> = match (k, ok) {
        (0, true) => E::A(Ok(D(&c, w))), (0, false) => E::A(Err(())), (1, true) => E::B(Ok(D(&c, w))), (1, false) => E::B(Err(D(&c, v))),
        (_, true) => E::C(Ok(D(&c, w))), (_, false) => E::C(Err([v, 0, 0, 0, w])) };
      let o = e.transpose_err(); let before = c.get(); let o = o.map(|d| d.1).map_err(shape); (o, before, c.get()) });
harnesses!(option_shapes, result_shapes, ok_shapes, err_shapes, transpose_option, transpose_result, transpose_ok, transpose_err);
