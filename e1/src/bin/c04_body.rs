//! C04: http_body 1: Body.
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
#[path = "../wk.rs"]
#[macro_use]
mod wk;
use wk::*;
use std::task::{Context, Poll};
extern crate http_body1_crate as http_body;
use http_body::{Body, Frame, SizeHint};
static DATA: [u8; 4] = [3, 1, 4, 1];
impl<const K: u8> Body for P<K> { type Data = &'static [u8]; type Error = u8;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<&'static [u8]>, u8>>> {
        let r = self.pin_mut(1, wid(cx), 0, 0);
        match r & 3 { 0 => Poll::Pending, 1 => Poll::Ready(None), 2 => Poll::Ready(Some(Err((r >> 8) as u8))), _ => Poll::Ready(Some(Ok(Frame::data(&DATA[..(r >> 2) as usize & 3])))) }
    }
    fn is_end_stream(&self) -> bool { self.hit(2, 0, 0, 0) & 1 == 1 }
    fn size_hint(&self) -> SizeHint { let r = self.hit(3, 0, 0, 0); let mut h = SizeHint::new(); h.set_lower(r >> 33); if r & 1 == 1 { h.set_upper(u64::MAX ^ (r & 0xff)); } h }
}
variants!(#[enum_derive(http_body1::Body)] E);
pub type F = Poll<Option<Result<usize, u8>>>;
contract!(poll_frame, E, pin, (w: u64), F, |e| match with_cx!(w, c, Body::poll_frame(e, c)) { Poll::Pending => Poll::Pending, Poll::Ready(None) => Poll::Ready(None), Poll::Ready(Some(Err(e))) => Poll::Ready(Some(Err(e))), Poll::Ready(Some(Ok(f))) => Poll::Ready(Some(Ok(f.data_ref().map_or(99, |d| d.len())))) });
contract!(is_end_stream, E, rf, (), bool, |e| Body::is_end_stream(&*e));
contract!(size_hint, E, rf, (), (u64, Option<u64>), |e| { let h = Body::size_hint(&*e); (h.lower(), h.upper()) });
harnesses!(poll_frame, is_end_stream, size_hint);
