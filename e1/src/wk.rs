//! Task contexts: `w` identifies the waker, so a payload can record which context it was given.
#![allow(dead_code)]
use super::*;
use std::task::*;
pub use std::pin::Pin;
const VT: RawWakerVTable = RawWakerVTable::new(|d| RawWaker::new(d, &VT), |_| {}, |_| {}, |_| {});
pub fn waker(w: u64) -> Waker { unsafe { Waker::from_raw(RawWaker::new(w as usize as *const (), &VT)) } }
pub fn wid(cx: &Context<'_>) -> u64 { cx.waker().data() as usize as u64 }
/// A result of polling: pending or ready with a value.
pub fn pol(r: u64) -> Poll<u64> { if r & 3 == 3 { Poll::Pending } else { Poll::Ready(r >> 1) } }
macro_rules! with_cx { ($w:ident, $c:ident, $body:expr) => {{ let wk = crate::wk::waker($w); let mut cx = std::task::Context::from_waker(&wk); let $c = &mut cx; $body }} }
