//! C04: Future, Coroutine.
#![feature(coroutine_trait)]
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
#[path = "../wk.rs"]
#[macro_use]
mod wk;
use wk::*;
use std::{future::Future, ops::{Coroutine, CoroutineState}, task::*};

impl<const K: u8> Future for P<K> { type Output = u64; fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> { pol(self.pin_mut(1, wid(cx), 0, 0)) } }
impl<const K: u8> Coroutine<u64> for P<K> { type Yield = u32; type Return = u64;
    fn resume(self: Pin<&mut Self>, arg: u64) -> CoroutineState<u32, u64> { let r = self.pin_mut(2, arg, 0, 0); if r & 1 == 0 { CoroutineState::Yielded(r as u32) } else { CoroutineState::Complete(r) } } }
variants!(#[enum_derive(Future)] E);
variants!(#[enum_derive(Coroutine)] Co);
contract!(future_poll, E, pin, (w: u64), Poll<u64>, |e| with_cx!(w, c, Future::poll(e, c)));
contract!(future_poll_twice, E, pin, (w: u64, w2: u64), (Poll<u64>, Poll<u64>), |e| (with_cx!(w, c, Future::poll(e.as_mut(), c)), with_cx!(w2, c, Future::poll(e.as_mut(), c))));
contract!(coroutine_resume, Co, pin, (a: u64), CoroutineState<u32, u64>, |e| Coroutine::resume(e, a));
contract!(coroutine_resume_twice, Co, pin, (a: u64, b: u64), (CoroutineState<u32, u64>, CoroutineState<u32, u64>), |e| (Coroutine::resume(e.as_mut(), a), Coroutine::resume(e.as_mut(), b)));
harnesses!(future_poll, future_poll_twice, coroutine_resume, coroutine_resume_twice);
