//! C04: tokio 0.2: AsyncRead, AsyncWrite, AsyncSeek, AsyncBufRead.
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
#[path = "../wk.rs"]
#[macro_use]
mod wk;
use wk::*;
#[path = "../iop.rs"]
mod iop;
use iop::*;
#[path = "../aio.rs"]
mod aio;
use aio::*;
use std::io::{self, SeekFrom};
use std::task::{Context, Poll};

extern crate tokio02_crate as tokio;
use std::mem::MaybeUninit;
use tokio::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
impl<const K: u8> AsyncRead for P<K> {
    unsafe fn prepare_uninitialized_buffer(&self, b: &mut [MaybeUninit<u8>]) -> bool { let r = self.hit(21, b.len() as u64, 0, 0); if !b.is_empty() { b[0] = MaybeUninit::new(r as u8); } r & 256 == 0 }
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { let r = self.pin_mut(20, wid(cx), b.len() as u64, sum(b)); put2(b, r); pio(r) }
}
impl<const K: u8> AsyncSeek for P<K> {
    fn start_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<()>> { let (a, b) = sf(p); unit(pio(self.pin_mut(40, a, b, wid(cx)))) }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> { wide(pio(self.pin_mut(41, wid(cx), 0, 0))) }
}
contract!(poll_read, E, pin, (w: u64, b: u32, n: u8), (A, u32), |e| { let mut a = b.to_le_bytes(); let r = av(with_cx!(w, c, AsyncRead::poll_read(e, c, &mut a[..(n & 3) as usize]))); (r, u32::from_le_bytes(a)) });
contract!(prepare_uninitialized_buffer, E, rf, (b: u8, n: u8), (bool, u8), |e| { let mut a = [MaybeUninit::new(b); 3]; let r = unsafe { AsyncRead::prepare_uninitialized_buffer(&*e, &mut a[..(n & 3) as usize]) }; (r, unsafe { a[0].assume_init() }) });
contract!(start_seek_start, E, pin, (w: u64, x: u64), A, |e| av0(with_cx!(w, c, AsyncSeek::start_seek(e, c, SeekFrom::Start(x)))));
contract!(start_seek_end, E, pin, (w: u64, x: i64), A, |e| av0(with_cx!(w, c, AsyncSeek::start_seek(e, c, SeekFrom::End(x)))));
contract!(start_seek_current, E, pin, (w: u64, x: i64), A, |e| av0(with_cx!(w, c, AsyncSeek::start_seek(e, c, SeekFrom::Current(x)))));
impl<const K: u8> AsyncWrite for P<K> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { pio(self.pin_mut(30, wid(cx), b.len() as u64, sum(b))) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { unit(pio(self.pin_mut(32, wid(cx), 0, 0))) }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { unit(pio(self.pin_mut(33, wid(cx), 0, 0))) }
}
impl<const K: u8> AsyncBufRead for P<K> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { let this = unsafe { self.get_unchecked_mut() }; let r = this.hit_mut(50, wid(cx), 0, 0); slice(&this.s, r) }
    fn consume(self: Pin<&mut Self>, n: usize) { self.pin_mut(51, n as u64, 0, 0); }
}
variants!(#[enum_derive(tokio02::AsyncRead, tokio02::AsyncWrite, tokio02::AsyncSeek, tokio02::AsyncBufRead)] E);
contract!(poll_write, E, pin, (w: u64, b: u32, n: u8), A, |e| av(with_cx!(w, c, AsyncWrite::poll_write(e, c, &b.to_le_bytes()[..(n & 3) as usize]))));
contract!(poll_flush, E, pin, (w: u64), A, |e| av0(with_cx!(w, c, AsyncWrite::poll_flush(e, c))));
contract!(poll_shutdown, E, pin, (w: u64), A, |e| av0(with_cx!(w, c, AsyncWrite::poll_shutdown(e, c))));
contract!(poll_fill_buf, E, pin, (w: u64), (A, u64), |e| sliced(with_cx!(w, c, AsyncBufRead::poll_fill_buf(e, c))));
contract!(consume, E, pin, (n: usize), (), |e| AsyncBufRead::consume(e, n));
contract!(poll_complete, E, pin, (w: u64), A, |e| av64(with_cx!(w, c, AsyncSeek::poll_complete(e, c))));
harnesses!(poll_read, prepare_uninitialized_buffer, start_seek_start, start_seek_end, start_seek_current, poll_write, poll_flush, poll_shutdown, poll_fill_buf, consume, poll_complete);
