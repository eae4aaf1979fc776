//! C04: tokio 1: AsyncRead, AsyncWrite, AsyncSeek, AsyncBufRead.
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
#[path = "../wk.rs"]
#[macro_use]
mod wk;
use wk::*;
#[path = "../iop.rs"]
mod iop;
use iop::*;
#[path = "../aio.rs"]
mod aio;
use aio::*;
use std::io::{self, IoSlice, IoSliceMut, SeekFrom};
use std::task::{Context, Poll};

extern crate tokio1_crate as tokio;
use tokio::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};
impl<const K: u8> AsyncRead for P<K> { fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let r = self.pin_mut(20, wid(cx), b.remaining() as u64, b.filled().len() as u64); if b.remaining() > 0 && r & 64 == 64 { b.put_slice(&[(r >> 8) as u8]); } unit(pio(r)) } }
impl<const K: u8> AsyncSeek for P<K> {
    fn start_seek(self: Pin<&mut Self>, p: SeekFrom) -> io::Result<()> { let (a, b) = sf(p); ioe(self.pin_mut(40, a, b, 0)).map(|_| ()) }
    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> { wide(pio(self.pin_mut(41, wid(cx), 0, 0))) }
}
contract!(poll_read, E, pin, (w: u64, b: u32, n: u8), (A, u32, usize), |e| { let mut a = b.to_le_bytes(); let (r, f) = { let mut rb = ReadBuf::new(&mut a[..(n & 3) as usize]); if n & 4 == 4 && n & 3 > 0 { rb.set_filled(1); } let r = av0(with_cx!(w, c, AsyncRead::poll_read(e, c, &mut rb))); (r, rb.filled().len()) }; (r, u32::from_le_bytes(a), f) });
contract!(start_seek_start, E, pin, (x: u64), R, |e| ior(AsyncSeek::start_seek(e, SeekFrom::Start(x)).map(|()| 0)));
contract!(start_seek_end, E, pin, (x: i64), R, |e| ior(AsyncSeek::start_seek(e, SeekFrom::End(x)).map(|()| 0)));
contract!(start_seek_current, E, pin, (x: i64), R, |e| ior(AsyncSeek::start_seek(e, SeekFrom::Current(x)).map(|()| 0)));
impl<const K: u8> AsyncWrite for P<K> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { pio(self.pin_mut(30, wid(cx), b.len() as u64, sum(b))) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { unit(pio(self.pin_mut(32, wid(cx), 0, 0))) }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { unit(pio(self.pin_mut(33, wid(cx), 0, 0))) }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, v: &[IoSlice<'_>]) -> Poll<io::Result<usize>> { pio(self.pin_mut(31, wid(cx), v.len() as u64 ^ (v[0].len() as u64) << 8, sum(&v[1]))) }
    fn is_write_vectored(&self) -> bool { self.hit(34, 0, 0, 0) & 1 == 1 }
}
contract!(poll_write_vectored, E, pin, (w: u64, b: u32, n: u8), A, |e| { let a = b.to_le_bytes(); let (x, y) = a.split_at((n & 3) as usize); av(with_cx!(w, c, AsyncWrite::poll_write_vectored(e, c, &[IoSlice::new(x), IoSlice::new(y)]))) });
contract!(is_write_vectored, E, rf, (), bool, |e| AsyncWrite::is_write_vectored(&*e));
impl<const K: u8> AsyncBufRead for P<K> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { let this = unsafe { self.get_unchecked_mut() }; let r = this.hit_mut(50, wid(cx), 0, 0); slice(&this.s, r) }
    fn consume(self: Pin<&mut Self>, n: usize) { self.pin_mut(51, n as u64, 0, 0); }
}
variants!(#[enum_derive(tokio1::AsyncRead, tokio1::AsyncWrite, tokio1::AsyncSeek, tokio1::AsyncBufRead)] E);
contract!(poll_write, E, pin, (w: u64, b: u32, n: u8), A, |e| av(with_cx!(w, c, AsyncWrite::poll_write(e, c, &b.to_le_bytes()[..(n & 3) as usize]))));
contract!(poll_flush, E, pin, (w: u64), A, |e| av0(with_cx!(w, c, AsyncWrite::poll_flush(e, c))));
contract!(poll_shutdown, E, pin, (w: u64), A, |e| av0(with_cx!(w, c, AsyncWrite::poll_shutdown(e, c))));
contract!(poll_fill_buf, E, pin, (w: u64), (A, u64), |e| sliced(with_cx!(w, c, AsyncBufRead::poll_fill_buf(e, c))));
contract!(consume, E, pin, (n: usize), (), |e| AsyncBufRead::consume(e, n));
contract!(poll_complete, E, pin, (w: u64), A, |e| av64(with_cx!(w, c, AsyncSeek::poll_complete(e, c))));
harnesses!(poll_read, start_seek_start, start_seek_end, start_seek_current, poll_write_vectored, is_write_vectored, poll_write, poll_flush, poll_shutdown, poll_fill_buf, consume, poll_complete);
