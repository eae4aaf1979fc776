//! C04: futures 0.3: Stream, Sink, AsyncRead, AsyncWrite, AsyncSeek, AsyncBufRead.
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
#[path = "../wk.rs"]
#[macro_use]
mod wk;
use wk::*;
#[path = "../iop.rs"]
mod iop;
use iop::*;
#[path = "../aio.rs"]
mod aio;
use aio::*;
use std::io::{self, IoSlice, IoSliceMut, SeekFrom};
use std::task::{Context, Poll};

extern crate futures03_crate as futures;
use futures::{stream::Stream, sink::Sink, io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite}};

impl<const K: u8> Stream for P<K> { type Item = u32;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> { match pol(self.pin_mut(1, wid(cx), 0, 0)) { Poll::Pending => Poll::Pending, Poll::Ready(r) => Poll::Ready(opt(r)) } }
    fn size_hint(&self) -> (usize, Option<usize>) { let r = self.hit(2, 0, 0, 0); (r as usize, opt(r).map(|x| x as usize)) }
}
pub type S = Poll<Result<(), u8>>;
fn ps(r: u64) -> S { match pol(r) { Poll::Pending => Poll::Pending, Poll::Ready(r) => Poll::Ready(res(r).map(|_| ())) } }
impl<const K: u8> Sink<u32> for P<K> { type Error = u8;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> S { ps(self.pin_mut(10, wid(cx), 0, 0)) }
    fn start_send(self: Pin<&mut Self>, item: u32) -> Result<(), u8> { res(self.pin_mut(11, item as u64, 0, 0)).map(|_| ()) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> S { ps(self.pin_mut(12, wid(cx), 0, 0)) }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> S { ps(self.pin_mut(13, wid(cx), 0, 0)) }
}
impl<const K: u8> AsyncRead for P<K> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { let r = self.pin_mut(20, wid(cx), b.len() as u64, sum(b)); put2(b, r); pio(r) }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, v: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> { let r = self.pin_mut(21, wid(cx), v.len() as u64 ^ (v[0].len() as u64) << 8, sum(&v[1])); put2(&mut v[0], r); put2(&mut v[1], r >> 3); pio(r) }
}
impl<const K: u8> AsyncWrite for P<K> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { pio(self.pin_mut(30, wid(cx), b.len() as u64, sum(b))) }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, v: &[IoSlice<'_>]) -> Poll<io::Result<usize>> { pio(self.pin_mut(31, wid(cx), v.len() as u64 ^ (v[0].len() as u64) << 8, sum(&v[1]))) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { unit(pio(self.pin_mut(32, wid(cx), 0, 0))) }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { unit(pio(self.pin_mut(33, wid(cx), 0, 0))) }
}
impl<const K: u8> AsyncSeek for P<K> { fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<u64>> { let (a, b) = sf(p); wide(pio(self.pin_mut(40, wid(cx), a, b))) } }
impl<const K: u8> AsyncBufRead for P<K> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { let this = unsafe { self.get_unchecked_mut() }; let r = this.hit_mut(50, wid(cx), 0, 0); slice(&this.s, r) }
    fn consume(self: Pin<&mut Self>, n: usize) { self.pin_mut(51, n as u64, 0, 0); }
}
variants!(#[enum_derive(futures03::Stream)] St);
variants!(#[enum_derive(futures03::Sink)] Si);
variants!(#[enum_derive(futures03::AsyncRead, futures03::AsyncWrite, futures03::AsyncSeek, futures03::AsyncBufRead)] E);

contract!(stream_poll_next, St, pin, (w: u64), Poll<Option<u32>>, |e| with_cx!(w, c, Stream::poll_next(e, c)));
contract!(stream_size_hint, St, rf, (), (usize, Option<usize>), |e| Stream::size_hint(&*e));
contract!(sink_poll_ready, Si, pin, (w: u64), S, |e| with_cx!(w, c, Sink::<u32>::poll_ready(e, c)));
contract!(sink_start_send, Si, pin, (x: u32), Result<(), u8>, |e| Sink::<u32>::start_send(e, x));
contract!(sink_poll_flush, Si, pin, (w: u64), S, |e| with_cx!(w, c, Sink::<u32>::poll_flush(e, c)));
contract!(sink_poll_close, Si, pin, (w: u64), S, |e| with_cx!(w, c, Sink::<u32>::poll_close(e, c)));
contract!(poll_read, E, pin, (w: u64, b: u32, n: u8), (A, u32), |e| { let mut a = b.to_le_bytes(); let r = av(with_cx!(w, c, AsyncRead::poll_read(e, c, &mut a[..(n & 3) as usize]))); (r, u32::from_le_bytes(a)) });
contract!(poll_read_vectored, E, pin, (w: u64, b: u32, n: u8), (A, u32), |e| { let mut a = b.to_le_bytes(); let r = { let (x, y) = a.split_at_mut((n & 3) as usize); let mut v = [IoSliceMut::new(x), IoSliceMut::new(y)]; av(with_cx!(w, c, AsyncRead::poll_read_vectored(e, c, &mut v))) }; (r, u32::from_le_bytes(a)) });
contract!(poll_write, E, pin, (w: u64, b: u32, n: u8), A, |e| av(with_cx!(w, c, AsyncWrite::poll_write(e, c, &b.to_le_bytes()[..(n & 3) as usize]))));
contract!(poll_write_vectored, E, pin, (w: u64, b: u32, n: u8), A, |e| { let a = b.to_le_bytes(); let (x, y) = a.split_at((n & 3) as usize); av(with_cx!(w, c, AsyncWrite::poll_write_vectored(e, c, &[IoSlice::new(x), IoSlice::new(y)]))) });
contract!(poll_flush, E, pin, (w: u64), A, |e| av0(with_cx!(w, c, AsyncWrite::poll_flush(e, c))));
contract!(poll_close, E, pin, (w: u64), A, |e| av0(with_cx!(w, c, AsyncWrite::poll_close(e, c))));
contract!(poll_seek_start, E, pin, (w: u64, x: u64), A, |e| av64(with_cx!(w, c, AsyncSeek::poll_seek(e, c, SeekFrom::Start(x)))));
contract!(poll_seek_end, E, pin, (w: u64, x: i64), A, |e| av64(with_cx!(w, c, AsyncSeek::poll_seek(e, c, SeekFrom::End(x)))));
contract!(poll_seek_current, E, pin, (w: u64, x: i64), A, |e| av64(with_cx!(w, c, AsyncSeek::poll_seek(e, c, SeekFrom::Current(x)))));
contract!(poll_fill_buf, E, pin, (w: u64), (A, u64), |e| sliced(with_cx!(w, c, AsyncBufRead::poll_fill_buf(e, c))));
contract!(consume, E, pin, (n: usize), (), |e| AsyncBufRead::consume(e, n));
harnesses!(stream_poll_next, stream_size_hint, sink_poll_ready, sink_start_send, sink_poll_flush, sink_poll_close, poll_read, poll_read_vectored, poll_write, poll_write_vectored, poll_flush, poll_close, poll_seek_start, poll_seek_end, poll_seek_current, poll_fill_buf, consume);
