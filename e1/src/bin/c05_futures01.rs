//! C05: futures 0.1: Future, Stream, Sink.
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
extern crate futures01_crate as futures;
use futures::{Async, AsyncSink, Future, Poll, Sink, StartSend, Stream};
pub fn pl(r: u64) -> Poll<u64, u8> { match r & 3 { 0 => Ok(Async::NotReady), 1 => Err((r >> 8) as u8), _ => Ok(Async::Ready(r >> 1)) } }
pub fn unit(p: Poll<u64, u8>) -> Poll<(), u8> { p.map(|a| a.map(|_| ())) }
pub type V<T> = Result<Option<T>, u8>;
pub fn view<T>(p: Poll<T, u8>) -> V<T> { match p { Ok(Async::Ready(x)) => Ok(Some(x)), Ok(Async::NotReady) => Ok(None), Err(e) => Err(e) } }
pub fn views(p: StartSend<u32, u8>) -> V<u32> { match p { Ok(AsyncSink::Ready) => Ok(None), Ok(AsyncSink::NotReady(x)) => Ok(Some(x)), Err(e) => Err(e) } }
impl<const K: u8> Future for P<K> { type Item = u64; type Error = u8; fn poll(&mut self) -> Poll<u64, u8> { pl(self.hit_mut(1, 0, 0, 0)) } }
impl<const K: u8> Stream for P<K> { type Item = u64; type Error = u8; fn poll(&mut self) -> Poll<Option<u64>, u8> { let r = self.hit_mut(2, 0, 0, 0); pl(r).map(|a| a.map(|x| if r & 4 == 0 { None } else { Some(x) })) } }
impl<const K: u8> Sink for P<K> { type SinkItem = u32; type SinkError = u8;
    fn start_send(&mut self, item: u32) -> StartSend<u32, u8> { let r = self.hit_mut(3, item as u64, 0, 0); match r & 3 { 0 => Ok(AsyncSink::Ready), 1 => Err((r >> 8) as u8), _ => Ok(AsyncSink::NotReady(item ^ (r >> 2) as u32)) } }
    fn poll_complete(&mut self) -> Poll<(), u8> { unit(pl(self.hit_mut(4, 0, 0, 0))) }
    fn close(&mut self) -> Poll<(), u8> { unit(pl(self.hit_mut(5, 0, 0, 0))) }
}
variants!(#[enum_derive(futures01::Future)] F);
variants!(#[enum_derive(futures01::Stream)] S);
variants!(#[enum_derive(futures01::Sink)] E);
contract!(future_poll, F, rf, (), V<u64>, |e| view(Future::poll(e)));
contract!(stream_poll, S, rf, (), V<Option<u64>>, |e| view(Stream::poll(e)));
contract!(start_send, E, rf, (x: u32), V<u32>, |e| views(Sink::start_send(e, x)));
contract!(poll_complete, E, rf, (), V<()>, |e| view(Sink::poll_complete(e)));
contract!(close, E, rf, (), V<()>, |e| view(Sink::close(e)));
harnesses!(future_poll, stream_poll, start_send, poll_complete, close);
