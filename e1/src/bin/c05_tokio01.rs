//! C05: tokio 0.1: AsyncRead, AsyncWrite.
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
#[path = "../iop.rs"]
mod iop;
use iop::*;
extern crate tokio01_crate as tokio;
use tokio::{io::{AsyncRead, AsyncWrite}, prelude::{Async, Poll}};
use std::io;
pub fn pl(r: u64) -> Poll<usize, io::Error> { if r & 6 == 6 { Ok(Async::NotReady) } else { ioe(r).map(Async::Ready) } }
pub fn unit(p: Poll<usize, io::Error>) -> Poll<(), io::Error> { p.map(|a| a.map(|_| ())) }
pub type V = Result<Option<usize>, u8>;
pub fn view(p: Poll<usize, io::Error>) -> V { match p { Ok(Async::Ready(x)) => Ok(Some(x)), Ok(Async::NotReady) => Ok(None), Err(e) => Err(code(&e)) } }
pub fn view0(p: Poll<(), io::Error>) -> V { view(p.map(|a| a.map(|_| 0))) }
impl<const K: u8> AsyncRead for P<K> {
    unsafe fn prepare_uninitialized_buffer(&self, b: &mut [u8]) -> bool { let r = self.hit(21, b.len() as u64, sum(b), 0); if !b.is_empty() { b[0] = r as u8; } r & 256 == 0 }
    fn poll_read(&mut self, b: &mut [u8]) -> Poll<usize, io::Error> { let r = self.hit_mut(20, b.len() as u64, sum(b), 0); if !b.is_empty() { b[0] = (r >> 8) as u8; } pl(r) }
}
impl<const K: u8> AsyncWrite for P<K> {
    fn poll_write(&mut self, b: &[u8]) -> Poll<usize, io::Error> { pl(self.hit_mut(30, b.len() as u64, sum(b), 0)) }
    fn poll_flush(&mut self) -> Poll<(), io::Error> { unit(pl(self.hit_mut(31, 0, 0, 0))) }
    fn shutdown(&mut self) -> Poll<(), io::Error> { unit(pl(self.hit_mut(32, 0, 0, 0))) }
}
variants!(#[enum_derive(tokio01::AsyncRead, tokio01::AsyncWrite)] E);
contract!(prepare_uninitialized_buffer, E, rf, (b: u32, n: u8), (bool, u32), |e| { let mut a = b.to_le_bytes(); let r = unsafe { AsyncRead::prepare_uninitialized_buffer(&*e, &mut a[..(n & 3) as usize]) }; (r, u32::from_le_bytes(a)) });
contract!(poll_read, E, rf, (b: u32, n: u8), (V, u32), |e| { let mut a = b.to_le_bytes(); let r = view(AsyncRead::poll_read(e, &mut a[..(n & 3) as usize])); (r, u32::from_le_bytes(a)) });
contract!(poll_write, E, rf, (b: u32, n: u8), V, |e| view(AsyncWrite::poll_write(e, &b.to_le_bytes()[..(n & 3) as usize])));
contract!(poll_flush, E, rf, (), V, |e| view0(AsyncWrite::poll_flush(e)));
contract!(shutdown, E, rf, (), V, |e| view0(AsyncWrite::shutdown(e)));
harnesses!(prepare_uninitialized_buffer, poll_read, poll_write, poll_flush, shutdown);
