//! Results of asynchronous I/O.
#![allow(dead_code)]
use super::*;
use std::task::Poll;
use std::io;
pub type A = Poll<R>;
pub fn pio(r: u64) -> Poll<io::Result<usize>> { if r & 6 == 6 { Poll::Pending } else { Poll::Ready(ioe(r)) } }
pub fn unit<E>(p: Poll<std::result::Result<usize, E>>) -> Poll<std::result::Result<(), E>> { match p { Poll::Pending => Poll::Pending, Poll::Ready(r) => Poll::Ready(r.map(|_| ())) } }
pub fn wide(p: Poll<io::Result<usize>>) -> Poll<io::Result<u64>> { match p { Poll::Pending => Poll::Pending, Poll::Ready(r) => Poll::Ready(r.map(|x| x as u64)) } }
pub fn av(p: Poll<io::Result<usize>>) -> A { match p { Poll::Pending => Poll::Pending, Poll::Ready(r) => Poll::Ready(ior(r)) } }
pub fn av0(p: Poll<io::Result<()>>) -> A { match p { Poll::Pending => Poll::Pending, Poll::Ready(r) => Poll::Ready(ior(r.map(|()| 0))) } }
pub fn av64(p: Poll<io::Result<u64>>) -> A { match p { Poll::Pending => Poll::Pending, Poll::Ready(r) => Poll::Ready(ior(r.map(|x| x as usize))) } }
pub fn put2(b: &mut [u8], r: u64) { if !b.is_empty() { b[0] = (r >> 8) as u8; let n = b.len(); b[n - 1] ^= (r >> 16) as u8; } }
/// Ready with bytes of the payload itself, an error, or pending.
pub fn slice(s: &u64, r: u64) -> Poll<io::Result<&[u8]>> { if r & 6 == 6 { Poll::Pending } else if r & 1 == 0 { Poll::Ready(Ok(bytes(s, r >> 3))) } else { Poll::Ready(Err(err(r))) } }
/// The bytes' length, content and (relative) place.
pub fn sliced(p: Poll<io::Result<&[u8]>>) -> (A, u64) { let mut c = 0; let a = match p { Poll::Pending => Poll::Pending, Poll::Ready(Ok(b)) => { c = sum(b); Poll::Ready(Ok(b.len())) } Poll::Ready(Err(e)) => Poll::Ready(Err(code(&e))) }; (a, c) }
