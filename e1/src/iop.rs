//! std::io payloads.
#![allow(dead_code)]
use super::*;
use std::io::*;
pub type R = std::result::Result<usize, u8>;
pub fn err(r: u64) -> Error { Error::from(match (r >> 1) & 3 { 0 => ErrorKind::WouldBlock, 1 => ErrorKind::Interrupted, 2 => ErrorKind::UnexpectedEof, _ => ErrorKind::BrokenPipe }) }
pub fn ioe(r: u64) -> Result<usize> { if r & 1 == 0 { Ok((r >> 1) as usize) } else { Err(err(r)) } }
pub fn code(e: &Error) -> u8 { match e.kind() { ErrorKind::WouldBlock => 1, ErrorKind::Interrupted => 2, ErrorKind::UnexpectedEof => 3, ErrorKind::BrokenPipe => 4, ErrorKind::WriteZero => 5, ErrorKind::InvalidData => 6, _ => 7 } }
pub fn ior(r: Result<usize>) -> R { match r { Ok(n) => Ok(n), Err(e) => Err(code(&e)) } }
pub fn sf(p: SeekFrom) -> (u64, u64) { match p { SeekFrom::Start(x) => (0, x), SeekFrom::End(x) => (1, x as u64), SeekFrom::Current(x) => (2, x as u64) } }
pub fn sum(b: &[u8]) -> u64 { let mut c = 0u64; let mut i = 0; while i < b.len() && i < 4 { c = c.rotate_left(8) ^ b[i] as u64; i += 1; } c }
pub fn bytes(s: &u64, n: u64) -> &[u8] { unsafe { std::slice::from_raw_parts(s as *const u64 as *const u8, (n & 3) as usize) } }
fn put(b: &mut [u8], r: u64) { if !b.is_empty() { b[0] = (r >> 8) as u8; let n = b.len(); b[n - 1] ^= (r >> 16) as u8; } }
impl<const K: u8> Read for P<K> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> { let r = self.hit_mut(1, b.len() as u64, sum(b), 0); put(b, r); ioe(r) }
    fn read_vectored(&mut self, v: &mut [IoSliceMut<'_>]) -> Result<usize> { let r = self.hit_mut(2, v.len() as u64, v[0].len() as u64, sum(&v[1])); put(&mut v[0], r); put(&mut v[1], r >> 3); ioe(r) }
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> Result<usize> { let r = self.hit_mut(3, b.len() as u64, sum(b), 0); b.push(r as u8); ioe(r) }
    fn read_to_string(&mut self, b: &mut String) -> Result<usize> { let r = self.hit_mut(4, b.len() as u64, 0, 0); b.push((b'a' + (r & 7) as u8) as char); ioe(r) }
    fn read_exact(&mut self, b: &mut [u8]) -> Result<()> { let r = self.hit_mut(5, b.len() as u64, sum(b), 0); put(b, r); ioe(r).map(|_| ()) }
}
impl<const K: u8> Write for P<K> {
    fn write(&mut self, b: &[u8]) -> Result<usize> { ioe(self.hit_mut(10, b.len() as u64, sum(b), 0)) }
    fn write_vectored(&mut self, v: &[IoSlice<'_>]) -> Result<usize> { ioe(self.hit_mut(11, v.len() as u64, v[0].len() as u64, sum(&v[1]))) }
    fn flush(&mut self) -> Result<()> { ioe(self.hit_mut(12, 0, 0, 0)).map(|_| ()) }
    fn write_all(&mut self, b: &[u8]) -> Result<()> { ioe(self.hit_mut(13, b.len() as u64, sum(b), 0)).map(|_| ()) }
    fn write_fmt(&mut self, a: std::fmt::Arguments<'_>) -> Result<()> { let s = a.as_str().unwrap_or("??"); ioe(self.hit_mut(14, s.len() as u64, s.as_bytes()[0] as u64, 0)).map(|_| ()) }
}
