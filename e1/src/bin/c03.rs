//! C03: std::io traits.
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
#[path = "../iop.rs"]
mod iop;
use iop::*;
use std::io::*;

impl<const K: u8> Seek for P<K> { fn seek(&mut self, p: SeekFrom) -> Result<u64> { let (a, b) = sf(p); ioe(self.hit_mut(30, a, b, 0)).map(|x| x as u64) } }
impl<const K: u8> BufRead for P<K> {
    fn fill_buf(&mut self) -> Result<&[u8]> { let r = self.hit_mut(40, 0, 0, 0); if r & 1 == 0 { Ok(bytes(&self.s, r >> 1)) } else { Err(err(r)) } }
    fn consume(&mut self, n: usize) { self.hit_mut(41, n as u64, 0, 0); }
    fn read_until(&mut self, b: u8, v: &mut Vec<u8>) -> Result<usize> { let r = self.hit_mut(42, b as u64, v.len() as u64, 0); v.push(r as u8); ioe(r) }
    fn read_line(&mut self, v: &mut String) -> Result<usize> { let r = self.hit_mut(43, v.len() as u64, 0, 0); v.push((b'a' + (r & 7) as u8) as char); ioe(r) }
}
variants!(#[enum_derive(Read, Write, Seek, BufRead)] E);

contract!(read, E, rf, (b: u32, n: u8), (R, u32), |e| { let mut a = b.to_le_bytes(); let r = ior(Read::read(e, &mut a[..(n & 3) as usize])); (r, u32::from_le_bytes(a)) });
contract!(read_vectored, E, rf, (b: u32, n: u8), (R, u32), |e| { let mut a = b.to_le_bytes(); let r = { let (x, y) = a.split_at_mut((n & 3) as usize); let mut v = [IoSliceMut::new(x), IoSliceMut::new(y)]; ior(Read::read_vectored(e, &mut v)) }; (r, u32::from_le_bytes(a)) });
contract!(read_to_end, E, rf, (b: u8), (R, usize, u8, u8), |e| { let mut v = vec![b]; let r = ior(Read::read_to_end(e, &mut v)); (r, v.len(), v[0], v[v.len() - 1]) });
contract!(read_to_string, E, rf, (), (R, usize, u8), |e| { let mut v = String::from("x"); let r = ior(Read::read_to_string(e, &mut v)); (r, v.len(), v.as_bytes()[v.len() - 1]) });
contract!(read_exact, E, rf, (b: u32, n: u8), (bool, u32), |e| { let mut a = b.to_le_bytes(); let r = Read::read_exact(e, &mut a[..(n & 3) as usize]).is_ok(); (r, u32::from_le_bytes(a)) });
contract!(write, E, rf, (b: u32, n: u8), R, |e| ior(Write::write(e, &b.to_le_bytes()[..(n & 3) as usize])));
contract!(write_vectored, E, rf, (b: u32, n: u8), R, |e| { let a = b.to_le_bytes(); let (x, y) = a.split_at((n & 3) as usize); ior(Write::write_vectored(e, &[IoSlice::new(x), IoSlice::new(y)])) });
contract!(flush, E, rf, (), R, |e| ior(Write::flush(e).map(|()| 0)));
contract!(write_all, E, rf, (b: u32, n: u8), R, |e| ior(Write::write_all(e, &b.to_le_bytes()[..(n & 3) as usize]).map(|()| 0)));
contract!(write_fmt, E, rf, (n: bool), R, |e| ior(if n { Write::write_fmt(e, format_args!("yes")) } else { Write::write_fmt(e, format_args!("no")) }.map(|()| 0)));
contract!(seek_start, E, rf, (x: u64), R, |e| ior(Seek::seek(e, SeekFrom::Start(x)).map(|x| x as usize)));
contract!(seek_end, E, rf, (x: i64), R, |e| ior(Seek::seek(e, SeekFrom::End(x)).map(|x| x as usize)));
contract!(seek_current, E, rf, (x: i64), R, |e| ior(Seek::seek(e, SeekFrom::Current(x)).map(|x| x as usize)));
contract!(fill_buf, E, rf, (), (R, u64), |e| { let mut c = 0; let r = ior(BufRead::fill_buf(e).map(|b| { c = sum(b); b.len() })); (r, c) });
contract!(consume, E, rf, (n: usize), (), |e| BufRead::consume(e, n));
contract!(read_until, E, rf, (b: u8), (R, usize, u8), |e| { let mut v = vec![7u8]; let r = ior(BufRead::read_until(e, b, &mut v)); (r, v.len(), v[v.len() - 1]) });
contract!(read_line, E, rf, (), (R, usize, u8), |e| { let mut v = String::from("x"); let r = ior(BufRead::read_line(e, &mut v)); (r, v.len(), v.as_bytes()[v.len() - 1]) });
harnesses!(read, read_vectored, read_to_end, read_to_string, read_exact, write, write_vectored, flush, write_all, write_fmt, seek_start, seek_end, seek_current, fill_buf, consume, read_until, read_line);
