//! C01: Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen, Extend.
#![feature(trusted_len)]
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
use std::iter::*;

impl<const K: u8> Iterator for P<K> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { opt(self.hit_mut(1, 0, 0, 0)) }
    fn size_hint(&self) -> (usize, Option<usize>) { let r = self.hit(2, 0, 0, 0); (r as usize, opt(r).map(|x| x as usize)) }
    fn count(self) -> usize { self.hit(3, 0, 0, 0) as usize }
    fn last(self) -> Option<u32> { opt(self.hit(4, 0, 0, 0)) }
    fn nth(&mut self, n: usize) -> Option<u32> { opt(self.hit_mut(5, n as u64, 0, 0)) }
    fn collect<U: FromIterator<u32>>(self) -> U { let r = self.hit(6, 0, 0, 0); U::from_iter(Two(r as u32, 2)) }
    fn partition<U: Default + Extend<u32>, F: FnMut(&u32) -> bool>(self, mut f: F) -> (U, U) {
        let r = self.hit(7, 0, 0, 0); let mut a = U::default(); let mut b = U::default();
        let x = r as u32; if f(&x) { a.extend(Some(x)) } else { b.extend(Some(x)) } (a, b)
    }
    fn fold<U, F: FnMut(U, u32) -> U>(self, init: U, mut f: F) -> U { let r = self.hit(8, 0, 0, 0); let u = f(init, r as u32); f(u, (r >> 32) as u32) }
    fn all<F: FnMut(u32) -> bool>(&mut self, mut f: F) -> bool { let r = self.hit_mut(9, 0, 0, 0); f(r as u32) & f((r >> 32) as u32) }
    fn any<F: FnMut(u32) -> bool>(&mut self, mut f: F) -> bool { let r = self.hit_mut(10, 0, 0, 0); f(r as u32) ^ f((r >> 32) as u32) }
    fn find<F: FnMut(&u32) -> bool>(&mut self, mut f: F) -> Option<u32> { let r = self.hit_mut(11, 0, 0, 0); if f(&(r as u32)) { Some(r as u32) } else { opt(r >> 31) } }
    fn find_map<U, F: FnMut(u32) -> Option<U>>(&mut self, mut f: F) -> Option<U> { let r = self.hit_mut(12, 0, 0, 0); f(r as u32) }
    fn position<F: FnMut(u32) -> bool>(&mut self, mut f: F) -> Option<usize> { let r = self.hit_mut(13, 0, 0, 0); if f(r as u32) { Some(r as usize) } else { None } }
}
impl<const K: u8> DoubleEndedIterator for P<K> {
    fn next_back(&mut self) -> Option<u32> { opt(self.hit_mut(20, 0, 0, 0)) }
    fn nth_back(&mut self, n: usize) -> Option<u32> { opt(self.hit_mut(21, n as u64, 0, 0)) }
    fn rfold<U, F: FnMut(U, u32) -> U>(self, init: U, mut f: F) -> U { let r = self.hit(22, 0, 0, 0); let u = f(init, r as u32); f(u, (r >> 32) as u32) }
    fn rfind<F: FnMut(&u32) -> bool>(&mut self, mut f: F) -> Option<u32> { let r = self.hit_mut(23, 0, 0, 0); if f(&(r as u32)) { Some(r as u32) } else { opt(r >> 31) } }
}
impl<const K: u8> ExactSizeIterator for P<K> { fn len(&self) -> usize { self.hit(30, 0, 0, 0) as usize } }
impl<const K: u8> FusedIterator for P<K> {}
unsafe impl<const K: u8> TrustedLen for P<K> {}
impl<const K: u8> Extend<u32> for P<K> {
    fn extend<T: IntoIterator<Item = u32>>(&mut self, iter: T) {
        let mut it = iter.into_iter(); let a = it.next(); let b = it.next();
        self.hit_mut(40, a.map_or(77, |x| x as u64), b.map_or(78, |x| x as u64), 0);
    }
}
/// An iterator over x, x+1, .. with n elements (used as source and as target).
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Two(u32, u8);
impl Iterator for Two { type Item = u32; fn next(&mut self) -> Option<u32> { if self.1 == 0 { None } else { self.1 -= 1; self.0 = self.0.wrapping_add(1); Some(self.0) } } }
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Bag(u64, u8);
impl Extend<u32> for Bag { fn extend<T: IntoIterator<Item = u32>>(&mut self, it: T) { let mut it = it.into_iter(); if let Some(x) = it.next() { self.0 = self.0.rotate_left(5) ^ (x as u64); self.1 = self.1.wrapping_add(1); } } }
impl FromIterator<u32> for Bag { fn from_iter<T: IntoIterator<Item = u32>>(it: T) -> Self { let mut b = Bag::default(); let mut it = it.into_iter(); if let Some(x) = it.next() { b.0 = x as u64; b.1 += 1; } if let Some(x) = it.next() { b.0 ^= (x as u64) << 32; b.1 += 1; } b } }

variants!(#[enum_derive(Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen)] E);
variants!(#[enum_derive(Extend)] X);

contract!(next, E, rf, (), Option<u32>, |e| Iterator::next(e));
contract!(size_hint, E, rf, (), (usize, Option<usize>), |e| Iterator::size_hint(e));
contract!(count, E, mv, (), usize, |e| Iterator::count(e));
contract!(last, E, mv, (), Option<u32>, |e| Iterator::last(e));
contract!(nth, E, rf, (n: usize), Option<u32>, |e| Iterator::nth(e, n));
contract!(collect, E, mv, (), Bag, |e| Iterator::collect::<Bag>(e));
contract!(partition, E, mv, (y: u32), (Bag, Bag), |e| Iterator::partition::<Bag, _>(e, |x| *x > y));
contract!(fold, E, mv, (y: u64), u64, |e| Iterator::fold(e, y, |a, x| a.rotate_left(5) ^ x as u64));
contract!(all, E, rf, (y: u32), bool, |e| Iterator::all(e, |x| x > y));
contract!(any, E, rf, (y: u32), bool, |e| Iterator::any(e, |x| x > y));
contract!(find, E, rf, (y: u32), Option<u32>, |e| Iterator::find(e, |x| *x > y));
contract!(find_map, E, rf, (y: u32), Option<u64>, |e| Iterator::find_map(e, |x| if x > y { Some(x as u64 ^ y as u64) } else { None }));
contract!(position, E, rf, (y: u32), Option<usize>, |e| Iterator::position(e, |x| x > y));
contract!(next_back, E, rf, (), Option<u32>, |e| DoubleEndedIterator::next_back(e));
contract!(nth_back, E, rf, (n: usize), Option<u32>, |e| DoubleEndedIterator::nth_back(e, n));
contract!(rfold, E, mv, (y: u64), u64, |e| DoubleEndedIterator::rfold(e, y, |a, x| a.rotate_left(5) ^ x as u64));
contract!(rfind, E, rf, (y: u32), Option<u32>, |e| DoubleEndedIterator::rfind(e, |x| *x > y));
contract!(len, E, rf, (), usize, |e| ExactSizeIterator::len(e));
contract!(extend, X, rf, (a: u32, n: u8), (), |e| Extend::extend(e, Two(a, n & 3)));
contract!(marker_bounds, E, mv, (), usize, |e| { fn f<I: FusedIterator + TrustedLen>(i: I) -> usize { i.count() } f(e) });
harnesses!(next, size_hint, count, last, nth, collect, partition, fold, all, any, find, find_map, position, next_back, nth_back, rfold, rfind, len, extend, marker_bounds);
