//! C05: rayon: ParallelIterator, IndexedParallelIterator, ParallelExtend.
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
extern crate rayon_crate as rayon;
use rayon::iter::{plumbing::*, IndexedParallelIterator, IntoParallelIterator, ParallelExtend, ParallelIterator};
/// A consumer that keeps a tag and the items it was fed.
pub struct Con(pub u64);
pub struct Fol(u64, u64);
pub struct Red;
impl Reducer<(u64, u64)> for Red { fn reduce(self, l: (u64, u64), r: (u64, u64)) -> (u64, u64) { (l.0 ^ r.0, l.1 ^ r.1) } }
impl Folder<u32> for Fol { type Result = (u64, u64);
    fn consume(self, x: u32) -> Fol { Fol(self.0, self.1.rotate_left(32) ^ x as u64) }
    fn complete(self) -> (u64, u64) { (self.0, self.1) }
    fn full(&self) -> bool { false } }
impl Consumer<u32> for Con { type Folder = Fol; type Reducer = Red; type Result = (u64, u64);
    fn split_at(self, i: usize) -> (Con, Con, Red) { (Con(self.0), Con(i as u64), Red) }
    fn into_folder(self) -> Fol { Fol(self.0, 0) }
    fn full(&self) -> bool { false } }
impl UnindexedConsumer<u32> for Con { fn split_off_left(&self) -> Con { Con(self.0) } fn to_reducer(&self) -> Red { Red } }
pub struct Pro(u32);
impl Producer for Pro { type Item = u32; type IntoIter = std::option::IntoIter<u32>; fn into_iter(self) -> Self::IntoIter { Some(self.0).into_iter() } fn split_at(self, _: usize) -> (Pro, Pro) { (Pro(self.0), Pro(self.0)) } }
pub struct Cb(u64);
impl ProducerCallback<u32> for Cb { type Output = (u64, u64); fn callback<Q: Producer<Item = u32>>(self, p: Q) -> (u64, u64) { (self.0, p.into_iter().next().map_or(0, |x| x as u64 + 1)) } }
pub struct Source(u32);
impl ParallelIterator for Source { type Item = u32; fn drive_unindexed<C: UnindexedConsumer<u32>>(self, c: C) -> C::Result { c.into_folder().consume(self.0).complete() } }

impl<const K: u8> ParallelIterator for P<K> { type Item = u32;
    fn drive_unindexed<C: UnindexedConsumer<u32>>(self, c: C) -> C::Result { let r = self.hit(1, 0, 0, 0); c.into_folder().consume(r as u32).consume((r >> 32) as u32).complete() }
    fn opt_len(&self) -> Option<usize> { opt(self.hit(2, 0, 0, 0)).map(|x| x as usize) } }
impl<const K: u8> IndexedParallelIterator for P<K> {
    fn drive<C: Consumer<u32>>(self, c: C) -> C::Result { let r = self.hit(3, 0, 0, 0); c.into_folder().consume(r as u32).complete() }
    fn len(&self) -> usize { self.hit(4, 0, 0, 0) as usize }
    fn with_producer<Q: ProducerCallback<u32>>(self, q: Q) -> Q::Output { let r = self.hit(5, 0, 0, 0); q.callback(Pro(r as u32)) } }
impl<const K: u8> ParallelExtend<u32> for P<K> {
    fn par_extend<I: IntoParallelIterator<Item = u32>>(&mut self, i: I) { let (t, x) = i.into_par_iter().drive_unindexed(Con(9)); self.hit_mut(6, t, x, 0); } }
variants!(#[enum_derive(rayon::ParallelIterator, rayon::IndexedParallelIterator)] E);
variants!(#[enum_derive(rayon::ParallelExtend)] X);
contract!(drive_unindexed, E, mv, (t: u64), (u64, u64), |e| ParallelIterator::drive_unindexed(e, Con(t)));
contract!(opt_len, E, rf, (), Option<usize>, |e| ParallelIterator::opt_len(&*e));
contract!(drive, E, mv, (t: u64), (u64, u64), |e| IndexedParallelIterator::drive(e, Con(t)));
contract!(len, E, rf, (), usize, |e| IndexedParallelIterator::len(&*e));
contract!(with_producer, E, mv, (t: u64), (u64, u64), |e| IndexedParallelIterator::with_producer(e, Cb(t)));
contract!(par_extend, X, rf, (x: u32), (), |e| ParallelExtend::<u32>::par_extend(e, Source(x)));
harnesses!(drive_unindexed, opt_len, drive, len, with_producer, par_extend);
