//! Contracts for the trait implementations that #[enum_derive] generates.
//!
//! `P<K>` is the payload of variant K. Its state `s` is fully symbolic, every trait method it has
//! is overridden, records itself (method id, arguments, address) in `*l`, changes `s`, and returns
//! a result computed from `s`. A payload method therefore is an arbitrary function as far as the
//! generated code can tell: the generated code is generic over the payload type, so it can only
//! reach the payload through the trait.
//!
//! For each trait method `m` the macro `contract!` makes
//!   spec(k, s, args): what calling `m(args)` on a payload P<k> in state s does (result, state
//!                     afterwards, the record of calls), and
//!   call(k, s, args): `m(args)` on the enum whose active variant k holds P<k> in state s, with the
//!                     contract  ensures |o| *o == spec(k, s, args)
//! The contract says: same result, same state of the payload, same variant still active, exactly
//! one payload method called, that method is `m`, with those arguments, and - for methods that
//! take a reference - called on the payload where it lies inside the enum.
use std::marker::PhantomPinned;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Log { pub n: u8, pub who: u8, pub id: u16, pub a: u64, pub b: u64, pub c: u64, pub at: usize, pub d: u8 }
pub const LOG0: Log = Log { n: 0, who: 255, id: 0, a: 0, b: 0, c: 0, at: 0, d: 0 };

pub struct P<const K: u8> { pub s: u64, pub l: *mut Log, pub _pin: PhantomPinned }
unsafe impl<const K: u8> Send for P<K> {}
unsafe impl<const K: u8> Sync for P<K> {}

/// Drops are counted: a payload is dropped exactly once, and not before its owner lets go of it.
impl<const K: u8> Drop for P<K> { fn drop(&mut self) { let l = unsafe { &mut *self.l }; l.d = l.d.wrapping_add(1 + 16 * K); } }

impl<const K: u8> P<K> {
    pub fn new(s: u64, l: *mut Log) -> Self { P { s, l, _pin: PhantomPinned } }
    /// Records one call; returns the payload's (symbolic) choice of a result.
    pub fn hit(&self, id: u16, a: u64, b: u64, c: u64) -> u64 {
        let l = unsafe { &mut *self.l };
        l.n = l.n.wrapping_add(1);
        l.who = K;
        l.id = id;
        l.a = a;
        l.b = b;
        l.c = c;
        l.at = self as *const Self as usize;
        self.s
    }
    /// As `hit`, and changes the state in a way that depends on the method.
    pub fn hit_mut(&mut self, id: u16, a: u64, b: u64, c: u64) -> u64 {
        let r = self.hit(id, a, b, c);
        self.s = self.s.rotate_left(7) ^ (id as u64) ^ a;
        r
    }
    pub fn pin_mut(self: std::pin::Pin<&mut Self>, id: u16, a: u64, b: u64, c: u64) -> u64 {
        unsafe { self.get_unchecked_mut() }.hit_mut(id, a, b, c)
    }
}

pub fn opt(r: u64) -> Option<u32> { if r & 1 == 0 { None } else { Some((r >> 1) as u32) } }
pub fn res(r: u64) -> Result<u32, u8> { if r & 1 == 0 { Ok((r >> 1) as u32) } else { Err((r >> 33) as u8) } }

/// Everything that can be observed of one call.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Obs<R> {
    pub r: R,
    /// active variant and payload state after the call (for methods that consume: 255, 0)
    pub k: u8,
    pub s: u64,
    /// the calls that reached a payload, `at` being 1 if the last one was made on the payload in
    /// place
    pub log: Log,
}

/// Inputs of a harness: symbolic under Kani, read from a list of byte vectors when replayed.
pub trait Src { fn get<T: Val>(&mut self) -> T; }
pub trait Val: Sized { fn from_bytes(b: &[u8]) -> Self; fn sample(r: &mut u64) -> Self; }
pub fn rnd(r: &mut u64) -> u64 { *r ^= *r << 13; *r ^= *r >> 7; *r ^= *r << 17; *r }
macro_rules! vals { ($($t:ty),*) => {$( impl Val for $t {
    fn from_bytes(b: &[u8]) -> Self { let mut a = [0u8; std::mem::size_of::<$t>()]; for i in 0..a.len() { a[i] = *b.get(i).unwrap_or(&0); } <$t>::from_le_bytes(a) }
    fn sample(r: &mut u64) -> Self { let x = rnd(r); match x % 4 { 0 => (x >> 8) as $t, 1 => ((x >> 8) % 3) as $t, 2 => ((x >> 8) % 300) as $t, _ => <$t>::MAX - ((x >> 8) % 3) as $t } }
} )*} }
vals!(u8, u16, u32, u64, usize, i64);
impl Val for bool { fn from_bytes(b: &[u8]) -> Self { b.first().copied().unwrap_or(0) & 1 == 1 } fn sample(r: &mut u64) -> Self { rnd(r) & 1 == 1 } }

/// The replayer: runs `call` against `spec` natively on given or sampled inputs.
pub struct Given<'a> { pub vals: &'a [Vec<u8>], pub at: usize }
impl Src for Given<'_> { fn get<T: Val>(&mut self) -> T { let v = T::from_bytes(self.vals.get(self.at).map_or(&[], |v| &v[..])); self.at += 1; v } }
pub struct Sampled { pub seed: u64 }
impl Src for Sampled { fn get<T: Val>(&mut self) -> T { T::sample(&mut self.seed) } }

/// Reads the harness inputs and checks the contract once. Err is the description of the failure.
pub type Replay = (&'static str, fn(&mut dyn FnMut(usize) -> Vec<u8>) -> Result<(), String>);

/// `main` of every replay binary: `<bin> replay <harness> <hex>,<hex>,..` or `<bin> sample <seed> <n> [harness]`.
pub fn replay_main(all: &[Replay]) {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| &s[..]) {
        Some("list") => for (n, _) in all { println!("{n}"); },
        Some("replay") => {
            let vals: Vec<Vec<u8>> = a.get(3).map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty()).map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect());
            for (n, f) in all { if *n == a[2] {
                let mut i = 0;
                let r = f(&mut |_| { let v = vals.get(i).cloned().unwrap_or_default(); i += 1; v });
                match r { Ok(()) => println!("HOLDS {n}"), Err(e) => { println!("FAILS {n} {e}"); std::process::exit(1); } }
            } }
        }
        Some("sample") => {
            let mut seed: u64 = a[2].parse::<u64>().unwrap().wrapping_mul(0x9e3779b97f4a7c15) | 1;
            let n: usize = a[3].parse().unwrap();
            let (mut evals, mut bad) = (0u64, 0u64);
            for (name, f) in all {
                if let Some(only) = a.get(4) { if only != name { continue; } }
                for _ in 0..n {
                    evals += 1;
                    let mut used: Vec<Vec<u8>> = vec![];
                    let mut g = |len: usize| { let x = rnd(&mut seed); let y = rnd(&mut seed);
                        let v = match x % 4 { 0 => y, 1 => y % 3, 2 => y % 300, _ => u64::MAX - y % 3 };
                        let v: Vec<u8> = v.to_le_bytes()[..len.min(8)].to_vec(); used.push(v.clone()); v };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut g)));
                    let r = match r { Ok(r) => r, Err(_) => Err("panicked".to_string()) };
                    if let Err(e) = r {
                        bad += 1;
                        let hex: Vec<String> = used.iter().map(|v| v.iter().map(|b| format!("{b:02x}")).collect()).collect();
                        println!("FAILS {name} {} {e}", hex.join(","));
                        break;
                    }
                }
            }
            println!("SAMPLED {evals} {bad}");
            if bad > 0 { std::process::exit(1); }
        }
        _ => std::process::exit(2),
    }
}

/// The number of variants.
#[cfg(not(feature = "wide"))] pub const N: u8 = 3;
#[cfg(feature = "wide")] pub const N: u8 = 8;
/// variants!(#[enum_derive(..)] E): the enum under contract.
macro_rules! variants { ($(#[$m:meta])* $E:ident) => {
    #[cfg(not(feature = "wide"))] $(#[$m])* pub enum $E<A, B, C> { A(A), B(B), C(C) }
    #[cfg(feature = "wide")] $(#[$m])* pub enum $E<A, B, C, D, G, H, I, J> { A(A), B(B), C(C), D(D), G(G), H(H), I(I), J(J) }
} }
macro_rules! on_payload {
    ($l:ident, $k:ident, $s:ident, $e:ident, $mode:ident, $body:expr) => {
        match $k { 0 => on_payload!(@ $l, 0, $s, $e, $mode, $body), 1 => on_payload!(@ $l, 1, $s, $e, $mode, $body), #[cfg(feature = "wide")] 3 => on_payload!(@ $l, 3, $s, $e, $mode, $body), #[cfg(feature = "wide")] 4 => on_payload!(@ $l, 4, $s, $e, $mode, $body), #[cfg(feature = "wide")] 5 => on_payload!(@ $l, 5, $s, $e, $mode, $body), #[cfg(feature = "wide")] 6 => on_payload!(@ $l, 6, $s, $e, $mode, $body), #[cfg(feature = "wide")] 7 => on_payload!(@ $l, 7, $s, $e, $mode, $body), _ => on_payload!(@ $l, 2, $s, $e, $mode, $body) }
    };
    (@ $l:ident, $K:literal, $s:ident, $e:ident, mv, $body:expr) => {{ let $e = P::<$K>::new($s, &mut $l); let r = $body; $l.at = 0; Obs { r, k: 255, s: 0, log: $l } }};
    (@ $l:ident, $K:literal, $s:ident, $e:ident, rf, $body:expr) => {{ let mut p = P::<$K>::new($s, &mut $l); let r = { let $e = &mut p; $body }; $l.at = ($l.at == &p as *const _ as usize) as usize; Obs { r, k: $K, s: p.s, log: $l } }};
    (@ $l:ident, $K:literal, $s:ident, $e:ident, pin, $body:expr) => {{ let mut p = P::<$K>::new($s, &mut $l); let r = { #[allow(unused_mut)] let mut $e = unsafe { std::pin::Pin::new_unchecked(&mut p) }; $body }; $l.at = ($l.at == &p as *const _ as usize) as usize; Obs { r, k: $K, s: p.s, log: $l } }};
}
macro_rules! on_enum {
    ($l:ident, $E:ident, $k:ident, $s:ident, $e:ident, mv, $body:expr) => {{ let $e = mk!($E, $k, $s, $l); let r = $body; $l.at = 0; Obs { r, k: 255, s: 0, log: $l } }};
    ($l:ident, $E:ident, $k:ident, $s:ident, $e:ident, rf, $body:expr) => {{ let mut en = mk!($E, $k, $s, $l); let at = peek!($E, en).2; let r = { let $e = &mut en; $body }; on_enum!(@ $l, $E, en, at, r) }};
    ($l:ident, $E:ident, $k:ident, $s:ident, $e:ident, pin, $body:expr) => {{ let mut en = mk!($E, $k, $s, $l); let at = peek!($E, en).2; let r = { #[allow(unused_mut)] let mut $e = unsafe { std::pin::Pin::new_unchecked(&mut en) }; $body }; on_enum!(@ $l, $E, en, at, r) }};
    (@ $l:ident, $E:ident, $en:ident, $at:ident, $r:ident) => {{ let (k, s, at2) = peek!($E, $en); $l.at = ($l.at == $at && at2 == $at) as usize; Obs { r: $r, k, s, log: $l } }};
}
macro_rules! mk { ($E:ident, $k:ident, $s:ident, $l:ident) => { match $k { 0 => $E::A(P::<0>::new($s, &mut $l)), 1 => $E::B(P::<1>::new($s, &mut $l)), #[cfg(feature = "wide")] 3 => $E::D(P::<3>::new($s, &mut $l)), #[cfg(feature = "wide")] 4 => $E::G(P::<4>::new($s, &mut $l)), #[cfg(feature = "wide")] 5 => $E::H(P::<5>::new($s, &mut $l)), #[cfg(feature = "wide")] 6 => $E::I(P::<6>::new($s, &mut $l)), #[cfg(feature = "wide")] 7 => $E::J(P::<7>::new($s, &mut $l)), _ => $E::C(P::<2>::new($s, &mut $l)) } } }
macro_rules! peek { ($E:ident, $en:ident) => { match &$en { $E::A(p) => (0u8, p.s, p as *const _ as usize), $E::B(p) => (1, p.s, p as *const _ as usize), $E::C(p) => (2, p.s, p as *const _ as usize), #[cfg(feature = "wide")] $E::D(p) => (3, p.s, p as *const _ as usize), #[cfg(feature = "wide")] $E::G(p) => (4, p.s, p as *const _ as usize), #[cfg(feature = "wide")] $E::H(p) => (5, p.s, p as *const _ as usize), #[cfg(feature = "wide")] $E::I(p) => (6, p.s, p as *const _ as usize), #[cfg(feature = "wide")] $E::J(p) => (7, p.s, p as *const _ as usize), } } }

/// contract!(name, Enum, rf|mv|pin, (arg: type, ..), ResultType, |e| call);
macro_rules! contract {
    ($name:ident, $E:ident, $mode:ident, ($($arg:ident : $t:ty),*), $R:ty, |$e:ident| $body:expr) => {
        pub mod $name {
            #[allow(unused_imports)] use super::*;
            #[allow(unused_imports, unused_mut, clippy::all)]
            pub fn spec(k: u8, s: u64 $(, $arg: $t)*) -> crate::fw::Obs<$R> { let mut l = crate::fw::LOG0; on_payload!(l, k, s, $e, $mode, $body) }
            #[cfg_attr(all(kani, feature = "dfcc"), kani::requires(k < crate::fw::N))]
            #[cfg_attr(all(kani, feature = "dfcc"), kani::ensures(|o: &crate::fw::Obs<$R>| *o == spec(k, s $(, $arg)*)))]
            #[allow(unused_mut)]
            pub fn call(k: u8, s: u64 $(, $arg: $t)*) -> crate::fw::Obs<$R> { let mut l = crate::fw::LOG0; on_enum!(l, $E, k, s, $e, $mode, $body) }
            /// The contract of `call`, discharged as a harness: any input with the precondition,
            /// then the postcondition. (`proof_for_contract` below discharges the same contract
            /// with the frame condition instrumented; that takes 30 times as long.)
            #[cfg(all(kani, not(feature = "dfcc")))]
            #[kani::proof]
            #[kani::unwind(6)]
            pub fn check() {
                let k: u8 = kani::any();
                let s: u64 = kani::any();
                $( let $arg: $t = kani::any(); )*
                kani::assume(k < crate::fw::N);
                kani::cover!(k == 0); kani::cover!(k == 1); kani::cover!(k == 2); kani::cover!(k == crate::fw::N - 1);
                let want = spec(k, s $(, $arg)*);
                let o = call(k, s $(, $arg)*);
                assert!(o == want, "contract: the enum's call does what the active variant's call does");
                kani::cover!(o.log.n >= 1);
            }
            #[cfg(all(kani, feature = "dfcc"))]
            #[kani::proof_for_contract(call)]
            #[kani::unwind(6)]
            pub fn check() {
                let k: u8 = kani::any();
                let o = call(k, kani::any() $(, kani::any::<$t>())*);
                kani::cover!(k == 0); kani::cover!(k == 1); kani::cover!(k == 2); kani::cover!(k == crate::fw::N - 1);
                kani::cover!(o.log.n >= 1);
            }
            #[cfg(not(kani))]
            pub fn replay(g: &mut dyn FnMut(usize) -> ::std::vec::Vec<u8>) -> ::std::result::Result<(), ::std::string::String> {
                #[allow(unused_imports)] use crate::fw::Val;
                let k = <u8 as Val>::from_bytes(&g(1)) % crate::fw::N;
                let s = <u64 as Val>::from_bytes(&g(8));
                $( let $arg = <$t as Val>::from_bytes(&g(std::mem::size_of::<$t>())); )*
                let (want, got) = (spec(k, s $(, $arg)*), call(k, s $(, $arg)*));
                if want == got { ::std::result::Result::Ok(()) } else { ::std::result::Result::Err(format!("active variant {k}, payload state {s:#x}, arguments {:?}: the enum gives {got:?}, the variant's value gives {want:?}", ($($arg,)*))) }
            }
        }
    };
}
/// contract_raw!(name, (arg: type, ..), ResultType, spec, call): `call == spec` for all arguments.
macro_rules! contract_raw {
    ($name:ident, ($($arg:ident : $t:ty),*), $R:ty, $spec:expr, $call:expr) => {
        pub mod $name {
            #[allow(unused_imports)] use super::*;
            pub fn spec($($arg: $t),*) -> $R { $spec }
            #[cfg_attr(all(kani, feature = "dfcc"), kani::ensures(|o: &$R| *o == spec($($arg),*)))]
            pub fn call($($arg: $t),*) -> $R { $call }
            #[cfg(all(kani, not(feature = "dfcc")))]
            #[kani::proof]
            #[kani::unwind(6)]
            pub fn check() {
                $( let $arg: $t = kani::any(); )*
                let want = spec($($arg),*);
                let o = call($($arg),*);
                assert!(o == want, "contract: result equals the specification");
                kani::cover!(true);
            }
            #[cfg(all(kani, feature = "dfcc"))]
            #[kani::proof_for_contract(call)]
            #[kani::unwind(6)]
            pub fn check() { call($(kani::any::<$t>()),*); kani::cover!(true); }
            #[cfg(not(kani))]
            pub fn replay(g: &mut dyn FnMut(usize) -> ::std::vec::Vec<u8>) -> ::std::result::Result<(), ::std::string::String> {
                #[allow(unused_imports)] use crate::fw::Val;
                $( let $arg = <$t as Val>::from_bytes(&g(std::mem::size_of::<$t>())); )*
                let (want, got) = (spec($($arg),*), call($($arg),*));
                if want == got { ::std::result::Result::Ok(()) } else { ::std::result::Result::Err(format!("arguments {:?}: got {got:?}, specified {want:?}", ($($arg,)*))) }
            }
        }
    };
}
/// contracts! { replay entries }: the list of harnesses and `main`.
macro_rules! harnesses { ($($name:ident),* $(,)?) => {
    #[cfg(not(kani))] fn main() { crate::fw::replay_main(&[$((stringify!($name), $name::replay)),*]); }
    #[cfg(kani)] fn main() {}
} }
