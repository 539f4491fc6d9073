//! Inputs: hashers, key families, probe keys, adversarial implementations.
use crate::ctx::Rng;
use std::borrow::Borrow;
use std::cell::Cell;
use std::hash::{BuildHasher, Hash, Hasher, RandomState};

use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Hb(pub u8);
pub struct Hh { kind: u8, h: u64 }
impl BuildHasher for Hb {
    type Hasher = Hh;
    fn build_hasher(&self) -> Hh { Hh { kind: self.0, h: 0xcbf2_9ce4_8422_2325 } }
}
impl Hasher for Hh {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.h = if self.kind == 5 { self.h.wrapping_mul(31).wrapping_add(u64::from(x)) } else { (self.h ^ u64::from(x)).wrapping_mul(0x0100_0000_01b3) };
        }
    }
    fn finish(&self) -> u64 {
        match self.kind { 1 => 0, 2 => u64::MAX, 3 => self.h & 3, 4 => self.h << 32, 6 => self.h | (1 << 63), _ => self.h }
    }
}
pub const HASHERS: [u8; 7] = [0, 1, 2, 3, 4, 5, 6];
pub fn bad_hash(k: u8) -> bool { matches!(k, 1 | 2) }

pub trait Int: num::P + Copy + Ord + std::fmt::Debug + Hash + 'static {
    const MINV: i128;
    const MAXV: i128;
    fn of(x: i128) -> Self;
    fn to(self) -> i128;
    fn name() -> &'static str;
}
pub mod num { pub trait P {} }
macro_rules! int { ($($t:ident)*) => { $( impl num::P for $t {} impl Int for $t {
    const MINV: i128 = $t::MIN as i128; const MAXV: i128 = if ($t::MAX as u128) > i128::MAX as u128 { i128::MAX } else { $t::MAX as i128 };
    fn of(x: i128) -> Self { x as $t } fn to(self) -> i128 { self as i128 } fn name() -> &'static str { stringify!($t) } } )* } }
int!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);

/// (name, values); every family of n keys, in several orders
pub fn int_seqs<T: Int>(n: usize, seed: u64) -> Vec<(String, Vec<T>)> {
    let mut out: Vec<(String, Vec<T>)> = vec![];
    let (lo, hi) = (T::MINV, T::MAXV);
    let fits = |a: i128, b: i128| a >= lo && b <= hi;
    let nn = n as i128;
    let mut add = |name: &str, v: Vec<i128>| {
        if v.iter().all(|&x| fits(x, x)) { out.push((name.to_string(), v.into_iter().map(T::of).collect())); }
    };
    if n == 0 { add("empty", vec![]); return out; }
    add("seq0", (0..nn).collect());
    add("seq1", (1..=nn).collect());
    if hi - nn > lo || hi.checked_sub(lo).map_or(true, |w| w >= nn - 1) {
        add("atmin", (0..nn).map(|i| lo.saturating_add(i)).collect());
        add("atmax", (0..nn).map(|i| hi.saturating_sub(nn - 1 - i)).collect());
    }
    if lo < 0 { add("across0", (0..nn).map(|i| i - nn / 2).collect()); }
    if n >= 3 {
        let mut v: Vec<i128> = (0..nn).collect(); v[n - 1] += 1; add("gapend", v);
        let v: Vec<i128> = (0..nn).map(|i| if i >= nn / 2 { i + 1 } else { i }).collect(); add("gapmid", v);
        let mut v: Vec<i128> = (0..nn).collect(); v[1] = v[0]; add("dupgap", v);
        let mut v: Vec<i128> = (0..nn).collect(); v[n - 1] = v[n - 2]; add("duplast", v);
    }
    if n >= 2 {
        let mut v: Vec<i128> = (0..nn - 1).collect(); v.push(nn / 3); add("dup", v);
        add("ends", (0..nn).map(|i| if i % 2 == 0 { lo.saturating_add(i / 2) } else { hi.saturating_sub(i / 2) }).collect());
        add("allsame", vec![7; n]);
    }
    for s in [2i128, 3, 7, 16, 64, 255, 256, 1 << 16, 1 << 32, 1 << 64] {
        if let Some(t) = s.checked_mul(nn) { if t <= hi { add(&format!("stride{s}"), (0..nn).map(|i| i * s).collect()); } }
    }
    let mut rng = Rng(seed ^ (n as u64) << 20);
    let width = if hi / 2 - lo / 2 >= (1i128 << 100) { 1i128 << 100 } else { hi - lo + 1 };
    let mut set = std::collections::BTreeSet::new();
    if width >= nn * 2 {
        while set.len() < n {
            let r = (i128::from(rng.next()) << 40) ^ i128::from(rng.next());
            set.insert(lo.saturating_add(r.rem_euclid(width)));
        }
        add("rnd", set.into_iter().collect());
    }
    // orders
    let base = out.clone();
    for (i, (name, v)) in base.iter().enumerate() {
        if n < 2 { break; }
        match i % 3 {
            0 => { let mut w = v.clone(); w.reverse(); out.push((format!("{name}-rev"), w)); }
            1 => { let mut w = v.clone(); Rng(seed + i as u64).shuffle(&mut w); out.push((format!("{name}-shuf"), w)); }
            _ => { let mut w = v.clone(); w.rotate_left(n / 2); out.push((format!("{name}-rot"), w)); }
        }
        if name.starts_with("seq") || name.starts_with("at") || name.starts_with("gap") {
            let mut w = v.clone(); Rng(seed + 77 + i as u64).shuffle(&mut w); out.push((format!("{name}-shuf2"), w));
            if n > 2 { let mut w = v.clone(); w[1..].reverse(); out.push((format!("{name}-r1"), w));
                       let mut w = v.clone(); w.swap(n / 2, n - 1); out.push((format!("{name}-sw"), w)); }
        }
    }
    out
}

pub fn int_probes<T: Int>(v: &[T], seed: u64) -> Vec<T> {
    let mut p: Vec<i128> = vec![];
    let keep: Vec<i128> = v.iter().map(|x| x.to()).collect();
    for &k in &keep {
        p.push(k);
        for d in [1i128, -1] { p.push(k.saturating_add(d)); }
    }
    if let (Some(&a), Some(&b)) = (keep.iter().min(), keep.iter().max()) {
        for d in [2i128, 127, 128, 255, 256, 257, 65535, 65536, 1 << 32, (1 << 32) + 1, 1 << 63, 1 << 64] {
            for s in [a, b] { p.push(s.saturating_add(d)); p.push(s.saturating_sub(d)); }
        }
    }
    p.extend([0, 1, -1, 127, 128, 255, 256, T::MINV, T::MINV + 1, T::MAXV, T::MAXV - 1, T::MAXV / 2, T::MINV / 2]);
    let mut rng = Rng(seed);
    for _ in 0..20 { p.push(i128::from(rng.next() as i64)); }
    p.retain(|&x| x >= T::MINV && x <= T::MAXV);
    p.sort_unstable(); p.dedup();
    p.into_iter().map(T::of).collect()
}

pub fn str_seqs(n: usize, seed: u64) -> Vec<(String, Vec<String>)> {
    let mut out: Vec<(String, Vec<String>)> = vec![];
    let mut add = |name: &str, f: &dyn Fn(usize) -> String| {
        out.push((name.to_string(), (0..n).map(f).collect()));
    };
    let x = |k: usize| "x".repeat(k);
    add("dec", &|i| format!("{i}"));
    add("pad", &|i| format!("{i:05}"));
    add("prefix", &|i| format!("prefix_{i:04}"));
    add("suffix", &|i| format!("{i:04}_suffix"));
    add("mid", &|i| format!("ab{i:04}cd"));
    if n <= 400 { add("len", &|i| x(i)); add("lenrev", &|i| x(n - i)); }
    if n <= 400 { add("len2", &|i| { let mut s = x(i / 2 + 1); if i % 2 == 1 { s.pop(); s.push('y'); } s }); }
    if n <= 400 { add("len3", &|i| { let mut s = x(i / 3 + 1); s.pop(); s.push((b'a' + (i % 3) as u8) as char); s }); }
    if n <= 400 { add("len4", &|i| { let mut s = x(i / 4 + 1); s.pop(); s.push((b'a' + (i % 4) as u8) as char); s }); }
    add("rightu", &|i| format!("{}{i:04}", x(i % 5)));
    add("leftu", &|i| format!("{i:04}{}", x(i % 5)));
    add("rightmid", &|i| format!("{}{i:04}zz", x(i % 7)));
    add("leftmid", &|i| format!("zz{i:04}{}", x(i % 7)));
    add("right1", &|i| format!("{}{}", x(i % 6 + i / 200), char::from_u32(0x21 + (i % 200) as u32).unwrap()));
    add("longsame", &|i| format!("{}{i:06}", x(40)));
    add("hugemid", &|i| format!("{}{i:06}{}", x(30 + i % 3), x(30)));
    add("utf8", &|i| format!("é{}ß", char::from_u32(0x4e00 + i as u32).unwrap()));
    add("empty1", &|i| if i == 0 { String::new() } else { format!("{i:03}") });
    add("short1", &|i| if i == 0 { "q".into() } else { format!("{:03}{}", i, x(i % 4)) });
    add("neardup", &|i| format!("{:02}{}", i % 20, x(i / 20)));
    if n >= 2 {
        add("dup", &|i| if i == n - 1 { "dup0000".into() } else { format!("dup{i:04}") });
        add("duplen", &|i| x(i / 2));
        add("allsame", &|_| "same".into());
    }
    let mut rng = Rng(seed ^ n as u64);
    let mut set = std::collections::BTreeSet::new();
    while set.len() < n { let l = 1 + rng.below(12); set.insert((0..l).map(|_| (b'a' + rng.below(3 + n / 100) as u8 % 26) as char).collect::<String>()); if l == 0 { break; } }
    let mut v: Vec<String> = set.into_iter().collect();
    rng.shuffle(&mut v);
    out.push(("rnd".into(), v));
    out
}

pub fn str_probes(v: &[String]) -> Vec<String> {
    let mut p: Vec<String> = v.to_vec();
    let step = (v.len() / 60).max(1);
    for k in v.iter().step_by(step) {
        p.push(format!("{k}x")); p.push(format!("x{k}")); p.push(format!("{k}0")); p.push(format!("0{k}"));
        let c: Vec<char> = k.chars().collect();
        if !c.is_empty() {
            p.push(c[1..].iter().collect()); p.push(c[..c.len() - 1].iter().collect());
            let mut d = c.clone(); d[0] = '~'; p.push(d.iter().collect());
            let mut d = c.clone(); let l = d.len(); d[l - 1] = '~'; p.push(d.iter().collect());
            let mut d = c.clone(); d[l / 2] = '~'; p.push(d.iter().collect());
            p.push(c.iter().rev().collect());
        }
    }
    for s in ["", "x", "a", "zz", "0000", "é", "same", "xxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"] { p.push(s.into()); }
    p.push("y".repeat(500));
    p.sort(); p.dedup();
    p
}

/// a key that is not any of the types the facades special-case, with a layout like u32
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Id(pub i32);

/// plain old data whose equality is not the equality of its bytes: the lowest bit does not count
#[derive(Clone, Copy, Debug)]
pub struct Loose<T>(pub T);
pub trait Canon: Copy + std::fmt::Debug + 'static { type C: Ord + Hash + std::fmt::Debug; fn canon(self) -> Self::C; fn make(k: u16, low: bool) -> Self; }
macro_rules! canon { ($($t:ty)*) => { $( impl Canon for $t { type C = $t; fn canon(self) -> $t { self >> 1 } fn make(k: u16, low: bool) -> $t { ((k as $t) << 1) | low as $t } } )* } }
canon!(u16 u32 i32 u64 usize u128);
impl Canon for [u8; 4] { type C = u32; fn canon(self) -> u32 { u32::from_le_bytes(self) >> 1 } fn make(k: u16, low: bool) -> Self { u32::make(k, low).to_le_bytes() } }
impl Canon for [usize; 2] { type C = usize; fn canon(self) -> usize { self[1] >> 1 } fn make(k: u16, low: bool) -> Self { [low as usize, usize::make(k, low)] } }
impl Canon for [usize; 3] { type C = usize; fn canon(self) -> usize { self[1] >> 1 } fn make(k: u16, low: bool) -> Self { [low as usize, usize::make(k, low), 3] } }
impl<T: Canon> PartialEq for Loose<T> { fn eq(&self, o: &Self) -> bool { self.0.canon() == o.0.canon() } }
impl<T: Canon> Eq for Loose<T> {}
impl<T: Canon> PartialOrd for Loose<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T: Canon> Ord for Loose<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.canon().cmp(&o.0.canon()) } }
impl<T: Canon> Hash for Loose<T> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.canon().hash(h) } }
/// `n` distinct keys in some order, and probes which equal them without being the same bytes
pub fn loose<T: Canon>(n: usize, kind: u8) -> (Vec<Loose<T>>, Vec<Loose<T>>) {
    let at = |i: usize| match kind { 0 => i as u16, 1 => (i * 97 % 30011) as u16, _ => ((n - i) * 3) as u16 };
    let keys: Vec<Loose<T>> = (0..n).map(|i| Loose(T::make(at(i), i % 3 == 1))).collect();
    let mut pr = vec![];
    for i in 0..n { for low in [false, true] { pr.push(Loose(T::make(at(i), low))); } }
    for k in [0, 1, 2, 5, 300, 30500, 30501] { pr.push(Loose(T::make(k, k % 2 == 0))); }
    (keys, pr)
}

/// equality ignores `extra`: lets us see whether keys or probes are returned
#[derive(Clone, Debug)]
pub struct Tagged { pub k: String, pub extra: u32 }
impl PartialEq for Tagged { fn eq(&self, o: &Self) -> bool { self.k == o.k } }
impl Eq for Tagged {}
impl PartialOrd for Tagged { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Tagged { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.k.cmp(&o.k) } }
impl Hash for Tagged { fn hash<H: Hasher>(&self, h: &mut H) { Hash::hash(&self.k, h) } }
impl Len for Tagged { fn len(&self) -> usize { self.k.len() } }
impl SliceHash for Tagged { fn hash<B: BuildHasher>(&self, b: &B, r: std::ops::Range<usize>) -> u64 { SliceHash::hash(&self.k, b, r) } }
impl Borrow<String> for Tagged { fn borrow(&self) -> &String { &self.k } }

/// keys whose Hash, Eq, Len, SliceHash lie, differently on every call
#[derive(Clone, Debug)]
pub struct Liar { pub id: u64, pub st: Cell<u64>, pub mode: u8 }
impl Liar {
    pub fn new(id: u64, mode: u8) -> Self { Liar { id, st: Cell::new(id.wrapping_mul(77) + 1), mode } }
    fn roll(&self) -> u64 { let mut r = Rng(self.st.get()); let x = r.next(); self.st.set(r.0); x }
}
impl PartialEq for Liar { fn eq(&self, _: &Self) -> bool { match self.mode & 3 { 0 => false, 1 => true, _ => self.roll() % 3 == 0 } } }
impl Eq for Liar {}
impl Hash for Liar { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.roll()) } }
impl Len for Liar { fn len(&self) -> usize { match self.mode >> 2 { 0 => (self.roll() % 9) as usize, 1 => usize::MAX - (self.roll() % 3) as usize, _ => self.roll() as usize } } }
impl SliceHash for Liar { fn hash<B: BuildHasher>(&self, _: &B, _: std::ops::Range<usize>) -> u64 { self.roll() } }

/// a hasher that answers differently each time
#[derive(Clone, Default)]
pub struct LiarHb(pub Cell<u64>);
impl BuildHasher for LiarHb {
    type Hasher = Hh;
    fn build_hasher(&self) -> Hh { self.0.set(self.0.get().wrapping_add(0x9E37_79B9_7F4A_7C15)); Hh { kind: 0, h: self.0.get() } }
}
pub fn rs() -> RandomState { RandomState::new() }
