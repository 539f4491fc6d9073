//! The contract of the sets and of the set algebra, evaluated on the real code.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::maps::{contiguous, feed, ns, provided, same_multiset, shown, shows_rest, AsMap, AsSet, Key, Shown, RANGES};
use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::*;
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, PrimInt, Unsigned};
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};
use std::ops::{BitAnd, BitOr, BitXor, Sub};

pub trait TSet<T>: Set<T> {
    fn sget(&self, x: &T) -> Option<&T>;
    fn has(&self, x: &T) -> bool;
    fn ref_iter(&self) -> Iter<'_, T>;
    fn own_iter(&self) -> Iter<'_, T>;
    fn same(&self, o: &Self) -> bool;
    fn nothing(&self) -> bool;
    fn dup(&self) -> Self;
    fn dup_from(&mut self, o: &Self);
    fn show(&self) -> Option<Shown>;
}
macro_rules! tset { ([$($g:tt)*] $t:ty) => { tset!([$($g)*] $t, |s: &$t| Some(shown(s))); }; ([$($g:tt)*] $t:ty, $show:expr) => {
    impl<$($g)*> TSet<T> for $t {
        fn sget(&self, x: &T) -> Option<&T> { self.get(x) }
        fn has(&self, x: &T) -> bool { self.contains(x) }
        fn ref_iter(&self) -> Iter<'_, T> { self.into_iter() }
        fn own_iter(&self) -> Iter<'_, T> { self.iter() }
        fn same(&self, o: &Self) -> bool { let r = self == o; assert!(r != (self != o), "== and != disagree"); r }
        fn nothing(&self) -> bool { self.is_empty() }
        fn dup(&self) -> Self { self.clone() }
        fn dup_from(&mut self, o: &Self) { Clone::clone_from(self, o) }
        fn show(&self) -> Option<Shown> { ($show)(self) }
    }
} }
tset!([T: Clone + Debug + Hash + Eq, BH: BuildHasher + Clone] FrozenSet<T, BH>, |_| None);
tset!([T: Clone + Debug + Hash + Eq, S: PrimInt + Unsigned, BH: BuildHasher + Default + Clone] CommonSet<T, S, BH>);
tset!([T: Clone + Debug + PrimInt + AsPrimitive<u64> + Hash, S: PrimInt + Unsigned] IntegerSet<T, S>);
tset!([T: Clone + Debug + Len + Eq + Hash, S: PrimInt + Unsigned] LengthSet<T, S>);
tset!([T: Clone + Debug + SliceHash + Len + Eq, S: PrimInt + Unsigned, BH: BuildHasher + Default + Clone] LeftSliceSet<T, S, BH>);
tset!([T: Clone + Debug + SliceHash + Len + Eq, S: PrimInt + Unsigned, BH: BuildHasher + Default + Clone] RightSliceSet<T, S, BH>);
tset!([T: Clone + Debug + PrimInt + Hash] IntegerRangeSet<T>);
tset!([T: Clone + Debug + Eq + Hash] ScanningSet<T>);

fn member<T: Key, M: TSet<T>>(m: &M, keys: &[T], probes: &[T]) -> R {
    let t: BTreeSet<&T> = keys.iter().collect();
    for q in probes {
        let want = t.contains(q);
        ensure!(m.has(q) == want, "contains({q:?}) is {}", !want);
        ensure!(Set::contains(m, q) == want, "Set::contains({q:?}) is {}", !want);
        let g = m.sget(q);
        ensure!(g.is_some() == want, "get({q:?}) is {g:?}");
        if let Some(x) = g {
            ensure!(*x == *q, "get({q:?}) yields {x:?}");
            if keys.len() <= 64 { ensure!(keys.iter().any(|k| format!("{k:?}") == format!("{x:?}")), "get({q:?}) yields {x:?}, which is not a stored value"); }
            ensure!(Set::iter(m).any(|y| std::ptr::eq(x, y)), "get({q:?}) is a reference to something else than a stored value");
        }
    }
    Ok(())
}

fn points(n: usize) -> Vec<usize> { if n <= 24 { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n - 2, n - 1, n, n + 1] } }

/// what every iterator over `want` must do; `exact`: its size hints are exact
fn walk<'a, T: Key, I: Iterator<Item = &'a T> + Clone>(what: &str, it0: I, want: &[&'a T], order: bool) -> R {
    let mut all: Vec<&T> = vec![];
    let mut it = it0.clone();
    while let Some(x) = it.next() { all.push(x); ensure!(all.len() <= want.len(), "{what} yields more than {} items: {:?}", want.len(), x); }
    for _ in 0..4 { ensure!(it.next().is_none(), "{what} yields an item after None"); }
    if order { ensure!(all.len() == want.len() && all.iter().zip(want).all(|(a, b)| std::ptr::eq(*a, *b)), "{what} yields {} items, expected {}", all.len(), want.len()); }
    same_multiset(what, all.clone(), want.to_vec())?;
    for at in points(all.len()) {
        let mut it = it0.clone();
        for _ in 0..at { it.next(); }
        let rest = &all[at.min(all.len())..];
        provided(&format!("{what} after {at} items"), &|| it.clone(), rest, |x, y| std::ptr::eq(*x, *y))?;
        let mut c = it0.clone(); c.clone_from(&it);
        ensure!(c.zip(rest).all(|(x, y)| std::ptr::eq(x, *y)), "{what}: clone_from after {at} items differs");
        let mut d = it.clone();
        let same = |g: &[&T]| g.len() == rest.len() && g.iter().zip(rest).all(|(a, b)| std::ptr::eq(*a, *b));
        let c: Vec<&T> = it.clone().collect();
        ensure!(same(&c), "{what}: a clone after {at} items yields {} items, {} remain", c.len(), rest.len());
        let mut f = vec![];
        it.clone().fold((), |(), x| f.push(x));
        ensure!(same(&f), "{what}: fold after {at} items visits {} items, {} remain", f.len(), rest.len());
        let c: Vec<&T> = it.collect();
        ensure!(same(&c), "{what}: {} items after {at}, {} remain", c.len(), rest.len());
        for x in rest { ensure!(d.next().is_some_and(|y| std::ptr::eq(*x, y)), "{what}: a clone after {at} items yields other items"); }
        for _ in 0..3 { ensure!(d.next().is_none(), "{what}: a clone yields an item after the end"); }
    }
    Ok(())
}

fn iterate<T: Key, M: TSet<T>>(m: &M, keys: &[T], owned: impl Fn() -> Option<IntoIter<T>>) -> R {
    let stored: Vec<&T> = m.own_iter().collect();
    same_multiset("values stored", stored.iter().map(|x| (*x).clone()).collect(), keys.to_vec())?;
    walk("iter", m.own_iter(), &stored, true)?;
    walk("iteration over a reference", m.ref_iter(), &stored, true)?;
    let g: Vec<&T> = Set::iter(m).collect();
    ensure!(g.len() == stored.len() && g.iter().zip(&stored).all(|(a, b)| std::ptr::eq(*a, *b)), "Set::iter differs from iter");
    for at in points(keys.len()) {
        let Some(mut it) = owned() else { return Ok(()) };
        let mut got = vec![];
        for _ in 0..at { got.extend(it.next()); }
        let c = it.clone();
        if at < 3 || at + 3 > keys.len() { provided(&format!("into_iter after {at} items"), &|| it.clone(), &it.clone().collect::<Vec<T>>(), |x, y| x == y)?; }
        let mut rest: Vec<T> = vec![];
        while let Some(x) = it.next() { rest.push(x); ensure!(rest.len() <= keys.len(), "into_iter yields too many items"); }
        for _ in 0..3 { ensure!(it.next().is_none(), "into_iter yields an item after None"); }
        let other: Vec<T> = c.collect();
        ensure!(other == rest, "a clone of into_iter after {at} items yields {} items, {} remain", other.len(), rest.len());
        got.extend(rest);
        same_multiset("into_iter", got, keys.to_vec())?;
    }
    Ok(())
}

fn sizes<T: Key, M: TSet<T>>(m: &M, keys: &[T], owned: impl Fn() -> Option<IntoIter<T>>) -> R {
    let n = keys.len();
    ensure!(Len::len(m) == n, "len is {}, built from {n}", Len::len(m));
    ensure!(m.nothing() == (n == 0) && Len::is_empty(m) == (n == 0), "is_empty is wrong with {n} values");
    for at in points(n) {
        let left = n.saturating_sub(at);
        macro_rules! one { ($what:expr, $mk:expr) => {{
            let mut it = $mk;
            for _ in 0..at { it.next(); }
            ensure!(it.len() == left, "{}: len after {at} items is {}, {left} remain", $what, it.len());
            ensure!(it.size_hint() == (left, Some(left)), "{}: size_hint after {at} items is {:?}, {left} remain", $what, it.size_hint());
            let c = it.clone().count();
            ensure!(c == left, "{}: count after {at} items is {c}, {left} remain", $what);
            let mut real = 0; while it.next().is_some() { real += 1; }
            ensure!(real == left, "{}: {real} items after {at}, expected {left}", $what);
        }} }
        one!("iter", m.own_iter()); one!("iteration over a reference", m.ref_iter());
        if let Some(it) = owned() { one!("into_iter", it); }
    }
    Ok(())
}

fn equality<T: Key, M: TSet<T>>(build: &dyn Fn(Vec<T>) -> M, keys: &[T], probes: &[T], seed: u64) -> R {
    let t: BTreeSet<&T> = keys.iter().collect();
    if t.len() != keys.len() { return Ok(()); }
    let m = build(keys.to_vec());
    let mut q = keys.to_vec(); Rng(seed).shuffle(&mut q);
    let o = build(q);
    ensure!(m.same(&o) && o.same(&m) && m.same(&m), "sets built from the same values in different order differ");
    for i in points(keys.len()) {
        if i >= keys.len() { continue; }
        let mut q = keys.to_vec(); q.remove(i);
        if let Some(o) = panics(|| build(q)) { ensure!(!m.same(&o) && !o.same(&m), "a set equals one that lacks {:?}", keys[i]); }
        if let Some(a) = probes.iter().filter(|x| !t.contains(x)).nth(i % 5) {
            let mut q = keys.to_vec(); q[i] = a.clone();
            if let Some(o) = panics(|| build(q)) { ensure!(!m.same(&o) && !o.same(&m), "sets that differ in one value ({:?} / {a:?}) compare equal", keys[i]); }
        }
    }
    Ok(())
}

fn showing<T: Key, M: TSet<T>>(m: M, keys: &[T], probes: &[T], owned: impl Fn() -> Option<IntoIter<T>>) -> R {
    let all: Vec<&T> = m.own_iter().collect();
    let unit: Vec<(&T, &())> = all.iter().map(|x| (*x, &())).collect();
    if let Some(got) = m.show() { ensure!(got == shown(&AsSet(&all)) || got == shown(&all) || got == shown(&AsMap(&unit)), "Debug writes {} but the values are {all:?}", got.0); }
    for at in points(all.len()) {
        let from = at.min(all.len());
        let mut it = m.own_iter(); for _ in 0..at { let _ = it.next(); }
        shows_rest(&format!("iter after {at} items"), &it, &all[from..])?;
        if let Some(mut it) = owned() {
            for _ in 0..at { let _ = it.next(); }
            let rest: Vec<T> = it.clone().collect();
            shows_rest(&format!("into_iter after {at} items"), &it, &rest)?;
            let other: Vec<T> = it.collect();
            ensure!(rest == other && rest.len() == all.len() - from, "a clone of into_iter after {at} items yields {} items, {} remain", rest.len(), all.len() - from);
        }
    }
    let d = m.dup();
    ensure!(Len::len(&d) == Len::len(&m) && d.nothing() == m.nothing(), "len of the clone is {}", Len::len(&d));
    let (x, y): (Vec<&T>, Vec<&T>) = (d.own_iter().collect(), m.own_iter().collect());
    ensure!(x == y, "the clone has {} values, or others, or in another order; {} expected", x.len(), y.len());
    ensure!(x.iter().zip(&y).all(|(a, b)| std::mem::size_of::<T>() == 0 || !std::ptr::eq(*a, *b)), "the clone shares values");
    let mut e = m.dup();
    e.dup_from(&d);
    ensure!(e.own_iter().eq(d.own_iter()), "clone_from yields {} values, or others, or in another order", Len::len(&e));
    drop(e);
    drop(m);
    member(&d, keys, probes)
}

pub fn check<T: Key, M: TSet<T>>(prop: u8, build: &dyn Fn(Vec<T>) -> M, owned: &dyn Fn(Vec<T>) -> Option<IntoIter<T>>, keys: &[T], probes: &[T], seed: u64) -> R {
    let m = build(keys.to_vec());
    match prop {
        23 => return showing(m, keys, probes, || owned(keys.to_vec())),
        2 | 3 | 4 | 5 | 20 => member(&m, keys, probes)?,
        9 => iterate(&m, keys, || owned(keys.to_vec()))?,
        10 => sizes(&m, keys, || owned(keys.to_vec()))?,
        14 => equality(build, keys, probes, seed)?,
        15 | 16 => {
            same_multiset("values stored", m.own_iter().cloned().collect(), keys.to_vec())?;
            member(&m, keys, if prop == 15 { keys } else { probes })?;
            if prop == 16 { iterate(&m, keys, || owned(keys.to_vec()))?; }
            ensure!(Len::len(&m) == keys.len(), "len is {}, built from {}", Len::len(&m), keys.len());
        }
        _ => {}
    }
    Ok(())
}

macro_rules! go { ($c:expr, $prop:expr, $id:expr, $n:expr, $build:expr, $keys:expr, $probes:expr) => {{
    let id = $id;
    if $c.wants(&id) { let (prop, seed) = ($prop, $c.seed); $c.case(&id, $n, || check(prop, &$build, &|p| Some($build(p).into_iter()), $keys, $probes, seed)); }
}} }
macro_rules! gof { ($c:expr, $prop:expr, $id:expr, $n:expr, $build:expr, $keys:expr, $probes:expr) => {{
    let id = $id;
    if $c.wants(&id) { let (prop, seed) = ($prop, $c.seed); $c.case(&id, $n, || check(prop, &$build, &|_| None, $keys, $probes, seed)); }
}} }
fn skip(h: u8, n: usize) -> bool { (bad_hash(h) || h == 3) && n > 300 || bad_hash(h) && n > 140 && n < 250 }
fn tag(keys: &[String]) -> Vec<Tagged> { keys.iter().enumerate().map(|(i, k)| Tagged { k: k.clone(), extra: i as u32 }).collect() }
fn tag9(keys: &[String]) -> Vec<Tagged> { keys.iter().map(|k| Tagged { k: k.clone(), extra: 9999 }).collect() }

pub fn frozen(c: &mut Ctx, prop: u8) {
    let big = |n: usize| n > 300 && !matches!(prop, 2 | 15 | 20 | 16);
    for n in ns(c, prop, usize::MAX) {
        if big(n) { continue; }
        for (name, keys) in int_seqs::<u32>(n, c.seed) {
            let pr = int_probes(&keys, c.seed);
            gof!(c, prop, format!("FrozenSet<u32>/std/n={n}/{name}"), n, |p| FrozenSet::from_vec(p), &keys, &pr);
            if n <= 20 { for h in HASHERS { gof!(c, prop, format!("FrozenSet<u32>/hasher{h}/n={n}/{name}"), n, |p| FrozenSet::from_vec_with_hasher(p, Hb(h)), &keys, &pr); } }
        }
        for (name, keys) in str_seqs(n, c.seed) {
            let pr = str_probes(&keys);
            gof!(c, prop, format!("FrozenSet<String>/std/n={n}/{name}"), n, |p| FrozenSet::from_vec(p), &keys, &pr);
            for h in HASHERS { if n <= 60 && !skip(h, n) || n == 256 || n == 255 && h % 2 == 0 || n > 256 && h == 0 { gof!(c, prop, format!("FrozenSet<String>/hasher{h}/n={n}/{name}"), n, |p| FrozenSet::from_vec_with_hasher(p, Hb(h)), &keys, &pr); } }
            if n <= 60 || n == 256 {
                let (k2, p2) = (tag(&keys), tag9(&pr));
                gof!(c, prop, format!("FrozenSet<Tagged>/n={n}/{name}"), n, |p| FrozenSet::from_vec(p), &k2, &p2);
                let k2: Vec<Vec<u8>> = keys.iter().map(|k| k.clone().into_bytes()).collect();
                let p2: Vec<Vec<u8>> = pr.iter().map(|k| k.clone().into_bytes()).collect();
                gof!(c, prop, format!("FrozenSet<Vec<u8>>/n={n}/{name}"), n, |p| FrozenSet::from_vec(p), &k2, &p2);
            }
        }
        if n <= 20 || matches!(n, 127 | 128 | 255 | 256) {
            macro_rules! other { ($($t:ident)*) => { $( for (name, keys) in int_seqs::<$t>(n, c.seed) {
                let pr = int_probes(&keys, c.seed);
                gof!(c, prop, format!("FrozenSet<{}>/n={n}/{name}", stringify!($t)), n, |p| FrozenSet::from_vec(p), &keys, &pr);
            } )* } }
            other!(i32 u64 u8 i8 u16 i128);
            macro_rules! loosely { ($($t:ty)*) => { $( for kind in 0..3 {
                let (keys, pr) = loose::<$t>(n, kind);
                gof!(c, prop, format!("FrozenSet<Loose<{}>>/n={n}/{kind}", stringify!($t)), n, |p| FrozenSet::from_vec(p), &keys, &pr);
            } )* } }
            loosely!(u16 u32 i32 u64 usize u128 [u8; 4] [usize; 2] [usize; 3]);
            for (name, keys) in int_seqs::<i32>(n, c.seed) {
                let pr: Vec<Id> = int_probes(&keys, c.seed).into_iter().map(Id).collect();
                let keys: Vec<Id> = keys.into_iter().map(Id).collect();
                gof!(c, prop, format!("FrozenSet<Id>/n={n}/{name}"), n, |p| FrozenSet::from_vec_with_hasher(p, Hb(4)), &keys, &pr);
            }
        }
    }
}

pub fn common(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, usize::MAX) { for h in HASHERS {
        if skip(h, n) || n > 300 && h != 0 || n > 20 && h > 2 { continue; }
        for (name, keys) in int_seqs::<u64>(n, c.seed) {
            let pr = int_probes(&keys, c.seed);
            if n <= 255 { go!(c, prop, format!("CommonSet<u64,u8>/hasher{h}/n={n}/{name}"), n, |p| CommonSet::<u64, u8, Hb>::from_vec_with_hasher(p, Hb(h)), &keys, &pr); }
            go!(c, prop, format!("CommonSet<u64,u32>/hasher{h}/n={n}/{name}"), n, |p| CommonSet::<u64, u32, Hb>::from_vec_with_hasher(p, Hb(h)), &keys, &pr);
        }
        if h > 1 && n > 8 { continue; }
        for (name, keys) in str_seqs(n, c.seed) {
            let pr = str_probes(&keys);
            go!(c, prop, format!("CommonSet<String,u16>/hasher{h}/n={n}/{name}"), n, |p| CommonSet::<String, u16, Hb>::from_vec_with_hasher(p, Hb(h)), &keys, &pr);
            if n <= 20 { let (k2, p2) = (tag(&keys), tag9(&pr)); go!(c, prop, format!("CommonSet<Tagged,u8>/hasher{h}/n={n}/{name}"), n, |p| CommonSet::<Tagged, u8, Hb>::from_vec_with_hasher(p, Hb(h)), &k2, &p2); }
        }
    } }
}

pub fn integer(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, usize::MAX) {
        macro_rules! t { ($($t:ident)*) => { $( for (name, keys) in int_seqs::<$t>(n, c.seed) {
            let pr = int_probes(&keys, c.seed);
            if n <= 255 { go!(c, prop, format!("IntegerSet<{},u8>/n={n}/{name}", stringify!($t)), n, |p| IntegerSet::<$t, u8>::from_vec(p), &keys, &pr); }
            go!(c, prop, format!("IntegerSet<{},usize>/n={n}/{name}", stringify!($t)), n, |p| IntegerSet::<$t, usize>::from_vec(p), &keys, &pr);
        } )* } }
        t!(u32 i64);
        if n <= 20 || matches!(n, 127 | 128 | 255 | 256 | 1000) { t!(u8 i8 i16 u128 i128); }
    }
}

pub fn length(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, 300) { for (name, keys) in str_seqs(n, c.seed) {
        let pr = str_probes(&keys);
        if n <= 255 { go!(c, prop, format!("LengthSet<String,u8>/n={n}/{name}"), n, |p| LengthSet::<String, u8>::from_vec(p), &keys, &pr); }
        go!(c, prop, format!("LengthSet<String,u32>/n={n}/{name}"), n, |p| LengthSet::<String, u32>::from_vec(p), &keys, &pr);
        if n <= 20 { let (k2, p2) = (tag(&keys), tag9(&pr)); go!(c, prop, format!("LengthSet<Tagged,u8>/n={n}/{name}"), n, |p| LengthSet::<Tagged, u8>::from_vec(p), &k2, &p2); }
    } }
}

pub fn slices(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, if c.thorough { 1001 } else { 300 }) { for (name, keys) in str_seqs(n, c.seed) {
        let pr = str_probes(&keys);
        for (ri, (a, b)) in RANGES.into_iter().enumerate() {
            if n > 20 && !c.thorough && (ri + n + name.len()) % 6 != 0 { continue; }
            for h in HASHERS {
                if h > 0 && (n > 8 || (ri + h as usize) % 3 != 0 && !c.thorough) { continue; }
                go!(c, prop, format!("LeftSliceSet<String,u16>/{a}..{b}/hasher{h}/n={n}/{name}"), n, |p| LeftSliceSet::<String, u16, Hb>::from_vec_with_hasher(p, a..b, Hb(h)), &keys, &pr);
                go!(c, prop, format!("RightSliceSet<String,u16>/{a}..{b}/hasher{h}/n={n}/{name}"), n, |p| RightSliceSet::<String, u16, Hb>::from_vec_with_hasher(p, a..b, Hb(h)), &keys, &pr);
            }
            if n <= 20 {
                let (k2, p2) = (tag(&keys), tag9(&pr));
                go!(c, prop, format!("LeftSliceSet<Tagged,u8>/{a}..{b}/n={n}/{name}"), n, |p| LeftSliceSet::<Tagged, u8, Hb>::from_vec_with_hasher(p, a..b, Hb(0)), &k2, &p2);
                go!(c, prop, format!("RightSliceSet<Tagged,u8>/{a}..{b}/n={n}/{name}"), n, |p| RightSliceSet::<Tagged, u8, Hb>::from_vec_with_hasher(p, a..b, Hb(0)), &k2, &p2);
            }
        }
    } }
}

pub fn scanning(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, 130) {
        for (name, keys) in int_seqs::<i16>(n, c.seed) {
            let pr = int_probes(&keys, c.seed);
            go!(c, prop, format!("ScanningSet<i16>/n={n}/{name}"), n, |p| ScanningSet::from_vec(p), &keys, &pr);
        }
        for (name, keys) in str_seqs(n, c.seed) {
            let pr = str_probes(&keys);
            go!(c, prop, format!("ScanningSet<String>/n={n}/{name}"), n, |p| ScanningSet::from_vec(p), &keys, &pr);
            let (k2, p2) = (tag(&keys), tag9(&pr));
            go!(c, prop, format!("ScanningSet<Tagged>/n={n}/{name}"), n, |p| ScanningSet::from_vec(p), &k2, &p2);
        }
    }
}

pub fn ranges(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, usize::MAX) {
        macro_rules! t { ($($t:ident)*) => { $( for (name, keys) in int_seqs::<$t>(n, c.seed) {
            let id = format!("IntegerRangeSet<{}>/n={n}/{name}", stringify!($t));
            if !contiguous(&keys) {
                if prop == 5 { c.case(&id, n, || { ensure!(panics(|| IntegerRangeSet::<$t>::from_vec(keys.clone())).is_none(), "values are not distinct and contiguous but construction succeeded"); Ok(()) }); }
                continue;
            }
            let pr = int_probes(&keys, c.seed);
            go!(c, prop, id, n, |p| IntegerRangeSet::<$t>::from_vec(p), &keys, &pr);
        } )* } }
        t!(i8 u8 i32 u32 i64 u64);
        if n <= 20 || matches!(n, 127 | 128 | 255 | 256 | 1000) { t!(i16 u16 i128 u128 isize usize); }
    }
}

pub fn capacity(c: &mut Ctx) {
    macro_rules! cap { ($what:expr, $n:expr, $mk:expr, $keys:expr) => {{
        let id = format!("{}/n={}", $what, $n);
        if c.wants(&id) { c.case(&id, $n, || {
            let keys = $keys;
            let r = panics(|| $mk(keys.clone()));
            if $n > 255 { ensure!(r.is_none(), "built with {} values", $n); return Ok(()); }
            ensure!(r.is_some(), "construction panicked although the payload fits");
            let m = r.unwrap();
            ensure!(Len::len(&m) == $n && TSet::own_iter(&m).count() == $n, "len {}", Len::len(&m));
            for k in &keys { ensure!(TSet::has(&m, k), "{k:?} is not found"); }
            Ok(())
        }); }
    }} }
    let strs = |n: usize| (0..n).map(|i| format!("{i:06}{}", "x".repeat(i % 3))).collect::<Vec<String>>();
    for n in [254usize, 255, 256, 257, 511, 512, 600] {
        cap!("IntegerSet/u8", n, |p| IntegerSet::<u64, u8>::from_vec(p), (0..n as u64).collect::<Vec<u64>>());
        cap!("CommonSet/u8", n, |p| CommonSet::<u64, u8, Hb>::from_vec_with_hasher(p, Hb(0)), (0..n as u64).collect::<Vec<u64>>());
        cap!("LeftSliceSet/u8", n, |p| LeftSliceSet::<String, u8, Hb>::from_vec_with_hasher(p, 0..6, Hb(0)), strs(n));
        cap!("RightSliceSet/u8", n, |p| RightSliceSet::<String, u8, Hb>::from_vec_with_hasher(p, 0..6, Hb(0)), strs(n));
        cap!("LengthSet/u8", n, |p| LengthSet::<String, u8>::from_vec(p), (0..n).map(|i| "x".repeat(i)).collect::<Vec<String>>());
    }
    for n in [255usize, 256, 65535, 65536, 70001] {
        c.case(&format!("FrozenSet large/n={n}"), n, || {
            let keys: Vec<u32> = (0..n as u32).map(|i| i * 3).collect();
            let m = FrozenSet::from_vec(keys.clone());
            ensure!(Len::len(&m) == n, "len {}", Len::len(&m));
            for k in &keys { ensure!(m.contains(k), "{k} is not found"); }
            let keys = strs(n);
            let m = FrozenSet::from_vec_with_hasher(keys.clone(), Hb(0));
            ensure!(Len::len(&m) == n, "len {}", Len::len(&m));
            for k in &keys { ensure!(m.contains(k), "{k} is not found"); }
            Ok(())
        });
    }
}

pub fn ctors(c: &mut Ctx) {
    const SIZES: [usize; 8] = [0, 1, 2, 3, 4, 20, 254, 255];
    fn full<T: Key, M: TSet<T>>(m: M, keys: &[T], pr: &[T]) -> R {
        member(&m, keys, pr)?;
        ensure!(Len::len(&m) == keys.len(), "len {} built from {}", Len::len(&m), keys.len());
        same_multiset("contents", m.own_iter().cloned().collect(), keys.to_vec())
    }
    macro_rules! many { ($c:expr, $fam:expr, $keys:expr, $pr:expr, $( $what:literal => $mk:expr ),* $(,)?) => { $( {
        let id = format!("{}/{}/n={}", $what, $fam, $keys.len());
        $c.case(&id, $keys.len(), || full($mk($keys.clone()), &$keys, &$pr));
    } )* } }
    macro_rules! arr { ($p:expr, $a:ident, $f:expr) => {{ let p = $p; arr!(p, $a, $f; 0 1 2 3 4 20 254 255) }};
        ($p:ident, $a:ident, $f:expr; $($n:literal)*) => { match $p.len() { $( $n => { let $a: [_; $n] = match $p.try_into() { Ok(a) => a, Err(_) => panic!() }; $f } )* _ => unreachable!() } } }
    for n in [0usize, 1, 2, 3, 4, 5, 9, 20, 100, 254, 255] {
        for (fam, keys) in int_seqs::<u32>(n, c.seed) {
            let pr = int_probes(&keys, c.seed);
            many!(c, fam, keys, pr,
                "FrozenSet::from_vec" => |p| FrozenSet::from_vec(p),
                "FrozenSet::from_vec_with_hasher" => |p| FrozenSet::from_vec_with_hasher(p, Hb(0)),
                "FrozenSet::from_iter_with_hasher" => |p: Vec<_>| FrozenSet::from_iter_with_hasher(feed(p, &fam), Hb(0)),
                "FrozenSet::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<FrozenSet<_>>(),
                "CommonSet::from_vec" => |p| CommonSet::<u32, u8>::from_vec(p),
                "CommonSet::from_vec_with_hasher" => |p| CommonSet::<u32, u8, Hb>::from_vec_with_hasher(p, Hb(0)),
                "CommonSet::from_iter_with_hasher" => |p: Vec<_>| CommonSet::<u32, u16, Hb>::from_iter_with_hasher(feed(p, &fam), Hb(0)),
                "CommonSet::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<CommonSet<_, u8>>(),
                "IntegerSet::from_vec" => |p| IntegerSet::<u32, u8>::from_vec(p),
                "IntegerSet::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<IntegerSet<_, u8>>(),
                "ScanningSet::from_vec" => |p| ScanningSet::from_vec(p),
                "ScanningSet::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<ScanningSet<_>>());
            if contiguous(&keys) { many!(c, fam, keys, pr,
                "IntegerRangeSet::from_vec" => |p| IntegerRangeSet::from_vec(p),
                "IntegerRangeSet::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<IntegerRangeSet<_>>()); }
            if SIZES.contains(&n) {
                many!(c, fam, keys, pr,
                    "FrozenSet::from" => |p: Vec<_>| arr!(p, a, FrozenSet::from(a)),
                    "FrozenSet::with_hasher" => |p: Vec<_>| arr!(p, a, FrozenSet::with_hasher(a, Hb(0))),
                    "CommonSet::from" => |p: Vec<_>| arr!(p, a, CommonSet::<u32, u8>::from(a)),
                    "CommonSet::with_hasher" => |p: Vec<_>| arr!(p, a, CommonSet::<u32, u8, Hb>::with_hasher(a, Hb(0))),
                    "IntegerSet::from" => |p: Vec<_>| arr!(p, a, IntegerSet::<u32, u8>::from(a)),
                    "ScanningSet::from" => |p: Vec<_>| arr!(p, a, ScanningSet::from(a)));
                if contiguous(&keys) { many!(c, fam, keys, pr, "IntegerRangeSet::from" => |p: Vec<_>| arr!(p, a, IntegerRangeSet::from(a))); }
            }
        }
        for (fam, keys) in str_seqs(n, c.seed) {
            let pr = str_probes(&keys);
            many!(c, fam, keys, pr,
                "FrozenSet<String>::from_vec" => |p| FrozenSet::from_vec(p),
                "FrozenSet<String>::from_vec_with_hasher" => |p| FrozenSet::from_vec_with_hasher(p, Hb(0)),
                "FrozenSet<String>::from_iter_with_hasher" => |p: Vec<_>| FrozenSet::from_iter_with_hasher(feed(p, &fam), Hb(0)),
                "FrozenSet<String>::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<FrozenSet<_>>(),
                "LengthSet::from_vec" => |p| LengthSet::<String, u8>::from_vec(p),
                "LengthSet::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<LengthSet<_, u8>>());
            for (a, b) in [(0usize, 0usize), (1, 3), (3, 6)] {
                let fam = format!("{a}..{b}/{fam}");
                many!(c, fam, keys, pr,
                    "LeftSliceSet::from_vec" => |p| LeftSliceSet::<String, u8>::from_vec(p, a..b),
                    "LeftSliceSet::from_iter" => |p: Vec<_>| LeftSliceSet::<String, u8>::from_iter(feed(p, &fam), a..b),
                    "LeftSliceSet::from_vec_with_hasher" => |p| LeftSliceSet::<String, u8, Hb>::from_vec_with_hasher(p, a..b, Hb(0)),
                    "LeftSliceSet::from_iter_with_hasher" => |p: Vec<_>| LeftSliceSet::<String, u8, Hb>::from_iter_with_hasher(feed(p, &fam), a..b, Hb(0)),
                    "RightSliceSet::from_vec" => |p| RightSliceSet::<String, u8>::from_vec(p, a..b),
                    "RightSliceSet::from_iter" => |p: Vec<_>| RightSliceSet::<String, u8>::from_iter(feed(p, &fam), a..b),
                    "RightSliceSet::from_vec_with_hasher" => |p| RightSliceSet::<String, u8, Hb>::from_vec_with_hasher(p, a..b, Hb(0)),
                    "RightSliceSet::from_iter_with_hasher" => |p: Vec<_>| RightSliceSet::<String, u8, Hb>::from_iter_with_hasher(feed(p, &fam), a..b, Hb(0)));
                if SIZES.contains(&n) { many!(c, fam, keys, pr,
                    "LeftSliceSet::from" => |p: Vec<_>| arr!(p, x, LeftSliceSet::<String, u8>::from(x, a..b)),
                    "LeftSliceSet::with_hasher" => |p: Vec<_>| arr!(p, x, LeftSliceSet::<String, u8, Hb>::with_hasher(x, a..b, Hb(0))),
                    "RightSliceSet::from" => |p: Vec<_>| arr!(p, x, RightSliceSet::<String, u8>::from(x, a..b)),
                    "RightSliceSet::with_hasher" => |p: Vec<_>| arr!(p, x, RightSliceSet::<String, u8, Hb>::with_hasher(x, a..b, Hb(0)))); }
            }
            if SIZES.contains(&n) { many!(c, fam, keys, pr,
                "FrozenSet<String>::from" => |p: Vec<_>| arr!(p, x, FrozenSet::from(x)),
                "FrozenSet<String>::with_hasher" => |p: Vec<_>| arr!(p, x, FrozenSet::with_hasher(x, Hb(0))),
                "LengthSet::from" => |p: Vec<_>| arr!(p, x, LengthSet::<String, u8>::from(x))); }
        }
    }
    for h in HASHERS {
        c.case(&format!("set hasher()/{h}"), 1, || {
            let s: Vec<String> = (0..9).map(|i| format!("{i}")).collect();
            ensure!(*CommonSet::<String, u8, Hb>::from_vec_with_hasher(s.clone(), Hb(h)).hasher() == Hb(h), "CommonSet");
            ensure!(*CommonSet::<String, u8, Hb>::from_iter_with_hasher(s.clone(), Hb(h)).hasher() == Hb(h), "CommonSet iter");
            ensure!(*LeftSliceSet::<String, u8, Hb>::from_vec_with_hasher(s.clone(), 0..1, Hb(h)).hasher() == Hb(h), "LeftSliceSet");
            ensure!(*LeftSliceSet::<String, u8, Hb>::from_iter_with_hasher(s.clone(), 0..1, Hb(h)).hasher() == Hb(h), "LeftSliceSet iter");
            ensure!(*RightSliceSet::<String, u8, Hb>::from_vec_with_hasher(s.clone(), 0..1, Hb(h)).hasher() == Hb(h), "RightSliceSet");
            ensure!(*RightSliceSet::<String, u8, Hb>::from_iter_with_hasher(s, 0..1, Hb(h)).hasher() == Hb(h), "RightSliceSet iter");
            Ok(())
        });
    }
    c.case("set default", 1, || {
        let d: FrozenSet<u32> = FrozenSet::default();
        ensure!(d.is_empty() && Len::len(&d) == 0 && !d.contains(&0) && d.get(&0).is_none() && d.iter().next().is_none(), "u32");
        let d: FrozenSet<String, Hb> = FrozenSet::default();
        ensure!(d.is_empty() && Len::len(&d) == 0 && !d.contains(&String::new()) && d.iter().next().is_none(), "String");
        let d: FrozenSet<u64, Hb> = FrozenSet::default();
        ensure!(d.is_empty() && Len::len(&d) == 0 && !d.contains(&0) && d.iter().next().is_none(), "u64");
        Ok(())
    });
}

// ---------------------------------------------------------------- pairs of sets

fn hint<'a, T: Key, I: Iterator<Item = &'a T> + Clone>(what: &str, it: I, x: &[T], y: &[T]) -> R {
    let total = it.clone().count();
    let mut it = it;
    for at in 0..=total + 1 {
        if total > 40 && at > 3 && at + 3 < total && at % 17 != 0 { it.next(); continue; }
        let (lo, hi) = it.size_hint();
        let left = total.saturating_sub(at);
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{what} of {x:?} and {y:?}: size_hint is {:?} after {at} items, {left} remain", (lo, hi));
        let _ = it.next();
    }
    Ok(())
}

fn pair<T: Key, A: Set<T>, B: Set<T>>(prop: u8, a: &A, b: &B, x: &[T], y: &[T]) -> R
where for<'z> A::Iterator<'z>: Clone, for<'z> B::Iterator<'z>: Clone {
    let (sx, sy): (BTreeSet<&T>, BTreeSet<&T>) = (x.iter().collect(), y.iter().collect());
    let small = |v: &[T]| if v.len() > 12 { format!("[{} values]", v.len()) } else { format!("{v:?}") };
    match prop {
        11 => {
            let w = |op: &str| format!("{op} of {} and {}", small(x), small(y));
            fn vals<'x, T>(v: Vec<&&'x T>) -> Vec<&'x T> { v.into_iter().copied().collect() }
            walk(&w("union"), a.union(b), &vals(sx.union(&sy).collect()), false)?;
            walk(&w("intersection"), a.intersection(b), &vals(sx.intersection(&sy).collect()), false)?;
            walk(&w("difference"), a.difference(b), &vals(sx.difference(&sy).collect()), false)?;
            walk(&w("symmetric difference"), a.symmetric_difference(b), &vals(sx.symmetric_difference(&sy).collect()), false)?;
        }
        23 => {
            macro_rules! one { ($what:literal, $it:expr) => {{
                let all: Vec<&T> = $it.collect();
                for at in points(all.len()) { let mut it = $it; for _ in 0..at { let _ = it.next(); } shows_rest(&format!("{} of {} and {} after {at} items", $what, small(x), small(y)), &it, &all[at.min(all.len())..])?; }
            }} }
            one!("union", a.union(b)); one!("intersection", a.intersection(b)); one!("difference", a.difference(b)); one!("symmetric difference", a.symmetric_difference(b));
        }
        10 => {
            hint("union", a.union(b), x, y)?;
            hint("intersection", a.intersection(b), x, y)?;
            hint("difference", a.difference(b), x, y)?;
            hint("symmetric difference", a.symmetric_difference(b), x, y)?;
        }
        _ => {
            ensure!(a.is_subset(b) == sx.is_subset(&sy), "is_subset of {} and {} is {}", small(x), small(y), a.is_subset(b));
            ensure!(a.is_superset(b) == sx.is_superset(&sy), "is_superset of {} and {} is {}", small(x), small(y), a.is_superset(b));
            ensure!(a.is_disjoint(b) == sx.is_disjoint(&sy), "is_disjoint of {} and {} is {}", small(x), small(y), a.is_disjoint(b));
        }
    }
    Ok(())
}

fn oper<T: Key + Hash, A, B, BH: BuildHasher>(a: &A, b: &B, x: &[T], y: &[T]) -> R
where for<'z> &'z A: BitOr<&'z B, Output = HashSet<T, BH>> + BitAnd<&'z B, Output = HashSet<T, BH>> + BitXor<&'z B, Output = HashSet<T, BH>> + Sub<&'z B, Output = HashSet<T, BH>> {
    let (sx, sy): (BTreeSet<T>, BTreeSet<T>) = (x.iter().cloned().collect(), y.iter().cloned().collect());
    macro_rules! one { ($what:literal, $got:expr, $want:expr) => {{ let g: HashSet<T, BH> = $got; let w: BTreeSet<T> = $want.cloned().collect();
        ensure!(g.len() == w.len() && w.iter().all(|v| g.contains(v)), "{x:?} {} {y:?} holds {} values, expected {}", $what, g.len(), w.len()); }} }
    one!("|", a | b, sx.union(&sy));
    one!("&", a & b, sx.intersection(&sy));
    one!("^", a ^ b, sx.symmetric_difference(&sy));
    one!("-", a - b, sx.difference(&sy));
    Ok(())
}

type Built<S, T> = Vec<(Vec<T>, S)>;
fn built<T: Key, S>(subs: &[Vec<T>], f: impl Fn(Vec<T>) -> S) -> Built<S, T> { subs.iter().filter_map(|v| panics(|| f(v.clone())).map(|s| (v.clone(), s))).collect() }

/// operands: every subset of a six-element universe, plus larger ones
fn operands<T: Key>(u: &[T], c: &Ctx, big: &[T]) -> Vec<Vec<T>> {
    let n = u.len();
    let mut out = vec![];
    let mut rng = Rng(c.seed);
    for m in 0..1u32 << n {
        let mut v: Vec<T> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| u[i].clone()).collect();
        if m % 3 == 1 { v.reverse(); } else if m % 3 == 2 { rng.shuffle(&mut v); }
        out.push(v);
    }
    for (a, b) in [(0, 130), (0, 257), (60, 200), (128, 130), (3, 12)] { out.push(big[a..b].to_vec()); }
    let mut v = big[..200].to_vec(); rng.shuffle(&mut v); v.truncate(40); out.push(v);
    out
}

fn range_operands(c: &Ctx, lo: i128) -> Vec<Vec<u32>> {
    let mut out = vec![vec![]];
    let mut rng = Rng(c.seed);
    for a in 0..7i128 { for b in a..7 { let mut v: Vec<u32> = (a..=b).map(|i| (lo + i) as u32).collect(); rng.shuffle(&mut v); out.push(v); } }
    out.push((lo as u32..lo as u32 + 130).collect());
    out
}

pub fn pairs(c: &mut Ctx, prop: u8) {
    let lo = 3u32;
    let u: Vec<u32> = (0..6).map(|i| lo + i).collect();
    let big: Vec<u32> = (0..300).map(|i| lo + i * if i > 8 { 3 } else { 1 }).collect();
    let all = operands(&u, c, &big);
    let few: Vec<Vec<u32>> = all.iter().cloned().collect();
    let fr = built(&all, |v| FrozenSet::from_vec_with_hasher(v, Hb(0)));
    let co = built(&few, |v| CommonSet::<u32, u16, Hb>::from_vec_with_hasher(v, Hb(0)));
    let it = built(&few, |v| IntegerSet::<u32, u16>::from_vec(v));
    let ra = built(&range_operands(c, 3), |v| IntegerRangeSet::from_vec(v));
    let sc = built(&few, |v| ScanningSet::from_vec(v));
    let hs = built(&few, |v| v.into_iter().collect::<HashSet<u32, Hb>>());
    let bt = built(&few, |v| v.into_iter().collect::<BTreeSet<u32>>());
    let us: Vec<String> = ["", "a", "b", "aa", "é", "xyz"].iter().map(|s| s.to_string()).collect();
    let bigs: Vec<String> = us.iter().cloned().chain((0..300).map(|i| format!("k{i:03}{}", "x".repeat(i % 4)))).collect();
    let alls = operands(&us, c, &bigs);
    let fs = built(&alls, |v| FrozenSet::from_vec_with_hasher(v, Hb(0)));
    let cs = built(&alls, |v| CommonSet::<String, u16, Hb>::from_vec_with_hasher(v, Hb(0)));
    let le = built(&alls, |v| LengthSet::<String, u16>::from_vec(v));
    let ls = built(&alls, |v| LeftSliceSet::<String, u16, Hb>::from_vec_with_hasher(v, 0..2, Hb(0)));
    let rs = built(&alls, |v| RightSliceSet::<String, u16, Hb>::from_vec_with_hasher(v, 1..3, Hb(0)));
    let ss = built(&alls, |v| ScanningSet::from_vec(v));
    let h2 = built(&alls, |v| v.into_iter().collect::<HashSet<String, Hb>>());
    let b2 = built(&alls, |v| v.into_iter().collect::<BTreeSet<String>>());
    macro_rules! cross { ($f:ident; [$($a:ident)*] $bs:tt) => { $( cross!(@ $f; $a $bs); )* };
        (@ $f:ident; $a:ident [$($b:ident)*]) => { $( {
            for (i, (x, sa)) in $a.iter().enumerate() {
                let id = format!("{}x{}/{i}", stringify!($a), stringify!($b));
                if c.wants(&id) { c.case(&id, x.len(), || { for (j, (y, sb)) in $b.iter().enumerate() {
                    if x.len() + y.len() > 60 && (i + j) % 8 != 0 && x.len() * y.len() > 0 && x.len() != y.len() { continue; }
                    $f!(sa, sb, x, y);
                } Ok(()) }); }
            }
        } )* } }
    macro_rules! pr { ($sa:ident, $sb:ident, $x:ident, $y:ident) => { pair(prop, $sa, $sb, $x, $y)?; } }
    macro_rules! op { ($sa:ident, $sb:ident, $x:ident, $y:ident) => { oper($sa, $sb, $x, $y)?; } }
    macro_rules! eq { ($sa:ident, $sb:ident, $x:ident, $y:ident) => {
        let want = $x.iter().collect::<BTreeSet<_>>() == $y.iter().collect::<BTreeSet<_>>();
        ensure!((*$sa == *$sb) == want && (*$sa != *$sb) != want, "== is {} for {:?} and {:?}", !want, $x, $y);
    } }
    match prop {
        13 => {
            cross!(op; [fr co it ra sc] [fr co it ra sc hs bt]);
            cross!(op; [fs cs le ls rs ss] [fs cs le ls rs ss h2 b2]);
        }
        14 => {
            cross!(eq; [co it ra sc] [fr co it ra sc hs bt]);
            cross!(eq; [cs le ls rs ss] [fs cs le ls rs ss h2 b2]);
            cross!(eq; [fr] [fr]);
            cross!(eq; [fs] [fs]);
        }
        _ => {
            cross!(pr; [fr co it ra sc hs bt] [fr co it ra sc hs bt]);
            cross!(pr; [fs cs le ls rs ss h2 b2] [fs cs le ls rs ss h2 b2]);
        }
    }
}
