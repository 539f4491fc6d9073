//! The contract of the maps, evaluated on the real code.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use frozen_collections_core::facades::FrozenMap;
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, PrimInt, Unsigned};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, RandomState};

pub trait Val: Clone + PartialEq + Debug + 'static { fn mk(i: usize) -> Self; }
impl Val for u64 { fn mk(i: usize) -> u64 { i as u64 * 10 + 1 } }
impl Val for String { fn mk(i: usize) -> String { format!("value {i}") } }
impl Val for () { fn mk(_: usize) {} }
impl Val for [u8; 3] { fn mk(i: usize) -> [u8; 3] { [i as u8, (i >> 8) as u8, 5] } }
impl Val for Box<u128> { fn mk(i: usize) -> Self { Box::new(i as u128 + 9) } }

/// the provided methods of Iterator do what their definitions by next say
pub fn provided<I: Iterator, E: Fn(&I::Item, &I::Item) -> bool>(what: &str, mk: &dyn Fn() -> I, rest: &[I::Item], eq: E) -> R where I::Item: Debug {
    let n = rest.len();
    let opt = |a: Option<I::Item>, b: Option<&I::Item>| match (a, b) { (None, None) => true, (Some(x), Some(y)) => eq(&x, y), _ => false };
    let tail = |it: I, from: usize| { let got: Vec<I::Item> = it.take(n + 2).collect(); let want = &rest[from.min(n)..]; got.len() == want.len() && got.iter().zip(want).all(|(x, y)| eq(x, y)) };
    for k in [0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, n + 5] {
        let mut it = mk();
        let x = it.nth(k);
        ensure!(opt(x, rest.get(k)), "{what}: nth({k}) with {n} items remaining yields another item");
        let (lo, hi) = it.size_hint();
        let left = n.saturating_sub(k + 1);
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{what}: size_hint after nth({k}) is {:?}, {left} remain", (lo, hi));
        ensure!(tail(it, k + 1), "{what}: after nth({k}) of {n} items the rest differs");
        ensure!(opt(mk().skip(k).next(), rest.get(k)), "{what}: skip({k}) with {n} items remaining yields another item");
        let mut it = mk();
        let mut seen = 0;
        let e = it.try_fold((), |_, x| { seen += 1; if seen <= k && seen <= n && eq(&x, &rest[seen - 1]) { Ok(()) } else { Err(()) } });
        ensure!(seen == n.min(k + 1) && e.is_ok() == (n <= k), "{what}: try_fold stopped after {k} of {n} items visits {seen}");
        ensure!(tail(it, seen), "{what}: after try_fold over {seen} of {n} items the rest differs");
        let mut seen = 0;
        let f = mk().find(|_| { seen += 1; seen > k });
        ensure!(opt(f, rest.get(k)), "{what}: find of item {k} of {n} yields another item");
        ensure!(mk().step_by(k + 1).count() == n.div_ceil(k + 1), "{what}: step_by({}) over {n} items is wrong", k + 1);
    }
    ensure!(opt(mk().last(), rest.last()), "{what}: last with {n} items remaining yields another item");
    ensure!(mk().count() == n, "{what}: count with {n} items remaining is {}", mk().count());
    let mut i = 0;
    let mut good = true;
    mk().for_each(|x| { good &= i < n && eq(&x, &rest[i.min(n - 1)]); i += 1; });
    ensure!(good && i == n, "{what}: for_each visits {i} items, {n} remain");
    ensure!(mk().all(|_| true) && !mk().any(|_| false) && mk().any(|_| true) == (n > 0), "{what}: all or any is wrong with {n} items remaining");
    let (a, b): (Vec<_>, Vec<_>) = mk().enumerate().partition(|x| x.0 % 2 == 0);
    ensure!(a.len() + b.len() == n && a.iter().chain(&b).all(|(i, x)| eq(x, &rest[*i])), "{what}: partition of {n} items differs");
    let mut i = 0;
    let r = mk().reduce(|_, y| { i += 1; y });
    ensure!(opt(r, rest.last()) && i == n.saturating_sub(1), "{what}: reduce over {n} items differs");
    let mut m = 0;
    let x = mk().max_by_key(|_| { m += 1; m });
    ensure!(opt(x, rest.last()), "{what}: max_by_key over {n} items differs");
    let mut m = 0;
    let x = mk().min_by_key(|_| { m += 1; m });
    ensure!(opt(x, rest.first()), "{what}: min_by_key over {n} items differs");
    Ok(())
}
pub type Shown = (String, String);
pub fn shown<T: Debug + ?Sized>(x: &T) -> Shown { (format!("{x:?}"), format!("{x:#?}")) }
pub struct AsMap<'a, K, V>(pub &'a [(&'a K, &'a V)]);
impl<K: Debug, V: Debug> Debug for AsMap<'_, K, V> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_map().entries(self.0.iter().copied()).finish() } }
pub struct AsSet<'a, T>(pub &'a [T]);
impl<T: Debug> Debug for AsSet<'_, T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_set().entries(self.0.iter()).finish() } }
/// an iterator shows what it has still to yield
pub fn shows_rest<T: Debug>(what: &str, it: &dyn Debug, rest: &[T]) -> R {
    let got = shown(it);
    ensure!(got == shown(rest) || got == shown(&AsSet(rest)), "{what}: Debug writes {} but what remains is {rest:?}", got.0);
    Ok(())
}

pub trait TMap<K, V> {
    fn get(&self, k: &K) -> Option<&V>;
    fn get_key_value(&self, k: &K) -> Option<(&K, &V)>;
    fn get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn contains_key(&self, k: &K) -> bool;
    fn many<const N: usize>(&mut self, k: [&K; N]) -> Option<[&mut V; N]>;
    fn iter(&self) -> Iter<'_, K, V>;
    fn keys(&self) -> Keys<'_, K, V>;
    fn values(&self) -> Values<'_, K, V>;
    fn ref_iter(&self) -> Iter<'_, K, V>;
    fn mlen(&self) -> usize;
    fn mempty(&self) -> bool;
    fn idx(&self, k: K) -> &V;
    fn idx_mut(&mut self, k: K) -> &mut V;
    fn same(&self, o: &Self) -> bool;
    fn dup(&self) -> Self;
    fn dup_from(&mut self, o: &Self);
    fn show(&self) -> Shown;
}
macro_rules! tmap { ([$($g:tt)*] $t:ty) => {
    impl<V: Val, $($g)*> TMap<K, V> for $t {
        fn get(&self, k: &K) -> Option<&V> { self.get(k) }
        fn get_key_value(&self, k: &K) -> Option<(&K, &V)> { self.get_key_value(k) }
        fn get_mut(&mut self, k: &K) -> Option<&mut V> { self.get_mut(k) }
        fn contains_key(&self, k: &K) -> bool { self.contains_key(k) }
        fn many<const N: usize>(&mut self, k: [&K; N]) -> Option<[&mut V; N]> { self.get_many_mut(k) }
        fn iter(&self) -> Iter<'_, K, V> { self.iter() }
        fn keys(&self) -> Keys<'_, K, V> { self.keys() }
        fn values(&self) -> Values<'_, K, V> { self.values() }
        fn ref_iter(&self) -> Iter<'_, K, V> { (&self).into_iter() }
        fn mlen(&self) -> usize { self.len() }
        fn mempty(&self) -> bool { self.is_empty() }
        fn idx(&self, k: K) -> &V { &self[k] }
        fn idx_mut(&mut self, k: K) -> &mut V { &mut self[k] }
        fn same(&self, o: &Self) -> bool { let r = self == o; assert!(r != (self != o), "== and != agree"); r }
        fn dup(&self) -> Self { self.clone() }
        fn dup_from(&mut self, o: &Self) { Clone::clone_from(self, o) }
        fn show(&self) -> Shown { shown(self) }
    }
} }
tmap!([K: Clone + Debug + Hash + Eq, BH: BuildHasher + Clone] FrozenMap<K, V, BH>);
tmap!([K: Clone + Debug + Hash + Eq, S: PrimInt + Unsigned, BH: BuildHasher + Clone] CommonMap<K, V, S, BH>);
tmap!([K: Clone + Debug + PrimInt + AsPrimitive<u64>, S: PrimInt + Unsigned] IntegerMap<K, V, S>);
tmap!([K: Clone + Debug + Len + Eq, S: PrimInt + Unsigned] LengthMap<K, V, S>);
tmap!([K: Clone + Debug + SliceHash + Len + Eq, S: PrimInt + Unsigned, BH: BuildHasher + Clone] LeftSliceMap<K, V, S, BH>);
tmap!([K: Clone + Debug + SliceHash + Len + Eq, S: PrimInt + Unsigned, BH: BuildHasher + Clone] RightSliceMap<K, V, S, BH>);
tmap!([K: Clone + Debug + PrimInt] IntegerRangeMap<K, V>);
tmap!([K: Clone + Debug + Eq] ScanningMap<K, V>);

pub trait Key: Eq + Ord + Clone + Debug + 'static {}
impl<T: Eq + Ord + Clone + Debug + 'static> Key for T {}

struct Truth<'a, K> { at: BTreeMap<&'a K, Vec<usize>>, distinct: bool }
fn truth<K: Key>(keys: &[K]) -> Truth<'_, K> {
    let mut at: BTreeMap<&K, Vec<usize>> = BTreeMap::new();
    for (i, k) in keys.iter().enumerate() { at.entry(k).or_default().push(i); }
    let distinct = at.len() == keys.len();
    Truth { at, distinct }
}

pub fn pay<K: Key, V: Val>(keys: &[K]) -> Vec<(K, V)> { keys.iter().cloned().enumerate().map(|(i, k)| (k, V::mk(i))).collect() }

fn lookup<K: Key, V: Val, M: TMap<K, V>>(m: &M, p: &[(K, V)], t: &Truth<K>, probes: &[K]) -> R {
    for q in probes {
        let e = t.at.get(q);
        let g = m.get(q);
        let kv = m.get_key_value(q);
        let c = m.contains_key(q);
        match e {
            None => {
                ensure!(g.is_none(), "get({q:?}) is {g:?} but the payload has no such key");
                ensure!(kv.is_none(), "get_key_value({q:?}) is {kv:?} but the payload has no such key");
                ensure!(!c, "contains_key({q:?}) is true but the payload has no such key");
            }
            Some(ix) => {
                ensure!(g.is_some(), "get({q:?}) is None but the payload has that key");
                ensure!(kv.is_some(), "get_key_value({q:?}) is None but the payload has that key");
                ensure!(c, "contains_key({q:?}) is false but the payload has that key");
                let v = g.unwrap();
                ensure!(ix.iter().any(|&i| p[i].1 == *v), "get({q:?}) is {v:?}, which the payload does not associate with it");
                let (k, v) = kv.unwrap();
                ensure!(ix.iter().any(|&i| p[i].1 == *v && p[i].0 == *k && (p.len() > 64 || format!("{:?}", p[i].0) == format!("{k:?}"))), "get_key_value({q:?}) is {:?}, which is no entry of the payload", (k, v));
            }
        }
    }
    Ok(())
}

fn snap<K: Key, V: Val, M: TMap<K, V>>(m: &M) -> Vec<(K, V)> { m.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }

fn getmut<K: Key, V: Val, M: TMap<K, V>>(m: &mut M, t: &Truth<K>, probes: &[K]) -> R {
    let n = m.mlen();
    let step = if n > 150 { n / 40 } else { 1 };
    let mut cur = snap(m);
    for (j, q) in probes.iter().step_by(step).enumerate() {
        let want = m.get(q).map(|v| v as *const V);
        let got = m.get_mut(q);
        ensure!(want.is_some() == got.is_some(), "get({q:?}) and get_mut({q:?}) disagree on presence");
        ensure!(got.is_some() == t.at.contains_key(q), "get_mut({q:?}) is {:?}", got.is_some());
        if let Some(r) = got {
            ensure!(std::ptr::eq(r as *const V, want.unwrap()), "get_mut({q:?}) designates another entry than get");
            *r = V::mk(1_000_000 + j);
            let pos: Vec<usize> = cur.iter().enumerate().filter(|(_, e)| e.0 == *q).map(|x| x.0).collect();
            let now = snap(m);
            ensure!(now.len() == cur.len(), "writing through get_mut({q:?}) changed the number of entries");
            let ch: Vec<usize> = (0..n).filter(|&i| now[i] != cur[i]).collect();
            let unit = std::mem::size_of::<V>() == 0;
            ensure!(unit || ch.len() == 1, "writing through get_mut({q:?}) changed the entries at {ch:?}");
            for &i in &ch { ensure!(pos.contains(&i) && now[i].0 == cur[i].0, "writing through get_mut({q:?}) changed entry {i} with key {:?}", cur[i].0); }
            ensure!(m.get(q) == Some(&V::mk(1_000_000 + j)), "get({q:?}) does not show what was written through get_mut");
            cur = now;
        }
    }
    Ok(())
}

fn many_n<const N: usize, K: Key, V: Val, M: TMap<K, V>>(m: &mut M, t: &Truth<K>, sel: &[&K]) -> R {
    let ks: [&K; N] = std::array::from_fn(|i| sel[i]);
    let bad = (0..N).any(|i| (0..i).any(|j| ks[i] == ks[j])) || ks.iter().any(|k| !t.at.contains_key(*k));
    let want: Vec<Option<*const V>> = ks.iter().map(|k| m.get(k).map(|v| v as *const V)).collect();
    let before = snap(m);
    let got = m.many(ks);
    ensure!(got.is_none() == bad, "get_many_mut({ks:?}) is {}", if got.is_none() { "None" } else { "Some" });
    if let Some(a) = got {
        for i in 0..N {
            ensure!(std::ptr::eq(&*a[i], want[i].unwrap()), "get_many_mut({ks:?})[{i}] designates another entry than get");
        }
        for (i, r) in a.into_iter().enumerate() { *r = V::mk(2_000_000 + i); }
        let after = snap(m);
        ensure!(after.len() == before.len(), "get_many_mut changed the number of entries");
        for (x, y) in before.iter().zip(&after) {
            let i = ks.iter().position(|k| **k == x.0);
            ensure!(x.0 == y.0, "get_many_mut changed a key");
            match i {
                Some(i) => ensure!(y.1 == V::mk(2_000_000 + i), "value of {:?} after writing through get_many_mut is {:?}", x.0, y.1),
                None => ensure!(x.1 == y.1, "value of {:?} changed by get_many_mut", x.0),
            }
        }
    }
    Ok(())
}

fn many<K: Key, V: Val, M: TMap<K, V>>(m: &mut M, p: &[(K, V)], t: &Truth<K>, probes: &[K], seed: u64) -> R {
    if !t.distinct { return Ok(()); }
    let mut rng = Rng(seed ^ p.len() as u64);
    let present: Vec<&K> = p.iter().map(|e| &e.0).collect();
    let absent: Vec<&K> = probes.iter().filter(|q| !t.at.contains_key(q)).collect();
    many_n::<0, K, V, M>(m, t, &[])?;
    let rounds = if p.len() > 200 { 6 } else { 20 };
    for n in 1..=6usize {
        for r in 0..rounds {
            let mut sel: Vec<&K> = vec![];
            let mut ix: Vec<usize> = (0..present.len()).collect();
            rng.shuffle(&mut ix);
            for i in 0..n { sel.push(if i < ix.len() { present[ix[i]] } else if absent.is_empty() { return Ok(()) } else { absent[rng.below(absent.len())] }); }
            // r % 3 == 1: one duplicate pair; r % 3 == 2: one absent key; each at varying positions
            if r % 3 == 1 && n >= 2 { let a = rng.below(n); let b = (a + 1 + rng.below(n - 1)) % n; sel[a] = sel[b]; }
            if r % 3 == 2 && !absent.is_empty() { let a = (r / 3) % n; sel[a] = absent[rng.below(absent.len())]; }
            match n { 1 => many_n::<1, K, V, M>(m, t, &sel)?, 2 => many_n::<2, K, V, M>(m, t, &sel)?, 3 => many_n::<3, K, V, M>(m, t, &sel)?,
                      4 => many_n::<4, K, V, M>(m, t, &sel)?, 5 => many_n::<5, K, V, M>(m, t, &sel)?, _ => many_n::<6, K, V, M>(m, t, &sel)? }
        }
    }
    // many keys, and one of them twice, near and far apart
    fn wide<const N: usize, K: Key, V: Val, M: TMap<K, V>>(m: &mut M, t: &Truth<K>, present: &[&K]) -> R {
        if present.len() < N { return Ok(()); }
        let s: Vec<&K> = present[..N].to_vec();
        many_n::<N, K, V, M>(m, t, &s)?;
        for (a, b) in [(0, N - 1), (0, N - 2), (1, N - 1), (N / 2, N - 1), (0, N / 2), (N - 2, N - 1)] { let mut v = s.clone(); v[b] = v[a]; many_n::<N, K, V, M>(m, t, &v)?; }
        Ok(())
    }
    if present.len() < 100 || present.len() > 250 {
        wide::<8, K, V, M>(m, t, &present)?;
        wide::<11, K, V, M>(m, t, &present)?;
        wide::<18, K, V, M>(m, t, &present)?;
        wide::<34, K, V, M>(m, t, &present)?;
        wide::<67, K, V, M>(m, t, &present)?;
        wide::<260, K, V, M>(m, t, &present)?;
    }
    // every pair of positions duplicated, for 2..=4 keys
    if present.len() >= 4 {
        let s: Vec<&K> = present[..4].to_vec();
        for a in 0..4 { for b in 0..a {
            let mut v = s.clone(); v[a] = v[b];
            many_n::<4, K, V, M>(m, t, &v)?;
            if a < 3 { many_n::<3, K, V, M>(m, t, &v)?; }
            if a < 2 { many_n::<2, K, V, M>(m, t, &v)?; }
        } }
    }
    Ok(())
}

fn points(n: usize) -> Vec<usize> {
    if n <= 24 { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n - 2, n - 1, n, n + 1] }
}

pub fn same_multiset<T: Ord + Clone + Debug>(what: &str, a: Vec<T>, b: Vec<T>) -> R {
    let (mut a, mut b) = (a, b);
    a.sort(); b.sort();
    ensure!(a == b, "{what}: {} items, expected {}{}", a.len(), b.len(), if a.len() + b.len() < 40 { format!(": {a:?} against {b:?}") } else { String::new() });
    Ok(())
}

fn iterate<K: Key, V: Val, M: TMap<K, V>>(m: &M, p: &[(K, V)]) -> R {
    let all: Vec<(&K, &V)> = m.iter().collect();
    ensure!(all.len() == m.mlen(), "iter yields {} items, len is {}", all.len(), m.mlen());
    ensure!(all.len() == p.len(), "iter yields {} items, the payload has {}", all.len(), p.len());
    let f = |k: &K, v: &V| (k.clone(), format!("{v:?}"));
    same_multiset("iter against the payload", all.iter().map(|(k, v)| f(k, v)).collect(), p.iter().map(|(k, v)| f(k, v)).collect())?;
    let eqp = |a: (&K, &V), b: (&K, &V)| std::ptr::eq(a.0, b.0) && std::ptr::eq(a.1, b.1);
    let same = |x: &[(&K, &V)]| x.len() == all.len() && x.iter().zip(&all).all(|(a, b)| eqp(*a, *b));
    ensure!(same(&m.iter().collect::<Vec<_>>()), "a second iter differs");
    ensure!(same(&m.ref_iter().collect::<Vec<_>>()), "iteration over a reference differs from iter");
    let ks: Vec<&K> = m.keys().collect();
    ensure!(ks.len() == all.len() && ks.iter().zip(&all).all(|(a, b)| std::ptr::eq(*a, b.0)), "keys differs from iter");
    let vs: Vec<&V> = m.values().collect();
    ensure!(vs.len() == all.len() && vs.iter().zip(&all).all(|(a, b)| std::ptr::eq(*a, b.1)), "values differs from iter");
    for at in points(all.len()) {
        macro_rules! one { ($what:expr, $mk:expr, $want:expr, $eq:expr) => {{
            let want = $want; let eq = $eq;
            let mut it = $mk;
            for j in 0..at.min(all.len()) { let x = it.next(); ensure!(x.is_some() && eq(x.unwrap(), want[j]), "{}: item {j} differs", $what); }
            for _ in all.len()..at { ensure!(it.next().is_none(), "{}: an item after the end", $what); }
            let from = at.min(all.len());
            let rest = &want[from..];
            provided(&format!("{} after {at} items", $what), &|| it.clone(), rest, |x, y| eq(*x, *y))?;
            let c = it.clone();
            let mut c2 = it.clone();
            let mut c3 = $mk; c3.clone_from(&it);
            ensure!(c3.len() == rest.len() && c3.zip(rest).all(|(x, y)| eq(x, *y)), "{}: clone_from after {at} items differs", $what);
            let mut folded = vec![];
            it.clone().fold((), |(), x| folded.push(x));
            ensure!(folded.len() == rest.len() && folded.iter().zip(rest).all(|(a, b)| eq(*a, *b)), "{}: fold after {at} items visits {} items, {} remain", $what, folded.len(), rest.len());
            let got: Vec<_> = it.collect();
            ensure!(got.len() == rest.len() && got.iter().zip(rest).all(|(a, b)| eq(*a, *b)), "{}: {} items after {at}, {} remain", $what, got.len(), rest.len());
            let got: Vec<_> = c.collect();
            ensure!(got.len() == rest.len() && got.iter().zip(rest).all(|(a, b)| eq(*a, *b)), "{}: clone after {at} items yields {} items, {} remain", $what, got.len(), rest.len());
            for j in 0..rest.len() { let x = c2.next(); ensure!(x.is_some() && eq(x.unwrap(), rest[j]), "{}: clone item {j} differs", $what); }
            for _ in 0..3 { ensure!(c2.next().is_none(), "{}: an item after the end", $what); }
        }} }
        one!("iter", m.iter(), &all, eqp);
        one!("keys", m.keys(), &ks, |a: &K, b: &K| std::ptr::eq(a, b));
        one!("values", m.values(), &vs, |a: &V, b: &V| std::ptr::eq(a, b));
        one!("ref iter", m.ref_iter(), &all, eqp);
    }
    Ok(())
}

fn sizes<K: Key, V: Val, M: TMap<K, V>>(m: &M, p: &[(K, V)]) -> R {
    let n = p.len();
    ensure!(m.mlen() == n, "len is {}, the payload has {n} entries", m.mlen());
    ensure!(m.mempty() == (n == 0), "is_empty is {} with {n} entries", m.mempty());
    for at in points(n) {
        let left = n.saturating_sub(at);
        macro_rules! one { ($what:expr, $mk:expr) => {{
            let mut it = $mk;
            for _ in 0..at { it.next(); }
            ensure!(it.len() == left, "{}: len after {at} items is {}, {left} remain", $what, it.len());
            ensure!(it.size_hint() == (left, Some(left)), "{}: size_hint after {at} items is {:?}, {left} remain", $what, it.size_hint());
            let c = it.clone().count();
            ensure!(c == left, "{}: count after {at} items is {c}, {left} remain", $what);
            let mut real = 0; while it.next().is_some() { real += 1; }
            ensure!(real == left, "{}: {real} items after {at}, expected {left}", $what);
        }} }
        one!("iter", m.iter()); one!("keys", m.keys()); one!("values", m.values()); one!("ref iter", m.ref_iter());
    }
    Ok(())
}

fn equality<K: Key, V: Val, M: TMap<K, V>>(build: &dyn Fn(Vec<(K, V)>) -> M, p: &[(K, V)], t: &Truth<K>, probes: &[K], seed: u64) -> R {
    if !t.distinct { return Ok(()); }
    let m = build(p.to_vec());
    let mut q = p.to_vec();
    Rng(seed).shuffle(&mut q);
    let m2 = build(q.clone());
    ensure!(m.same(&m2) && m2.same(&m) && m.same(&m), "maps built from the same entries in different order differ");
    let unit = V::mk(0) == V::mk(1);
    for i in points(p.len()) {
        if i >= p.len() { continue; }
        if !unit {
            let mut q = p.to_vec(); q[i].1 = V::mk(3_000_000);
            let o = build(q);
            ensure!(!m.same(&o) && !o.same(&m), "maps that differ in the value of {:?} compare equal", p[i].0);
        }
        let mut q = p.to_vec(); q.remove(i);
        if let Some(o) = panics(|| build(q)) { ensure!(!m.same(&o) && !o.same(&m), "a map equals one that lacks the entry for {:?}", p[i].0); }
        if let Some(a) = probes.iter().filter(|x| !t.at.contains_key(x)).nth(i % 5) {
            let mut q = p.to_vec(); q[i].0 = a.clone();
            if let Some(o) = panics(|| build(q)) { ensure!(!m.same(&o) && !o.same(&m), "maps that differ in one key ({:?} / {a:?}) compare equal", p[i].0); }
        }
    }
    Ok(())
}

fn indexing<K: Key, V: Val, M: TMap<K, V>>(m: &mut M, p: &[(K, V)], t: &Truth<K>, probes: &[K]) -> R {
    let step = if p.len() > 150 { p.len() / 40 } else { 1 };
    let mut absent = 0;
    for (j, q) in probes.iter().step_by(step).enumerate() {
        if t.at.contains_key(q) {
            let want = m.get(q).map(|v| v as *const V);
            ensure!(want.is_some(), "get({q:?}) is None");
            ensure!(std::ptr::eq(m.idx(q.clone()), want.unwrap()), "map[{q:?}] designates another entry than get");
            let before = snap(m);
            let r = m.idx_mut(q.clone());
            ensure!(std::ptr::eq(&*r, want.unwrap()), "&mut map[{q:?}] designates another entry than get");
            *r = V::mk(4_000_000 + j);
            ensure!(m.get(q) == Some(&V::mk(4_000_000 + j)), "get({q:?}) does not show what was assigned to map[{q:?}]");
            let after = snap(m);
            ensure!(after.len() == before.len() && before.iter().zip(&after).all(|(x, y)| x.0 == y.0 && (x.1 == y.1 || x.0 == *q)), "assigning to map[{q:?}] changed another entry");
        } else {
            absent += 1;
            if absent > 60 { continue; }
            ensure!(panics(|| { let _ = m.idx(q.clone()); }).is_none(), "map[{q:?}] does not panic but the key is absent");
            ensure!(panics(|| { let _ = m.idx_mut(q.clone()); }).is_none(), "&mut map[{q:?}] does not panic but the key is absent");
        }
    }
    Ok(())
}

fn showing<K: Key, V: Val, M: TMap<K, V>>(m: M, p: &[(K, V)], t: &Truth<K>, probes: &[K]) -> R {
    let all: Vec<(&K, &V)> = m.iter().collect();
    let got = m.show();
    ensure!(got == shown(&AsMap(&all)), "Debug writes {} but the entries are {:?}", got.0, AsMap(&all));
    let (ks, vs): (Vec<&K>, Vec<&V>) = (m.keys().collect(), m.values().collect());
    for at in points(all.len()) {
        let from = at.min(all.len());
        macro_rules! one { ($what:expr, $mk:expr, $want:expr) => {{ let mut it = $mk; for _ in 0..at { let _ = it.next(); } shows_rest(&format!("{} after {at} items", $what), &it, &$want[from..])?; }} }
        one!("iter", m.iter(), all); one!("keys", m.keys(), ks); one!("values", m.values(), vs);
    }
    let mut d = m.dup();
    ensure!(d.mlen() == m.mlen() && d.mempty() == m.mempty(), "len of the clone is {}, len is {}", d.mlen(), m.mlen());
    let now = snap(&d);
    ensure!(now == snap(&m), "the clone has {} entries, or others, or in another order; {} expected", now.len(), all.len());
    if std::mem::size_of::<V>() > 0 {
        for (x, y) in d.iter().zip(m.iter()) { ensure!(!std::ptr::eq(x.1, y.1), "the clone shares the entry for {:?}", x.0); }
        let before = snap(&m);
        for (j, q) in probes.iter().enumerate().take(12) { if let Some(r) = d.get_mut(q) { *r = V::mk(5_000_000 + j); } }
        ensure!(snap(&m) == before, "writing through the clone changed the map");
        d = m.dup();
    }
    let mut e = m.dup();
    e.dup_from(&d);
    ensure!(snap(&e) == now, "clone_from yields {} entries, or others, or in another order; {} expected", e.mlen(), now.len());
    drop(e);
    drop(m);
    lookup(&d, p, t, probes)
}

pub fn check<K: Key, V: Val, M: TMap<K, V>>(prop: u8, build: &dyn Fn(Vec<(K, V)>) -> M, keys: &[K], probes: &[K], seed: u64) -> R {
    let p: Vec<(K, V)> = pay(keys);
    let t = truth(keys);
    let mut m = build(p.clone());
    match prop {
        23 => return showing(m, &p, &t, probes),
        1 | 3 | 4 | 5 | 20 => lookup(&m, &p, &t, probes)?,
        6 => getmut(&mut m, &t, probes)?,
        7 => many(&mut m, &p, &t, probes, seed)?,
        8 => iterate(&m, &p)?,
        10 => sizes(&m, &p)?,
        14 => equality(build, &p, &t, probes, seed)?,
        15 => {
            let f = |k: &K, v: &V| (k.clone(), format!("{v:?}"));
            same_multiset("entries stored", m.iter().map(|(k, v)| f(k, v)).collect(), p.iter().map(|(k, v)| f(k, v)).collect())?;
            lookup(&m, &p, &t, keys)?;
            ensure!(m.mlen() == p.len(), "len is {}, built from {}", m.mlen(), p.len());
        }
        16 => { lookup(&m, &p, &t, probes)?; iterate(&m, &p)?; getmut(&mut m, &t, probes)?; many(&mut m, &p, &t, probes, seed)?; }
        19 => indexing(&mut m, &p, &t, probes)?,
        _ => {}
    }
    drop(m);
    Ok(())
}

/// sizes of payloads to try: around every threshold in the code
pub fn ns(c: &Ctx, prop: u8, cap: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 17, 32, 60, 127, 128, 129, 130, 254, 255];
    if cap > 255 { v.extend([256, 257, 300]); }
    if cap > 255 && matches!(prop, 1 | 2 | 3 | 4 | 5 | 15 | 20 | 16) { v.extend([999, 1000, 1001, 1500]); }
    if c.thorough { v.extend([9, 11, 12, 14, 15, 16, 20, 25, 31, 33, 40, 50, 63, 64, 65, 90, 100, 126, 131, 132, 160, 200, 253]); if cap > 255 { v.extend([258, 500, 511, 512, 700, 998, 1002, 2000, 3000]); } }
    v.retain(|&n| n <= cap);
    v
}

fn skip(h: u8, n: usize) -> bool { (bad_hash(h) || h == 3) && n > 300 || bad_hash(h) && n > 140 && n < 250 }

macro_rules! go { ($c:expr, $prop:expr, $id:expr, $n:expr, $v:ty, $build:expr, $keys:expr, $probes:expr) => {{
    let id = $id;
    if $c.wants(&id) { let (prop, seed) = ($prop, $c.seed); $c.case(&id, $n, || check::<_, $v, _>(prop, &$build, $keys, $probes, seed)); }
}} }

pub fn frozen(c: &mut Ctx, prop: u8) {
    let big = |n: usize| n > 300 && !matches!(prop, 1 | 15 | 20 | 16);
    for n in ns(c, prop, usize::MAX) {
        if big(n) { continue; }
        for (name, keys) in int_seqs::<u32>(n, c.seed) {
            let pr = int_probes(&keys, c.seed);
            go!(c, prop, format!("FrozenMap<u32,u64>/std/n={n}/{name}"), n, u64, |p| FrozenMap::from_vec(p), &keys, &pr);
            if n <= 20 || n == 255 || n == 256 {
                for h in HASHERS { go!(c, prop, format!("FrozenMap<u32,String>/hasher{h}/n={n}/{name}"), n, String, |p| FrozenMap::from_vec_with_hasher(p, Hb(h)), &keys, &pr); }
                go!(c, prop, format!("FrozenMap<u32,()>/n={n}/{name}"), n, (), |p| FrozenMap::from_vec(p), &keys, &pr);
                go!(c, prop, format!("FrozenMap<u32,[u8;3]>/n={n}/{name}"), n, [u8; 3], |p| FrozenMap::from_vec(p), &keys, &pr);
            }
        }
        for (name, keys) in str_seqs(n, c.seed) {
            let pr = str_probes(&keys);
            go!(c, prop, format!("FrozenMap<String,u64>/std/n={n}/{name}"), n, u64, |p| FrozenMap::from_vec(p), &keys, &pr);
            for h in HASHERS { if n <= 60 && !skip(h, n) || n == 256 || n == 255 && h % 2 == 0 || n > 256 && h == 0 { go!(c, prop, format!("FrozenMap<String,String>/hasher{h}/n={n}/{name}"), n, String, |p| FrozenMap::from_vec_with_hasher(p, Hb(h)), &keys, &pr); } }
            if n <= 20 { go!(c, prop, format!("FrozenMap<String,()>/n={n}/{name}"), n, (), |p| FrozenMap::from_vec(p), &keys, &pr); }
            if n <= 60 || n == 256 {
                let k2: Vec<Tagged> = keys.iter().enumerate().map(|(i, k)| Tagged { k: k.clone(), extra: i as u32 }).collect();
                let p2: Vec<Tagged> = pr.iter().map(|k| Tagged { k: k.clone(), extra: 999 }).collect();
                go!(c, prop, format!("FrozenMap<Tagged,Box>/n={n}/{name}"), n, Box<u128>, |p| FrozenMap::from_vec(p), &k2, &p2);
            }
            if n <= 60 || n == 256 {
                let k2: Vec<Vec<u8>> = keys.iter().map(|k| k.clone().into_bytes()).collect();
                let p2: Vec<Vec<u8>> = pr.iter().map(|k| k.clone().into_bytes()).collect();
                go!(c, prop, format!("FrozenMap<Vec<u8>,u64>/n={n}/{name}"), n, u64, |p| FrozenMap::from_vec(p), &k2, &p2);
            }
        }
        if n <= 20 || matches!(n, 127 | 128 | 255 | 256) {
            macro_rules! other { ($($t:ident)*) => { $( for (name, keys) in int_seqs::<$t>(n, c.seed) {
                let pr = int_probes(&keys, c.seed);
                go!(c, prop, format!("FrozenMap<{},u64>/n={n}/{name}", stringify!($t)), n, u64, |p| FrozenMap::from_vec(p), &keys, &pr);
            } )* } }
            other!(i32 u64 u8 i8 u16 i128);
            macro_rules! loosely { ($($t:ty)*) => { $( for kind in 0..3 {
                let (keys, pr) = loose::<$t>(n, kind);
                go!(c, prop, format!("FrozenMap<Loose<{}>,u64>/n={n}/{kind}", stringify!($t)), n, u64, |p| FrozenMap::from_vec(p), &keys, &pr);
            } )* } }
            loosely!(u16 u32 i32 u64 usize u128 [u8; 4] [usize; 2] [usize; 3]);
            for (name, keys) in int_seqs::<i32>(n, c.seed) {
                let pr: Vec<Id> = int_probes(&keys, c.seed).into_iter().map(Id).collect();
                let keys: Vec<Id> = keys.into_iter().map(Id).collect();
                go!(c, prop, format!("FrozenMap<Id,u64>/n={n}/{name}"), n, u64, |p| FrozenMap::from_vec_with_hasher(p, Hb(4)), &keys, &pr);
            }
        }
    }
}

macro_rules! by_s { ($c:expr, $prop:expr, $n:expr, |$s:ident| $e:expr) => {{
    if $n <= 255 { type $s = u8; let sn = "u8"; let _ = sn; $e }
    { type $s = u16; $e }
    if $n <= 20 || $n == 256 || $n == 257 { type $s = u32; $e }
    if $n <= 20 || $n == 256 || $n == 1000 { type $s = usize; $e }
    if $n == 5 || $n == 256 { type $s = u128; $e }
}} }
fn tn<T>() -> &'static str { std::any::type_name::<T>() }

pub fn common(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, usize::MAX) {
        for h in HASHERS {
            if skip(h, n) || n > 300 && h != 0 { continue; }
            if n > 20 && h > 2 && !matches!(n, 127 | 128 | 255 | 256) { continue; }
            for (name, keys) in int_seqs::<u64>(n, c.seed) {
                let pr = int_probes(&keys, c.seed);
                by_s!(c, prop, n, |S| go!(c, prop, format!("CommonMap<u64,u64,{}>/hasher{h}/n={n}/{name}", tn::<S>()), n, u64, |p| CommonMap::<u64, u64, S, Hb>::from_vec_with_hasher(p, Hb(h)), &keys, &pr));
            }
            if h > 1 && n > 8 { continue; }
            for (name, keys) in str_seqs(n, c.seed) {
                let pr = str_probes(&keys);
                go!(c, prop, format!("CommonMap<String,String,u16>/hasher{h}/n={n}/{name}"), n, String, |p| CommonMap::<String, String, u16, Hb>::from_vec_with_hasher(p, Hb(h)), &keys, &pr);
                if n <= 20 {
                    let k2: Vec<Tagged> = keys.iter().enumerate().map(|(i, k)| Tagged { k: k.clone(), extra: i as u32 }).collect();
                    let p2: Vec<Tagged> = pr.iter().map(|k| Tagged { k: k.clone(), extra: 999 }).collect();
                    go!(c, prop, format!("CommonMap<Tagged,u64,u8>/hasher{h}/n={n}/{name}"), n, u64, |p| CommonMap::<Tagged, u64, u8, Hb>::from_vec_with_hasher(p, Hb(h)), &k2, &p2);
                }
            }
        }
    }
}

pub fn integer(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, usize::MAX) {
        macro_rules! t { ($($t:ident)*) => { $( for (name, keys) in int_seqs::<$t>(n, c.seed) {
            let pr = int_probes(&keys, c.seed);
            by_s!(c, prop, n, |S| go!(c, prop, format!("IntegerMap<{},u64,{}>/n={n}/{name}", stringify!($t), tn::<S>()), n, u64, |p| IntegerMap::<$t, u64, S>::from_vec(p), &keys, &pr));
        } )* } }
        t!(u32 i64);
        if n <= 20 || matches!(n, 127 | 128 | 255 | 256 | 1000) { t!(u8 i8 u16 i16 i32 u64 u128 i128 usize); }
    }
}

pub fn length(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, 300) {
        for (name, keys) in str_seqs(n, c.seed) {
            let pr = str_probes(&keys);
            by_s!(c, prop, n, |S| go!(c, prop, format!("LengthMap<String,u64,{}>/n={n}/{name}", tn::<S>()), n, u64, |p| LengthMap::<String, u64, S>::from_vec(p), &keys, &pr));
            if n <= 20 {
                let k2: Vec<Tagged> = keys.iter().enumerate().map(|(i, k)| Tagged { k: k.clone(), extra: i as u32 }).collect();
                let p2: Vec<Tagged> = pr.iter().map(|k| Tagged { k: k.clone(), extra: 999 }).collect();
                go!(c, prop, format!("LengthMap<Tagged,String,u8>/n={n}/{name}"), n, String, |p| LengthMap::<Tagged, String, u8>::from_vec(p), &k2, &p2);
            }
        }
    }
}

pub const RANGES: [(usize, usize); 13] = [(0, 0), (0, 1), (0, 2), (0, 3), (0, 16), (1, 2), (1, 3), (1, 1), (2, 4), (2, 5), (3, 3), (5, 9), (7, 40)];
pub fn slices(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, if c.thorough { 1001 } else { 300 }) {
        for (name, keys) in str_seqs(n, c.seed) {
            let pr = str_probes(&keys);
            for (ri, (a, b)) in RANGES.into_iter().enumerate() {
                if n > 20 && !c.thorough && (ri + n + name.len()) % 4 != 0 { continue; }
                for h in HASHERS {
                    if h > 0 && (n > 20 || (ri + h as usize) % 3 != 0 && !c.thorough) { continue; }
                    go!(c, prop, format!("LeftSliceMap<String,u64,u16>/{a}..{b}/hasher{h}/n={n}/{name}"), n, u64, |p| LeftSliceMap::<String, u64, u16, Hb>::from_vec_with_hasher(p, a..b, Hb(h)), &keys, &pr);
                    go!(c, prop, format!("RightSliceMap<String,u64,u16>/{a}..{b}/hasher{h}/n={n}/{name}"), n, u64, |p| RightSliceMap::<String, u64, u16, Hb>::from_vec_with_hasher(p, a..b, Hb(h)), &keys, &pr);
                }
                if n <= 8 || n == 255 {
                    go!(c, prop, format!("LeftSliceMap<String,String,u8>/{a}..{b}/std/n={n}/{name}"), n, String, |p| LeftSliceMap::<String, String, u8>::from_vec(p, a..b), &keys, &pr);
                    go!(c, prop, format!("RightSliceMap<String,String,u8>/{a}..{b}/std/n={n}/{name}"), n, String, |p| RightSliceMap::<String, String, u8>::from_vec(p, a..b), &keys, &pr);
                }
            }
        }
    }
}

pub fn scanning(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, 130) {
        for (name, keys) in int_seqs::<i16>(n, c.seed) {
            let pr = int_probes(&keys, c.seed);
            go!(c, prop, format!("ScanningMap<i16,u64>/n={n}/{name}"), n, u64, |p| ScanningMap::from_vec(p), &keys, &pr);
        }
        for (name, keys) in str_seqs(n, c.seed) {
            let pr = str_probes(&keys);
            go!(c, prop, format!("ScanningMap<String,String>/n={n}/{name}"), n, String, |p| ScanningMap::from_vec(p), &keys, &pr);
            let k2: Vec<Tagged> = keys.iter().enumerate().map(|(i, k)| Tagged { k: k.clone(), extra: i as u32 }).collect();
            let p2: Vec<Tagged> = pr.iter().map(|k| Tagged { k: k.clone(), extra: 999 }).collect();
            go!(c, prop, format!("ScanningMap<Tagged,u64>/n={n}/{name}"), n, u64, |p| ScanningMap::from_vec(p), &k2, &p2);
        }
    }
}

pub fn contiguous<T: Int>(v: &[T]) -> bool {
    let mut w: Vec<T> = v.to_vec(); w.sort();
    w.windows(2).all(|x| x[0] < x[1] && x[0].to().checked_add(1) == Some(x[1].to()))
}

pub fn ranges(c: &mut Ctx, prop: u8) {
    for n in ns(c, prop, usize::MAX) {
        macro_rules! t { ($($t:ident)*) => { $( for (name, keys) in int_seqs::<$t>(n, c.seed) {
            let id = format!("IntegerRangeMap<{},u64>/n={n}/{name}", stringify!($t));
            if !contiguous(&keys) {
                if prop == 5 { c.case(&id, n, || { ensure!(panics(|| IntegerRangeMap::<$t, u64>::from_vec(pay(&keys))).is_none(), "keys are not distinct and contiguous but construction succeeded"); Ok(()) }); }
                continue;
            }
            let pr = int_probes(&keys, c.seed);
            go!(c, prop, id, n, u64, |p| IntegerRangeMap::<$t, u64>::from_vec(p), &keys, &pr);
        } )* } }
        t!(i8 u8 i32 u32 i64 u64);
        if n <= 20 || matches!(n, 127 | 128 | 255 | 256 | 1000) { t!(i16 u16 i128 u128 isize usize); }
    }
    if prop == 5 {
        // whole types, and every short sequence over small values
        macro_rules! whole { ($($t:ident)*) => { $( for cut in 0..3i128 { for top in 0..3i128 {
            let keys: Vec<$t> = ($t::MIN as i128 + cut..=$t::MAX as i128 - top).map(|x| x as $t).collect();
            let pr: Vec<$t> = ($t::MIN as i128..=$t::MAX as i128).map(|x| x as $t).collect();
            go!(c, prop, format!("IntegerRangeMap<{},()>/all but {cut} and {top}", stringify!($t)), 256, (), |p| IntegerRangeMap::<$t, ()>::from_vec(p), &keys, &pr);
        } } )* } }
        whole!(i8 u8 i16);
        let base: [&[i8]; 4] = [&[0, 1, 2, 3, 4], &[-128, -127, -126, 127, 126], &[-2, -1, 0, 1, 2], &[-128, 0, 127, 1, -1]];
        for (bi, b) in base.iter().enumerate() { for len in 1..=4usize { for x in 0..5usize.pow(len as u32) {
            let keys: Vec<i8> = (0..len).map(|i| b[x / 5usize.pow(i as u32) % 5]).collect();
            let id = format!("IntegerRangeMap<i8,u64>/short{bi}/{keys:?}");
            if contiguous(&keys) { let pr: Vec<i8> = (i8::MIN..=i8::MAX).collect(); go!(c, prop, id, len, u64, |p| IntegerRangeMap::<i8, u64>::from_vec(p), &keys, &pr); }
            else { c.case(&id, len, || { ensure!(panics(|| IntegerRangeMap::<i8, u64>::from_vec(pay(&keys))).is_none(), "keys are not distinct and contiguous but construction succeeded"); Ok(()) }); }
        } } }
    }
}

/// probing with a borrowed form of the key
pub fn borrowed(c: &mut Ctx, prop: u8) {
    for n in ns(c, 99, 300) { for (name, keys) in str_seqs(n, c.seed) {
        let pr = str_probes(&keys);
        macro_rules! b { ($what:expr, $ok:expr, $mk:expr, $m:ident) => { if $ok { let id = format!("{}/borrowed/n={n}/{name}", $what); if c.wants(&id) { c.case(&id, n, || {
            let t = truth(&keys);
            let p: Vec<(Tagged, u64)> = keys.iter().enumerate().map(|(i, k)| (Tagged { k: k.clone(), extra: i as u32 }, u64::mk(i))).collect();
            let mut $m = $mk(p.clone());
            for q in &pr {
                let e = t.at.get(q);
                let g = $m.get::<String>(q).copied();
                ensure!(g.is_some() == e.is_some() && $m.contains_key::<String>(q) == e.is_some(), "lookup of {q:?} through its borrowed form: {g:?}");
                let kv = $m.get_key_value::<String>(q).map(|(k, v)| (k.extra as usize, *v));
                let gm = $m.get_mut::<String>(q).map(|x| *x);
                ensure!(g == gm && kv.map(|x| x.1) == g, "get, get_mut and get_key_value of {q:?} disagree");
                if let (Some(ix), Some((i, v))) = (e, kv) { ensure!(ix.contains(&i) && v == u64::mk(i), "lookup of {q:?} found {v}"); }
            }
            Ok(())
        }); } } } }
        b!("CommonMap", prop == 3, |p| CommonMap::<Tagged, u64, u16, Hb>::from_vec_with_hasher(p, Hb(0)), m);
        b!("LengthMap", prop == 3, |p| LengthMap::<Tagged, u64, u16>::from_vec(p), m);
        b!("LeftSliceMap", prop == 4, |p| LeftSliceMap::<Tagged, u64, u16, Hb>::from_vec_with_hasher(p, 1..3, Hb(0)), m);
        b!("RightSliceMap", prop == 4, |p| RightSliceMap::<Tagged, u64, u16, Hb>::from_vec_with_hasher(p, 1..3, Hb(0)), m);
        b!("ScanningMap", prop == 5 && n < 40, |p| ScanningMap::<Tagged, u64>::from_vec(p), m);
    } }
}

/// payloads at and over the capacity of S
pub fn capacity(c: &mut Ctx) {
    macro_rules! cap { ($what:expr, $n:expr, $mk:expr, $keys:expr) => {{
        let id = format!("{}/n={}", $what, $n);
        if c.wants(&id) { c.case(&id, $n, || {
            let keys = $keys;
            let cap = if $what.ends_with("u8") { 255 } else { 65535 };
            let r = panics(|| $mk(pay::<_, u64>(&keys)));
            if $n > cap { ensure!(r.is_none(), "built with {} entries", $n); return Ok(()); }
            ensure!(r.is_some(), "construction panicked although the payload fits");
            let m = r.unwrap();
            ensure!(TMap::mlen(&m) == $n && TMap::iter(&m).count() == $n, "len {} after building from {}", TMap::mlen(&m), $n);
            for (i, k) in keys.iter().enumerate() { ensure!(TMap::get(&m, k) == Some(&u64::mk(i)), "entry {i} is not found"); }
            Ok(())
        }); }
    }} }
    let ints = |n: usize, s: u64| (0..n as u64).map(|i| i * s).collect::<Vec<u64>>();
    let strs = |n: usize| (0..n).map(|i| format!("{i:06}{}", "x".repeat(i % 3))).collect::<Vec<String>>();
    for n in [254usize, 255, 256, 257, 300, 510, 511, 512, 513, 600, 1000, 65536] {
        for s in [1, 3, 256] {
            cap!(format!("IntegerMap<{s}>/u8"), n, |p| IntegerMap::<u64, u64, u8>::from_vec(p), ints(n, s));
            cap!(format!("CommonMap<{s}>/u8"), n, |p| CommonMap::<u64, u64, u8, Hb>::from_vec_with_hasher(p, Hb(0)), ints(n, s));
        }
        cap!("CommonMap<std>/u8".to_string(), n, |p| CommonMap::<u64, u64, u8>::from_vec(p), ints(n, 1));
        if n <= 600 { cap!("CommonMap<const>/u8".to_string(), n, |p| CommonMap::<u64, u64, u8, Hb>::from_vec_with_hasher(p, Hb(1)), ints(n, 1)); }
        cap!("LeftSliceMap/u8".to_string(), n, |p| LeftSliceMap::<String, u64, u8, Hb>::from_vec_with_hasher(p, 0..6, Hb(0)), strs(n));
        cap!("RightSliceMap/u8".to_string(), n, |p| RightSliceMap::<String, u64, u8, Hb>::from_vec_with_hasher(p, 0..6, Hb(0)), strs(n));
        if n <= 600 { cap!("LengthMap/u8".to_string(), n, |p| LengthMap::<String, u64, u8>::from_vec(p), (0..n).map(|i| "x".repeat(i)).collect::<Vec<String>>()); }
    }
    for n in [65534usize, 65535, 65536, 65537, 65600, 70000, 131_072] {
        cap!("IntegerMap/u16".to_string(), n, |p| IntegerMap::<u64, u64, u16>::from_vec(p), ints(n, 1));
        cap!("IntegerMap<7>/u16".to_string(), n, |p| IntegerMap::<u64, u64, u16>::from_vec(p), ints(n, 7));
        if n < 66000 {
            cap!("CommonMap/u16".to_string(), n, |p| CommonMap::<u64, u64, u16, Hb>::from_vec_with_hasher(p, Hb(0)), ints(n, 1));
            cap!("LeftSliceMap/u16".to_string(), n, |p| LeftSliceMap::<String, u64, u16, Hb>::from_vec_with_hasher(p, 0..6, Hb(0)), strs(n));
        }
    }
    for n in [255usize, 256, 65535, 65536, 70001] {
        let id = format!("FrozenMap large/n={n}");
        if c.wants(&id) { c.case(&id, n, || {
            let keys: Vec<u32> = (0..n as u32).map(|i| i * 3).collect();
            let m = FrozenMap::from_vec(pay::<_, u64>(&keys));
            ensure!(m.mlen() == n, "len {}", m.mlen());
            for (i, k) in keys.iter().enumerate() { ensure!(m.get(k) == Some(&u64::mk(i)), "entry {i} is not found"); }
            let keys = strs(n);
            let m = FrozenMap::from_vec_with_hasher(pay::<_, u64>(&keys), Hb(0));
            ensure!(m.mlen() == n, "len {}", m.mlen());
            for (i, k) in keys.iter().enumerate() { ensure!(m.get(k) == Some(&u64::mk(i)), "entry {i} is not found"); }
            Ok(())
        }); }
    }
}

/// every constructor of every map: same contents
/// an iterator over v; what it says of its size, within what Iterator allows, varies
pub struct Feed<T> { it: std::vec::IntoIter<T>, kind: usize }
pub fn feed<T>(v: Vec<T>, name: &str) -> Feed<T> { Feed { kind: name.bytes().map(|b| b as usize).sum::<usize>() + v.len(), it: v.into_iter() } }
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.kind % 5 { 0 => (n, Some(n)), 1 => (0, None), 2 => (0, Some(usize::MAX)), 3 => (n / 2, Some(n * 2 + 3)), _ => (0, Some(n)) }
    }
}

pub fn ctors(c: &mut Ctx) {
    const SIZES: [usize; 8] = [0, 1, 2, 3, 4, 20, 254, 255];
    fn full<K: Key, M: TMap<K, u64>>(m: M, keys: &[K], pr: &[K]) -> R {
        let p: Vec<(K, u64)> = pay(keys);
        lookup(&m, &p, &truth(keys), pr)?;
        ensure!(m.mlen() == keys.len(), "len {} built from {}", m.mlen(), keys.len());
        same_multiset("contents", TMap::iter(&m).map(|(k, v)| (k.clone(), *v)).collect(), p)
    }
    macro_rules! many { ($c:expr, $fam:expr, $keys:expr, $pr:expr, $( $what:literal => $mk:expr ),* $(,)?) => { $( {
        let id = format!("{}/{}/n={}", $what, $fam, $keys.len());
        $c.case(&id, $keys.len(), || full($mk(pay::<_, u64>(&$keys)), &$keys, &$pr));
    } )* } }
    macro_rules! arr { ($p:expr, $a:ident, $f:expr) => {{ let p = $p; arr!(p, $a, $f; 0 1 2 3 4 20 254 255) }};
        ($p:ident, $a:ident, $f:expr; $($n:literal)*) => { match $p.len() { $( $n => { let $a: [_; $n] = match $p.try_into() { Ok(a) => a, Err(_) => panic!() }; $f } )* _ => unreachable!() } } }
    for n in [0usize, 1, 2, 3, 4, 5, 9, 20, 100, 254, 255] {
        for (fam, keys) in int_seqs::<u32>(n, c.seed) {
            let pr = int_probes(&keys, c.seed);
            many!(c, fam, keys, pr,
                "FrozenMap::from_vec" => |p| FrozenMap::from_vec(p),
                "FrozenMap::from_vec_with_hasher" => |p| FrozenMap::from_vec_with_hasher(p, Hb(0)),
                "FrozenMap::from_iter_with_hasher" => |p: Vec<_>| FrozenMap::from_iter_with_hasher(feed(p, &fam), Hb(0)),
                "FrozenMap::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<FrozenMap<_, _>>(),
                "CommonMap::from_vec" => |p| CommonMap::<u32, u64, u8>::from_vec(p),
                "CommonMap::from_vec_with_hasher" => |p| CommonMap::<u32, u64, u8, Hb>::from_vec_with_hasher(p, Hb(0)),
                "CommonMap::from_iter_with_hasher" => |p: Vec<_>| CommonMap::<u32, u64, u16, Hb>::from_iter_with_hasher(feed(p, &fam), Hb(0)),
                "CommonMap::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<CommonMap<_, _, u8>>(),
                "IntegerMap::from_vec" => |p| IntegerMap::<u32, u64, u8>::from_vec(p),
                "IntegerMap::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<IntegerMap<_, _, u8>>(),
                "ScanningMap::from_vec" => |p| ScanningMap::from_vec(p),
                "ScanningMap::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<ScanningMap<_, _>>());
            if contiguous(&keys) { many!(c, fam, keys, pr,
                "IntegerRangeMap::from_vec" => |p| IntegerRangeMap::from_vec(p),
                "IntegerRangeMap::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<IntegerRangeMap<_, _>>()); }
            if SIZES.contains(&n) {
                many!(c, fam, keys, pr,
                    "FrozenMap::from" => |p: Vec<_>| arr!(p, a, FrozenMap::from(a)),
                    "FrozenMap::with_hasher" => |p: Vec<_>| arr!(p, a, FrozenMap::with_hasher(a, Hb(0))),
                    "CommonMap::from" => |p: Vec<_>| arr!(p, a, CommonMap::<u32, u64, u8>::from(a)),
                    "CommonMap::with_hasher" => |p: Vec<_>| arr!(p, a, CommonMap::<u32, u64, u8, Hb>::with_hasher(a, Hb(0))),
                    "IntegerMap::from" => |p: Vec<_>| arr!(p, a, IntegerMap::<u32, u64, u8>::from(a)),
                    "ScanningMap::from" => |p: Vec<_>| arr!(p, a, ScanningMap::from(a)));
                if contiguous(&keys) { many!(c, fam, keys, pr, "IntegerRangeMap::from" => |p: Vec<_>| arr!(p, a, IntegerRangeMap::from(a))); }
            }
        }
        for (fam, keys) in str_seqs(n, c.seed) {
            let pr = str_probes(&keys);
            many!(c, fam, keys, pr,
                "FrozenMap<String>::from_vec" => |p| FrozenMap::from_vec(p),
                "FrozenMap<String>::from_vec_with_hasher" => |p| FrozenMap::from_vec_with_hasher(p, Hb(0)),
                "FrozenMap<String>::from_iter_with_hasher" => |p: Vec<_>| FrozenMap::from_iter_with_hasher(feed(p, &fam), Hb(0)),
                "FrozenMap<String>::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<FrozenMap<_, _>>(),
                "LengthMap::from_vec" => |p| LengthMap::<String, u64, u8>::from_vec(p),
                "LengthMap::from_iter" => |p: Vec<_>| feed(p, &fam).collect::<LengthMap<_, _>>());
            for (a, b) in [(0usize, 0usize), (0, 2), (1, 3), (2, 2), (3, 6)] {
                let fam = format!("{a}..{b}/{fam}");
                many!(c, fam, keys, pr,
                    "LeftSliceMap::from_vec" => |p| LeftSliceMap::<String, u64, u8>::from_vec(p, a..b),
                    "LeftSliceMap::from_iter" => |p: Vec<_>| LeftSliceMap::<String, u64, u8>::from_iter(feed(p, &fam), a..b),
                    "LeftSliceMap::from_vec_with_hasher" => |p| LeftSliceMap::<String, u64, u8, Hb>::from_vec_with_hasher(p, a..b, Hb(0)),
                    "LeftSliceMap::from_iter_with_hasher" => |p: Vec<_>| LeftSliceMap::<String, u64, u8, Hb>::from_iter_with_hasher(feed(p, &fam), a..b, Hb(0)),
                    "RightSliceMap::from_vec" => |p| RightSliceMap::<String, u64, u8>::from_vec(p, a..b),
                    "RightSliceMap::from_iter" => |p: Vec<_>| RightSliceMap::<String, u64, u8>::from_iter(feed(p, &fam), a..b),
                    "RightSliceMap::from_vec_with_hasher" => |p| RightSliceMap::<String, u64, u8, Hb>::from_vec_with_hasher(p, a..b, Hb(0)),
                    "RightSliceMap::from_iter_with_hasher" => |p: Vec<_>| RightSliceMap::<String, u64, u8, Hb>::from_iter_with_hasher(feed(p, &fam), a..b, Hb(0)));
                if SIZES.contains(&n) { many!(c, fam, keys, pr,
                    "LeftSliceMap::from" => |p: Vec<_>| arr!(p, x, LeftSliceMap::<String, u64, u8>::from(x, a..b)),
                    "LeftSliceMap::with_hasher" => |p: Vec<_>| arr!(p, x, LeftSliceMap::<String, u64, u8, Hb>::with_hasher(x, a..b, Hb(0))),
                    "RightSliceMap::from" => |p: Vec<_>| arr!(p, x, RightSliceMap::<String, u64, u8>::from(x, a..b)),
                    "RightSliceMap::with_hasher" => |p: Vec<_>| arr!(p, x, RightSliceMap::<String, u64, u8, Hb>::with_hasher(x, a..b, Hb(0)))); }
            }
            if SIZES.contains(&n) { many!(c, fam, keys, pr,
                "FrozenMap<String>::from" => |p: Vec<_>| arr!(p, x, FrozenMap::from(x)),
                "FrozenMap<String>::with_hasher" => |p: Vec<_>| arr!(p, x, FrozenMap::with_hasher(x, Hb(0))),
                "LengthMap::from" => |p: Vec<_>| arr!(p, x, LengthMap::<String, u64, u8>::from(x))); }
        }
    }
    for h in HASHERS {
        c.case(&format!("hasher()/{h}"), 1, || {
            let s: Vec<(String, u64)> = (0..9).map(|i| (format!("{i}"), i)).collect();
            ensure!(*CommonMap::<String, u64, u8, Hb>::from_vec_with_hasher(s.clone(), Hb(h)).hasher() == Hb(h), "CommonMap");
            ensure!(*CommonMap::<String, u64, u8, Hb>::from_iter_with_hasher(s.clone(), Hb(h)).hasher() == Hb(h), "CommonMap iter");
            ensure!(*LeftSliceMap::<String, u64, u8, Hb>::from_vec_with_hasher(s.clone(), 0..1, Hb(h)).hasher() == Hb(h), "LeftSliceMap");
            ensure!(*LeftSliceMap::<String, u64, u8, Hb>::from_iter_with_hasher(s.clone(), 0..1, Hb(h)).hasher() == Hb(h), "LeftSliceMap iter");
            ensure!(*RightSliceMap::<String, u64, u8, Hb>::from_vec_with_hasher(s.clone(), 0..1, Hb(h)).hasher() == Hb(h), "RightSliceMap");
            ensure!(*RightSliceMap::<String, u64, u8, Hb>::from_iter_with_hasher(s, 0..1, Hb(h)).hasher() == Hb(h), "RightSliceMap iter");
            Ok(())
        });
    }
    c.case("default", 1, || {
        let d: FrozenMap<u32, u64> = FrozenMap::default();
        ensure!(d.is_empty() && d.len() == 0 && d.get(&0).is_none() && d.get(&1).is_none() && d.iter().next().is_none(), "u32");
        let d: FrozenMap<String, u64, Hb> = FrozenMap::default();
        ensure!(d.is_empty() && d.len() == 0 && d.get(&String::new()).is_none() && d.iter().next().is_none(), "String");
        let d: FrozenMap<u64, u64, Hb> = FrozenMap::default();
        ensure!(d.is_empty() && d.len() == 0 && d.get(&0).is_none() && d.keys().next().is_none() && d.values().next().is_none(), "u64");
        Ok(())
    });
}

/// memory safety whatever the user-supplied implementations do: panics are allowed, anything else must be a value that was put in
pub fn unlawful(c: &mut Ctx) {
    for n in [0usize, 1, 2, 3, 4, 5, 9, 33, 130, 255, 256, 400] {
        for mode in 0..12u8 { for round in 0..(if c.thorough { 20 } else { 3 }) {
            let seed = c.seed.wrapping_mul(1000) + round;
            macro_rules! run { ($what:expr, $s:ty, $mk:expr) => {{
                let id = format!("unlawful {}/n={n}/mode{mode}/round{round}", $what);
                if c.wants(&id) { c.case(&id, n, || {
                    let p: Vec<(Liar, u64)> = (0..n).map(|i| (Liar::new(i as u64 ^ seed, mode), u64::mk(i))).collect();
                    let Some(mut m) = panics(|| $mk(p)) else { return Ok(()) };
                    let ok = |v: u64| v % 10 == 1 && (v as usize) < n * 10 + 1;
                    for q in 0..200u64 {
                        let q = Liar::new(q.wrapping_mul(seed | 1), mode);
                        if let Some(Some(v)) = panics(|| m.get(&q).copied()) { ensure!(ok(v), "get yields a value that was never stored: {v}"); }
                        if let Some(Some(v)) = panics(|| m.get_key_value(&q).map(|x| *x.1)) { ensure!(ok(v), "get_key_value yields a value that was never stored: {v}"); }
                        if let Some(Some(v)) = panics(|| m.get_mut(&q).map(|x| *x)) { ensure!(ok(v), "get_mut yields a value that was never stored: {v}"); }
                        if let Some(Some(v)) = panics(|| m.get_many_mut([&q]).map(|[x]| *x)) { ensure!(ok(v), "get_many_mut yields a value that was never stored: {v}"); }
                    }
                    ensure!(m.iter().all(|(_, v)| ok(*v)) && m.iter().count() == n, "iter yields other entries than were stored");
                    Ok(())
                }); }
            }} }
            run!("FrozenMap", u8, |p| FrozenMap::from_vec_with_hasher(p, LiarHb::default()));
            run!("FrozenMap/std", u8, |p| FrozenMap::from_vec(p));
            run!("CommonMap/u8", u8, |p| CommonMap::<Liar, u64, u8, LiarHb>::from_vec_with_hasher(p, LiarHb::default()));
            run!("CommonMap/u16", u8, |p| CommonMap::<Liar, u64, u16, RandomState>::from_vec(p));
            run!("LengthMap/u16", u8, |p| LengthMap::<Liar, u64, u16>::from_vec(p));
            run!("LeftSliceMap/u16", u8, |p| LeftSliceMap::<Liar, u64, u16, LiarHb>::from_vec_with_hasher(p, 1..4, LiarHb::default()));
            run!("RightSliceMap/u16", u8, |p| RightSliceMap::<Liar, u64, u16, LiarHb>::from_vec_with_hasher(p, 1..4, LiarHb::default()));
            run!("ScanningMap", u8, |p| ScanningMap::<Liar, u64>::from_vec(p));
        } }
        // a lawful String key with a hasher that answers differently every time
        for round in 0..6 {
            let id = format!("unlawful hasher FrozenMap<String>/n={n}/round{round}");
            if c.wants(&id) { c.case(&id, n, || {
                for (_, keys) in str_seqs(n, round) {
                    let hb = LiarHb::default(); hb.0.set(round * 7 + 3);
                    let Some(m) = panics(|| FrozenMap::from_vec_with_hasher(pay::<_, u64>(&keys), hb)) else { continue };
                    for q in str_probes(&keys) { let _ = panics(|| m.get(&q).copied()); let _ = panics(|| m.contains_key(&q)); }
                }
                Ok(())
            }); }
        }
    }
}
