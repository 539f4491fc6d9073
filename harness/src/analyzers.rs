//! Key analyses, table sizing, lengths and slice hashes on the real code.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::maps::contiguous;
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
#[cfg(frozen_verif)]
use frozen_collections_core::verif::hash_code_analyzer::analyze_hash_codes;
#[cfg(frozen_verif)]
use frozen_collections_core::verif::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
#[cfg(frozen_verif)]
use frozen_collections_core::verif::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
use std::collections::*;
use std::hash::{BuildHasher, Hasher};

#[cfg(frozen_verif)]
fn ints<T: Int + num_traits::PrimInt>(v: &[T]) -> R {
    let r = analyze_int_keys(v.iter().copied());
    let want = !v.is_empty() && contiguous(v);
    ensure!((r == IntKeyAnalysisResult::Range) == want, "integer analysis of {} keys says {r:?}", v.len());
    Ok(())
}

#[cfg(frozen_verif)]
fn slices<B: BuildHasher>(v: &[String], bh: &B) -> R {
    let r = analyze_slice_keys(v.iter().map(|s| s.as_bytes()), bh);
    let minlen = v.iter().map(|s| s.len()).min().unwrap_or(0);
    match r {
        SliceKeyAnalysisResult::Normal => {}
        SliceKeyAnalysisResult::LeftHandSubslice { subslice_index: i, subslice_len: n } | SliceKeyAnalysisResult::RightHandSubslice { subslice_index: i, subslice_len: n } =>
            ensure!(n > 0 && i.checked_add(n).is_some_and(|e| e <= minlen), "recommends the subslice {i}+{n}, the shortest of {} keys has {minlen} bytes", v.len()),
        SliceKeyAnalysisResult::Length => {
            ensure!(v.len() <= 255, "recommends lengths for {} keys", v.len());
            let mut m: HashMap<usize, usize> = HashMap::new();
            for s in v { *m.entry(s.len()).or_default() += 1; }
            ensure!(m.values().all(|&c| c <= 3), "recommends lengths although more than three keys share one");
        }
    }
    Ok(())
}

#[cfg(frozen_verif)]
pub fn keys(c: &mut Ctx) {
    for n in 0..=(if c.thorough { 70 } else { 24 }) {
        macro_rules! t { ($($t:ident)*) => { $( for (name, v) in int_seqs::<$t>(n, c.seed) { c.case(&format!("analyze_int_keys<{}>/n={n}/{name}", stringify!($t)), n, || ints(&v)); } )* } }
        t!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
    }
    for n in [127usize, 128, 129, 255, 256, 257, 1000] {
        macro_rules! t { ($($t:ident)*) => { $( for (name, v) in int_seqs::<$t>(n, c.seed) { c.case(&format!("analyze_int_keys<{}>/n={n}/{name}", stringify!($t)), n, || ints(&v)); } )* } }
        t!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128);
    }
    macro_rules! whole { ($($t:ident)*) => { $( for cut in 0..3i128 { for top in 0..3i128 {
        let v: Vec<$t> = ($t::MIN as i128 + cut..=$t::MAX as i128 - top).map(|x| x as $t).collect();
        c.case(&format!("analyze_int_keys<{}>/all but {cut},{top}", stringify!($t)), 256, || ints(&v));
        let mut w = v.clone(); w.push($t::MIN); w.push($t::MAX);
        c.case(&format!("analyze_int_keys<{}>/all but {cut},{top} and ends", stringify!($t)), 256, || ints(&w));
    } } )* } }
    whole!(u8 i8 u16 i16);
    // every sequence up to length 5 over some values
    let base: [&[i128]; 5] = [&[0, 1, 2, 3, 5], &[-128, -127, -126, 126, 127], &[0, 1, 2, 254, 255], &[-2, -1, 0, 1, 2], &[250, 251, 253, 254, 255]];
    for (bi, b) in base.iter().enumerate() { for len in 0..=5usize { for x in 0..5usize.pow(len as u32) {
        let v: Vec<i128> = (0..len).map(|i| b[x / 5usize.pow(i as u32) % 5]).collect();
        macro_rules! one { ($t:ident) => { if v.iter().all(|&x| x >= $t::MIN as i128 && x <= $t::MAX as i128) { let w: Vec<$t> = v.iter().map(|&x| x as $t).collect();
            c.case(&format!("analyze_int_keys<{}>/short{bi}/{w:?}", stringify!($t)), len, || ints(&w)); } } }
        one!(i8); one!(u8); one!(i32);
    } } }
    for n in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 19, 20, 21, 25, 39, 40, 41, 60, 100, 128, 254, 255, 256, 257, 400] {
        for (name, v) in str_seqs(n, c.seed) { for h in HASHERS {
            c.case(&format!("analyze_slice_keys/n={n}/{name}/hasher{h}"), n, || slices(&v, &Hb(h)));
        }
        c.case(&format!("analyze_slice_keys/n={n}/{name}/std"), n, || slices(&v, &rs())); }
    }
    // lengths: exactly k of a length
    for n in [1usize, 2, 3, 4, 5, 8, 252, 255, 256] { for k in 1..=5usize { for order in 0..4u64 {
        let mut v: Vec<String> = (0..n).map(|i| { let l = 1 + i / k; let mut s = "z".repeat(l); s.replace_range(0..1, &char::from(b'a' + (i % k) as u8).to_string()); s }).collect();
        if order > 0 { Rng(order).shuffle(&mut v); }
        c.case(&format!("analyze_slice_keys/n={n}/{k} per length/{order}"), n, || slices(&v, &Hb(0)));
    } } }
    // every sequence of short strings up to length 5 over a small universe
    let b = ["", "a", "b", "aa", "ab", "ba", "aab", "bab"];
    for len in 0..=(if c.thorough { 6 } else { 5usize }) { for x in 0..8usize.pow(len as u32) {
        let v: Vec<String> = (0..len).map(|i| b[x / 8usize.pow(i as u32) % 8].to_string()).collect();
        c.case(&format!("analyze_slice_keys/short/{v:?}"), len, || slices(&v, &Hb(0)));
    } }
    let mut rng = Rng(c.seed);
    for r in 0..(if c.thorough { 60000 } else { 6000 }) {
        let n = 4 + rng.below(24); let al = 1 + rng.below(3); let base = rng.below(4); let span = rng.below(5);
        let v: Vec<String> = (0..n).map(|_| { let l = base + rng.below(span + 1); (0..l).map(|_| char::from(b'a' + rng.below(al) as u8)).collect() }).collect();
        let h = HASHERS[rng.below(7)];
        c.case(&format!("analyze_slice_keys/rnd{r}"), n, || slices(&v, &Hb(h)));
    }
}

#[cfg(frozen_verif)]
fn codes(v: &[u64]) -> R {
    let r = analyze_hash_codes(v.iter().copied());
    let (n, s) = (v.len(), r.num_hash_slots);
    if n == 0 { ensure!(s == 0 && r._num_hash_collisions == 0, "{s} slots, {} collisions for no codes", r._num_hash_collisions); return Ok(()); }
    let least = if n < 128 { n } else { n - n / 100 * 5 };
    ensure!(s >= least && s <= 16 * n, "{s} slots for {n} codes");
    let mut seen = vec![false; s];
    let mut coll = 0;
    for x in v { let k = (x % s as u64) as usize; if seen[k] { coll += 1 } seen[k] = true; }
    ensure!(coll == r._num_hash_collisions, "reports {} collisions for {n} codes in {s} slots, there are {coll}", r._num_hash_collisions);
    Ok(())
}

#[cfg(frozen_verif)]
pub fn sizing(c: &mut Ctx) {
    let mut sizes: Vec<usize> = (0..=140).collect();
    sizes.extend([150, 160, 199, 200, 255, 256, 257, 300, 400, 500, 511, 512, 640, 999, 1000, 1001, 1023, 1024, 1500, 2000, 2333, 4000, 5000]);
    if c.thorough { sizes.extend(141..260); sizes.extend([7000, 10000, 20000, 65536, 100_000]); }
    for n in sizes {
        let mut fams: Vec<(String, Vec<u64>)> = vec![];
        let m = n as u64;
        fams.push(("seq".into(), (0..m).collect()));
        fams.push(("rev".into(), (0..m).rev().collect()));
        for s in [2u64, 3, 7, 8, 16, 128, 131, 256, 1000, 1 << 32] { fams.push((format!("stride{s}"), (0..m).map(|i| i * s).collect())); }
        fams.push(("top".into(), (0..m).map(|i| u64::MAX - i).collect()));
        fams.push(("high".into(), (0..m).map(|i| i << 48).collect()));
        fams.push(("same".into(), vec![42; n]));
        fams.push(("two".into(), (0..m).map(|i| i & 1).collect()));
        fams.push(("half".into(), (0..m).map(|i| i / 2).collect()));
        fams.push(("wrap".into(), (0..m).map(|i| i % (m / 10 * 9).max(1)).collect()));
        for d in 1..=12u64 { fams.push((format!("dup{d}"), (0..m).map(|i| if i < d { 5 } else { i }).collect())); }
        for k in [1usize, 2, 4, 5, 6, 8, 10, 12, 20] { let cut = n * k / 100; fams.push((format!("dup{k}pc"), (0..m).map(|i| if (i as usize) < cut { m } else { i }).collect())); }
        for r in 0..(if c.thorough { 30 } else if n < 300 { 6 } else { 2 }) { let mut g = Rng(c.seed * 100 + r + n as u64 * 7919); fams.push((format!("rnd{r}"), (0..n).map(|_| g.next()).collect()));
            let mut g = Rng(c.seed * 100 + r + n as u64 * 104_729); fams.push((format!("rndsmall{r}"), (0..n).map(|_| g.below(n * (1 + r as usize * 3) + 1) as u64).collect())); }
        for (f, v) in fams { c.case(&format!("analyze_hash_codes/n={n}/{f}"), n, || codes(&v)); }
    }
    for len in 0..=4usize { for x in 0..7usize.pow(len as u32) {
        let v: Vec<u64> = (0..len).map(|i| [0, 1, 2, 3, 8, 64, u64::MAX][x / 7usize.pow(i as u32) % 7]).collect();
        c.case(&format!("analyze_hash_codes/short/{v:?}"), len, || codes(&v));
    } }
}

fn b_len<T: Len + ?Sized>(x: &T, n: usize) -> R {
    ensure!(Len::len(x) == n && Len::is_empty(x) == (n == 0), "Len of {} is {} (is_empty {}), expected {n}", std::any::type_name::<T>(), Len::len(x), Len::is_empty(x));
    Ok(())
}

/// SliceHash refuses a range that is not within the key
fn beyond(s: &String) -> Result<(), String> {
    let (n, bh) = (s.len(), rs());
    for (a, b) in [(0, n + 1), (n, n + 1), (n + 1, n + 1), (n + 3, n + 9), (1, 0), (n + 1, n), (0, usize::MAX), (usize::MAX, usize::MAX), (n, 1 << 40)] {
        if a <= b && b <= n { continue; }
        ensure!(panics(|| SliceHash::hash(s, &bh, a..b)).is_none(), "{a}..{b} of {n} bytes of a String is hashed");
        ensure!(panics(|| SliceHash::hash(s.as_bytes(), &bh, a..b)).is_none(), "{a}..{b} of {n} bytes is hashed");
    }
    Ok(())
}
pub fn slices_beyond(c: &mut Ctx) {
    for s in ["", "a", "abcdefgh", "\u{e9}\u{1F600}"] { let s = s.to_string(); c.case(&format!("SliceHash/beyond {}", s.len()), s.len().max(1), || beyond(&s)); }
}

pub fn lens(c: &mut Ctx) {
    let mut strs: Vec<String> = ["", "a", "é", "日本", "a\u{300}b", "🦀", "0123456789", "ß€𝄞", "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}"].iter().map(|s| s.to_string()).collect();
    for n in [3usize, 7, 8, 15, 16, 23, 24, 31, 64, 255, 256, 257, 5000] { strs.push("y".repeat(n)); strs.push("é".repeat(n)); }
    for (i, s) in strs.iter().enumerate() {
        c.case(&format!("Len/string{i}"), s.len().max(1), || {
            let n = s.as_bytes().len();
            b_len::<String>(s, n)?; b_len::<str>(s, n)?; b_len(&Box::new(s.clone()), n)?; b_len::<Box<str>>(&s.clone().into_boxed_str(), n)?;
            b_len(&std::rc::Rc::new(s.clone()), n)?; b_len(&std::sync::Arc::new(s.clone()), n)?; b_len::<std::rc::Rc<str>>(&s.as_str().into(), n)?; b_len::<std::sync::Arc<str>>(&s.as_str().into(), n)?;
            b_len(&Box::new(Box::new(s.clone())), n)?; b_len(&std::rc::Rc::new(std::sync::Arc::new(Box::new(s.clone()))), n)?;
            let cs = std::ffi::CString::new(s.as_str()).unwrap();
            b_len(&cs, n)?; b_len::<std::ffi::CStr>(&cs, n)?;
            let os = std::ffi::OsString::from(s);
            b_len(&os, n)?; b_len::<std::ffi::OsStr>(&os, n)?;
            {
                use std::os::unix::ffi::{OsStrExt, OsStringExt};
                for bad in [&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"a\0b"] {
                    let mut b = s.as_bytes().to_vec(); b.extend(bad); b.extend(s.as_bytes());
                    b_len::<std::ffi::OsStr>(std::ffi::OsStr::from_bytes(&b), b.len())?;
                    b_len(&Box::<std::ffi::OsStr>::from(std::ffi::OsStr::from_bytes(&b)), b.len())?;
                    b_len(&std::ffi::OsString::from_vec(b.clone()), b.len())?;
                    b.retain(|x| *x != 0);
                    b_len(&std::ffi::CString::new(b.clone()).unwrap(), b.len())?; b_len::<std::ffi::CStr>(&std::ffi::CString::new(b.clone()).unwrap(), b.len())?;
                }
            }
            let v: Vec<u8> = s.bytes().collect();
            b_len(&v, n)?; b_len::<[u8]>(&v, n)?; b_len::<Box<[u8]>>(&v.clone().into_boxed_slice(), n)?;
            let w: Vec<char> = s.chars().collect();
            let m = w.len();
            b_len(&w, m)?; b_len::<[char]>(&w, m)?;
            b_len(&w.iter().map(|x| vec![*x; 3]).collect::<Vec<_>>(), m)?;
            Ok(())
        });
    }
    for n in [0usize, 1, 2, 3, 7, 8, 16, 100, 1000] {
        c.case(&format!("Len/collections/n={n}"), n.max(1), || {
            let v: Vec<u32> = (0..n as u32).collect();
            b_len(&v, n)?; b_len::<[u32]>(&v, n)?; b_len(&vec![(); n], n)?; b_len::<[()]>(&vec![(); n], n)?;
            b_len(&v.iter().copied().collect::<HashSet<_>>(), n)?; b_len(&v.iter().copied().collect::<BTreeSet<_>>(), n)?;
            b_len(&v.iter().map(|&x| (x, "v")).collect::<HashMap<_, _>>(), n)?; b_len(&v.iter().map(|&x| (x, "v")).collect::<BTreeMap<_, _>>(), n)?;
            b_len(&v.iter().copied().collect::<BinaryHeap<_>>(), n)?; b_len(&v.iter().copied().collect::<LinkedList<_>>(), n)?; b_len(&v.iter().copied().collect::<VecDeque<_>>(), n)?;
            let mut d: VecDeque<u32> = v.iter().copied().collect(); d.rotate_left(n / 2); b_len(&d, n)?;
            let mut h: HashSet<u32> = (0..n as u32 * 2).collect(); h.retain(|x| x % 2 == 0); b_len(&h, n)?;
            let mut w = Vec::with_capacity(n * 3 + 5); w.extend(v); b_len(&w, n)?;
            Ok(())
        });
    }
    struct Rec(std::cell::RefCell<Vec<Vec<u8>>>);
    let _ = Rec(Default::default()).0;
    for (i, s) in strs.iter().enumerate() {
        let n = s.len();
        if n > 64 { continue; }
        c.case(&format!("SliceHash/string{i}"), n.max(1), || {
            for h in HASHERS { let bh = Hb(h); for a in 0..=n { for b in a..=n {
                let mut w = bh.build_hasher(); w.write(&s.as_bytes()[a..b]); let want = w.finish();
                let x = SliceHash::hash(s, &bh, a..b);
                let y = SliceHash::hash(s.as_bytes(), &bh, a..b);
                ensure!(x == y, "String and bytes of {s:?} hash differently over {a}..{b}");
                ensure!(x == want, "hash of {s:?} over {a}..{b} is not that of its bytes alone");
                // the same bytes inside another key
                let mut t = vec![1u8, 2, 3]; t.extend(&s.as_bytes()[a..b]); t.extend([9u8; 5]);
                ensure!(SliceHash::hash(&t[..], &bh, 3..3 + b - a) == x, "the same slice of another key hashes differently");
            } } }
            let bh = rs();
            for a in 0..=n { for b in a..=n { let t = s.as_bytes()[a..b].to_vec();
                ensure!(SliceHash::hash(s, &bh, a..b) == SliceHash::hash(&t[..], &bh, 0..b - a), "equal slices hash differently"); } }
            beyond(s)
        });
    }
    // slices of different bytes do not systematically collide
    c.case("SliceHash/sensitive", 1, || {
        let bh = Hb(0);
        let k = "abcdefghij".to_string();
        for a in 0..10 { for b in a + 1..=10 { for p in a..b { for q in 0..1 {
            let mut t = k.clone().into_bytes(); t[p] ^= 1 + q; let t = String::from_utf8(t).unwrap();
            ensure!(SliceHash::hash(&k, &bh, a..b) != SliceHash::hash(&t, &bh, a..b), "byte {p} does not enter the hash of {a}..{b}");
        } } } }
        Ok(())
    });
}
