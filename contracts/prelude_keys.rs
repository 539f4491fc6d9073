pub mod keys {
use super::*;
// e's key, seen as a Q, equals key
pub open spec fn matches<K: Borrow<Q>, Q: Eq, V>(key: Q, e: (K, V)) -> bool { key.eq_spec(e.0.borrow_spec()) }
// i is the first entry whose key equals q
pub open spec fn hit<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, q: Q, i: int) -> bool {
    0 <= i < s.len() && matches(q, s[i]) && forall|j: int| 0 <= j < i ==> !matches(q, #[trigger] s[j])
}
pub open spec fn miss<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, q: Q) -> bool {
    forall|j: int| 0 <= j < s.len() ==> !matches(q, #[trigger] s[j])
}
// hit and miss exclude each other and a hit is unique
pub proof fn hit_unique<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, q: Q, i: int, j: int)
    requires hit(s, q, i)
    ensures !miss(s, q), hit(s, q, j) ==> i == j
{
    if hit(s, q, j) {
        if i < j { assert(!matches(q, s[i])); }
        if j < i { assert(!matches(q, s[j])); }
    }
    assert(matches(q, s[i]));
}
// answers of lookups: law says whether the key and hasher implementations keep their promises
pub open spec fn ans_get<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, law: bool, q: Q, r: Option<&V>) -> bool {
    match r {
        Some(v) => exists|i: int| 0 <= i < s.len() && *v == (#[trigger] s[i]).1 && (law ==> hit(s, q, i)),
        None => law ==> miss(s, q),
    }
}
pub open spec fn ans_get_key_value<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, law: bool, q: Q, r: Option<(&K, &V)>) -> bool {
    match r {
        Some(kv) => exists|i: int| 0 <= i < s.len() && *kv.0 == (#[trigger] s[i]).0 && *kv.1 == s[i].1 && (law ==> hit(s, q, i)),
        None => law ==> miss(s, q),
    }
}
pub open spec fn ans_get_mut<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, law: bool, q: Q, cur: V, fin: V, t: Seq<(K, V)>) -> bool {
    exists|i: int| 0 <= i < s.len() && cur == (#[trigger] s[i]).1 && (law ==> hit(s, q, i)) && t =~= s.update(i, (s[i].0, fin))
}
pub open spec fn ans_contains<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, law: bool, q: Q, r: bool) -> bool {
    law ==> r == !miss(s, q)
}
// a sequence of keys as entries
pub open spec fn keyed<K>(s: Seq<K>) -> Seq<(K, ())> { Seq::new(s.len(), |i: int| (s[i], ())) }
}
pub use keys::*;
pub mod hashing {
use super::*;
pub trait Hash {}
pub trait BuildHasher: Sized {
    // h is a hash code this hasher may compute for x
    spec fn hashes<T: ?Sized>(&self, x: &T, h: u64) -> bool;
    fn hash_one<T: Hash + ?Sized>(&self, x: &T) -> (h: u64)
        ensures self.hashes(x, h);
}
pub struct RandomState { k0: u64, k1: u64 }
impl RandomState {
    #[verifier::external_body]
    pub fn new() -> RandomState { unimplemented!() }
}
impl BuildHasher for RandomState {
    uninterp spec fn hashes<T: ?Sized>(&self, x: &T, h: u64) -> bool;
    #[verifier::external_body]
    fn hash_one<T: Hash + ?Sized>(&self, x: &T) -> (h: u64) { unimplemented!() }
}
pub trait AsPrimitive<T> {
    spec fn as_spec(self) -> T;
    fn as_(self) -> (r: T) ensures r == self.as_spec();
}
pub open spec fn len_det<T: Len>() -> bool {
    forall|x: &T, m: usize, n: usize| #[trigger] x.lens(m) && #[trigger] x.lens(n) ==> m == n
}
pub trait SliceHash: Len {
    spec fn shashes<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>, h: u64) -> bool;
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> (h: u64)
        requires
            range.start <= range.end,
            exists|n: usize| #[trigger] self.lens(n) && range.end <= n,
        ensures self.shashes(bh, range, h);
}
}
pub use hashing::*;
