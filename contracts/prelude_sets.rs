// Vocabulary for sets: elems() is the sequence of values a set holds.
pub mod setspec {
use super::*;
pub open spec fn holds<T: Eq>(s: Seq<T>, v: T) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && v.eq_spec(&s[i]) }
pub open spec fn refs_of<T>(r: Seq<&T>, s: Seq<T>) -> bool {
    &&& r.len() == s.len()
    &&& forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i] == s[i]
}
pub open spec fn first<T>(s: Seq<(T, ())>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i].0) }
pub broadcast proof fn perm_first<T>(a: Seq<(T, ())>, t: Seq<(T, ())>)
    requires #[trigger] is_perm(a, t)
    ensures is_perm(first(a), first(t))
{ perm_map(a, t, first(a), first(t), |x: (T, ())| x.0); }
// Iterator::map with the closure that makes an entry of a value
pub trait Pairs<T>: Sized {
    spec fn src(&self) -> Seq<T>;
    fn vi_pairs<F: Fn(T) -> (T, ())>(self, f: F) -> (r: Owned<(T, ())>)
        requires forall|x: T| f.requires((x,)), forall|x: T, y: (T, ())| f.ensures((x,), y) ==> y.0 == x
        ensures first(r.rem()) == self.src(), r.rem() == keyed(self.src()), r.rem().len() == self.src().len();
}
impl<T, I: Iterator<Item = T>> Pairs<T> for I {
    open spec fn src(&self) -> Seq<T> { self.rem() }
    #[verifier::external_body]
    fn vi_pairs<F: Fn(T) -> (T, ())>(self, f: F) -> (r: Owned<(T, ())>) { unimplemented!() }
}
// equality of T is an equivalence that eq computes
pub open spec fn eq_laws<T: Eq>() -> bool {
    &&& eq_law::<T>()
    &&& forall|a: T| #[trigger] a.eq_spec(&a)
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) ==> b.eq_spec(&a)
    &&& forall|a: T, b: T, c: T| #[trigger] a.eq_spec(&b) && #[trigger] b.eq_spec(&c) ==> a.eq_spec(&c)
}
pub open spec fn distinct<T: Eq>(s: Seq<T>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> !s[i].eq_spec(&s[j]) }
pub open spec fn ans_elem<T: Borrow<Q>, Q: Eq>(s: Seq<(T, ())>, law: bool, q: Q, r: Option<&T>) -> bool {
    match r {
        Some(x) => exists|i: int| 0 <= i < s.len() && *x == (#[trigger] s[i]).0 && (law ==> hit::<T, Q, ()>(s, q, i)),
        None => law ==> miss::<T, Q, ()>(s, q),
    }
}
// same length, and every value of a is in b
pub open spec fn set_eq<T: Eq>(a: Seq<T>, b: Seq<T>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> holds(b, #[trigger] a[i])
}
pub proof fn hit_has<T: Eq>(s: Seq<(T, ())>, v: T, i: int)
    requires hit::<T, T, ()>(s, v, i)
    ensures holds(first(s), v)
{ assert(matches::<T, T, ()>(v, s[i])); assert(v.eq_spec(&first(s)[i])); }
pub proof fn miss_has<T: Eq>(s: Seq<(T, ())>, v: T)
    requires miss::<T, T, ()>(s, v)
    ensures !holds(first(s), v)
{
    assert forall|i: int| #![trigger first(s)[i]] 0 <= i < s.len() implies !v.eq_spec(&first(s)[i]) by { assert(!matches::<T, T, ()>(v, s[i])); }
}
}
pub use setspec::*;
broadcast use {setspec::perm_first};
