// Vocabulary of get_many_mut.
pub mod many {
use super::*;
// equality of Q, and its agreement with that of K, are equivalences that eq computes
pub open spec fn one_class<K: Borrow<Q>, Q: Eq>() -> bool {
    forall|a: Q, b: Q, k: K| #[trigger] a.eq_spec(k.borrow_spec()) && #[trigger] b.eq_spec(k.borrow_spec()) ==> a.eq_spec(&b) && b.eq_spec(&a)
}
pub open spec fn apart<Q: Eq>(keys: Seq<&Q>) -> bool {
    forall|a: int, b: int| #![trigger keys[a], keys[b]] 0 <= a < b < keys.len() ==> !keys[a].eq_spec(keys[b])
}
pub open spec fn repeated<Q: Eq>(keys: Seq<&Q>) -> bool {
    exists|a: int, b: int| 0 <= a < b < keys.len() && (#[trigger] keys[a]).eq_spec(#[trigger] keys[b])
}
// value i is that of entry at[i], which is the one key i selects
pub open spec fn picks<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, law: bool, keys: Seq<&Q>, v: Seq<V>, at: Seq<int>) -> bool {
    &&& v.len() == keys.len() == at.len()
    &&& forall|i: int| 0 <= i < at.len() ==> 0 <= #[trigger] at[i] < s.len() && v[i] == s[at[i]].1 && (law ==> hit(s, *keys[i], at[i]))
    &&& law && one_class::<K, Q>() ==> forall|i: int, j: int| #![trigger at[i], at[j]] 0 <= i < j < at.len() ==> at[i] != at[j]
}
pub open spec fn ans_many<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, law: bool, keys: Seq<&Q>, v: Seq<V>) -> bool {
    (law ==> apart(keys)) && exists|at: Seq<int>| picks(s, law, keys, v, at)
}
pub open spec fn ans_none<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, law: bool, keys: Seq<&Q>) -> bool {
    law ==> repeated(keys) || exists|i: int| 0 <= i < keys.len() && miss(s, *#[trigger] keys[i])
}
pub proof fn picked<K: Borrow<Q>, Q: Eq, V>(s: Seq<(K, V)>, law: bool, keys: Seq<&Q>, v: Seq<V>, at: Seq<int>)
    requires
        law ==> apart(keys),
        v.len() == keys.len() == at.len(),
        forall|i: int| 0 <= i < at.len() ==> 0 <= #[trigger] at[i] < s.len() && v[i] == s[at[i]].1 && (law ==> hit(s, *keys[i], at[i]))
    ensures ans_many(s, law, keys, v)
{
    if law && one_class::<K, Q>() {
        assert forall|i: int, j: int| #![trigger at[i], at[j]] 0 <= i < j < at.len() implies at[i] != at[j] by {
            if at[i] == at[j] {
                let k = s[at[i]].0;
                assert(matches(*keys[i], s[at[i]]) && matches(*keys[j], s[at[j]]));
                assert((*keys[i]).eq_spec(k.borrow_spec()) && (*keys[j]).eq_spec(k.borrow_spec()));
            }
        }
    }
    assert(picks(s, law, keys, v, at));
}
// std::mem::MaybeUninit, with the values its filled elements refer to: every element must have been written before it is taken as initialised.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MaybeUninit<T> { x: std::mem::MaybeUninit<T> }
impl<'a, V, const N: usize> MaybeUninit<[&'a mut V; N]> {
    pub uninterp spec fn got(&self) -> Map<int, V>;
    #[verifier::external_body]
    pub fn uninit() -> (r: Self)
        ensures r.got() == Map::<int, V>::empty()
    { unimplemented!() }
    // *(*p).get_unchecked_mut(i) = transmute(v)
    #[verifier::external_body]
    pub unsafe fn put(&mut self, i: usize, v: &V)
        requires i < N
        ensures final(self).got() == old(self).got().insert(i as int, *v)
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn assume_init(self) -> (r: [&'a mut V; N])
        requires forall|i: int| 0 <= i < N ==> #[trigger] self.got().dom().contains(i)
        ensures forall|i: int| 0 <= i < N ==> *(#[trigger] r@[i]) == self.got()[i]
    { unimplemented!() }
}
pub open spec fn cur<'a, V>(r: Seq<&'a mut V>) -> Seq<V> { Seq::new(r.len(), |i: int| *r[i]) }
// Iterator::enumerate over a slice iterator
pub trait Enumerated<'a, T: 'a>: Sized {
    #[verifier::prophetic]
    spec fn erem(&self) -> Seq<&'a T>;
    fn vi_enumerate(self) -> (r: std::vec::IntoIter<(usize, &'a T)>)
        ensures
            r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
            r.remaining().len() == self.erem().len(),
            forall|i: int| 0 <= i < self.erem().len() ==> (#[trigger] r.remaining()[i]).0 == i && r.remaining()[i].1 === self.erem()[i];
}
impl<'a, T: 'a> Enumerated<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::prophetic]
    open spec fn erem(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vi_enumerate(self) -> (r: std::vec::IntoIter<(usize, &'a T)>) { unimplemented!() }
}
}
pub use many::*;
