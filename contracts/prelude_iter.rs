// Model of the iterator traits of std, shadowing them in the units that use it: rem() is what is still to come.
pub mod iters {
use super::*;
pub trait Iterator: Sized {
    type Item;
    spec fn inv(&self) -> bool;
    spec fn rem(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv()
        ensures
            final(self).inv(),
            match r {
                Some(x) => old(self).rem().len() > 0 && x == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
                None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            };
    // the bodies below stand for the default bodies in std
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv()
        ensures r.0 <= self.rem().len(), r.1 is Some ==> self.rem().len() <= r.1->0
    { (0, None) }
    fn count(self) -> (r: usize)
        requires self.inv(), self.rem().len() <= usize::MAX
        ensures r == self.rem().len()
    {
        let mut s = self;
        let mut n: usize = 0;
        let ghost a = s.rem();
        loop
            invariant s.inv(), s.rem() == a.skip(n as int), n <= a.len(), a.len() <= usize::MAX
            ensures n == a.len()
            decreases s.rem().len()
        {
            match s.next() { None => { break; } Some(_) => { n += 1; } }
        }
        n
    }
    fn fold<B, F>(self, init: B, f: F) -> (r: B)
        where Self: Sized, F: Fn(B, Self::Item) -> B
        requires self.inv(), foldable::<Self::Item, B, F>(f)
        ensures folded(f, init, self.rem(), r)
    {
        let mut s = self;
        let ghost a = s.rem();
        let ghost mut accs: Seq<B> = seq![init];
        let mut acc = init;
        let ghost mut k: int = 0;
        loop
            invariant
                s.inv(), 0 <= k <= a.len(), s.rem() == a.skip(k), accs.len() == k + 1, accs[0] == init, accs[k] == acc,
                foldable::<Self::Item, B, F>(f),
                forall|i: int| 0 <= i < k ==> f.ensures((accs[i], #[trigger] a[i]), accs[i + 1])
            ensures k == a.len()
            decreases s.rem().len()
        {
            match s.next() {
                None => { break; }
                Some(x) => {
                    let ghost prev = acc;
                    acc = f(acc, x);
                    proof { assert(x == a[k]); accs = accs.push(acc); k = k + 1; }
                }
            }
        }
        proof { assert(fold_steps(f, a, accs)); }
        acc
    }
    fn all<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
        requires
            old(self).inv(),
            forall|i: int| 0 <= i < old(self).rem().len() ==> f.requires((#[trigger] old(self).rem()[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < old(self).rem().len() ==> f.ensures((#[trigger] old(self).rem()[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self).rem().len() && f.ensures((#[trigger] old(self).rem()[i],), false),
    {
        let ghost a = self.rem();
        let ghost mut k: int = 0;
        loop
            invariant
                self.inv(), self.rem() == a.skip(k), 0 <= k <= a.len(), a == old(self).rem(),
                forall|i: int| 0 <= i < a.len() ==> f.requires((#[trigger] a[i],)),
                forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] a[i],), true)
            decreases self.rem().len()
        {
            match self.next() {
                None => { return true; }
                Some(x) => {
                    proof { assert(x == a[k]); k = k + 1; }
                    if !f(x) { proof { assert(f.ensures((a[k - 1],), false)); } return false; }
                }
            }
        }
    }
}
// f may be called with anything
pub open spec fn foldable<A, B, F: Fn(B, A) -> B>(f: F) -> bool { forall|b: B, x: A| #[trigger] f.requires((b, x)) }
// r is what folding f over s from init may give
pub open spec fn folded<A, B, F: Fn(B, A) -> B>(f: F, init: B, s: Seq<A>, r: B) -> bool {
    exists|acc: Seq<B>| #[trigger] fold_steps(f, s, acc) && acc[0] == init && acc[s.len() as int] == r
}
pub open spec fn fold_steps<A, B, F: Fn(B, A) -> B>(f: F, s: Seq<A>, acc: Seq<B>) -> bool {
    &&& acc.len() == s.len() + 1
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((acc[i], #[trigger] s[i]), acc[i + 1])
}
pub trait ExactSizeIterator: Iterator {
    fn len(&self) -> (r: usize)
        requires self.inv()
        ensures r == self.rem().len();
}
pub trait FusedIterator: Iterator {}
pub trait Clone: Sized {
    fn clone(&self) -> (r: Self)
        ensures r == *self;
}
}
pub use iters::{Iterator, ExactSizeIterator, FusedIterator, Clone, folded, fold_steps, foldable};
// ---- what constructors are given
pub mod sources {
use super::*;
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn into_seq(self) -> Seq<Self::Item>;
    fn vi_into_iter(self) -> (r: Self::IntoIter)
        ensures r.inv(), r.rem() == self.into_seq();
}
// an iterator over values that were moved or computed
pub struct Owned<T> { pub t: Vec<T> }
impl<T> Iterator for Owned<T> {
    type Item = T;
    open spec fn inv(&self) -> bool { self.rem().len() <= usize::MAX }
    uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 == self.rem().len(), r.1 == Some(r.0)
    { unimplemented!() }
}
impl<T> ExactSizeIterator for Owned<T> {
    #[verifier::external_body]
    fn len(&self) -> usize { unimplemented!() }
}
impl<T> Clone for Owned<T> {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = Owned<T>;
    open spec fn into_seq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vi_into_iter(self) -> Owned<T> { unimplemented!() }
}
impl<T, const N: usize> IntoIterator for [T; N] {
    type Item = T;
    type IntoIter = Owned<T>;
    open spec fn into_seq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vi_into_iter(self) -> Owned<T> { unimplemented!() }
}
impl<T> IntoIterator for Owned<T> {
    type Item = T;
    type IntoIter = Owned<T>;
    open spec fn into_seq(self) -> Seq<T> { self.rem() }
    #[verifier::external_body]
    fn vi_into_iter(self) -> Owned<T> { unimplemented!() }
}
// Iterator::map, Iterator::cloned and Vec::from_iter, reached through rewritten calls
pub open spec fn images<A, B, F: Fn(A) -> B>(f: F, s: Seq<A>, t: Seq<B>) -> bool {
    &&& s.len() == t.len()
    &&& forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] t[i])
}
pub trait Adapt: Iterator {
    fn vi_map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: Owned<B>)
        requires self.inv(), forall|x: Self::Item| f.requires((x,))
        ensures
            images(f, self.rem(), r.rem());
}
impl<I: Iterator> Adapt for I {
    #[verifier::external_body]
    fn vi_map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: Owned<B>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> (r: Vec<T>)
    ensures r@ == i.into_seq()
{ unimplemented!() }
}
pub use sources::*;
pub mod collecting {
use super::*;
pub trait FromIterator<A>: Sized {
    // r may be what is made from s
    spec fn made_from(s: Seq<A>, r: Self) -> bool;
    // making one of s is known not to panic
    spec fn accepts(s: Seq<A>) -> bool;
    fn from_iter<I: IntoIterator<Item = A>>(iter: I) -> (r: Self)
        requires Self::accepts(iter.into_seq())
        ensures Self::made_from(iter.into_seq(), r);
}
impl<A> FromIterator<A> for Vec<A> {
    open spec fn made_from(s: Seq<A>, r: Self) -> bool { r@ == s }
    open spec fn accepts(s: Seq<A>) -> bool { true }
    #[verifier::external_body]
    fn from_iter<I: IntoIterator<Item = A>>(iter: I) -> (r: Self) { unimplemented!() }
}
impl<T> Owned<T> {
    #[verifier::external_body]
    pub fn collect<B: FromIterator<T>>(self) -> (r: B)
        requires B::accepts(self.rem())
        ensures B::made_from(self.rem(), r)
    { unimplemented!() }
}
pub trait Collect: Iterator {
    fn vi_collect<B: FromIterator<Self::Item>>(self) -> (r: B)
        requires self.inv(), B::accepts(self.rem())
        ensures B::made_from(self.rem(), r);
}
impl<I: Iterator> Collect for I {
    #[verifier::external_body]
    fn vi_collect<B: FromIterator<Self::Item>>(self) -> (r: B) { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_from_box<T>(b: Box<[T]>) -> (r: Vec<T>)
    ensures r@ == b@
{ unimplemented!() }
}
pub use collecting::*;
