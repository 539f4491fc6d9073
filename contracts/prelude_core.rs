// Model of the parts of std / num_traits / funty the extracted functions use.
// Every external_body / assume_specification / axiom here is part of the trusted base.
pub mod ax {
    use super::*;
    use super::model::*;
    // An iterator over mutable references that is dropped leaves the elements it did not yield unchanged.
    pub broadcast axiom fn axiom_iter_mut_resolved<T>(it: std::slice::IterMut<'_, T>, i: int)
        ensures 0 <= i < it.remaining().len() ==> #[trigger] has_resolved(it) ==> has_resolved(#[trigger] it.remaining()[i]);
    pub broadcast axiom fn axiom_prim_range<S: PrimInt>(s: S)
        ensures S::min_v() <= #[trigger] s.v() <= S::max_v();
    pub broadcast axiom fn axiom_prim_shape<S: PrimInt>()
        ensures #[trigger] S::min_v() <= 0 < S::max_v();
    pub broadcast axiom fn axiom_prim_add<S: PrimInt>(a: S, b: S)
        ensures
            #[trigger] a.add_req(b) == (S::min_v() <= a.v() + b.v() <= S::max_v()),
            a.add_req(b) ==> a.add_spec(b).v() == a.v() + b.v(),
            S::obeys_add_spec();
    pub broadcast axiom fn axiom_prim_sum<S: PrimInt>(a: S, b: S)
        ensures S::min_v() <= a.v() + b.v() <= S::max_v() ==> (#[trigger] a.add_spec(b)).v() == a.v() + b.v();
    pub broadcast axiom fn axiom_prim_obeys_add<S: PrimInt>()
        ensures #[trigger] S::obeys_add_spec();
    pub broadcast axiom fn axiom_unsigned<S: PrimInt + Unsigned>()
        ensures #[trigger] S::min_v() == 0;
    pub broadcast axiom fn axiom_prim_ext<S: PrimInt>(a: S, b: S)
        ensures #[trigger] a.v() == #[trigger] b.v() ==> a == b;
    pub broadcast axiom fn axiom_prim_sign<S: PrimInt>()
        ensures #[trigger] S::min_v() == 0 || S::min_v() == -S::max_v() - 1;
    pub broadcast axiom fn axiom_prim_not<S: PrimInt>(a: S)
        ensures
            #[trigger] a.not_spec().v() == S::min_v() + S::max_v() - a.v(),
            a.not_req(), S::obeys_not_spec();
    pub broadcast axiom fn axiom_prim_eq<S: PrimInt>(a: S, b: S)
        ensures #[trigger] a.eq_spec(&b) == (a.v() == b.v()), S::obeys_eq_spec();
    pub broadcast axiom fn axiom_prim_partial_cmp<S: PrimInt>(a: S, b: S)
        ensures
            #[trigger] a.partial_cmp_spec(&b) == Some(int_cmp(a.v(), b.v())),
            <S as PartialOrdSpec>::obeys_partial_cmp_spec();
    pub broadcast axiom fn axiom_prim_cmp<S: PrimInt>(a: S, b: S)
        ensures
            #[trigger] a.cmp_spec(&b) == int_cmp(a.v(), b.v()),
            S::obeys_cmp_spec();
    pub broadcast axiom fn axiom_prim_obeys_eq<S: PrimInt>()
        ensures #[trigger] S::obeys_eq_spec();
    pub broadcast axiom fn axiom_prim_obeys_cmp<S: PrimInt>()
        ensures #[trigger] S::obeys_cmp_spec();
    pub open spec fn int_cmp(a: int, b: int) -> std::cmp::Ordering {
        if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }
    }
    pub broadcast group group_model {
        axiom_prim_obeys_eq,
        axiom_prim_obeys_cmp,
        axiom_prim_sign,
        axiom_prim_not,
        axiom_prim_eq,
        axiom_prim_partial_cmp,
        axiom_prim_cmp,
        axiom_iter_mut_resolved,
        axiom_prim_range,
        axiom_prim_shape,
        axiom_prim_add,
        axiom_prim_sum,
        axiom_prim_obeys_add,
        axiom_unsigned,
    }
}
pub use model::*;
// eq of T computes a symmetric relation
pub open spec fn eq_law<T: PartialEq>() -> bool { T::obeys_eq_spec() && forall|a: T, b: T| #[trigger] a.eq_spec(&b) == b.eq_spec(&a) }
pub use lemmas::*;
broadcast use {vstd::slice::group_slice_axioms, vstd::seq_lib::group_to_multiset_ensures, vstd::std_specs::iter::group_iter_axioms, ax::group_model, lemmas::perm_empty};

pub mod model {
use super::*;
use super::lemmas::*;
// ---- panics: permitted only where the contract says so
#[verifier::external_body]
pub fn vpanic(p: Ghost<bool>) -> !
    requires p@
{ panic!() }
// whether debug assertions are compiled in
#[verifier::external_body]
pub fn vdebug() -> (r: bool) { unimplemented!() }

pub trait VUnwrap<T> {
    spec fn vok(&self) -> bool;
    fn vunwrap(self, p: Ghost<bool>) -> (r: T) requires self.vok() || p@;
}
impl<T> VUnwrap<T> for Option<T> {
    open spec fn vok(&self) -> bool { self is Some }
    fn vunwrap(self, p: Ghost<bool>) -> (r: T)
        ensures self == Some(r)
    { match self { Some(x) => x, None => vpanic(p) } }
}

// ---- slices
pub assume_specification<T, I: SliceIndex<[T]>> [<[T]>::get_unchecked](s: &[T], i: I) -> (r: &<I as SliceIndex<[T]>>::Output)
    requires i.in_bounds(s),
    ensures i.index_postcondition(s, r);
pub assume_specification<T, I: SliceIndex<[T]>> [<[T]>::get_unchecked_mut](s: &mut [T], i: I) -> (r: &mut <I as SliceIndex<[T]>>::Output)
    requires i.in_bounds(old(s)),
    ensures i.index_mut_postcondition(old(s), final(s), r, final(r));
pub assume_specification<'a, T> [<&'a mut [T] as std::iter::IntoIterator>::into_iter](s: &'a mut [T]) -> (iter: std::slice::IterMut<'a, T>)
    ensures
        iter.remaining().len() == old(s)@.len() == final(s)@.len(),
        forall|i: int| 0 <= i < old(s)@.len() ==> *(#[trigger] iter.remaining()[i]) == old(s)@[i],
        forall|i: int| 0 <= i < old(s)@.len() ==> *final(#[trigger] iter.remaining()[i]) == final(s)@[i],
        iter.obeys_prophetic_iter_laws(), iter.will_return_none(), iter.decrease() is Some;

// ---- Borrow
pub trait Borrow<B: ?Sized> {
    spec fn borrow_spec(&self) -> &B;
    fn borrow(&self) -> (r: &B)
        ensures r == self.borrow_spec();
}
impl<T> Borrow<T> for T {
    open spec fn borrow_spec(&self) -> &T { self }
    fn borrow(&self) -> (r: &T) { self }
}

// ---- integers (num_traits::PrimInt and friends): v() is the mathematical value
pub trait Unsigned {}
pub trait ToPrimitive: Sized { spec fn pv(self) -> int; }
impl ToPrimitive for usize { open spec fn pv(self) -> int { self as int } }
impl ToPrimitive for u64 { open spec fn pv(self) -> int { self as int } }
impl ToPrimitive for i32 { open spec fn pv(self) -> int { self as int } }
pub trait PrimInt: Sized + Copy + Eq + Ord + std::ops::Add<Output = Self> + std::ops::Not<Output = Self> {
    spec fn v(self) -> int;
    spec fn min_v() -> int;
    spec fn max_v() -> int;
    fn zero() -> (r: Self) ensures r.v() == 0;
    fn one() -> (r: Self) ensures r.v() == 1;
    fn max_value() -> (r: Self) ensures r.v() == Self::max_v();
    fn min_value() -> (r: Self) ensures r.v() == Self::min_v();
    fn to_usize(&self) -> (r: Option<usize>)
        ensures r == if 0 <= self.v() <= usize::MAX { Some(self.v() as usize) } else { None::<usize> };
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>)
        ensures match r { Some(x) => x.v() == n.pv(), None => !(Self::min_v() <= n.pv() <= Self::max_v()) };
    fn checked_add(&self, o: &Self) -> (r: Option<Self>)
        ensures match r { Some(x) => x.v() == self.v() + o.v(), None => !(Self::min_v() <= self.v() + o.v() <= Self::max_v()) };
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>)
        ensures match r { Some(x) => x.v() == self.v() - o.v(), None => !(Self::min_v() <= self.v() - o.v() <= Self::max_v()) };
}

impl Unsigned for u8 {}
impl PrimInt for u8 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { 0 }
    open spec fn max_v() -> int { 255 }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { 255 }
    fn min_value() -> (r: Self) { 0 }
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}

// ---- funty::Fundamental casts
pub trait Fundamental: Sized {
    spec fn fv(self) -> int;
    fn as_usize(self) -> (r: usize) ensures 0 <= self.fv() <= usize::MAX ==> r == self.fv();
    fn as_u64(self) -> (r: u64) ensures 0 <= self.fv() <= u64::MAX ==> r == self.fv();
}
impl Fundamental for u8 {
    open spec fn fv(self) -> int { self as int }
    fn as_usize(self) -> (r: usize) { self as usize }
    fn as_u64(self) -> (r: u64) { self as u64 }
}
impl Fundamental for usize {
    open spec fn fv(self) -> int { self as int }
    fn as_usize(self) -> (r: usize) { self }
    fn as_u64(self) -> (r: u64) { self as u64 }
}
impl Fundamental for u64 {
    open spec fn fv(self) -> int { self as int }
    fn as_usize(self) -> (r: usize) { self as usize }
    fn as_u64(self) -> (r: u64) { self }
}
impl Fundamental for u32 {
    open spec fn fv(self) -> int { self as int }
    fn as_usize(self) -> (r: usize) { self as usize }
    fn as_u64(self) -> (r: u64) { self as u64 }
}
global size_of usize == 8;

// ---- std::num::NonZero
#[derive(Clone, Copy)]
pub struct NonZeroU64 { pub n: u64 }
#[derive(Clone, Copy)]
pub struct NonZeroUsize { pub n: usize }
pub trait NonZeroSource { spec fn nzv(self) -> int; }
impl NonZeroSource for u64 { open spec fn nzv(self) -> int { self as int } }
impl NonZeroSource for i32 { open spec fn nzv(self) -> int { self as int } }
impl NonZeroSource for usize { open spec fn nzv(self) -> int { self as int } }
impl NonZeroSource for NonZeroUsize { open spec fn nzv(self) -> int { self.n as int } }
impl NonZeroU64 {
    #[verifier::external_body]
    pub fn try_from<T: NonZeroSource>(x: T) -> (r: Result<NonZeroU64, ()>)
        ensures match r { Ok(z) => z.n == x.nzv() && z.n != 0, Err(_) => x.nzv() == 0 }
    { unimplemented!() }
}
impl NonZeroUsize {
    #[verifier::external_body]
    pub fn try_from<T: NonZeroSource>(x: T) -> (r: Result<NonZeroUsize, ()>)
        ensures match r { Ok(z) => z.n == x.nzv() && z.n != 0, Err(_) => x.nzv() == 0 }
    { unimplemented!() }
}
impl vstd::std_specs::ops::RemSpecImpl<NonZeroU64> for u64 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, d: NonZeroU64) -> bool { d.n != 0 }
    open spec fn rem_spec(self, d: NonZeroU64) -> u64 { self % d.n }
}
impl std::ops::Rem<NonZeroU64> for u64 {
    type Output = u64;
    fn rem(self, d: NonZeroU64) -> (r: u64) { self % d.n }
}

// ---- Vec
pub open spec fn cmp_ok<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(f: F, a: T, b: T) -> bool {
    exists|o: std::cmp::Ordering| o != std::cmp::Ordering::Greater && #[trigger] f.ensures((&a, &b), o)
}
pub trait VSort<T> {
    spec fn vview(&self) -> Seq<T>;
    fn sort_unstable_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F)
        requires
            forall|x: &T, y: &T| f.requires((x, y)),
            forall|x: &T, y: &T, o: std::cmp::Ordering, p: std::cmp::Ordering| #[trigger] f.ensures((x, y), o) && #[trigger] f.ensures((y, x), p) ==> (o == std::cmp::Ordering::Less <==> p == std::cmp::Ordering::Greater),
            forall|x: &T, y: &T, z: &T, o: std::cmp::Ordering, p: std::cmp::Ordering, q: std::cmp::Ordering|
                #[trigger] f.ensures((x, y), o) && #[trigger] f.ensures((y, z), p) && #[trigger] f.ensures((x, z), q) && o != std::cmp::Ordering::Greater && p != std::cmp::Ordering::Greater ==> q != std::cmp::Ordering::Greater,
        ensures
            is_perm(final(self).vview(), old(self).vview()),
            forall|i: int, j: int| 0 <= i < j < final(self).vview().len() ==> cmp_ok(f, #[trigger] final(self).vview()[i], #[trigger] final(self).vview()[j]);
    fn sort_by_key<X: Ord, F: FnMut(&T) -> X>(&mut self, f: F)
        requires
            forall|x: &T| f.requires((x,)),
            X::obeys_cmp_spec(),
        ensures
            is_perm(final(self).vview(), old(self).vview()),
            forall|i: int, j: int| 0 <= i < j < final(self).vview().len() ==> key_le::<T, X, F>(f, #[trigger] final(self).vview()[i], #[trigger] final(self).vview()[j]);
    fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F)
        requires
            forall|x: &T, y: &T| f.requires((x, y)),
            forall|x: &T, y: &T, o: std::cmp::Ordering, p: std::cmp::Ordering| #[trigger] f.ensures((x, y), o) && #[trigger] f.ensures((y, x), p) ==> (o == std::cmp::Ordering::Less <==> p == std::cmp::Ordering::Greater),
            forall|x: &T, y: &T, z: &T, o: std::cmp::Ordering, p: std::cmp::Ordering, q: std::cmp::Ordering|
                #[trigger] f.ensures((x, y), o) && #[trigger] f.ensures((y, z), p) && #[trigger] f.ensures((x, z), q) && o != std::cmp::Ordering::Greater && p != std::cmp::Ordering::Greater ==> q != std::cmp::Ordering::Greater,
        ensures
            is_perm(final(self).vview(), old(self).vview()),
            forall|i: int, j: int| 0 <= i < j < final(self).vview().len() ==> cmp_ok(f, #[trigger] final(self).vview()[i], #[trigger] final(self).vview()[j]);
    fn sort_unstable_by_key<X: Ord, F: FnMut(&T) -> X>(&mut self, f: F)
        requires
            forall|x: &T| f.requires((x,)),
            X::obeys_cmp_spec(),
        ensures
            is_perm(final(self).vview(), old(self).vview()),
            forall|i: int, j: int| 0 <= i < j < final(self).vview().len() ==> key_le::<T, X, F>(f, #[trigger] final(self).vview()[i], #[trigger] final(self).vview()[j]);
    fn sort_unstable(&mut self) where T: Ord
        requires T::obeys_cmp_spec(),
        ensures
            is_perm(final(self).vview(), old(self).vview()),
            forall|i: int, j: int| #![trigger final(self).vview()[i], final(self).vview()[j]] 0 <= i < j < final(self).vview().len() ==> final(self).vview()[i].cmp_spec(&final(self).vview()[j]) != std::cmp::Ordering::Greater;
    fn sort(&mut self) where T: Ord
        requires T::obeys_cmp_spec(),
        ensures
            is_perm(final(self).vview(), old(self).vview()),
            forall|i: int, j: int| #![trigger final(self).vview()[i], final(self).vview()[j]] 0 <= i < j < final(self).vview().len() ==> final(self).vview()[i].cmp_spec(&final(self).vview()[j]) != std::cmp::Ordering::Greater;
}
// the keys f may compute for a and b are in order
pub open spec fn key_le<T, X: Ord, F: FnMut(&T) -> X>(f: F, a: T, b: T) -> bool {
    exists|p: X, q: X| #[trigger] f.ensures((&a,), p) && #[trigger] f.ensures((&b,), q) && p.cmp_spec(&q) != std::cmp::Ordering::Greater
}
impl<T> VSort<T> for Vec<T> {
    open spec fn vview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn sort_unstable_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn sort_by_key<X: Ord, F: FnMut(&T) -> X>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn sort_unstable_by_key<X: Ord, F: FnMut(&T) -> X>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn sort_unstable(&mut self) where T: Ord { unimplemented!() }
    #[verifier::external_body]
    fn sort(&mut self) where T: Ord { unimplemented!() }
}
pub assume_specification<T, A: std::alloc::Allocator, F: FnMut() -> T> [Vec::<T, A>::resize_with](v: &mut Vec<T, A>, n: usize, f: F)
    requires f.requires(()),
    ensures
        final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> f.ensures((), #[trigger] final(v)@[i]);
pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::into_boxed_slice](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U, F> [Option::<T>::map_or](o: Option<T>, d: U, f: F) -> (r: U)
    where F: std::ops::FnOnce(T,) -> U + std::marker::Destruct, U: std::marker::Destruct
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
// Iterator::map over a slice iterator (vstd's contract for it is not triggered automatically)
pub trait VMap<'a, T: 'a>: Sized {
    #[verifier::prophetic]
    spec fn vrem(&self) -> Seq<&'a T>;
    fn vmap<B, F: FnMut(&'a T) -> B>(self, f: F) -> (r: std::iter::Map<std::slice::Iter<'a, T>, F>)
        requires forall|x: &'a T| f.requires((x,))
        ensures
            r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
            r.remaining().len() == self.vrem().len(),
            forall|i: int| 0 <= i < self.vrem().len() ==> f.ensures((self.vrem()[i],), #[trigger] r.remaining()[i]);
}
impl<'a, T: 'a> VMap<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::prophetic]
    open spec fn vrem(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vmap<B, F: FnMut(&'a T) -> B>(self, f: F) -> (r: std::iter::Map<std::slice::Iter<'a, T>, F>) { unimplemented!() }
}
pub trait VExtend<T> { fn vextend<I: ExtSrc<T>>(&mut self, i: I); }
pub trait ExtSrc<T> { spec fn ext_seq(&self) -> Seq<T>; }
impl<T> VExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vextend<I: ExtSrc<T>>(&mut self, i: I) ensures final(self)@ == old(self)@ + i.ext_seq() { unimplemented!() }
}
impl<T, const N: usize> ExtSrc<T> for [T; N] { open spec fn ext_seq(&self) -> Seq<T> { self@ } }
impl ExtSrc<usize> for std::ops::RangeInclusive<usize> { uninterp spec fn ext_seq(&self) -> Seq<usize>; }
pub assume_specification<Idx: std::clone::Clone> [<Range<Idx> as std::clone::Clone>::clone](r: &Range<Idx>) -> (c: Range<Idx>)
    ensures cloned::<Idx>(r.start, c.start), cloned::<Idx>(r.end, c.end);
}
