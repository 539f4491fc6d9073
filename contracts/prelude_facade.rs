// Vocabulary of the facades: types with the same name are one type.
pub mod casting {
use super::*;
// A and B are the same type
pub open spec fn same_type<A, B>() -> bool { type_id::<A>() == type_id::<B>() }
pub uninterp spec fn type_id<A>() -> int;
// what a, an A, is as a B; only said of types that are the same
pub uninterp spec fn cast<A, B>(a: A) -> B;
pub axiom fn axiom_cast_back<A, B>(a: A)
    requires same_type::<A, B>()
    ensures cast::<B, A>(cast::<A, B>(a)) == a;
pub axiom fn axiom_cast_eq<A: Eq, B: Eq>(a: A, b: A)
    requires same_type::<A, B>()
    ensures a.eq_spec(&b) == cast::<A, B>(a).eq_spec(&cast::<A, B>(b)), A::obeys_eq_spec() == B::obeys_eq_spec();
// std::any::type_name: the assumption is that distinct types have distinct names
pub struct TypeName { pub id: Ghost<int> }
#[verifier::external_body]
pub fn type_name<A>() -> (r: TypeName)
    ensures r.id@ == type_id::<A>()
{ unimplemented!() }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TypeName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TypeName) -> bool { self.id@ == o.id@ }
}
impl PartialEq for TypeName {
    #[verifier::external_body]
    fn eq(&self, o: &TypeName) -> bool { unimplemented!() }
}
// std::mem::transmute, at the types it is used with: allowed only between types that are the same
pub trait Reint<B>: Sized {
    spec fn allowed() -> bool;
    spec fn rel(self, r: B) -> bool;
}
#[verifier::external_body]
pub unsafe fn transmute<A: Reint<B>, B>(a: A) -> (r: B)
    requires A::allowed()
    ensures a.rel(r)
{ unimplemented!() }
impl<'a, K, L> Reint<&'a L> for &'a K {
    open spec fn allowed() -> bool { same_type::<K, L>() }
    open spec fn rel(self, r: &'a L) -> bool { *r == cast::<K, L>(*self) }
}
// says nothing of which types need dropping
pub assume_specification<T: ?Sized> [core::mem::needs_drop::<T>] () -> (r: bool);
// ---- strings
impl Hash for String {}
impl Hash for u32 {}
impl Hash for u8 {}
impl Hash for usize {}
pub open spec fn utf8(s: String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub broadcast axiom fn axiom_string_eq(a: String, b: String)
    ensures #[trigger] a.eq_spec(&b) == (a@ == b@), <String as PartialEqSpec<String>>::obeys_eq_spec();
impl Len for String {
    open spec fn lens(&self, n: usize) -> bool { n == utf8(*self).len() }
    #[verifier::external_body]
    fn len(&self) -> usize { unimplemented!() }
}
// h may be what bh makes of these bytes (see unit slice_hash)
pub uninterp spec fn feeds<BH: BuildHasher>(bh: &BH, b: Seq<u8>, h: u64) -> bool;
impl SliceHash for String {
    open spec fn shashes<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>, h: u64) -> bool { feeds(bh, utf8(*self).subrange(range.start as int, range.end as int), h) }
    #[verifier::external_body]
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> (h: u64) { unimplemented!() }
}
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@);
// the key type and the hasher keep their promises
pub open spec fn keeps<K: Eq, BH: BuildHasher>(bh: BH) -> bool {
    &&& eq_law::<K>()
    &&& forall|k: &K, q: &K, g: u64, h: u64| #[trigger] bh.hashes(k, g) && #[trigger] bh.hashes(q, h) && q.eq_spec(k) ==> g == h
    &&& forall|b: Seq<u8>, g: u64, h: u64| #[trigger] feeds(&bh, b, g) && #[trigger] feeds(&bh, b, h) ==> g == h
}
// ---- integers
impl Unsigned for u32 {}
impl PrimInt for u32 {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { 0 }
    open spec fn max_v() -> int { u32::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { u32::MAX }
    fn min_value() -> (r: Self) { 0 }
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self as usize) }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl Unsigned for usize {}
impl PrimInt for usize {
    open spec fn v(self) -> int { self as int }
    open spec fn min_v() -> int { 0 }
    open spec fn max_v() -> int { usize::MAX as int }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
    fn max_value() -> (r: Self) { usize::MAX }
    fn min_value() -> (r: Self) { 0 }
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self) }
    #[verifier::external_body]
    fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_add(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn checked_sub(&self, o: &Self) -> (r: Option<Self>) { unimplemented!() }
}
impl AsPrimitive<u64> for u32 {
    open spec fn as_spec(self) -> u64 { self as u64 }
    fn as_(self) -> (r: u64) { self as u64 }
}
// slice iterators handed to the analyses
pub trait SliceAdapt<'a, T: 'a>: Sized {
    #[verifier::prophetic]
    spec fn src(&self) -> Seq<&'a T>;
    fn vi_imap<B, F: Fn(&'a T) -> B>(self, f: F) -> (r: Owned<B>)
        requires forall|x: &'a T| f.requires((x,))
        ensures r.inv(), images(f, self.src(), r.rem());
    fn vi_icopied(self) -> (r: Owned<T>) where T: Copy
        ensures r.inv(), r.rem().len() == self.src().len(), forall|i: int| 0 <= i < r.rem().len() ==> #[trigger] r.rem()[i] == *self.src()[i];
}
impl<'a, T: 'a> SliceAdapt<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::prophetic]
    open spec fn src(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vi_imap<B, F: Fn(&'a T) -> B>(self, f: F) -> (r: Owned<B>) { unimplemented!() }
    #[verifier::external_body]
    fn vi_icopied(self) -> (r: Owned<T>) where T: Copy { unimplemented!() }
}
}
pub use casting::*;
broadcast use {casting::axiom_string_eq};
