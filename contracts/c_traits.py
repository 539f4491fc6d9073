"""The Len and SliceHash traits, and their implementations for std types."""
from vx import contract
LEN = 'traits/len.rs'
SH = 'traits/slice_hash.rs'
contract(LEN, 'Len::len', ret='r', spec='    ensures self.lens(r),\n')
contract(LEN, 'Len::is_empty', ret='r', spec='    ensures exists|n: usize| #[trigger] self.lens(n) && r == (n == 0),\n')
LEN_TRAIT = ('trait', LEN, 'Len', '    // n is a length x may report\n    spec fn lens(&self, n: usize) -> bool;\n')

STD = ('text', '''
pub use std::rc::Rc;
pub use std::sync::Arc;
pub use std::collections::{HashMap, HashSet, BTreeMap, BTreeSet, VecDeque};
pub use vstd::utf8::encode_utf8;
pub mod strs {
use super::*;
// a str fits in memory
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] vstd::string::StringSliceAdditionalSpecFns::spec_bytes(s).len() <= usize::MAX;
pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
    ensures r == encode_utf8(s@).len();
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);
// types vstd says nothing of, as far as they are used
pub struct LinkedList<T> { pub elems: Ghost<Seq<T>> }
impl<T> LinkedList<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.elems@.len() { unimplemented!() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.elems@.len() == 0) { self.len() == 0 }
}
pub struct BinaryHeap<T> { pub elems: Ghost<Seq<T>> }
impl<T> BinaryHeap<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.elems@.len() { unimplemented!() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.elems@.len() == 0) { self.len() == 0 }
}
// bytes: without the final NUL
pub struct CStr { pub bytes: Ghost<Seq<u8>> }
impl CStr {
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes_with_nul(&self) -> (r: &[u8]) ensures r@ == self.bytes@.push(0) { unimplemented!() }
    #[verifier::external_body]
    pub fn count_bytes(&self) -> (r: usize) ensures r == self.bytes@.len() { unimplemented!() }
}
pub struct CString { pub bytes: Ghost<Seq<u8>> }
impl CString {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes_with_nul(&self) -> (r: &[u8]) ensures r@ == self.bytes@.push(0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_c_str(&self) -> (r: &CStr) ensures r.bytes@ == self.bytes@ { unimplemented!() }
}
pub struct OsStr { pub bytes: Ghost<Seq<u8>> }
impl OsStr {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes@.len() { unimplemented!() }
}
pub struct OsString { pub bytes: Ghost<Seq<u8>> }
impl OsString {
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) ensures r.bytes@ == self.bytes@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes@.len() { unimplemented!() }
}
}
pub use strs::*;
broadcast use {strs::axiom_str_len, vstd::string::group_string_axioms};
''')
TYPES = {'HashSet': 'self.len()', 'HashMap': 'self.len()', 'BTreeMap': 'self.len()', 'BTreeSet': 'self.len()',
         'String': 'encode_utf8(self@).len()', 'str': 'encode_utf8(self@).len()', 'CStr': 'self.bytes@.len()', 'CString': 'self.bytes@.len()',
         'OsStr': 'self.bytes@.len()', 'OsString': 'self.bytes@.len()', '[T]': 'self@.len()', 'Vec': 'self@.len()', 'VecDeque': 'self@.len()',
         'BinaryHeap': 'self.elems@.len()', 'LinkedList': 'self.elems@.len()', 'Box': None, 'Rc': None, 'Arc': None}
def len_impl(t):
    body = f'n == {TYPES[t]}' if TYPES[t] else '(**self).lens(n)'
    return ('trait_impl', LEN, t, 'Len', f'    open spec fn lens(&self, n: usize) -> bool {{ {body} }}\n')
LEN_IMPLS = ('group', [len_impl(t) for t in TYPES])

# ---- hashing part of a string: the hasher is fed exactly the bytes in the range
HASHER = ('text', '''
pub mod feeding {
use super::*;
pub trait Hasher: Sized {
    // what it was fed so far
    spec fn log(&self) -> Seq<Seq<u8>>;
    // having been fed log it may answer h
    spec fn answers(&self, log: Seq<Seq<u8>>, h: u64) -> bool;
    fn write(&mut self, b: &[u8])
        ensures final(self).log() == old(self).log().push(b@),
            forall|l: Seq<Seq<u8>>, h: u64| final(self).answers(l, h) == old(self).answers(l, h);
    fn finish(&self) -> (h: u64)
        ensures self.answers(self.log(), h);
}
pub trait BuildHasher: Sized {
    type Hasher: Hasher;
    spec fn codes(&self, log: Seq<Seq<u8>>, h: u64) -> bool;
    fn build_hasher(&self) -> (r: Self::Hasher)
        ensures r.log() == Seq::<Seq<u8>>::empty(), forall|l: Seq<Seq<u8>>, h: u64| r.answers(l, h) == self.codes(l, h);
}
// &s[r]: panics where r is not within s
#[verifier::external_body]
pub fn vslice<T>(s: &[T], r: Range<usize>) -> (b: &[T])
    ensures r.start <= r.end <= s@.len(), b@ == s@.subrange(r.start as int, r.end as int)
{ unimplemented!() }
pub assume_specification<T, I: SliceIndex<[T]>> [<[T]>::get_unchecked](s: &[T], i: I) -> (r: &<I as SliceIndex<[T]>>::Output)
    requires i.in_bounds(s),
    ensures i.index_postcondition(s, r);
// h is the code of these bytes
pub open spec fn code_of<BH: BuildHasher>(bh: &BH, bytes: Seq<u8>, h: u64) -> bool { bh.codes(seq![bytes], h) }
}
pub use feeding::*;
''')
contract(SH, 'SliceHash::hash', ret='h', spec='''    ensures range.start <= range.end <= self.bytes().len(),
        code_of(bh, self.bytes().subrange(range.start as int, range.end as int), h),
''')
for t in ('String', '[u8]'): contract(SH, f'{t}::hash@SliceHash', slicing=True, at={'tail': 'assert(h.log() =~= seq![b@]);'})
SH_PARTS = ('group', [HASHER, ('trait', SH, 'SliceHash', '    spec fn bytes(&self) -> Seq<u8>;\n'),
    ('trait_impl', SH, 'String', 'SliceHash', '    open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self@) }\n'),
    ('trait_impl', SH, '[u8]', 'SliceHash', '    open spec fn bytes(&self) -> Seq<u8> { self@ }\n')])
