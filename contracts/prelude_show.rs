// Model of core::fmt as far as Debug impls of collections use it: a formatter carries the log of what was written.
pub mod showing {
use super::*;
pub struct Error;
pub type FmtResult = core::result::Result<(), Error>;
// what a value writes when formatted for debugging; opaque
pub struct Shown { pub id: int }
pub uninterp spec fn map_shown(s: Seq<(Shown, Shown)>) -> Shown;
pub uninterp spec fn list_shown(s: Seq<Shown>) -> Shown;
pub uninterp spec fn set_shown(s: Seq<Shown>) -> Shown;
pub uninterp spec fn pair_shown(a: Shown, b: Shown) -> Shown;
pub uninterp spec fn unit_shown() -> Shown;
#[verifier::external_body]
pub struct Formatter<'a> { f: std::marker::PhantomData<&'a mut u8> }
impl<'a> Formatter<'a> {
    pub uninterp spec fn log(&self) -> Seq<Shown>;
    // the underlying writer reported an error
    pub uninterp spec fn failed(&self) -> bool;
}
// from a, s was written, giving b; or the writer failed
pub open spec fn wrote(a: Formatter, b: Formatter, s: Shown, r: FmtResult) -> bool {
    match r {
        Ok(_) => b.log() == a.log().push(s) && b.failed() == a.failed(),
        Err(_) => b.failed(),
    }
}
pub trait Debug {
    spec fn shown(&self) -> Shown;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult)
        ensures wrote(*old(f), *final(f), self.shown(), r);
}
impl<T: Debug> Debug for &T {
    open spec fn shown(&self) -> Shown { (**self).shown() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() }
}
impl<A: Debug, B: Debug> Debug for (A, B) {
    open spec fn shown(&self) -> Shown { pair_shown(self.0.shown(), self.1.shown()) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() }
}
impl Debug for () {
    open spec fn shown(&self) -> Shown { unit_shown() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() }
}
pub open spec fn shown_each<T: Debug>(s: Seq<T>) -> Seq<Shown> { Seq::new(s.len(), |i: int| s[i].shown()) }
pub open spec fn shown_pairs<A: Debug, B: Debug>(s: Seq<(A, B)>) -> Seq<(Shown, Shown)> { Seq::new(s.len(), |i: int| (s[i].0.shown(), s[i].1.shown())) }
// f, the formatter s was once, and what was shown so far
#[verifier::external_body]
pub struct DebugMap<'b> { f: std::marker::PhantomData<&'b mut u8> }
#[verifier::external_body]
pub struct DebugList<'b> { f: std::marker::PhantomData<&'b mut u8> }
#[verifier::external_body]
pub struct DebugSet<'b> { f: std::marker::PhantomData<&'b mut u8> }
impl<'a> Formatter<'a> {
    #[verifier::external_body]
    pub fn debug_map<'b>(&'b mut self) -> (r: DebugMap<'b>)
        ensures r.made(*old(self), *final(self), Seq::empty())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_list<'b>(&'b mut self) -> (r: DebugList<'b>)
        ensures r.made(*old(self), *final(self), Seq::empty())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_set<'b>(&'b mut self) -> (r: DebugSet<'b>)
        ensures r.made(*old(self), *final(self), Seq::empty())
    { unimplemented!() }
}
impl<'b> DebugMap<'b> {
    // the builder was made from a formatter that was x and will be y, and holds s
    pub uninterp spec fn made(&self, x: Formatter, y: Formatter, s: Seq<(Shown, Shown)>) -> bool;
    #[verifier::external_body]
    pub fn entries<A: Debug, B: Debug, I: Iterator<Item = (A, B)>>(self, it: I) -> (r: Self)
        requires it.inv()
        ensures forall|x: Formatter, y: Formatter, s: Seq<(Shown, Shown)>| #[trigger] self.made(x, y, s) ==> r.made(x, y, s + shown_pairs(it.rem()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: FmtResult)
        ensures forall|x: Formatter, y: Formatter, s: Seq<(Shown, Shown)>| #[trigger] self.made(x, y, s) ==> wrote(x, y, map_shown(s), r)
    { unimplemented!() }
}
impl<'b> DebugList<'b> {
    pub uninterp spec fn made(&self, x: Formatter, y: Formatter, s: Seq<Shown>) -> bool;
    #[verifier::external_body]
    pub fn entries<A: Debug, I: Iterator<Item = A>>(self, it: I) -> (r: Self)
        requires it.inv()
        ensures forall|x: Formatter, y: Formatter, s: Seq<Shown>| #[trigger] self.made(x, y, s) ==> r.made(x, y, s + shown_each(it.rem()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: FmtResult)
        ensures forall|x: Formatter, y: Formatter, s: Seq<Shown>| #[trigger] self.made(x, y, s) ==> wrote(x, y, list_shown(s), r)
    { unimplemented!() }
}
impl<'b> DebugSet<'b> {
    pub uninterp spec fn made(&self, x: Formatter, y: Formatter, s: Seq<Shown>) -> bool;
    #[verifier::external_body]
    pub fn entries<A: Debug, I: Iterator<Item = A>>(self, it: I) -> (r: Self)
        requires it.inv()
        ensures forall|x: Formatter, y: Formatter, s: Seq<Shown>| #[trigger] self.made(x, y, s) ==> r.made(x, y, s + shown_each(it.rem()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: FmtResult)
        ensures forall|x: Formatter, y: Formatter, s: Seq<Shown>| #[trigger] self.made(x, y, s) ==> wrote(x, y, set_shown(s), r)
    { unimplemented!() }
}
// the entries of a map, or of the map inside a set, were written, in order
pub open spec fn wrote_map<K: Debug, V: Debug>(a: Formatter, b: Formatter, s: Seq<(K, V)>, r: FmtResult) -> bool { wrote(a, b, map_shown(shown_pairs(s)), r) }
// the values were written, in order: as a list, as a set or as a map to ()
pub open spec fn wrote_set<T: Debug>(a: Formatter, b: Formatter, s: Seq<(T, ())>, r: FmtResult) -> bool {
    ||| wrote(a, b, map_shown(shown_pairs(s)), r)
    ||| wrote(a, b, list_shown(Seq::new(s.len(), |i: int| s[i].0.shown())), r)
    ||| wrote(a, b, set_shown(Seq::new(s.len(), |i: int| s[i].0.shown())), r)
}
// what an iterator has still to yield was written, in order
pub open spec fn wrote_rest<A: Debug>(a: Formatter, b: Formatter, s: Seq<A>, r: FmtResult) -> bool {
    wrote(a, b, list_shown(shown_each(s)), r) || wrote(a, b, set_shown(shown_each(s)), r)
}
// std slice iterators, mapped
pub trait ShowAdapt<'a, T: 'a>: Sized {
    #[verifier::prophetic]
    spec fn src(&self) -> Seq<&'a T>;
    fn vi_smap<B, F: Fn(&'a T) -> B>(self, f: F) -> (r: Owned<B>)
        requires forall|x: &'a T| f.requires((x,))
        ensures r.inv(), images(f, self.src(), r.rem());
}
impl<'a, T: 'a> ShowAdapt<'a, T> for std::slice::Iter<'a, T> {
    #[verifier::prophetic]
    open spec fn src(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vi_smap<B, F: Fn(&'a T) -> B>(self, f: F) -> (r: Owned<B>) { unimplemented!() }
}
// ---- Clone of what std provides (the model of Clone is that a clone is the value)
impl<T: Clone> Clone for Box<[T]> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
impl<T: Clone> Clone for Range<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
impl Clone for () {
    fn clone(&self) -> (r: Self) { () }
}
impl<A: Clone, B: Clone> Clone for (A, B) {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
}
pub use showing::*;
