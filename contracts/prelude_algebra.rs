// Vocabulary for what iterators over two sets still have to yield.
pub mod algebra {
use super::*;
pub broadcast proof fn add_skip<A>(a: Seq<A>, b: Seq<A>)
    requires a.len() > 0
    ensures #[trigger] (a + b).skip(1) == a.skip(1) + b
{ assert((a + b).skip(1) =~= a.skip(1) + b); }
pub broadcast proof fn add_none<A>(a: Seq<A>, b: Seq<A>)
    requires a.len() == 0
    ensures #[trigger] (a + b) == b
{ assert(a + b =~= b); }
// the items of r that s holds (keep), or does not hold (!keep), in order
pub open spec fn sel<T: Eq>(r: Seq<&T>, s: Seq<T>, keep: bool) -> Seq<&T>
    decreases r.len()
{
    if r.len() == 0 { Seq::empty() }
    else if holds(s, *r[0]) == keep { seq![r[0]] + sel(r.skip(1), s, keep) }
    else { sel(r.skip(1), s, keep) }
}
pub broadcast proof fn sel_len<T: Eq>(r: Seq<&T>, s: Seq<T>, keep: bool)
    ensures (#[trigger] sel(r, s, keep)).len() <= r.len()
    decreases r.len()
{ if r.len() > 0 { sel_len(r.skip(1), s, keep); } }
// ---- what that amounts to
pub open spec fn distinct_refs<T: Eq>(r: Seq<&T>) -> bool { forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && i != j ==> !(*r[i]).eq_spec(r[j]) }
pub open spec fn among<T: Eq>(r: Seq<&T>, v: T) -> bool { exists|i: int| #![trigger r[i]] 0 <= i < r.len() && v.eq_spec(r[i]) }
pub proof fn sel_from<T: Eq>(r: Seq<&T>, s: Seq<T>, keep: bool, i: int) -> (j: int)
    requires 0 <= i < sel(r, s, keep).len()
    ensures 0 <= j < r.len(), sel(r, s, keep)[i] == r[j], holds(s, *r[j]) == keep
    decreases r.len()
{
    let t = r.skip(1);
    if holds(s, *r[0]) == keep {
        if i == 0 { 0 } else { let j = sel_from(t, s, keep, i - 1); assert(sel(r, s, keep)[i] == sel(t, s, keep)[i - 1]); j + 1 }
    } else { let j = sel_from(t, s, keep, i); j + 1 }
}
pub proof fn sel_to<T: Eq>(r: Seq<&T>, s: Seq<T>, keep: bool, j: int) -> (i: int)
    requires 0 <= j < r.len(), holds(s, *r[j]) == keep
    ensures 0 <= i < sel(r, s, keep).len(), sel(r, s, keep)[i] == r[j]
    decreases r.len()
{
    let t = r.skip(1);
    if j == 0 { 0 }
    else {
        let i = sel_to(t, s, keep, j - 1);
        if holds(s, *r[0]) == keep { assert(sel(r, s, keep)[i + 1] == sel(t, s, keep)[i]); i + 1 } else { i }
    }
}
pub proof fn sel_distinct<T: Eq>(r: Seq<&T>, s: Seq<T>, keep: bool)
    requires distinct_refs(r)
    ensures distinct_refs(sel(r, s, keep))
    decreases r.len()
{
    if r.len() > 0 {
        let t = r.skip(1);
        assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && i != j implies !(*t[i]).eq_spec(t[j]) by { assert(t[i] == r[i + 1] && t[j] == r[j + 1]); }
        sel_distinct(t, s, keep);
        if holds(s, *r[0]) == keep {
            let u = sel(t, s, keep);
            let w = sel(r, s, keep);
            assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < w.len() && 0 <= j < w.len() && i != j implies !(*w[i]).eq_spec(w[j]) by {
                if i == 0 { let k = sel_from(t, s, keep, j - 1); assert(w[j] == u[j - 1] && t[k] == r[k + 1] && w[i] == r[0]); }
                else if j == 0 { let k = sel_from(t, s, keep, i - 1); assert(w[i] == u[i - 1] && t[k] == r[k + 1] && w[j] == r[0]); }
                else { assert(w[i] == u[i - 1] && w[j] == u[j - 1]); }
            }
        }
    }
}
// v, if it equals a value of s, equals the same values as that one
pub proof fn holds_eq<T: Eq>(s: Seq<T>, a: T, b: T)
    requires eq_laws::<T>(), a.eq_spec(&b)
    ensures holds(s, a) == holds(s, b)
{
    assert(b.eq_spec(&a));
    if holds(s, a) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && a.eq_spec(&s[i]); assert(b.eq_spec(&s[i])); }
    if holds(s, b) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && b.eq_spec(&s[i]); assert(a.eq_spec(&s[i])); }
}
// r yields exactly the values v with p(v in a, v in b), each once
pub open spec fn exactly<T: Eq>(r: Seq<&T>, a: Seq<T>, b: Seq<T>, p: spec_fn(bool, bool) -> bool) -> bool {
    &&& forall|v: T| #![trigger among(r, v)] #![trigger holds(a, v)] #![trigger holds(b, v)] among(r, v) == p(holds(a, v), holds(b, v))
    &&& distinct(a) && distinct(b) ==> distinct_refs(r)
}
pub proof fn among_sel<T: Eq>(r: Seq<&T>, a: Seq<T>, s: Seq<T>, keep: bool, v: T)
    requires eq_laws::<T>(), refs_of(r, a)
    ensures among(sel(r, s, keep), v) == (holds(a, v) && holds(s, v) == keep)
{
    let w = sel(r, s, keep);
    if among(w, v) {
        let i = choose|i: int| #![trigger w[i]] 0 <= i < w.len() && v.eq_spec(w[i]);
        let j = sel_from(r, s, keep, i);
        assert(*r[j] == a[j]);
        assert(v.eq_spec(&a[j]));
        holds_eq(s, v, a[j]);
    }
    if holds(a, v) && holds(s, v) == keep {
        let j = choose|j: int| #![trigger a[j]] 0 <= j < a.len() && v.eq_spec(&a[j]);
        assert(*r[j] == a[j]);
        holds_eq(s, v, a[j]);
        let i = sel_to(r, s, keep, j);
        assert(v.eq_spec(w[i]));
    }
}
pub proof fn among_all<T: Eq>(r: Seq<&T>, a: Seq<T>, v: T)
    requires refs_of(r, a)
    ensures among(r, v) == holds(a, v)
{
    if among(r, v) { let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && v.eq_spec(r[i]); assert(v.eq_spec(&a[i])); }
    if holds(a, v) { let i = choose|i: int| #![trigger a[i]] 0 <= i < a.len() && v.eq_spec(&a[i]); assert(v.eq_spec(r[i])); }
}
pub proof fn among_add<T: Eq>(r: Seq<&T>, t: Seq<&T>, v: T)
    ensures among(r + t, v) == (among(r, v) || among(t, v))
{
    let w = r + t;
    if among(w, v) {
        let i = choose|i: int| #![trigger w[i]] 0 <= i < w.len() && v.eq_spec(w[i]);
        if i < r.len() { assert(v.eq_spec(r[i])); } else { assert(v.eq_spec(t[i - r.len()])); }
    }
    if among(r, v) { let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && v.eq_spec(r[i]); assert(v.eq_spec(w[i])); }
    if among(t, v) { let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && v.eq_spec(t[i]); assert(v.eq_spec(w[r.len() + i])); }
}
pub proof fn refs_distinct<T: Eq>(r: Seq<&T>, a: Seq<T>)
    requires refs_of(r, a)
    ensures distinct_refs(r) == distinct(a)
{
    if distinct(a) { assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !(*r[i]).eq_spec(r[j]) by { assert(!a[i].eq_spec(&a[j])); } }
    if distinct_refs(r) { assert forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < a.len() && 0 <= j < a.len() && i != j implies !a[i].eq_spec(&a[j]) by { assert(!(*r[i]).eq_spec(r[j])); } }
}
// two parts without duplicates and with nothing in common
pub proof fn distinct_add<T: Eq>(r: Seq<&T>, t: Seq<&T>)
    requires eq_laws::<T>(), distinct_refs(r), distinct_refs(t), forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> !among(r, *t[i])
    ensures distinct_refs(r + t)
{
    let w = r + t;
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < w.len() && 0 <= j < w.len() && i != j implies !(*w[i]).eq_spec(w[j]) by {
        if i < r.len() && j >= r.len() { assert(w[j] == t[j - r.len()]); assert(w[i] == r[i]); if (*w[i]).eq_spec(w[j]) { assert((*w[j]).eq_spec(r[i])); } }
        else if i >= r.len() && j < r.len() { assert(w[i] == t[i - r.len()]); assert(w[j] == r[j]); }
        else if i >= r.len() { assert(w[i] == t[i - r.len()] && w[j] == t[j - r.len()]); }
        else { assert(w[i] == r[i] && w[j] == r[j]); }
    }
}
// all of a, then the values of b that a does not hold
pub proof fn union_is<T: Eq>(ra: Seq<&T>, rb: Seq<&T>, a: Seq<T>, b: Seq<T>)
    requires eq_laws::<T>(), refs_of(ra, a), refs_of(rb, b)
    ensures exactly(ra + sel(rb, a, false), a, b, |x: bool, y: bool| x || y), exactly(ra + sel(rb, a, false), b, a, |x: bool, y: bool| x || y)
{
    let t = sel(rb, a, false);
    assert forall|v: T| #![trigger among(ra + t, v)] #![trigger holds(a, v)] #![trigger holds(b, v)] among(ra + t, v) == (holds(a, v) || holds(b, v)) by {
        among_add(ra, t, v); among_all(ra, a, v); among_sel(rb, b, a, false, v);
    }
    if distinct(a) && distinct(b) {
        refs_distinct(ra, a); refs_distinct(rb, b); sel_distinct(rb, a, false);
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies !among(ra, *t[i]) by { let j = sel_from(rb, a, false, i); among_all(ra, a, *t[i]); }
        distinct_add(ra, t);
    }
}
pub proof fn sel_is<T: Eq>(ra: Seq<&T>, a: Seq<T>, b: Seq<T>, keep: bool)
    requires eq_laws::<T>(), refs_of(ra, a)
    ensures exactly(sel(ra, b, keep), a, b, |x: bool, y: bool| x && y == keep), keep ==> exactly(sel(ra, b, keep), b, a, |x: bool, y: bool| x && y)
{
    let t = sel(ra, b, keep);
    assert forall|v: T| #![trigger among(t, v)] #![trigger holds(a, v)] #![trigger holds(b, v)] among(t, v) == (holds(a, v) && holds(b, v) == keep) by { among_sel(ra, a, b, keep, v); }
    if distinct(a) { refs_distinct(ra, a); sel_distinct(ra, b, keep); }
}
pub proof fn sym_is<T: Eq>(ra: Seq<&T>, rb: Seq<&T>, a: Seq<T>, b: Seq<T>)
    requires eq_laws::<T>(), refs_of(ra, a), refs_of(rb, b)
    ensures exactly(sel(ra, b, false) + sel(rb, a, false), a, b, |x: bool, y: bool| x != y)
{
    let s = sel(ra, b, false);
    let t = sel(rb, a, false);
    assert forall|v: T| #![trigger among(s + t, v)] #![trigger holds(a, v)] #![trigger holds(b, v)] among(s + t, v) == (holds(a, v) != holds(b, v)) by {
        among_add(s, t, v); among_sel(ra, a, b, false, v); among_sel(rb, b, a, false, v);
    }
    if distinct(a) && distinct(b) {
        refs_distinct(ra, a); refs_distinct(rb, b); sel_distinct(rb, a, false); sel_distinct(ra, b, false);
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies !among(s, *t[i]) by {
            let j = sel_from(rb, a, false, i);
            among_sel(ra, a, b, false, *t[i]);
        }
        distinct_add(s, t);
    }
}
// ---- relations
pub proof fn pigeons(f: Seq<int>, m: int)
    requires f.no_duplicates(), m >= 0, forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < m
    ensures f.len() <= m
{
    f.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, m);
    assert(f.to_set().subset_of(vstd::set_lib::set_int_range(0, m)));
    vstd::set_lib::lemma_len_subset(f.to_set(), vstd::set_lib::set_int_range(0, m));
}
// a set is no larger than one that holds all its values
pub proof fn subset_len<T: Eq>(a: Seq<T>, b: Seq<T>)
    requires eq_laws::<T>(), distinct(a), forall|i: int| 0 <= i < a.len() ==> holds(b, #[trigger] a[i])
    ensures a.len() <= b.len()
{
    let f = Seq::new(a.len(), |i: int| choose|j: int| #![trigger b[j]] 0 <= j < b.len() && a[i].eq_spec(&b[j]));
    assert forall|i: int| 0 <= i < f.len() implies 0 <= #[trigger] f[i] < b.len() && a[i].eq_spec(&b[f[i]]) by { assert(holds(b, a[i])); }
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies f[i] != f[j] by {
        if f[i] == f[j] { assert(a[i].eq_spec(&b[f[i]])); assert(a[j].eq_spec(&b[f[j]])); assert(b[f[i]].eq_spec(&a[j])); assert(a[i].eq_spec(&a[j])); }
    }
    pigeons(f, b.len() as int);
}
pub open spec fn subset<T: Eq>(a: Seq<T>, b: Seq<T>) -> bool { forall|v: T| #![trigger holds(a, v)] #![trigger holds(b, v)] holds(a, v) ==> holds(b, v) }
pub open spec fn disjoint<T: Eq>(a: Seq<T>, b: Seq<T>) -> bool { forall|v: T| #![trigger holds(a, v)] #![trigger holds(b, v)] !(holds(a, v) && holds(b, v)) }
pub proof fn holds_own<T: Eq>(a: Seq<T>, i: int)
    requires eq_laws::<T>(), 0 <= i < a.len()
    ensures holds(a, a[i])
{ assert(a[i].eq_spec(&a[i])); }
pub proof fn subset_each<T: Eq>(a: Seq<T>, b: Seq<T>)
    requires eq_laws::<T>()
    ensures subset(a, b) == (forall|i: int| 0 <= i < a.len() ==> holds(b, #[trigger] a[i])), distinct(a) && a.len() > b.len() ==> !subset(a, b)
{
    hide(eq_laws);
    assert forall|i: int| 0 <= i < a.len() implies holds(a, #[trigger] a[i]) by { holds_own(a, i); }
    if forall|i: int| 0 <= i < a.len() ==> holds(b, #[trigger] a[i]) {
        assert forall|v: T| #![trigger holds(a, v)] #![trigger holds(b, v)] holds(a, v) implies holds(b, v) by {
            let i = choose|i: int| #![trigger a[i]] 0 <= i < a.len() && v.eq_spec(&a[i]);
            holds_eq(b, v, a[i]);
        }
        if distinct(a) { subset_len(a, b); }
    } else { let i = choose|i: int| 0 <= i < a.len() && !holds(b, #[trigger] a[i]); assert(holds(a, a[i])); }
}
pub proof fn disjoint_each<T: Eq>(a: Seq<T>, b: Seq<T>)
    requires eq_laws::<T>()
    ensures disjoint(a, b) == (forall|i: int| 0 <= i < a.len() ==> !holds(b, #[trigger] a[i]))
{
    hide(eq_laws);
    assert forall|i: int| 0 <= i < a.len() implies holds(a, #[trigger] a[i]) by { holds_own(a, i); }
    if forall|i: int| 0 <= i < a.len() ==> !holds(b, #[trigger] a[i]) {
        assert forall|v: T| #![trigger holds(a, v)] #![trigger holds(b, v)] !(holds(a, v) && holds(b, v)) by {
            if holds(a, v) {
                let i = choose|i: int| #![trigger a[i]] 0 <= i < a.len() && v.eq_spec(&a[i]);
                holds_eq(b, v, a[i]);
            }
        }
    } else { let i = choose|i: int| 0 <= i < a.len() && holds(b, #[trigger] a[i]); assert(holds(a, a[i])); }
}
}
pub use algebra::*;
broadcast use {algebra::add_skip, algebra::add_none, algebra::sel_len, stdsets::among_values};

pub mod stdsets {
use super::*;
// std::collections::HashSet: elems() are its values, in the order it iterates
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(BH)]
pub struct HashSet<T, BH = RandomState> { t: std::marker::PhantomData<(T, BH)> }
impl<T, BH> HashSet<T, BH> { pub uninterp spec fn elems(&self) -> Seq<T>; }
// what collecting values into a HashSet gives: each value that was collected, once
pub open spec fn collected<T: Eq>(s: Seq<T>, r: Seq<T>) -> bool {
    eq_laws::<T>() ==> {
        &&& distinct(r)
        &&& forall|v: T| #![trigger holds(r, v)] #![trigger holds(s, v)] holds(r, v) == holds(s, v)
    }
}
impl<T: Eq, BH> FromIterator<T> for HashSet<T, BH> {
    open spec fn made_from(s: Seq<T>, r: Self) -> bool { collected(s, r.elems()) }
    open spec fn accepts(s: Seq<T>) -> bool { true }
    #[verifier::external_body]
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> (r: Self) { unimplemented!() }
}
// Iterator::cloned and Iterator::copied
pub trait Copies<'a, T: 'a>: Sized {
    spec fn refs(&self) -> Seq<&'a T>;
    spec fn ready(&self) -> bool;
    fn vi_cloned(self) -> (r: Owned<T>)
        requires self.ready()
        ensures values(r.rem(), self.refs());
    fn vi_copied(self) -> (r: Owned<T>)
        requires self.ready()
        ensures values(r.rem(), self.refs());
}
pub open spec fn values<T>(s: Seq<T>, r: Seq<&T>) -> bool {
    &&& r.len() == s.len()
    &&& forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i] == s[i]
}
impl<'a, T: 'a, I: Iterator<Item = &'a T>> Copies<'a, T> for I {
    open spec fn refs(&self) -> Seq<&'a T> { self.rem() }
    open spec fn ready(&self) -> bool { self.inv() }
    #[verifier::external_body]
    fn vi_cloned(self) -> Owned<T> { unimplemented!() }
    #[verifier::external_body]
    fn vi_copied(self) -> Owned<T> { unimplemented!() }
}
// the set r holds exactly the values v with p(v in a, v in b)
pub open spec fn result<T: Eq>(r: Seq<T>, a: Seq<T>, b: Seq<T>, p: spec_fn(bool, bool) -> bool) -> bool {
    &&& distinct(r)
    &&& forall|v: T| #![trigger holds(r, v)] #![trigger holds(a, v)] #![trigger holds(b, v)] holds(r, v) == p(holds(a, v), holds(b, v))
}
pub broadcast proof fn among_values<T: Eq>(s: Seq<T>, r: Seq<&T>, v: T)
    requires #[trigger] values(s, r)
    ensures #[trigger] holds(s, v) == among(r, v)
{ among_all(r, s, v); }
}
pub use stdsets::*;
