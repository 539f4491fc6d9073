pub mod lemmas {
use super::*;
// a is a rearrangement of b, witnessed by mutually inverse index sequences
pub open spec fn perm_by<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& a.len() == b.len() == p.len() == q.len()
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] p[i] < a.len() && q[p[i]] == i && a[i] == b[p[i]]
    &&& forall|j: int| 0 <= j < a.len() ==> 0 <= #[trigger] q[j] < a.len() && p[q[j]] == j && b[j] == a[q[j]]
}
pub open spec fn is_perm<T>(a: Seq<T>, b: Seq<T>) -> bool {
    exists|p: Seq<int>, q: Seq<int>| perm_by(a, b, p, q)
}
pub proof fn perm_refl<T>(a: Seq<T>)
    ensures is_perm(a, a)
{
    let p = Seq::new(a.len(), |i: int| i);
    assert(perm_by(a, a, p, p));
}
pub broadcast proof fn perm_empty<T>(a: Seq<T>, b: Seq<T>)
    requires a.len() == 0, b.len() == 0
    ensures #[trigger] is_perm(a, b)
{
    assert(perm_by(a, b, Seq::<int>::empty(), Seq::<int>::empty()));
}
pub proof fn perm_trans<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires is_perm(a, b), is_perm(b, c)
    ensures is_perm(a, c)
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| perm_by(a, b, p, q);
    let (r, s) = choose|r: Seq<int>, s: Seq<int>| perm_by(b, c, r, s);
    let u = Seq::new(a.len(), |i: int| r[p[i]]);
    let w = Seq::new(a.len(), |i: int| q[s[i]]);
    assert(perm_by(a, c, u, w));
}
pub proof fn perm_sym<T>(a: Seq<T>, b: Seq<T>)
    requires is_perm(a, b)
    ensures is_perm(b, a)
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| perm_by(a, b, p, q);
    assert(perm_by(b, a, q, p));
}
// elementwise images of rearranged sequences are rearranged the same way
pub proof fn perm_map<T, U>(a: Seq<T>, b: Seq<T>, fa: Seq<U>, fb: Seq<U>, f: spec_fn(T) -> U)
    requires is_perm(a, b), fa.len() == a.len(), fb.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] fa[i] == f(a[i]),
        forall|i: int| 0 <= i < b.len() ==> #[trigger] fb[i] == f(b[i]),
    ensures is_perm(fa, fb)
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| perm_by(a, b, p, q);
    assert(perm_by(fa, fb, p, q));
}
pub proof fn perm_reverse<T>(a: Seq<T>, b: Seq<T>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[b.len() - 1 - i]
    ensures is_perm(a, b)
{
    let p = Seq::new(a.len(), |i: int| a.len() - 1 - i);
    assert(perm_by(a, b, p, p));
}
// what a rearrangement means for membership and distinctness
pub proof fn perm_contains<T>(a: Seq<T>, b: Seq<T>)
    requires is_perm(a, b)
    ensures
        a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]),
        forall|j: int| 0 <= j < b.len() ==> a.contains(#[trigger] b[j]),
        a.no_duplicates() == b.no_duplicates(),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| perm_by(a, b, p, q);
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(a[i] == b[p[i]]); }
    assert forall|j: int| 0 <= j < b.len() implies a.contains(#[trigger] b[j]) by { assert(b[j] == a[q[j]]); }
    if a.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by {
            assert(b[i] == a[q[i]] && b[j] == a[q[j]]);
            assert(p[q[i]] == i && p[q[j]] == j);
        }
    }
    if b.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
            assert(a[i] == b[p[i]] && a[j] == b[p[j]]);
            assert(q[p[i]] == i && q[p[j]] == j);
        }
    }
}
}
