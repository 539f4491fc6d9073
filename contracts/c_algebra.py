"""Union, intersection, difference and symmetric difference; set relations and operators."""
from vx import contract
import vx
import c_iters as ci, c_traits as tr, c_sets as cs
SI, SETRS, OPS = 'specialized_sets/iterators.rs', 'specialized_sets/set.rs', 'specialized_sets/set_ops.rs'
LAW = '''proof {
    assert forall|n: usize| #[trigger] %s.lens(n) implies n == %s.elems().len() by { %s.len_law(n); }
}'''
def laws(*xs): return '\n'.join(LAW % (x, x, x) for x in xs)
A, B = 's1.elems()', 's2.elems()'
# what each has still to yield, in terms of what its two iterators have still to yield
REM = {
    'Union': 'if self.s1.elems().len() > self.s2.elems().len() { self.s1_iter.rem() + sel(self.s2_iter.rem(), self.s1.elems(), false) } else { self.s2_iter.rem() + sel(self.s1_iter.rem(), self.s2.elems(), false) }',
    'SymmetricDifference': 'sel(self.s1_iter.rem(), self.s2.elems(), false) + sel(self.s2_iter.rem(), self.s1.elems(), false)',
    'Difference': 'sel(self.s1_iter.rem(), self.s2.elems(), false)',
    'Intersection': 'if self.s1.elems().len() < self.s2.elems().len() { sel(self.s1_iter.rem(), self.s2.elems(), true) } else { sel(self.s2_iter.rem(), self.s1.elems(), true) }',
}
IS = {
    'Union': ('|x: bool, y: bool| x || y', 'if a.len() > b.len() { union_is(__r.s1_iter.rem(), __r.s2_iter.rem(), a, b); } else { union_is(__r.s2_iter.rem(), __r.s1_iter.rem(), b, a); }'),
    'SymmetricDifference': ('|x: bool, y: bool| x != y', 'sym_is(__r.s1_iter.rem(), __r.s2_iter.rem(), a, b);'),
    'Difference': ('|x: bool, y: bool| x && !y', 'sel_is(__r.s1_iter.rem(), a, b, false);'),
    'Intersection': ('|x: bool, y: bool| x && y', 'sel_is(__r.s1_iter.rem(), a, b, true); sel_is(__r.s2_iter.rem(), b, a, true);'),
}
def sides(n): return ('1',) if n == 'Difference' else ('1', '2')
def inv(n, x='self'):
    return ' && '.join([f'{x}.s1.ok()', f'{x}.s2.ok()'] + [f'{x}.s{k}_iter.inv() && {x}.s{k}_iter.rem().len() <= {x}.s{k}.elems().len()' for k in sides(n)])
SAME = 'self.s1 == old(self).s1, self.s2 == old(self).s2, ' 
def same(n): return SAME
def loop(n, k, other, keep, before=''):
    return f'''invariant {same(n)}{inv(n).replace(' && ', ', ')},
    sel(self.s{k}_iter.rem(), self.s{other}.elems(), {keep}) == sel(old(self).s{k}_iter.rem(), old(self).s{other}.elems(), {keep}),
    {before}
decreases self.s{k}_iter.rem().len()'''
for n in REM:
    p, proof = IS[n]
    spec = f'''    requires s1.ok(), s2.ok()
    ensures r.inv(), r.s1 == s1, r.s2 == s2, eq_laws::<T>() ==> exactly(r.rem(), s1.elems(), s2.elems(), {p}),
'''
    contract(SI, f'{n}::new', ret='r', spec=spec, tail_bind=f'''proof {{
    let a = s1.elems(); let b = s2.elems();
    if eq_laws::<T>() {{ {proof}
        assert(exactly(__r.rem(), a, b, {p}));
    }}
}}''')
    contract(SI, f'{n}::size_hint@Iterator', ret='r', at={'start': laws('self.s1', 'self.s2')})
    contract(SI, f'{n}::clone@Clone')
keep1 = 'self.s2_iter == old(self).s2_iter,'
done1 = 'self.s1_iter.rem().len() == 0,'
NEXT = {
    'Union': ({0: loop('Union', 2, 1, 'false', 'self.s1_iter.rem() == old(self).s1_iter.rem(), self.s1_iter.rem().len() == 0, self.s1.elems().len() > self.s2.elems().len(),'),
               1: loop('Union', 1, 2, 'false', 'self.s2_iter.rem() == old(self).s2_iter.rem(), self.s2_iter.rem().len() == 0, self.s1.elems().len() <= self.s2.elems().len(),')}),
    'SymmetricDifference': ({0: loop('', 1, 2, 'false', keep1).replace('decreases', 'ensures self.s1_iter.rem().len() == 0, sel(old(self).s1_iter.rem(), old(self).s2.elems(), false).len() == 0\ndecreases'), 1: loop('', 2, 1, 'false', 'self.s1_iter.rem().len() == 0, sel(old(self).s1_iter.rem(), old(self).s2.elems(), false).len() == 0,')}),
    'Difference': ({0: loop('Difference', 1, 2, 'false')}),
    'Intersection': ({0: loop('', 1, 2, 'true', keep1 + 'self.s1.elems().len() < self.s2.elems().len(),'), 1: loop('', 2, 1, 'true', 'self.s1_iter == old(self).s1_iter, self.s1.elems().len() >= self.s2.elems().len(),')}),
}
for n, lp in NEXT.items():
    contract(SI, f'{n}::next@Iterator', loops=lp, at={'start': laws('self.s1', 'self.s2')})
def alg_iter(n):
    return ('group', [MINMAX, ('struct', SI, n), ('fn', SI, f'{n}::new'), ('trait_impl', SI, n, 'Clone', ''),
        ('trait_impl', SI, n, 'Iterator', ci.trait_extra(inv(n), REM[n], "&'a T")), ('trait_impl', SI, n, 'FusedIterator', '')])
MINMAX = ('text', '''// std::cmp::max and min, at the only type they are used with
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
''')
# ---- relations
def closure(s, neg): return f'|v: &T| -> (b: bool) requires {s}.ok() ensures b == {neg}holds({s}.elems(), *v)'
EACH = 'if eq_laws::<T>() { %s(s1.elems(), s2.elems()); %s(s2.elems(), s1.elems()); }'
for f, cl, ens in (('is_disjoint', {0: closure('s2', '!'), 1: closure('s1', '!')}, 'r == disjoint(s1.elems(), s2.elems())'),
                   ('is_subset', {0: closure('s2', '')}, 'distinct(s1.elems()) ==> r == subset(s1.elems(), s2.elems())'),
                   ('is_superset', {0: closure('s1', '')}, 'distinct(s2.elems()) ==> r == subset(s2.elems(), s1.elems())')):
    w = 'disjoint_each' if f == 'is_disjoint' else 'subset_each'
    contract(OPS, f, ret='r', spec=f'    requires s1.ok(), s2.ok()\n    ensures eq_laws::<T>() ==> ({ens}),\n', closures=cl,
             at={'start': laws('s1', 's2') + 'proof { ' + EACH % (w, w) + ' }'})
# ---- the default methods of the trait
for m, n in (('union', 'Union'), ('symmetric_difference', 'SymmetricDifference'), ('difference', 'Difference'), ('intersection', 'Intersection')):
    contract(SETRS, f'Set::{m}', ret='r', spec=f'    requires self.ok(), other.ok()\n    ensures r.inv(), r.s1 == self, r.s2 == other, eq_laws::<T>() ==> exactly(r.rem(), self.elems(), other.elems(), {IS[n][0]}),\n')
for m, ens in (('is_disjoint', 'r == disjoint(self.elems(), other.elems())'), ('is_subset', 'distinct(self.elems()) ==> r == subset(self.elems(), other.elems())'),
               ('is_superset', 'distinct(other.elems()) ==> r == subset(other.elems(), self.elems())')):
    contract(SETRS, f'Set::{m}', ret='r', spec=f'    requires self.ok(), other.ok()\n    ensures eq_laws::<T>() ==> ({ens}),\n')
def alg_assumed(n):
    return ('group', [('struct', SI, n), ('assume', SI, f'{n}::new'), ('trait_assume', SI, n, 'Iterator', ci.trait_extra(inv(n), REM[n], "&'a T"))])

# ---- operators
FS = 'facades/frozen_set.rs'
OPERATORS = (('BitOr', 'bitor', 'union', 'Union'), ('BitAnd', 'bitand', 'intersection', 'Intersection'), ('BitXor', 'bitxor', 'symmetric_difference', 'SymmetricDifference'), ('Sub', 'sub', 'difference', 'Difference'))
OPSETS = [(s.path, s.name) for s in cs.SETS.values()] + [(FS, 'FrozenSet')]
for path, name in OPSETS:
    for tr_, fn, m, n in OPERATORS:
        contract(path, f'&{name}::{fn}@{tr_}', ret='r', spec=f'''    requires self.ok(), rhs.ok()
    ensures eq_laws::<T>() ==> result(r.elems(), self.elems(), rhs.elems(), {IS[n][0]}),
''', redirect={'cloned': 'vi_cloned', 'copied': 'vi_copied'})
def operators(path, name):
    return ('group', [('ext_fn', path, f'&{name}::{fn}@{tr_}', 'Set<T>', f'{tr_}Of{name}') for tr_, fn, m, n in OPERATORS])

# ---- the std sets
STD = ('text', '''
impl<T: Eq, BH> HashSet<T, BH> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: StdIter<'_, T>) ensures r.inv(), refs_of(r.rem(), self.elems()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, v: &T) -> (r: bool) ensures r == holds(self.elems(), *v) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { t: std::marker::PhantomData<T> }
impl<T: Eq> BTreeSet<T> {
    pub uninterp spec fn elems(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: StdIter<'_, T>) ensures r.inv(), refs_of(r.rem(), self.elems()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, v: &T) -> (r: bool) ensures r == holds(self.elems(), *v) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct StdIter<'a, T> { t: std::marker::PhantomData<&'a T> }
impl<'a, T> Iterator for StdIter<'a, T> {
    type Item = &'a T;
    uninterp spec fn inv(&self) -> bool;
    uninterp spec fn rem(&self) -> Seq<&'a T>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>) { unimplemented!() }
}
''')
for n in ('HashSet', 'BTreeSet'):
    contract(SETRS, f'{n}::iter@Set', ret='r', spec='    ensures r.inv(), refs_of(r.rem(), self.elems()),\n', as_name='set_iter', impl_bound='T: Eq', subst=[], sig_subst=[(f"std::collections::btree_set::Iter", 'StdIter', True), ('Iter<', 'StdIter<', True)])
    contract(SETRS, f'{n}::contains@Set', ret='r', spec='    ensures r == holds(self.elems(), *value),\n', as_name='set_contains', impl_bound='T: Eq')
STDFNS = ('group', [('fn', SETRS, f'{n}::{f}@Set') for n in ('HashSet', 'BTreeSet') for f in ('iter', 'contains')])
