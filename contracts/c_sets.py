"""Sets: membership, iteration, equality, constructors."""
from vx import contract
import vx
import c_hash_table as ht, c_maps as mp, c_small as sm, c_iters as ci, c_traits as tr, c_view as cv
SI = ci.SI
SETRS = 'specialized_sets/set.rs'
# ---- iterators over a set
contract(SI, 'Iter::new', ret='r', spec='    ensures r.inv(), refs_of(r.rem(), first(entries@)), r.entries == entries, r.index == 0,\n',
         tail_bind='proof { assert(refs_of(__r.rem(), first(entries@))); }')
contract(SI, 'Iter::next@Iterator', at={'before:Some(': 'proof { assert(self.rem() =~= old(self).rem().skip(1)); }'})
contract(SI, 'Iter::size_hint@Iterator', ret='r', spec='    ensures r.0 == self.rem().len(), r.1 == Some(r.0),\n')
contract(SI, 'IntoIter::new', ret='r', spec='    ensures r.inv(), r.rem() == first(entries@),\n', subst=[('Vec::from', 'vec_from_box', True)], redirect={'into_iter': 'vi_into_iter'},
         tail_bind='proof { assert(__r.rem() =~= first(entries@)); }')
contract(SI, 'IntoIter::next@Iterator', tail_bind='proof { assert(self.rem() =~= old(self).rem().skip(1)); }', at={'start': 'proof { if old(self).rem().len() == 0 { assert(self.rem() =~= old(self).rem()); } }'})
contract(SI, 'IntoIter::size_hint@Iterator', ret='r', spec='    ensures r.0 == self.rem().len(), r.1 == Some(r.0),\n')
def set_iters():
    a = ci.trait_extra('self.index <= self.entries@.len()', ci.ENT % '&self.entries@[self.index + k].0', "&'a T")
    b = ci.trait_extra('self.iter.inv()', 'Seq::new(self.iter.rem().len(), |k: int| self.iter.rem()[k].0)', 'T')
    return ('group', [('struct', SI, 'Iter'), ('struct', SI, 'IntoIter', [('std::vec::IntoIter', 'Owned')]),
        ('fn', SI, 'Iter::new'), ('trait_impl', SI, 'Iter', 'Clone', ''), ('trait_impl', SI, 'Iter', 'Iterator', a), ('trait_impl', SI, 'Iter', 'ExactSizeIterator', ''), ('trait_impl', SI, 'Iter', 'FusedIterator', ''),
        ('fn', SI, 'IntoIter::new'), ('trait_impl', SI, 'IntoIter', 'Iterator', b), ('trait_impl', SI, 'IntoIter', 'ExactSizeIterator', ''), ('trait_impl', SI, 'IntoIter', 'FusedIterator', '')])

# ---- the trait
contract(SETRS, 'Set::iter', ret='r', spec='    ensures r.inv(), refs_of(r.rem(), self.elems()),\n')
contract(SETRS, 'Set::contains', ret='r', spec='    requires self.ok()\n    ensures r == holds(self.elems(), *value),\n', sig_subst=[])
SET_EXTRA = '''    // the set is well formed, and the implementations for T keep their promises
    spec fn ok(&self) -> bool;
    spec fn elems(&self) -> Seq<T>;
    // every length the set may report is that of elems()
    proof fn len_law(&self, n: usize) requires self.lens(n) ensures n == self.elems().len();
'''
DEFAULTS = ('union', 'symmetric_difference', 'difference', 'intersection', 'is_disjoint', 'is_subset', 'is_superset')
def set_trait(skip=DEFAULTS): return ('trait', SETRS, 'Set', SET_EXTRA, skip)

# ---- the sets
SETS = {}
class S: pass
for n, v in cv.VIEW.items():
    s = S()
    s.name, s.map, s.path, s.v = n[:-3] + 'Set', n, v.path.replace('maps', 'sets').replace('_map', '_set'), v
    SETS[s.name] = s
MAPGEN = {'CommonMap': ('T, S, BH', 'T, S: PrimInt, BH: BuildHasher', 'Hash'), 'IntegerMap': ('T, S', 'T, S: PrimInt', 'PrimInt'), 'LengthMap': ('T, S', 'T, S: PrimInt', ''),
          'LeftSliceMap': ('T, S, BH', 'T, S: PrimInt, BH: BuildHasher', ''), 'RightSliceMap': ('T, S, BH', 'T, S: PrimInt, BH: BuildHasher', ''),
          'ScanningMap': ('T', 'T', ''), 'IntegerRangeMap': ('T', 'T', '')}
def getter(s):
    """The lookup contract, on the set."""
    return ''
def set_ok(s):
    v = s.v
    pre = v.pre.format(x='self.map', q='T').replace('self.map.lawful::<T>(),', '').strip().rstrip(',')
    return ' && '.join(x for x in (pre, 'self.map.lawful::<T>()', v.rel.replace('<Q>', '<T>').strip().rstrip(',')) if x)
def has_closure(p, key):
    f = vx.index(p).get(key)
    return f is not None and any(t.t == '|' for t in f[0][1].body_toks)
for n, s in SETS.items():
    v, p = s.v, s.path
    pre = v.pre.format(x='self.map', q='Q')
    ib = 'T: PrimInt' if s.map == 'IntegerRangeMap' else None
    contract(p, f'{n}::get', ret='r', spec=f'''    requires {pre} {v.rel}
    ensures ans_elem::<T, Q>(self.map.ent(), self.map.lawful::<Q>(), *value, r),
''', impl_bound=ib)
    contract(p, f'{n}::contains', ret='r', spec=f'    requires {pre} {v.rel}\n    ensures ans_contains(self.map.ent(), self.map.lawful::<Q>(), *value, r),\n', impl_bound=ib)
    it = '    ensures r.inv(), refs_of(r.rem(), first(self.map.ent())),\n'
    contract(p, f'{n}::iter', ret='r', spec=it)
    contract(p, f'&{n}::into_iter@IntoIterator', ret='r', spec=it, as_name='into_iter_ref')
    contract(p, f'{n}::into_iter@IntoIterator', ret='r', spec='    ensures r.inv(), r.rem() == first(self.map.ent()),\n')
    if v.bh: contract(p, f'{n}::hasher', ret='r', spec='    ensures *r == self.map.bh,\n')
    own = f'{n}::iter' in vx.index(p)
    contract(p, f'{n}::iter@Set', ret='r', spec=it, as_name='set_iter' if own else None)
    contract(p, f'{n}::contains@Set', ret='r', as_name='set_contains', spec=f'    requires {set_ok(s)}\n    ensures r == holds(first(self.map.ent()), *value),\n', at={'start': '''proof {
    let e = self.map.ent();
    if miss::<T, T, ()>(e, *value) { miss_has(e, *value); }
    else {
        let i = choose|i: int| 0 <= i < e.len() && matches::<T, T, ()>(*value, #[trigger] e[i]);
        assert(value.eq_spec(&first(e)[i]));
    }
}'''})
    contract(p, f'{n}::eq@PartialEq', ret='r', spec='    requires other.ok(),\n    ensures r == set_eq(first(self.map.ent()), other.elems()),\n',
        closures={0: ('kv', '|kv: &T| -> (b: bool) ensures b == holds(other.elems(), *kv)')},
        at={'start': '''proof {
    assert forall|n: usize| #[trigger] other.lens(n) implies n == other.elems().len() by { other.len_law(n); }
}'''})
    for fn, seq in (('from_vec_with_hasher', 'payload@'), ('from_iter_with_hasher', 'iter.into_seq()'), ('with_hasher', 'payload@'), ('from_vec', 'payload@'), ('from@From', 'payload@'), ('from', 'payload@'),
                    ('from_iter@FromIterator', 'iter.into_seq()'), ('from_iter', 'iter.into_seq()')):
        cap = 'S::max_v()' if not (s.map == 'LengthMap' and False) else '255'
        if s.map == 'ScanningMap': ens = f'r.map.wf(), first(r.map.ent()) == {seq},'
        elif s.map == 'IntegerRangeMap': ens = f'r.map.wf(), is_perm(first(r.map.ent()), {seq}),'
        else: ens = f'r.map.wf(), is_perm(first(r.map.ent()), {seq}), {seq}.len() <= S::max_v(),'
        req, extra = v.newreq.replace('::<K>', '::<T>'), ''
        if fn in ('from_vec_with_hasher', 'from_iter_with_hasher', 'with_hasher') and v.bh: extra += ' r.map.bh == bh,'
        if 'Slice' in n:
            req += ' range.start <= range.end,'
            extra += ' r.map.range == range,'
        contract(p, f'{n}::{fn}', ret='r', spec=(f'    requires {req}\n' if req else '') + f'    ensures {ens}{extra}\n',
            subst=[('Vec::from_iter', 'vec_from_iter', True)], redirect={'into_iter': 'vi_into_iter', 'map': 'vi_pairs'},
            closures={0: '|x: T| -> (y: (T, ())) ensures y == (x, ())'} if has_closure(p, f'{n}::{fn}') else {},
            panics={'ScanningMap': None, 'IntegerRangeMap': '!contiguous(keyed(payload@))'}.get(s.map, 'payload@.len() > S::max_v()'))

def set_impl(s):
    """Set<T> has a generic associated type, which Verus accepts in a trait but not in an impl: its functions are
    proved as inherent ones, against the contract the trait gives them."""
    w = [it for it in vx.load(s.path) if it.kind == 'impl' and it.trait_ == 'Len'][0].header.replace('Len for ', '')
    return ('group', [('text', w + ' {\n    proof fn len_law(&self, n: usize) requires self.lens(n) ensures n == first(self.map.ent()).len() {}\n}'), ('fn', s.path, f'{s.name}::iter@Set'), ('fn', s.path, f'{s.name}::contains@Set')])
def len_impl(s): return ('trait_impl', s.path, s.name, 'Len', '    open spec fn lens(&self, n: usize) -> bool { n == self.map.ent().len() }\n')
def set_fns(s):
    idx = vx.index(s.path)
    want = ['get', 'contains'] + (['iter'] if f'{s.name}::iter' in idx else []) + (['hasher'] if s.v.bh else [])
    keys = [f'{s.name}::{f}' for f in want] + [f'&{s.name}::into_iter@IntoIterator', f'{s.name}::into_iter@IntoIterator', f'{s.name}::eq@PartialEq']
    return ('group', [('fn', s.path, k) for k in keys])
def set_ctors(s):
    return ('group', [('fn', s.path, f'{s.name}::{c}') for c in CTORS_OF[s.name]])
def map_ctors(s):
    return ('group', [('assume', s.v.path, s.v.new)] + [cv.from_iter_impl(s.v, 'trait_assume') if s.v.fi and c == 'from_iter@FromIterator' else ('assume', s.v.path, f'{s.map}::{c}') for c in cv.HAS[s.map]])
CTORS_OF = {}
for n, s in SETS.items():
    sl = 'Slice' in n
    CTORS_OF[n] = [c for c in cv.CTORS if (c in ('from_vec',)) or (s.v.bh and c in ('from_vec_with_hasher', 'from_iter_with_hasher', 'with_hasher')) or c in (('from', 'from_iter') if sl else ('from@From', 'from_iter@FromIterator'))]
def unit_parts(s):
    hashed = s.map in mp.KINDS
    v = s.v
    return [tr.LEN_TRAIT] + ([ht.STRUCTS, ht.ASSUMED] if hashed else []) + [v.structs, ('struct', s.path, s.name), set_iters(), set_trait(),
        ('assume', v.path, f'{s.map}::get_key_value')] + ([('assume', v.path, f'{s.map}::hasher')] if v.bh else []) + [cv.len_impl(v), len_impl(s), set_fns(s), set_impl(s)]
def ctor_parts(s):
    hashed = s.map in mp.KINDS
    v = s.v
    return [tr.LEN_TRAIT] + ([ht.STRUCTS, ht.ASSUMED] if hashed else []) + [v.structs, ('struct', s.path, s.name), map_ctors(s), set_ctors(s)]
