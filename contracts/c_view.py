"""What the maps offer besides lookups: iteration, length, indexing, equality, the other constructors."""
from vx import contract
import c_hash_table as ht, c_hash_code as hc, c_maps as mp, c_small as sm, c_iters as ci, c_traits as tr

class V: pass
VIEW = {}
def view(name, path, bh, pre, rel, new, newreq, newens, structs, keyb, newpanic):
    v = V(); v.__dict__.update(locals()); VIEW[name] = v

for k in mp.KINDS.values():
    sl = 'Slice' in k.name
    view(k.name, k.path, 'bh' in k.fields, '{x}.safe(),', (k.rel + ', ') if k.rel else '', mp.new_fn(k),
         'len_det::<K>(),' if k.name == 'RightSliceMap' else '', 'S', mp.structs(k), mp.KEYB[k.name], '{p}.len() > S::max_v()')
view('ScanningMap', sm.SC, False, '', '', 'ScanningMap::from_vec', '', '', sm.SC_STRUCTS, 'Eq', None)
view('IntegerRangeMap', sm.RG, False, '{x}.wf(), {x}.lawful::<{q}>(),', '', 'IntegerRangeMap::from_vec', '', '', sm.RG_STRUCTS, 'PrimInt', '!contiguous({p})')

EQ_SPEC = '''
// one entry of a map, looked up in another
pub open spec fn found<K: Eq, V: PartialEq>(s: Seq<(K, V)>, k: K, v: V) -> bool {
    exists|j: int| #[trigger] hit::<K, K, V>(s, k, j) && v.eq_spec(&s[j].1)
}
// same length, and every entry of a has a counterpart in b
pub open spec fn map_eq<K: Eq, V: PartialEq>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> found(b, (#[trigger] a[i]).0, a[i].1)
}
'''

def ensures_new(v, seq):
    n = v.name
    if n == 'ScanningMap': return f'r.wf(), r.ent() == {seq},'
    if n == 'IntegerRangeMap': return f'r.wf(), is_perm(r.ent(), {seq}), contiguous({seq}),'
    return f'r.wf(), is_perm(r.ent(), {seq}), {seq}.len() <= S::max_v(),'

IB = {'IntegerRangeMap': 'K: PrimInt'}
for v in VIEW.values():
    p, n = v.path, v.name
    ib = IB.get(n)
    v.fi = n in ('IntegerMap', 'ScanningMap', 'IntegerRangeMap')
    for fn, of in (('iter', 'iter_of'), ('keys', 'keys_of'), ('values', 'values_of')):
        contract(p, f'{n}::{fn}', ret='r', spec=f'    ensures r.inv(), {of}(r.rem(), self.ent()),\n')
    contract(p, f'&{n}::into_iter@IntoIterator', ret='r', spec='    ensures r.inv(), iter_of(r.rem(), self.ent()),\n')
    if v.bh: contract(p, f'{n}::hasher', ret='r', spec='    ensures *r == self.bh,\n')
    q = lambda t, x, qq: t.format(x=x, q=qq)
    contract(p, f'{n}::index@Index', ret='r',
        spec=f'''    requires {q(v.pre, 'self', 'Q')} {v.rel}
    ensures self.lawful::<Q>() ==> exists|i: int| #[trigger] hit(self.ent(), index, i) && *r == self.ent()[i].1,
''', unwrap_panic='self.lawful::<Q>() ==> miss(self.ent(), index)', impl_bound=ib)
    contract(p, f'{n}::index_mut@IndexMut', ret='r',
        spec=f'''    requires {q(v.pre, 'old(self)', 'Q')} {v.rel}
    ensures ans_get_mut(old(self).ent(), old(self).lawful::<Q>(), index, *r, *final(r), final(self).ent()),
        Self::same_but_values(*old(self), *final(self)),
''', unwrap_panic='old(self).lawful::<Q>() ==> miss(old(self).ent(), index)', impl_bound=ib)
    contract(p, f'{n}::eq@PartialEq', ret='r',
        spec=f'''    requires {q(v.pre, 'other', 'K')} {v.rel.replace('::<Q>', '::<K>')} other.lawful::<K>(), eq_law::<V>(), eq_law::<K>(),
    ensures r == map_eq(self.ent(), other.ent()),
''', closures={0: ('kv', '|kv: (&K, &V)| -> (b: bool) ensures b == found(other.ent(), *kv.0, *kv.1)'),
               1: '|v: &V| -> (c: bool) ensures c == value.eq_spec(v)'})
    fv = v.new.split('::')[1]
    for fn, seq, pan in (('from_iter_with_hasher', 'iter.into_seq()', 1), ('with_hasher', 'payload@', 1), ('from_vec', 'payload@', 0), ('from@From', 'payload@', 0), ('from', 'payload@', 0),
                    ('from_iter@FromIterator', 'iter.into_seq()', 0), ('from_iter', 'iter.into_seq()', 0)):
        if (p, f'{n}::{fn}') in __import__('vx').CONTRACTS: continue
        extra = ''
        if fn in ('from_iter_with_hasher', 'with_hasher') and v.bh: extra += ' r.bh == bh,'
        req = v.newreq
        if 'Slice' in n:
            req += ' range.start <= range.end,'
            extra += ' r.range == range,'
        ens = ensures_new(v, seq)
        if n == 'LengthMap' and '@' in fn: ens = ens.replace('S::max_v()', '<u8 as PrimInt>::max_v()')
        if v.fi and fn == 'from_iter@FromIterator':
            contract(p, f'{n}::{fn}', subst=[('Vec::from_iter', 'vec_from_iter', True)], sig_subst=[('T', 'I', True)]); continue
        contract(p, f'{n}::{fn}', ret='r', spec=(f'    requires {req}\n' if req else '') + f'    ensures {ens}{extra}\n',
                 subst=[('Vec::from_iter', 'vec_from_iter', True)], panics=v.newpanic and v.newpanic.format(p=seq))

def len_impl(v):
    return ('trait_impl', v.path, v.name, 'Len', '    open spec fn lens(&self, n: usize) -> bool { n == self.ent().len() }\n')

import vx
def view_fns(v):
    idx = vx.index(v.path)
    want = ['iter', 'keys', 'values'] + (['hasher'] if v.bh else [])
    keys = [f'{v.name}::{f}' for f in want] + [f'&{v.name}::into_iter@IntoIterator', f'{v.name}::index@Index', f'{v.name}::index_mut@IndexMut', f'{v.name}::eq@PartialEq']
    return ('group', [('fn', v.path, k) for k in keys])
CTORS = ('from_vec_with_hasher', 'from_iter_with_hasher', 'with_hasher', 'from_vec', 'from@From', 'from', 'from_iter@FromIterator', 'from_iter')
HAS = {n: [c for c in CTORS] for n in VIEW}
for n, v in VIEW.items():
    bh = v.bh
    sl = 'Slice' in n
    HAS[n] = [c for c in CTORS if f'{n}::{c}' != v.new and (bh or c in ('from@From', 'from_iter@FromIterator')) and (sl == (c in ('from', 'from_iter')) or c not in ('from', 'from_iter', 'from@From', 'from_iter@FromIterator'))]
def from_iter_impl(v, part, total=False):
    acc = f'!({v.newpanic.format(p="s")})' if total and v.newpanic else 'true'
    return (part, v.path, v.name, 'FromIterator', f'    open spec fn made_from(s: Seq<(K, V)>, r: Self) -> bool {{ {ensures_new(v, "s").strip().rstrip(",").replace(",  ", ", ").replace("), ", ") && ").replace("(), ", "() && ").replace("ent() && s)", "ent(), s)")} }}\n    open spec fn accepts(s: Seq<(K, V)>) -> bool {{ {acc} }}\n')
def view_ctors(v):
    return ('group', [('assume', v.path, v.new)] + [from_iter_impl(v, 'trait_impl') if v.fi and c == 'from_iter@FromIterator' else ('fn', v.path, f'{v.name}::{c}') for c in HAS[v.name]])
def view_lookups(v):
    return ('group', [('assume', v.path, f'{v.name}::{f}') for f in ('get', 'get_mut')])
TABLE = ('group', [ht.STRUCTS, ht.ASSUMED])
def unit_parts(v):
    hashed = v.name in mp.KINDS
    return [tr.LEN_TRAIT] + ([ht.STRUCTS, ht.ASSUMED] if hashed else []) + [v.structs, ci.map_iters(), ('text', EQ_SPEC), view_lookups(v), len_impl(v), view_fns(v), view_ctors(v)]
