"""Debug and Clone of maps, sets and their iterators."""
from vx import contract
import vx
import c_hash_table as ht, c_maps as mp, c_small as sm, c_view as cv, c_iters as ci, c_sets as cs, c_algebra as ca, c_facade as fa, c_traits as tr
HT, MI, SI, FM, FS = ht.HT, ci.MI, ci.SI, fa.FM, fa.FS
SIG = [('std::fmt::Result', 'FmtResult', True), ('fmt::Result', 'FmtResult', True), ('Result', 'FmtResult', True), ('std::fmt::Formatter', 'Formatter', True), ('fmt::Formatter', 'Formatter', True)]
def fmt(path, name, spec, **kw):
    contract(path, f'{name}::fmt@Debug', ret='r', spec=f'    ensures {spec},\n', sig_subst=SIG, **kw)
def wrote(how, what): return f'{how}(*old(f), *final(f), {what}, r)'
SEQS = 'broadcast use {vstd::seq_lib::group_seq_lib_default};'
def pairs(seq):
    return dict(closures={0: '|x: &(K, V)| -> (y: (&K, &V)) ensures *y.0 == x.0, *y.1 == x.1'}, redirect={'map': 'vi_smap'},
        at={'start': f'''proof {{
    let s = {seq};
    assert forall|t: Seq<(&K, &V)>| #![trigger shown_pairs(t)] t.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> *(#[trigger] t[i]).0 == s[i].0 && *t[i].1 == s[i].1) implies Seq::empty() + shown_pairs(t) == shown_pairs(s) by {{
        assert(Seq::empty() + shown_pairs(t) =~= shown_pairs(s));
    }}
}}'''})
# ---- maps
def CLONED(n, a, r):
    if n == 'IntegerRangeMap': return f'{r}.min == {a}.min, {r}.max == {a}.max, {r}.entries@ == {a}.entries@,'
    return f'{r}.ent() == {a}.ent(), {n}::same_but_values({"*" if a == "self" else ""}{a}, {r}),'
fmt(HT, 'HashTable', wrote('wrote_map', 'self.entries@'), **pairs('self.entries@'))
contract(HT, 'HashTable::clone@Clone', ret='r', spec='    ensures r.num_slots == self.num_slots, r.slots == self.slots, r.entries@ == self.entries@,\n')
for n, v in cv.VIEW.items():
    fmt(v.path, n, wrote('wrote_map', 'self.entries@' if n == 'IntegerRangeMap' else 'self.ent()'), **({} if n in mp.KINDS else pairs('self.entries@')))
    contract(v.path, f'{n}::clone@Clone', ret='r', spec='    ensures ' + CLONED(n, 'self', 'r') + '\n')
for n, s in cs.SETS.items():
    v = s.v
    kw = {}
    if n == 'CommonSet':
        kw = dict(at={'start': '''proof {
    let s = self.map.ent();
    assert forall|t: Seq<&T>| #![trigger shown_each(t)] refs_of(t, first(s)) implies Seq::empty() + shown_each(t) == Seq::new(s.len(), |i: int| s[i].0.shown()) by {
        assert(Seq::empty() + shown_each(t) =~= Seq::new(s.len(), |i: int| s[i].0.shown())) by {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] shown_each(t)[i]) == s[i].0.shown() by { assert(*t[i] == first(s)[i]); }
        }
    }
}'''})
    fmt(s.path, n, wrote('wrote_set', 'self.map.entries@' if s.map == 'IntegerRangeMap' else 'self.map.ent()'), **kw)
    contract(s.path, f'{n}::clone@Clone', ret='r', spec='    ensures ' + CLONED(s.map, 'self.map', 'r.map') + '\n')
# ---- iterators
REST = dict(at={'start': 'proof { let s = self.rem(); assert(Seq::empty() + shown_each(s) =~= shown_each(s)); }'})
for p, ns in ((MI, ('Iter', 'Keys', 'Values')), (SI, ('Iter', 'IntoIter') + tuple(ca.REM))):
    for n in ns:
        fmt(p, n, wrote('wrote_rest', 'self.rem()'), **REST)
        vx.CONTRACTS[(p, f'{n}::fmt@Debug')].spec = '    requires self.inv()\n' + vx.CONTRACTS[(p, f'{n}::fmt@Debug')].spec
contract(SI, 'IntoIter::clone@Clone', ret='r', spec='    ensures r.inv() == self.inv(), r.rem() == self.rem(),\n')

SLOT = ('clone_trait', HT, 'struct', 'HashTableSlot')
def map_parts(v, part='fn'):
    cl = 'clone' if part == 'fn' else 'clone_assume'
    return [(part, v.path, f'{v.name}::fmt@Debug'), (cl, v.path, 'struct', v.name)]
TABLE_SHOWN = [ht.STRUCTS, ('assume', HT, 'HashTable::fmt@Debug'), ('clone_assume', HT, 'struct', 'HashTable')]
def structs(v): return [v.structs]
def table(): return [ht.STRUCTS, SLOT, ('fn', HT, 'HashTable::fmt@Debug'), ('clone', HT, 'struct', 'HashTable')]
def a_map(v):
    return (TABLE_SHOWN if v.name in mp.KINDS else []) + [v.structs] + map_parts(v)
def a_set(s):
    v = s.v
    own = [('assume', s.path, f'{s.name}::iter' if f'{s.name}::iter' in vx.index(s.path) else f'{s.name}::iter@Set')]
    return ([ht.STRUCTS] if s.map in mp.KINDS else []) + [v.structs, ('struct', s.path, s.name), cs.set_iters()] + map_parts(v, 'assume') + own + [('fn', s.path, f'{s.name}::fmt@Debug'), ('clone', s.path, 'struct', s.name)]
def iters(): return [ci.map_iters()] + [('fn', MI, f'{n}::fmt@Debug') for n in ('Iter', 'Keys', 'Values')]
def siters(): return [cs.set_iters()] + [('fn', SI, f'{n}::fmt@Debug') for n in ('Iter', 'IntoIter')] + [('clone', SI, 'struct', 'IntoIter')]
def alg(n): return [cs.set_trait(), ca.alg_iter(n), ('fn', SI, f'{n}::fmt@Debug')]

# ---- the facades
FACADE = """
// the implementation of Debug is that of the type
pub axiom fn axiom_cast_shown<A: Debug, B: Debug>(a: A)
    requires same_type::<A, B>()
    ensures cast::<A, B>(a).shown() == a.shown();
pub proof fn recast_shown<K: Debug, L: Debug, V: Debug>(s: Seq<(L, V)>)
    requires same_type::<K, L>()
    ensures shown_pairs(recast::<L, K, V>(s)) == shown_pairs(s)
{
    let t = recast::<L, K, V>(s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] shown_pairs(t)[i] == shown_pairs(s)[i] by { axiom_cast_shown::<L, K>(s[i].0); }
    assert(shown_pairs(t) =~= shown_pairs(s));
}
pub proof fn recast_shown_first<K: Debug, L: Debug>(s: Seq<(L, ())>)
    requires same_type::<K, L>()
    ensures Seq::new(s.len(), |i: int| recast::<L, K, ()>(s)[i].0.shown()) == Seq::new(s.len(), |i: int| s[i].0.shown())
{
    let t = recast::<L, K, ()>(s);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i]).0.shown() == s[i].0.shown() by { axiom_cast_shown::<L, K>(s[i].0); }
    assert(Seq::new(s.len(), |i: int| t[i].0.shown()) =~= Seq::new(s.len(), |i: int| s[i].0.shown()));
}
impl Debug for u32 {
    uninterp spec fn shown(&self) -> Shown;
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() }
}
impl Debug for String {
    uninterp spec fn shown(&self) -> Shown;
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() }
}
impl Clone for u8 {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
impl Clone for usize {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
impl Clone for u16 {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
impl Clone for u32 {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
impl Clone for String {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
"""
IS_TYPE = lambda e, v, m, k: '' if k in ('K', 'T') else f'same_type::<{e}, {k}>()'
def types(e, arms): return 'match self.%s {\n' % ('map_impl' if e == 'K' else 'set_impl') + arms + '\n        }'
def marms(f): return '\n'.join(f'            MapTypes::{v}(m) => {{ {f(v, m, k)} }}' for v, m, k in fa.VARS)
def sarms(f): return '\n'.join(f'            SetTypes::{v}(s) => {{ {f(v, m, k)} }}' for v, m, k in fa.SVARS)
FM_SPEC = """
impl<K, V, BH> MapTypes<K, V, BH> {
    // each representation is used for the key type it is for
    pub open spec fn typed(&self) -> bool {
        match *self {
""" + marms(lambda v, m, k: IS_TYPE('K', v, m, k) or 'true') + """
        }
    }
}
"""
FS_SPEC = """
impl<T, BH> SetTypes<T, BH> {
    pub open spec fn typed(&self) -> bool {
        match *self {
""" + sarms(lambda v, m, k: IS_TYPE('T', v, m, k) or 'true') + """
        }
    }
    pub open spec fn same_set(a: Self, b: Self) -> bool {
        match (a, b) {
""" + '\n'.join(f'            (SetTypes::{v}(x), SetTypes::{v}(y)) => {m[:-3]}Map::same_but_values(x.map, y.map),' for v, m, k in fa.SVARS) + """
            _ => false,
        }
    }
}
"""
fmt(FM, 'FrozenMap', wrote('wrote_map', 'self.ent()'), at={'start': 'proof { match &self.map_impl {\n' + marms(lambda v, m, k: '' if k == 'K' else f'recast_shown::<K, {k}, V>(m.ent());') + '\n} }'})
for p, n, i in ((FM, 'FrozenMap', 'map_impl'),):
    c = vx.CONTRACTS[(p, f'{n}::fmt@Debug')]
    c.spec = f'    requires self.{i}.typed()\n' + c.spec
contract(FM, 'MapTypes::clone@Clone', ret='r', spec='    ensures r.ent() == self.ent(), Self::same_but_values(*self, r),\n')
contract(FM, 'FrozenMap::clone@Clone', ret='r', spec='    ensures r.ent() == self.ent(), MapTypes::same_but_values(self.map_impl, r.map_impl),\n')
contract(FS, 'SetTypes::clone@Clone', ret='r', spec='    ensures r.ent() == self.ent(), Self::same_set(*self, r),\n')
contract(FS, 'FrozenSet::clone@Clone', ret='r', spec='    ensures r.ent() == self.ent(), SetTypes::same_set(self.set_impl, r.set_impl),\n')
def frozen_map():
    g = [('group', map_parts(v, 'assume')) for v in cv.VIEW.values()]
    return fa.maps() + [('enum', FM, 'MapTypes'), ('struct', FM, 'FrozenMap'), ci.map_iters(), ('text', fa.COMMON), ('text', fa.KEEPS_SPEC), ('text', fa.SPEC), ('text', fa.SELF), ('text', FACADE), ('text', FM_SPEC)] + g + [
        ('clone', FM, 'enum', 'MapTypes'), ('clone', FM, 'struct', 'FrozenMap'), ('fn', FM, 'FrozenMap::fmt@Debug')]
def frozen_set():
    g = [('group', [('assume', s.path, f'{s.name}::fmt@Debug'), ('clone_assume', s.path, 'struct', s.name)]) for s in cs.SETS.values()]
    looks = [('trait_assume',) + x[1:] for s in cs.SETS.values() for x in (cv.len_impl(s.v), cs.len_impl(s))]
    fl = ('trait_assume', FS, 'FrozenSet', 'Len', '    open spec fn lens(&self, n: usize) -> bool { n == self.elems().len() }\n')
    return fa.maps() + [fa.sets(), cs.set_iters(), ('enum', FS, 'SetTypes'), ('struct', FS, 'FrozenSet'), ('text', fa.COMMON), ('text', fa.KEEPS_SPEC), ('text', fa.SET_SPEC)] + looks + [fl, ('text', FACADE), ('text', FS_SPEC)] + g + [
        ('clone', FS, 'enum', 'SetTypes'), ('clone', FS, 'struct', 'FrozenSet')]
