"""FrozenMap and FrozenSet."""
from vx import contract
import c_hash_table as ht, c_maps as mp, c_small as sm, c_view as cv, c_iters as ci, c_traits as tr, c_analyzers as an, c_sets as cs
FM, FS = 'facades/frozen_map.rs', 'facades/frozen_set.rs'
# variant, map it holds, its key type
VARS = [('Scanning', 'ScanningMap', 'K'), ('CommonSmall', 'CommonMap', 'K'), ('CommonLarge', 'CommonMap', 'K'), ('U32Small', 'IntegerMap', 'u32'), ('U32Large', 'IntegerMap', 'u32'),
        ('U32Range', 'IntegerRangeMap', 'u32'), ('LeftStringSliceSmall', 'LeftSliceMap', 'String'), ('LeftStringSliceLarge', 'LeftSliceMap', 'String'),
        ('RightStringSliceSmall', 'RightSliceMap', 'String'), ('RightStringSliceLarge', 'RightSliceMap', 'String'), ('StringLengthSmall', 'LengthMap', 'String')]
def arms(f, e='MapTypes'): return 'match *self {\n' + '\n'.join(f'            {e}::{v}(m) => {f(v, m, k)},' for v, m, k in VARS) + '\n        }'
def kept(v, m, k): return f'm.promises::<{k}>()' if k == 'K' or 'Slice' in m else 'true'
def lemma_arms(f): return 'match *self {\n' + '\n'.join(f'            MapTypes::{v}(m) => {{ {f(v, m, k)} }}' for v, m, k in VARS) + '\n        }'
def ent(k): return 'm.ent()' if k == 'K' else 'recast::<%s, K, V>(m.ent())' % k
def q(k): return 'q' if k == 'K' else f'cast::<K, {k}>(q)'
def raw(ans, extra):
    def f(v, m, k):
        law = 'true' if m == 'IntegerRangeMap' else f'm.lawful::<{k}>()'
        return f'{ans}::<{k}, {k}, V>(m.ent(), {law}, {q(k)}, {extra})'
    return f
def law(m, k): return 'true' if m == 'IntegerRangeMap' else f'm.lawful::<{k}>()'
def raw_gkv(v, m, k):
    x = lambda r: f'ans_get_key_value::<{k}, {k}, V>(m.ent(), {law(m, k)}, {q(k)}, {r})'
    return x('r') if k == 'K' else f'exists|l: Option<(&{k}, &V)>| #[trigger] {x("l")} && l.rel(r)'
def bridge_mut(v, m, k):
    t = 't' if k == 'K' else f'recast::<{k}, K, V>(t)'
    return f"""(forall|cur: V, fin: V, t: Seq<({k}, V)>| #[trigger] ans_get_mut::<{k}, {k}, V>(m.ent(), {law(m, k)}, {q(k)}, cur, fin, t) ==> ans_get_mut::<K, K, V>(self.ent(), self.promises(), q, cur, fin, {t}))
                && (self.promises() ==> {law(m, k)}) && miss::<{k}, {k}, V>(m.ent(), {q(k)}) == miss::<K, K, V>(self.ent(), q)"""
def bridge_mut_proof(v, m, k):
    if k == 'K': return ''
    a = f'ans_get_mut::<{k}, {k}, V>(m.ent(), {law(m, k)}, {q(k)}, cur, fin, t)'
    return f"""recast_hit::<K, {k}, V>(m.ent(), q);
                assert forall|cur: V, fin: V, t: Seq<({k}, V)>| #[trigger] {a} implies ans_get_mut::<K, K, V>(self.ent(), self.promises(), q, cur, fin, recast::<{k}, K, V>(t)) by {{ recast_get_mut::<K, {k}, V>(m.ent(), {law(m, k)}, q, cur, fin, t); }}"""
def same_prom(m, k):
    if not (k == 'K' or 'Slice' in m) or m == 'ScanningMap': return ''
    return f'if x.promises::<{k}>() {{ assert forall|k: &{k}, q: &{k}, g: u64, h: u64| #[trigger] y.code(k, g) && #[trigger] y.code(q, h) && q.eq_spec(k) implies g == h by {{ assert(x.code(k, g) && x.code(q, h)); }} }}'
same_arms = '\n'.join(f'            (MapTypes::{v}(x), MapTypes::{v}(y)) => {{ {m}::same_wf(x, y); {same_prom(m, k)} }}' for v, m, k in VARS)
COMMON = '''
pub open spec fn recast<L, K, V>(s: Seq<(L, V)>) -> Seq<(K, V)> { Seq::new(s.len(), |i: int| (cast::<L, K>(s[i].0), s[i].1)) }
pub proof fn cast_sym<K, L>(a: K)
    requires same_type::<K, L>()
    ensures same_type::<L, K>(), cast::<L, K>(cast::<K, L>(a)) == a
{ axiom_cast_back::<K, L>(a); }
pub proof fn recast_back<K, L, V>(s: Seq<(K, V)>)
    requires same_type::<K, L>()
    ensures recast::<L, K, V>(recast::<K, L, V>(s)) == s
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] recast::<L, K, V>(recast::<K, L, V>(s))[i] == s[i] by { axiom_cast_back::<K, L>(s[i].0); }
    assert(recast::<L, K, V>(recast::<K, L, V>(s)) =~= s);
}
// a is a permutation of what s is as entries with key type L: so is, seen with key type K, a of s
pub proof fn recast_perm<K, L, V>(a: Seq<(L, V)>, s: Seq<(K, V)>)
    requires same_type::<K, L>(), is_perm(a, recast::<K, L, V>(s))
    ensures is_perm(recast::<L, K, V>(a), s)
{
    recast_back::<K, L, V>(s);
    perm_map(a, recast::<K, L, V>(s), recast::<L, K, V>(a), s, |e: (L, V)| (cast::<L, K>(e.0), e.1));
}
pub proof fn recast_hit<K: Eq, L: Eq, V>(s: Seq<(L, V)>, q: K)
    requires same_type::<K, L>()
    ensures
        forall|i: int| #[trigger] hit::<L, L, V>(s, cast::<K, L>(q), i) == hit::<K, K, V>(recast::<L, K, V>(s), q, i),
        miss::<L, L, V>(s, cast::<K, L>(q)) == miss::<K, K, V>(recast::<L, K, V>(s), q),
{
    let t = recast::<L, K, V>(s);
    assert forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() implies matches::<K, K, V>(q, t[i]) == matches::<L, L, V>(cast::<K, L>(q), s[i]) by {
        axiom_cast_back::<L, K>(s[i].0);
        axiom_cast_eq::<K, L>(q, cast::<L, K>(s[i].0));
    }
}
pub proof fn recast_get<K: Eq, L: Eq, V>(s: Seq<(L, V)>, law: bool, q: K, r: Option<&V>)
    requires same_type::<K, L>(), ans_get::<L, L, V>(s, law, cast::<K, L>(q), r)
    ensures ans_get::<K, K, V>(recast::<L, K, V>(s), law, q, r)
{
    recast_hit::<K, L, V>(s, q);
    if let Some(v) = r {
        let i = choose|i: int| 0 <= i < s.len() && *v == (#[trigger] s[i]).1 && (law ==> hit::<L, L, V>(s, cast::<K, L>(q), i));
        assert(recast::<L, K, V>(s)[i].1 == *v);
    }
}
pub proof fn recast_get_mut<K: Eq, L: Eq, V>(s: Seq<(L, V)>, law: bool, q: K, cur: V, fin: V, t: Seq<(L, V)>)
    requires same_type::<K, L>(), ans_get_mut::<L, L, V>(s, law, cast::<K, L>(q), cur, fin, t)
    ensures ans_get_mut::<K, K, V>(recast::<L, K, V>(s), law, q, cur, fin, recast::<L, K, V>(t))
{
    recast_hit::<K, L, V>(s, q);
    let i = choose|i: int| 0 <= i < s.len() && cur == (#[trigger] s[i]).1 && (law ==> hit::<L, L, V>(s, cast::<K, L>(q), i)) && t =~= s.update(i, (s[i].0, fin));
    let u = recast::<L, K, V>(s);
    assert(u[i].1 == cur);
    assert(recast::<L, K, V>(t) =~= u.update(i, (u[i].0, fin)));
}
'''
SPEC = '''
pub proof fn recast_get_key_value<K: Eq, L: Eq, V>(s: Seq<(L, V)>, law: bool, q: K, l: Option<(&L, &V)>, r: Option<(&K, &V)>)
    requires same_type::<K, L>(), ans_get_key_value::<L, L, V>(s, law, cast::<K, L>(q), l), l.rel(r)
    ensures ans_get_key_value::<K, K, V>(recast::<L, K, V>(s), law, q, r)
{
    recast_hit::<K, L, V>(s, q);
    if let Some(v) = l {
        let i = choose|i: int| 0 <= i < s.len() && *v.0 == (#[trigger] s[i]).0 && *v.1 == s[i].1 && (law ==> hit::<L, L, V>(s, cast::<K, L>(q), i));
        assert(recast::<L, K, V>(s)[i] == (cast::<L, K>(s[i].0), s[i].1));
    }
}
impl<K, L, V> Reint<Vec<(L, V)>> for Vec<(K, V)> {
    open spec fn allowed() -> bool { same_type::<K, L>() }
    open spec fn rel(self, r: Vec<(L, V)>) -> bool { r@ == recast::<K, L, V>(self@) }
}
impl<'a, K, L, V> Reint<Option<(&'a L, &'a V)>> for Option<(&'a K, &'a V)> {
    open spec fn allowed() -> bool { same_type::<K, L>() }
    open spec fn rel(self, r: Option<(&'a L, &'a V)>) -> bool {
        match self { Some(x) => r matches Some(y) && *y.0 == cast::<K, L>(*x.0) && *y.1 == *x.1, None => r is None }
    }
}
''' + f'''
impl<K, V, BH> MapTypes<K, V, BH> {{
    pub open spec fn ent(&self) -> Seq<(K, V)> {{
        {arms(lambda v, m, k: ent(k))}
    }}
    pub open spec fn same_but_values(a: Self, b: Self) -> bool {{
        match (a, b) {{
''' + '\n'.join(f'            (MapTypes::{v}(x), MapTypes::{v}(y)) => {m}::same_but_values(x, y),' for v, m, k in VARS) + f'''
            _ => false,
        }}
    }}
}}
impl<K: Hash + Eq, V, BH: BuildHasher> MapTypes<K, V, BH> {{
    pub open spec fn wf(&self) -> bool {{
        {arms(lambda v, m, k: 'm.wf()' + ('' if k == 'K' else f' && same_type::<K, {k}>()'))}
    }}
    // the implementations the map relies on keep their promises
    pub open spec fn promises(&self) -> bool {{
        {arms(kept)}
    }}
    pub open spec fn raw_get(&self, q: K, r: Option<&V>) -> bool {{
        {arms(raw('ans_get', 'r'))}
    }}
    pub proof fn laws(&self)
        requires self.wf(), self.promises()
        ensures {arms(lambda v, m, k: f'm.lawful::<{k}>()').replace(chr(10), ' ')}
    {{
        {lemma_arms(lambda v, m, k: f'm.promises_lawful::<{k}>();' if k == 'K' or 'Slice' in m else f'axiom_string_eq(arbitrary(), arbitrary()); assert(m.promises::<{k}>()); m.promises_lawful::<{k}>();')}
    }}
    pub proof fn eq_ok(&self)
        requires self.wf(), self.promises()
        ensures eq_law::<K>()
    {{
        self.laws();
        {lemma_arms(lambda v, m, k: '' if k == 'K' else f'let x: K = arbitrary(); axiom_cast_eq::<K, {k}>(x, x); assert forall|a: K, b: K| #[trigger] a.eq_spec(&b) == b.eq_spec(&a) by {{ axiom_cast_eq::<K, {k}>(a, b); axiom_cast_eq::<K, {k}>(b, a); }}')}
    }}
    pub open spec fn raw_get_key_value(&self, q: K, r: Option<(&K, &V)>) -> bool {{
        {arms(raw_gkv)}
    }}
    pub proof fn bridge_get_key_value(&self, q: K, r: Option<(&K, &V)>)
        requires self.wf(), self.raw_get_key_value(q, r)
        ensures ans_get_key_value::<K, K, V>(self.ent(), self.promises(), q, r)
    {{
        if self.promises() {{ self.laws(); }}
        {lemma_arms(lambda v, m, k: '' if k == 'K' else f'let l = choose|l: Option<(&{k}, &V)>| #[trigger] ans_get_key_value::<{k}, {k}, V>(m.ent(), {law(m, k)}, {q(k)}, l) && l.rel(r); recast_get_key_value::<K, {k}, V>(m.ent(), {law(m, k)}, q, l, r);')}
    }}
    pub proof fn bridge_get_mut(&self, q: K)
        requires self.wf()
        ensures {arms(bridge_mut)}
    {{
        if self.promises() {{ self.laws(); }}
        {lemma_arms(bridge_mut_proof)}
    }}
    pub proof fn same_wf(a: Self, b: Self)
        requires a.wf(), Self::same_but_values(a, b)
        ensures b.wf(), a.promises() ==> b.promises(), a.ent().len() == b.ent().len()
    {{
        match (a, b) {{
{same_arms}
            _ => {{}}
        }}
    }}
    pub proof fn bridge_get(&self, q: K, r: Option<&V>)
        requires self.wf(), self.raw_get(q, r)
        ensures ans_get::<K, K, V>(self.ent(), self.promises(), q, r)
    {{
        if self.promises() {{ self.laws(); }}
        {lemma_arms(lambda v, m, k: '' if k == 'K' else f'recast_get::<K, {k}, V>(m.ent(), {"true" if m == "IntegerRangeMap" else f"m.lawful::<{k}>()"}, q, r);')}
    }}
}}
'''
KEEPS_SPEC = ''.join(f'''
pub proof fn {lo}_keeps<K: Eq, V, S: PrimInt + Unsigned, BH: BuildHasher>(m: {n}<String, V, S, BH>)
    requires keeps::<K, BH>(m.bh), m.range.start <= m.range.end
    ensures m.promises::<String>()
{{
    axiom_string_eq(arbitrary(), arbitrary());
    assert forall|k: &String, q: &String, g: u64, h: u64| #[trigger] m.code(k, g) && #[trigger] m.code(q, h) && q.eq_spec(k) implies g == h by {{
        axiom_string_eq(*q, *k);
    }}
}}
''' for lo, n in (('left', 'LeftSliceMap'), ('right', 'RightSliceMap')))
# ---- iterators
SPEC += '''
impl<'a, K, L, V> Reint<Iter<'a, L, V>> for Iter<'a, K, V> {
    open spec fn allowed() -> bool { same_type::<K, L>() }
    open spec fn rel(self, r: Iter<'a, L, V>) -> bool { r.index == self.index && r.entries@ == recast::<K, L, V>(self.entries@) }
}
''' + ''.join(f'''
impl<'a, K, L, V> Reint<{t}<'a, L, V>> for {t}<'a, K, V> {{
    open spec fn allowed() -> bool {{ same_type::<K, L>() }}
    open spec fn rel(self, r: {t}<'a, L, V>) -> bool {{ self.inner.rel(r.inner) }}
}}''' for t in ('Keys', 'Values')) + ''.join(f'''
pub proof fn recast_{lo}<'a, K, L, V>(s: Seq<(L, V)>)
    ensures forall|x: {t}<'a, L, V>, y: {t}<'a, K, V>| #[trigger] x.rel(y) && x.inv() && {of}(x.rem(), s) ==> y.inv() && {of}(y.rem(), recast::<L, K, V>(s))
{{
    let t = recast::<L, K, V>(s);
    assert forall|x: {t}<'a, L, V>, y: {t}<'a, K, V>| #[trigger] x.rel(y) && x.inv() && {of}(x.rem(), s) implies y.inv() && {of}(y.rem(), t) by {{
        assert(y.rem().len() == s.len());
        assert forall|i: int| #![trigger y.rem()[i]] #![trigger t[i]] 0 <= i < t.len() implies {eq} by {{
            let e = x{ent}.entries@[x{ent}.index + i];
            assert(y{ent}.entries@[x{ent}.index + i] == (cast::<L, K>(e.0), e.1));
            assert({xe});
            assert(t[i] == (cast::<L, K>(s[i].0), s[i].1));
        }}
    }}
}}
''' for lo, t, of, ent, eq, xe in (('iter', 'Iter', 'iter_of', '', '*y.rem()[i].0 == t[i].0 && *y.rem()[i].1 == t[i].1', '*x.rem()[i].0 == e.0 && *x.rem()[i].1 == e.1'), ('keys', 'Keys', 'keys_of', '.inner', '*y.rem()[i] == t[i].0', '*x.rem()[i] == e.0'), ('values', 'Values', 'values_of', '.inner', '*y.rem()[i] == t[i].1', '*x.rem()[i] == e.1')))
REQ = '    requires self.wf()\n'
KS = 'K, K, V'
contract(FM, 'FrozenMap::get', ret='r', spec=REQ + '    ensures ans_get::<K, K, V>(self.ent(), self.promises(), *key, r),\n', tail_bind='proof { self.map_impl.bridge_get(*key, __r); }')
contract(FM, 'FrozenMap::get_key_value', ret='r', spec=REQ + '    ensures ans_get_key_value::<K, K, V>(self.ent(), self.promises(), *key, r),\n', tail_bind='proof { self.map_impl.bridge_get_key_value(*key, __r); }')
contract(FM, 'FrozenMap::contains_key', ret='r', spec=REQ + '    ensures ans_contains::<K, K, V>(self.ent(), self.promises(), *key, r),\n')
contract(FM, 'FrozenMap::get_mut', ret='r', spec="""    requires old(self).wf()
    ensures
        match r {
            Some(v) => ans_get_mut::<K, K, V>(old(self).ent(), old(self).promises(), *key, *v, *final(v), final(self).ent()),
            None => final(self).ent() == old(self).ent() && (old(self).promises() ==> miss::<K, K, V>(old(self).ent(), *key)),
        },
        MapTypes::same_but_values(old(self).map_impl, final(self).map_impl),
""", at={'start': 'proof { self.map_impl.bridge_get_mut(*key); }'})
contract(FM, 'FrozenMap::len', ret='r', spec='    ensures r == self.ent().len(),\n')
contract(FM, 'FrozenMap::is_empty', ret='r', spec='    ensures r == (self.ent().len() == 0),\n')
for fn, of in (('iter', 'iter_of'), ('keys', 'keys_of'), ('values', 'values_of')):
    contract(FM, f'FrozenMap::{fn}', ret='r', spec=REQ + f'    ensures r.inv(), {of}(r.rem(), self.ent()),\n', at={'start': 'proof { ' + lemma_arms(lambda v, m, k: '' if k == 'K' else f'recast_{fn}::<K, {k}, V>(m.ent());').replace('*self', '&self.map_impl') + ' }'})
contract(FM, '&FrozenMap::into_iter@IntoIterator', ret='r', spec=REQ + '    ensures r.inv(), iter_of(r.rem(), self.ent()),\n')
contract(FM, 'FrozenMap::index@Index', ret='r', spec=REQ + '    ensures self.promises() ==> exists|i: int| #[trigger] hit::<K, K, V>(self.ent(), index, i) && *r == self.ent()[i].1,\n',
    unwrap_panic='self.promises() ==> miss::<K, K, V>(self.ent(), index)')
contract(FM, 'FrozenMap::index_mut@IndexMut', ret='r', spec="""    requires old(self).wf()
    ensures ans_get_mut::<K, K, V>(old(self).ent(), old(self).promises(), index, *r, *final(r), final(self).ent()),
        MapTypes::same_but_values(old(self).map_impl, final(self).map_impl),
""", unwrap_panic='old(self).promises() ==> miss::<K, K, V>(old(self).ent(), index)')
contract(FM, 'FrozenMap::eq@PartialEq', ret='r', spec="""    requires self.wf(), other.wf(), other.promises(), eq_law::<V>(), eq_law::<K>(),
    ensures r == map_eq(self.ent(), other.ent()),
""", closures={0: ('kv', '|kv: (&K, &V)| -> (b: bool) ensures b == found(other.ent(), *kv.0, *kv.1)'),
               1: '|v: &V| -> (c: bool) ensures c == value.eq_spec(v)'})
# ---- construction
PROM = 'keeps::<K, BH>(bh) ==> r.promises(),'
MADE = 'r.wf(), is_perm(r.ent(), payload@),'
contract(FM, 'FrozenMap::new_common_map', ret='r', spec=f'    ensures {MADE} {PROM}\n')
contract(FM, 'FrozenMap::new_u32_map', ret='r', spec=f'    requires same_type::<K, u32>()\n    ensures {MADE} r.promises(),\n', redirect={'map': 'vi_imap'},
    at={'start': """let ghost p0 = payload@;
let ghost pu = recast::<K, u32, V>(p0);
proof { range_keys(pu); }"""},
    closures={0: '|x: &(u32, V)| -> (y: u32) ensures y == x.0'},
    tail_bind="""proof {
    match &__r {
        MapTypes::U32Range(m) => { recast_perm::<K, u32, V>(m.ent(), p0); }
        MapTypes::U32Small(m) => { recast_perm::<K, u32, V>(m.ent(), p0); }
        MapTypes::U32Large(m) => { recast_perm::<K, u32, V>(m.ent(), p0); }
        _ => {}
    }
}""")
contract(FM, 'FrozenMap::new_string_map', ret='r', spec=f'    requires same_type::<K, String>()\n    ensures {MADE} {PROM}\n', redirect={'map': 'vi_imap'},
    at={'start': """let ghost p0 = payload@;
proof { recast_back::<K, String, V>(p0); }"""},
    closures={0: '|x: &(String, V)| -> (y: &[u8]) ensures y@ == utf8(x.0)'},
    tail_bind="""proof {
    match &__r {
        MapTypes::LeftStringSliceSmall(m) => { recast_perm::<K, String, V>(m.ent(), p0); if keeps::<K, BH>(bh) { left_keeps::<K, V, u8, BH>(*m); } }
        MapTypes::LeftStringSliceLarge(m) => { recast_perm::<K, String, V>(m.ent(), p0); if keeps::<K, BH>(bh) { left_keeps::<K, V, usize, BH>(*m); } }
        MapTypes::RightStringSliceSmall(m) => { recast_perm::<K, String, V>(m.ent(), p0); if keeps::<K, BH>(bh) { right_keeps::<K, V, u8, BH>(*m); } }
        MapTypes::RightStringSliceLarge(m) => { recast_perm::<K, String, V>(m.ent(), p0); if keeps::<K, BH>(bh) { right_keeps::<K, V, usize, BH>(*m); } }
        MapTypes::StringLengthSmall(m) => { recast_perm::<K, String, V>(m.ent(), p0); }
        MapTypes::CommonSmall(m) => {}
        MapTypes::CommonLarge(m) => {}
        _ => {}
    }
}""")
contract(FM, 'FrozenMap::new', ret='r', spec=f'    ensures {MADE} {PROM}\n', at={'start': 'proof { perm_refl(payload@); }'})
contract(FM, 'FrozenMap::from_vec_with_hasher', ret='r', spec=f'    ensures {MADE} {PROM}\n')
IT = MADE.replace('payload@', 'iter.into_seq()')
contract(FM, 'FrozenMap::from_iter_with_hasher', ret='r', spec=f'    ensures {IT} {PROM}\n', subst=[('Vec::from_iter', 'vec_from_iter', True)])
contract(FM, 'FrozenMap::with_hasher', ret='r', spec=f'    ensures {MADE} {PROM}\n')
for fn, sp in (('from_vec', MADE), ('from@From', MADE), ('from_iter@FromIterator', IT)):
    contract(FM, f'FrozenMap::{fn}', ret='r', spec=f'    ensures {sp} (forall|b: RandomState| #[trigger] keeps::<K, RandomState>(b)) ==> r.promises(),\n', subst=[('Vec::from_iter', 'vec_from_iter', True)])
contract(FM, 'FrozenMap::default@Default', ret='r', spec='    ensures r.wf(), r.ent().len() == 0, eq_law::<K>() ==> r.promises(),\n')
MAKE_SPEC = """
pub proof fn range_keys<V>(p: Seq<(u32, V)>)
    ensures
        forall|ks: Seq<u32>| ks.len() == p.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] ks[i] == p[i].0) && #[trigger] is_range(ks) ==> contiguous(p),
{
    assert forall|ks: Seq<u32>| ks.len() == p.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] ks[i] == p[i].0) && #[trigger] is_range(ks) implies contiguous(p) by {
        let k = keyed(ks);
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0.v() != (#[trigger] p[j]).0.v() by {
            assert(ks[i] == p[i].0 && ks[j] == p[j].0);
            assert(k[i].0.v() != k[j].0.v());
        }
        assert forall|i: int, j: int, x: int| 0 <= i < p.len() && 0 <= j < p.len() && (#[trigger] p[i]).0.v() <= x <= (#[trigger] p[j]).0.v() implies #[trigger] has_key(p, x) by {
            assert(ks[i] == p[i].0 && ks[j] == p[j].0);
            assert(k[i].0.v() <= x <= k[j].0.v());
            assert(has_key(k, x));
            let n = choose|n: int| 0 <= n < k.len() && (#[trigger] k[n]).0.v() == x;
            assert(ks[n] == p[n].0);
            assert(p[n].0.v() == x);
        }
    }
}
"""
SELF = '''
impl<K, V, BH> FrozenMap<K, V, BH> {
    pub open spec fn ent(&self) -> Seq<(K, V)> { self.map_impl.ent() }
}
impl<K: Hash + Eq, V, BH: BuildHasher> FrozenMap<K, V, BH> {
    pub open spec fn wf(&self) -> bool { self.map_impl.wf() }
    pub open spec fn promises(&self) -> bool { self.map_impl.promises() }
}
'''
MAPS = [('text', 'pub mod mapspecs {\nuse super::*;')]
def maps():
    out = [ht.STRUCTS]
    for k in mp.KINDS.values(): out.append(mp.structs(k))
    return out + [sm.SC_STRUCTS, sm.RG_STRUCTS]
def an_parts():
    return [('text', an.IK_SPEC), ('enum', an.IK, 'IntKeyAnalysisResult'), ('assume', an.IK, 'analyze_int_keys'),
        ('text', an.SK_SPEC), ('enum', an.SK, 'SliceKeyAnalysisResult', (), '#[derive(PartialEq, Eq, Structural)]'), ('assume', an.SK, 'analyze_slice_keys')]
def frozen_map():
    looks = []
    for v in cv.VIEW.values():
        looks += [('assume', v.path, f'{v.name}::{f}') for f in ('get', 'get_key_value', 'get_mut', 'contains_key', 'iter', 'keys', 'values')] + [('assume_total', v.path, v.new)]
        li = cv.len_impl(v)
        looks.append(('trait_assume',) + li[1:])
    fns = [('fn', FM, f'FrozenMap::{f}') for f in ('get', 'get_key_value', 'contains_key', 'get_mut', 'get_many_mut', 'len', 'is_empty', 'iter', 'keys', 'values', 'index@Index', 'index_mut@IndexMut', 'eq@PartialEq',
        'new_common_map', 'new_u32_map', 'new_string_map', 'new', 'from_vec_with_hasher', 'from_iter_with_hasher', 'with_hasher', 'from_vec', 'from@From', 'from_iter@FromIterator', 'default@Default')]
    fns.append(('fn', FM, '&FrozenMap::into_iter@IntoIterator'))
    return ('group', maps() + an_parts() + [ci.map_iters(), ('text', cv.EQ_SPEC), ('enum', FM, 'MapTypes'), ('struct', FM, 'FrozenMap'), ('text', COMMON), ('text', KEEPS_SPEC), ('text', SPEC), ('text', MAKE_SPEC), ('text', SELF)] + looks + fns)

# ================================================================ FrozenSet
SVARS = [(v, m[:-3] + 'Set', {'K': 'T'}.get(k, k)) for v, m, k in VARS]
def sarms(f, x='*self'): return f'match {x} {{\n' + '\n'.join(f'            SetTypes::{v}(s) => {{ {f(v, m, k)} }}' for v, m, k in SVARS) + '\n        }'
def sent(k): return 's.map.ent()' if k == 'T' else f'recast::<{k}, T, ()>(s.map.ent())'
def sq(k): return 'q' if k == 'T' else f'cast::<T, {k}>(q)'
def slaw(m, k): return 'true' if m == 'IntegerRangeSet' else f's.map.lawful::<{k}>()'
def skept(v, m, k): return f's.map.promises::<{k}>()' if k == 'T' or 'Slice' in m else 'true'
def raw_elem(v, m, k):
    x = lambda r: f'ans_elem::<{k}, {k}>(s.map.ent(), {slaw(m, k)}, {sq(k)}, {r})'
    return x('r') if k == 'T' else f'exists|l: Option<&{k}>| #[trigger] {x("l")} && l.rel(r)'
SET_SPEC = """
pub open spec fn castseq<L, K>(s: Seq<L>) -> Seq<K> { Seq::new(s.len(), |i: int| cast::<L, K>(s[i])) }
impl<K, L> Reint<Vec<L>> for Vec<K> {
    open spec fn allowed() -> bool { same_type::<K, L>() }
    open spec fn rel(self, r: Vec<L>) -> bool { r@ == castseq::<K, L>(self@) }
}
impl<'a, K, L> Reint<Option<&'a L>> for Option<&'a K> {
    open spec fn allowed() -> bool { same_type::<K, L>() }
    open spec fn rel(self, r: Option<&'a L>) -> bool {
        match self { Some(x) => r matches Some(y) && *y == cast::<K, L>(*x), None => r is None }
    }
}
impl<'a, K, L> Reint<Iter<'a, L>> for Iter<'a, K> {
    open spec fn allowed() -> bool { same_type::<K, L>() }
    open spec fn rel(self, r: Iter<'a, L>) -> bool { r.index == self.index && r.entries@ == recast::<K, L, ()>(self.entries@) }
}
pub proof fn castseq_back<K, L>(s: Seq<K>)
    requires same_type::<K, L>()
    ensures castseq::<L, K>(castseq::<K, L>(s)) == s
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] castseq::<L, K>(castseq::<K, L>(s))[i] == s[i] by { axiom_cast_back::<K, L>(s[i]); }
    assert(castseq::<L, K>(castseq::<K, L>(s)) =~= s);
}
// what a set made of s, seen with type L, holds is what s holds
pub proof fn castseq_perm<K, L>(e: Seq<(L, ())>, s: Seq<K>)
    requires same_type::<K, L>(), is_perm(first(e), castseq::<K, L>(s))
    ensures is_perm(first(recast::<L, K, ()>(e)), s)
{
    castseq_back::<K, L>(s);
    perm_map(first(e), castseq::<K, L>(s), first(recast::<L, K, ()>(e)), s, |x: L| cast::<L, K>(x));
}
pub proof fn recast_elem<K: Eq, L: Eq>(s: Seq<(L, ())>, law: bool, q: K, l: Option<&L>, r: Option<&K>)
    requires same_type::<K, L>(), ans_elem::<L, L>(s, law, cast::<K, L>(q), l), l.rel(r)
    ensures ans_elem::<K, K>(recast::<L, K, ()>(s), law, q, r)
{
    recast_hit::<K, L, ()>(s, q);
    if let Some(x) = l {
        let i = choose|i: int| 0 <= i < s.len() && *x == (#[trigger] s[i]).0 && (law ==> hit::<L, L, ()>(s, cast::<K, L>(q), i));
        assert(recast::<L, K, ()>(s)[i] == (cast::<L, K>(s[i].0), ()));
    }
}
pub proof fn recast_elems<'a, K, L>(s: Seq<(L, ())>)
    ensures forall|x: Iter<'a, L>, y: Iter<'a, K>| #[trigger] x.rel(y) && x.inv() && refs_of(x.rem(), first(s)) ==> y.inv() && refs_of(y.rem(), first(recast::<L, K, ()>(s)))
{
    let t = recast::<L, K, ()>(s);
    assert forall|x: Iter<'a, L>, y: Iter<'a, K>| #[trigger] x.rel(y) && x.inv() && refs_of(x.rem(), first(s)) implies y.inv() && refs_of(y.rem(), first(t)) by {
        assert(y.rem().len() == first(s).len());
        assert forall|i: int| #![trigger y.rem()[i]] #![trigger first(t)[i]] 0 <= i < t.len() implies *y.rem()[i] == first(t)[i] by {
            let e = x.entries@[x.index + i];
            assert(y.entries@[x.index + i] == (cast::<L, K>(e.0), e.1));
            assert(*x.rem()[i] == e.0);
            assert(first(s)[i] == s[i].0);
            assert(t[i] == (cast::<L, K>(s[i].0), ()));
        }
    }
}
""" + f"""
impl<T, BH> SetTypes<T, BH> {{
    pub open spec fn ent(&self) -> Seq<(T, ())> {{
        {sarms(lambda v, m, k: sent(k))}
    }}
}}
impl<T: Hash + Eq, BH: BuildHasher> SetTypes<T, BH> {{
    pub open spec fn wf(&self) -> bool {{
        {sarms(lambda v, m, k: 's.map.wf()' + ('' if k == 'T' else f' && same_type::<T, {k}>()'))}
    }}
    // the implementations the set relies on keep their promises
    pub open spec fn promises(&self) -> bool {{
        {sarms(skept)}
    }}
    pub proof fn laws(&self)
        requires self.wf(), self.promises()
        ensures {sarms(lambda v, m, k: f's.map.lawful::<{k}>()').replace(chr(10), ' ')}
    {{
        {sarms(lambda v, m, k: f's.map.promises_lawful::<{k}>();' if k == 'T' or 'Slice' in m else f'axiom_string_eq(arbitrary(), arbitrary()); assert(s.map.promises::<{k}>()); s.map.promises_lawful::<{k}>();')}
    }}
    pub open spec fn raw_elem(&self, q: T, r: Option<&T>) -> bool {{
        {sarms(raw_elem)}
    }}
    pub proof fn bridge_elem(&self, q: T, r: Option<&T>)
        requires self.wf(), self.raw_elem(q, r)
        ensures ans_elem::<T, T>(self.ent(), self.promises(), q, r)
    {{
        if self.promises() {{ self.laws(); }}
        {sarms(lambda v, m, k: '' if k == 'T' else f'let l = choose|l: Option<&{k}>| #[trigger] ans_elem::<{k}, {k}>(s.map.ent(), {slaw(m, k)}, {sq(k)}, l) && l.rel(r); recast_elem::<T, {k}>(s.map.ent(), {slaw(m, k)}, q, l, r);')}
    }}
    pub proof fn bridge_contains(&self, q: T)
        requires self.wf()
        ensures self.promises() ==> {sarms(lambda v, m, k: f'{slaw(m, k)} && miss::<{k}, {k}, ()>(s.map.ent(), {sq(k)}) == miss::<T, T, ()>(self.ent(), q)').replace(chr(10), ' ')}
    {{
        if self.promises() {{ self.laws(); }}
        {sarms(lambda v, m, k: '' if k == 'T' else f'recast_hit::<T, {k}, ()>(s.map.ent(), q);')}
    }}
}}
""" + r"""
impl<T, BH> FrozenSet<T, BH> {
    pub open spec fn ent(&self) -> Seq<(T, ())> { self.set_impl.ent() }
    pub open spec fn elems(&self) -> Seq<T> { first(self.ent()) }
    proof fn len_law(&self, n: usize) requires self.lens(n) ensures n == self.elems().len() {}
}
impl<T: Hash + Eq, BH: BuildHasher> FrozenSet<T, BH> {
    pub open spec fn wf(&self) -> bool { self.set_impl.wf() }
    pub open spec fn promises(&self) -> bool { self.set_impl.promises() }
    pub open spec fn ok(&self) -> bool { self.wf() && self.promises() && eq_law::<T>() }
}
"""
F = 'FrozenSet::'
contract(FS, F + 'get', ret='r', spec=REQ + '    ensures ans_elem::<T, T>(self.ent(), self.promises(), *value, r),\n', tail_bind='proof { self.set_impl.bridge_elem(*value, __r); }')
contract(FS, F + 'contains', ret='r', spec=REQ + '    ensures ans_contains::<T, T, ()>(self.ent(), self.promises(), *value, r),\n', at={'start': 'proof { self.set_impl.bridge_contains(*value); }'})
contract(FS, F + 'is_empty', ret='r', spec='    ensures r == (self.elems().len() == 0),\n')
ELEMS = '    ensures r.inv(), refs_of(r.rem(), self.elems()),\n'
contract(FS, F + 'iter', ret='r', spec=REQ + ELEMS, at={'start': 'proof { ' + sarms(lambda v, m, k: '' if k == 'T' else f'recast_elems::<T, {k}>(s.map.ent());', '&self.set_impl') + ' }'})
contract(FS, '&FrozenSet::into_iter@IntoIterator', ret='r', spec=REQ + ELEMS)
contract(FS, F + 'iter@Set', ret='r', spec=REQ + ELEMS, as_name='set_iter')
contract(FS, F + 'contains@Set', ret='r', as_name='set_contains', spec='    requires self.ok()\n    ensures r == holds(self.elems(), *value),\n', at={'start': """proof {
    let e = self.ent();
    if miss::<T, T, ()>(e, *value) { miss_has(e, *value); }
    else {
        let i = choose|i: int| 0 <= i < e.len() && matches::<T, T, ()>(*value, #[trigger] e[i]);
        assert(value.eq_spec(&first(e)[i]));
    }
}"""})
contract(FS, F + 'eq@PartialEq', ret='r', spec='    requires self.wf(), other.ok()\n    ensures r == set_eq(self.elems(), other.elems()),\n',
    closures={0: '|value: &T| -> (b: bool) requires other.ok() ensures b == holds(other.elems(), *value)'},
    at={'start': 'proof { other.decides(); }'})
SMADE = 'r.wf(), is_perm(first(r.ent()), payload@),'
contract(FS, F + 'new_common_set', ret='r', spec=f'    ensures {SMADE} {PROM}\n'.replace('<K,', '<T,'))
contract(FS, F + 'new_u32_set', ret='r', spec=f'    requires same_type::<T, u32>()\n    ensures {SMADE} r.promises(),\n', redirect={'map': 'vi_imap', 'copied': 'vi_icopied'},
    at={'start': 'let ghost p0 = payload@;\nproof { copies(castseq::<T, u32>(p0)); }'},
    tail_bind="""proof {
    match &__r {
        SetTypes::U32Range(s) => { castseq_perm::<T, u32>(s.map.ent(), p0); }
        SetTypes::U32Small(s) => { castseq_perm::<T, u32>(s.map.ent(), p0); }
        SetTypes::U32Large(s) => { castseq_perm::<T, u32>(s.map.ent(), p0); }
        _ => {}
    }
}""")
contract(FS, F + 'new_string_set', ret='r', spec=f'    requires same_type::<T, String>()\n    ensures {SMADE} {PROM}\n'.replace('<K,', '<T,'), redirect={'map': 'vi_imap'},
    at={'start': 'let ghost p0 = payload@;\nproof { castseq_back::<T, String>(p0); }'},
    tail_bind="""proof {
    match &__r {
        SetTypes::LeftStringSliceSmall(s) => { castseq_perm::<T, String>(s.map.ent(), p0); if keeps::<T, BH>(bh) { left_keeps::<T, (), u8, BH>(s.map); } }
        SetTypes::LeftStringSliceLarge(s) => { castseq_perm::<T, String>(s.map.ent(), p0); if keeps::<T, BH>(bh) { left_keeps::<T, (), usize, BH>(s.map); } }
        SetTypes::RightStringSliceSmall(s) => { castseq_perm::<T, String>(s.map.ent(), p0); if keeps::<T, BH>(bh) { right_keeps::<T, (), u8, BH>(s.map); } }
        SetTypes::RightStringSliceLarge(s) => { castseq_perm::<T, String>(s.map.ent(), p0); if keeps::<T, BH>(bh) { right_keeps::<T, (), usize, BH>(s.map); } }
        SetTypes::StringLengthSmall(s) => { castseq_perm::<T, String>(s.map.ent(), p0); }
        _ => {}
    }
}""")
VFI = [('Vec::from_iter', 'vec_from_iter', True)]
contract(FS, F + 'new', ret='r', spec=f'    ensures {SMADE} {PROM}\n'.replace('<K,', '<T,'), at={'start': 'proof { perm_refl(payload@); }'})
for fn in ('from_vec_with_hasher', 'with_hasher', 'from_iter_with_hasher'):
    contract(FS, F + fn, ret='r', spec=f'    ensures {SMADE} {PROM}\n'.replace('<K,', '<T,').replace(*(('payload@', 'iter.into_seq()') if 'iter' in fn else ('', ''))), subst=VFI)
for fn in ('from_vec', 'from@From', 'from_iter@FromIterator'):
    contract(FS, F + fn, ret='r', spec=f'    ensures {SMADE} (forall|b: RandomState| #[trigger] keeps::<T, RandomState>(b)) ==> r.promises(),\n'.replace(*(('payload@', 'iter.into_seq()') if 'iter' in fn else ('', ''))), subst=VFI)
contract(FS, F + 'default@Default', ret='r', spec='    ensures r.wf(), r.elems().len() == 0, eq_law::<T>() ==> r.promises(),\n')
SET_MAKE = """
pub proof fn copies<T>(p: Seq<T>)
    ensures forall|ks: Seq<T>| #![trigger keyed(ks)] ks.len() == p.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] ks[i] == p[i]) ==> ks == p
{
    assert forall|ks: Seq<T>| #![trigger keyed(ks)] ks.len() == p.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] ks[i] == p[i]) implies ks == p by { assert(ks =~= p); }
}
impl<T: Hash + Eq, BH: BuildHasher> FrozenSet<T, BH> {
    pub proof fn decides(&self)
        requires self.ok()
        ensures forall|q: T| #[trigger] miss::<T, T, ()>(self.ent(), q) ==> !holds(self.elems(), q), forall|q: T, i: int| #[trigger] hit::<T, T, ()>(self.ent(), q, i) ==> holds(self.elems(), q)
    {
        let e = self.ent();
        assert forall|q: T| #[trigger] miss::<T, T, ()>(e, q) implies !holds(first(e), q) by { miss_has(e, q); }
        assert forall|q: T, i: int| #[trigger] hit::<T, T, ()>(e, q, i) implies holds(first(e), q) by { hit_has(e, q, i); }
    }
}
"""
def sets():
    return ('group', [('struct', s.path, s.name) for s in cs.SETS.values()])
def frozen_set():
    looks = []
    for s in cs.SETS.values():
        it = f'{s.name}::iter' if f'{s.name}::iter' in cs.vx.index(s.path) else f'{s.name}::iter@Set'
        looks += [('assume', s.path, f'{s.name}::get'), ('assume', s.path, f'{s.name}::contains'), ('assume', s.path, it), ('assume_total', s.path, set_new(s))]
        looks += [('trait_assume',) + cv.len_impl(s.v)[1:], ('trait_assume',) + cs.len_impl(s)[1:]]
    fl = ('trait_impl', FS, 'FrozenSet', 'Len', '    open spec fn lens(&self, n: usize) -> bool { n == self.elems().len() }\n')
    fns = [('fn', FS, F + f) for f in ('get', 'contains', 'is_empty', 'iter', 'eq@PartialEq', 'iter@Set', 'contains@Set', 'new_common_set', 'new_u32_set', 'new_string_set', 'new', 'from_vec_with_hasher',
        'from_iter_with_hasher', 'with_hasher', 'from_vec', 'from@From', 'from_iter@FromIterator', 'default@Default')] + [('fn', FS, '&FrozenSet::into_iter@IntoIterator')]
    return ('group', maps() + [sets(), cs.set_iters()] + an_parts() + [('enum', FS, 'SetTypes'), ('struct', FS, 'FrozenSet'), ('text', COMMON), ('text', KEEPS_SPEC), ('text', SET_SPEC), ('text', SET_MAKE)] + looks + [fl] + fns)
def set_new(s): return s.v.new.replace('Map', 'Set')
def set_totals():
    """The set constructors the facade uses panic only where the map's do."""
    def one(s):
        v, m = s.v, []
        if v.fi: m.append(cv.from_iter_impl(v, 'trait_impl', True))
        elif v.bh: m.append(('fn_total', v.path, f'{s.map}::from_iter_with_hasher'))
        return ('group', [('assume_total', v.path, v.new)] + m + [('fn_total', s.path, set_new(s))])
    return ('group', maps() + [sets()] + [one(s) for s in cs.SETS.values()])
