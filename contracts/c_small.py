"""ScanningMap and IntegerRangeMap."""
from vx import contract
SC = 'specialized_maps/scanning_map.rs'
RG = 'specialized_maps/integer_range_map.rs'

SC_SPEC = '''
impl<K, V> ScanningMap<K, V> {
    pub open spec fn ent(&self) -> Seq<(K, V)> { self.entries@ }
    pub open spec fn safe(&self) -> bool { true }
    pub open spec fn wf(&self) -> bool { true }
    pub open spec fn lawful<Q: Eq>(&self) -> bool where K: Borrow<Q> { eq_law::<Q>() }
    pub open spec fn promises<Q: Eq>(&self) -> bool where K: Borrow<Q> { eq_law::<Q>() }
    pub open spec fn same_but_values(a: Self, b: Self) -> bool {
        &&& a.ent().len() == b.ent().len()
        &&& forall|i: int| 0 <= i < a.ent().len() ==> (#[trigger] a.ent()[i]).0 == b.ent()[i].0
    }
    pub proof fn same_wf(a: Self, b: Self)
        requires a.wf(), Self::same_but_values(a, b)
        ensures b.wf()
    {}
    pub proof fn promises_lawful<Q: Eq>(&self) where K: Borrow<Q>
        requires self.wf(), self.promises::<Q>()
        ensures self.lawful::<Q>()
    {}
}
'''
contract(SC, 'ScanningMap::from_vec', ret='r', spec='    ensures r.wf(), r.ent() == payload@,\n')
loop_inv = '''    invariant
        law == self.lawful::<Q>(),
        it.seq().len() == self.ent().len(),
        forall|i: int| 0 <= i < self.ent().len() ==> *(#[trigger] it.seq()[i]) == self.ent()[i],
        law ==> eq_law::<Q>(),
        law ==> forall|i: int| 0 <= i < it.index@ ==> !matches(*key, #[trigger] self.ent()[i]),'''
for fn in ('get', 'get_key_value'):
    contract(SC, f'ScanningMap::{fn}', ret='r',
        spec=f'    ensures\n        ans_{fn}(self.ent(), self.lawful::<Q>(), *key, r),\n',
        at={'start': 'let ghost law = self.lawful::<Q>();', 'return0': '''proof {
    let i = it.index@;
    assert(self.ent()[i] == *entry);
    assert(law ==> hit(self.ent(), *key, i));
}'''}, loops={0: ('it', loop_inv)})
contract(SC, 'ScanningMap::contains_key', ret='r', spec='    ensures\n        ans_contains(self.ent(), self.lawful::<Q>(), *key, r),\n')
contract(SC, 'ScanningMap::get_mut', ret='r', spec='''    ensures
        match r {
            Some(v) => ans_get_mut(old(self).ent(), old(self).lawful::<Q>(), *key, *v, *final(v), final(self).ent()),
            None => final(self).ent() == old(self).ent() && (old(self).lawful::<Q>() ==> miss(old(self).ent(), *key)),
        },
        Self::same_but_values(*old(self), *final(self)),
''',
    at={'start': '''let ghost law = self.lawful::<Q>();
let ghost s0 = self.ent();''',
        'loop0.mid': '''let ghost r0 = it.remaining();
let ghost n0 = s0.len();
let ghost mut k: int = 0;''',
        'loop0.begin': 'proof { k = k + 1; }',
        'return0': '''proof {
    assert(has_resolved(it));
    assert forall|j: int| k <= j < r0.len() implies *final(#[trigger] r0[j]) == *r0[j] by {
        assert(it.remaining()[j - k] == r0[j]);
        assert(has_resolved(it.remaining()[j - k]));
    }
}'''},
    desugar={0: 'it'},
    loops={0: '''    invariant
        law ==> eq_law::<Q>(),
        it.obeys_prophetic_iter_laws(), it.decrease() is Some,
        0 <= k <= r0.len() == n0, r0.len() == s0.len(),
        it.remaining() == r0.skip(k),
        forall|i: int| 0 <= i < k ==> *final(#[trigger] r0[i]) == *r0[i],
        forall|i: int| 0 <= i < s0.len() ==> #[trigger] s0[i] == *r0[i],
        law ==> forall|i: int| 0 <= i < k ==> !matches(*key, #[trigger] s0[i]),
    decreases n0 - k,'''})

RG_CONTIG = '''
// the keys are distinct and leave no gap
pub open spec fn contiguous<K: PrimInt, V>(s: Seq<(K, V)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.v() != (#[trigger] s[j]).0.v()
    &&& forall|i: int, j: int, x: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0.v() <= x <= (#[trigger] s[j]).0.v() ==> #[trigger] has_key(s, x)
}
pub open spec fn has_key<K: PrimInt, V>(s: Seq<(K, V)>, x: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.v() == x }
pub open spec fn consecutive<K: PrimInt, V>(s: Seq<(K, V)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.v() == s[0].0.v() + i }
pub proof fn contiguous_perm<K: PrimInt, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires is_perm(a, b), contiguous(a)
    ensures contiguous(b)
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| perm_by(a, b, p, q);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0.v() != (#[trigger] b[j]).0.v() by {
        assert(b[i] == a[q[i]] && b[j] == a[q[j]] && p[q[i]] == i && p[q[j]] == j);
        if q[i] < q[j] { assert(a[q[i]].0.v() != a[q[j]].0.v()); } else { assert(a[q[j]].0.v() != a[q[i]].0.v()); }
    }
    assert forall|i: int, j: int, x: int| 0 <= i < b.len() && 0 <= j < b.len() && (#[trigger] b[i]).0.v() <= x <= (#[trigger] b[j]).0.v() implies #[trigger] has_key(b, x) by {
        assert(b[i] == a[q[i]] && b[j] == a[q[j]]);
        assert(has_key(a, x));
        let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0.v() == x;
        assert(b[p[k]] == a[k]);
    }
}
pub proof fn consecutive_contiguous<K: PrimInt, V>(s: Seq<(K, V)>)
    requires consecutive(s)
    ensures contiguous(s)
{
    assert forall|i: int, j: int, x: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0.v() <= x <= (#[trigger] s[j]).0.v() implies #[trigger] has_key(s, x) by {
        assert(s[x - s[0].0.v()].0.v() == x);
    }
}
// sorted, and two neighbours are not one apart
pub proof fn gap_not_contiguous<K: PrimInt, V>(s: Seq<(K, V)>, i: int)
    requires
        0 < i < s.len(), s[i - 1].0.v() + 1 != s[i].0.v(),
        forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a]).0.v() <= (#[trigger] s[b]).0.v(),
    ensures !contiguous(s)
{
    assert(s[i - 1].0.v() <= s[i].0.v());
    if s[i - 1].0.v() != s[i].0.v() && contiguous(s) {
        let x = s[i - 1].0.v() + 1;
        assert(s[i - 1].0.v() <= x <= s[i].0.v());
        assert(has_key(s, x));
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.v() == x;
        if k < i - 1 { assert(s[k].0.v() <= s[i - 1].0.v()); }
        if k > i { assert(s[i].0.v() <= s[k].0.v()); }
    }
}
'''
RG_SPEC = RG_CONTIG + '''
impl<K, V> IntegerRangeMap<K, V> {
    pub open spec fn ent(&self) -> Seq<(K, V)> { self.entries@ }
}
impl<K: PrimInt, V> IntegerRangeMap<K, V> {
    pub open spec fn wf(&self) -> bool {
        &&& consecutive(self.ent())
        &&& self.ent().len() <= usize::MAX
        &&& if self.ent().len() == 0 { self.min.v() > self.max.v() } else { self.min == self.ent()[0].0 && self.max == self.ent()[self.ent().len() - 1].0 }
    }
    pub open spec fn safe(&self) -> bool { self.wf() }
    // the borrowed key is the same integer
    pub open spec fn lawful<Q: PrimInt>(&self) -> bool where K: Borrow<Q> { forall|k: K| (#[trigger] Borrow::<Q>::borrow_spec(&k)).v() == k.v() }
    pub open spec fn promises<Q: PrimInt>(&self) -> bool where K: Borrow<Q> { self.lawful::<Q>() }
}
pub proof fn contains_all<K: PrimInt + Borrow<Q>, V, Q: PrimInt>(m: IntegerRangeMap<K, V>, q: Q)
    requires m.wf(), m.lawful::<Q>()
    ensures
        m.ent().len() > 0 && m.min.v() <= q.v() <= m.max.v() ==> 0 <= q.v() - m.min.v() < m.ent().len() && hit(m.ent(), q, q.v() - m.min.v()),
        !(m.ent().len() > 0 && m.min.v() <= q.v() <= m.max.v()) ==> miss(m.ent(), q),
{
    let n = m.ent().len();
    assert forall|i: int| 0 <= i < n implies matches(q, #[trigger] m.ent()[i]) == (q.v() == m.min.v() + i) by {
        let b: &Q = m.ent()[i].0.borrow_spec();
        assert(b.v() == m.ent()[i].0.v());
    }
    if n > 0 { assert(m.ent()[n - 1].0.v() == m.min.v() + n - 1); }
}
impl<K: PrimInt, V> IntegerRangeMap<K, V> {
    pub open spec fn same_but_values(a: Self, b: Self) -> bool {
        &&& a.min == b.min && a.max == b.max
        &&& a.ent().len() == b.ent().len()
        &&& forall|i: int| 0 <= i < a.ent().len() ==> (#[trigger] a.ent()[i]).0 == b.ent()[i].0
    }
    pub proof fn same_wf(a: Self, b: Self)
        requires a.wf(), Self::same_but_values(a, b)
        ensures b.wf()
    {
        let n = a.ent().len() as int;
        if n > 0 { assert(a.ent()[0].0 == b.ent()[0].0); assert(a.ent()[n - 1].0 == b.ent()[n - 1].0); }
        assert forall|i: int| 0 <= i < n implies (#[trigger] b.ent()[i]).0.v() == b.ent()[0].0.v() + i by { assert(a.ent()[i].0 == b.ent()[i].0); assert(a.ent()[0].0 == b.ent()[0].0); }
    }
    pub proof fn promises_lawful<Q: PrimInt>(&self) where K: Borrow<Q>
        requires self.wf(), self.promises::<Q>()
        ensures self.lawful::<Q>()
    {}
}
'''
RH = 'impl<K: PrimInt, V> IntegerRangeMap<K, V>'
contract(RG, 'offset_from', ret='r', spec='''    requires key.v() >= min.v(),
    ensures match r { Some(x) => x == key.v() - min.v(), None => key.v() - min.v() > usize::MAX },
''', at={'start': '''proof {
    assert(Q::min_v() == 0 || Q::min_v() == -Q::max_v() - 1);
    assert(min.not_spec().v() == Q::min_v() + Q::max_v() - min.v());
}'''})
contract(RG, 'IntegerRangeMap::from_vec', ret='r', spec='    ensures r.wf(), is_perm(r.ent(), payload@), contiguous(payload@),\n',
    panic='!contiguous(payload@)',
    subst=[],
    at={'start': 'let ghost p0 = payload@;\nproof { if p0.len() == 0 { assert(consecutive(p0)); consecutive_contiguous(p0); } }',
        'before:let min =': '''let ghost u = payload@;
proof {
    assert forall|a: int, b: int| 0 <= a < b < u.len() implies (#[trigger] u[a]).0.v() <= (#[trigger] u[b]).0.v() by { }
}''',
        'loop0.begin': '''proof {
    if u[i - 1].0.v() + 1 != u[i as int].0.v() {
        gap_not_contiguous(u, i as int);
        if contiguous(p0) { perm_sym(u, p0); contiguous_perm(p0, u); }
    }
}''',
        'loop0.after': 'proof { consecutive_contiguous(u); contiguous_perm(u, p0); }'},
    closures={0: '|x: &(K, V)| -> (r: K) ensures r == x.0'},
    loops={0: ('it', '''    invariant
        payload@ == u, is_perm(u, p0), u.len() > 0,
        it.snapshot.start == 1, it.snapshot.end == u.len(),
        forall|a: int, b: int| 0 <= a < b < u.len() ==> (#[trigger] u[a]).0.v() <= (#[trigger] u[b]).0.v(),
        forall|j: int| 0 <= j < 1 + it.index@ ==> (#[trigger] u[j]).0.v() == u[0].0.v() + j,''')})
for fn in ('get', 'get_key_value'):
    contract(RG, f'IntegerRangeMap::{fn}', ret='r', header=RH,
        spec=f'    requires self.wf(), self.lawful::<Q>(),\n    ensures\n        ans_{fn}(self.ent(), true, *key, r),\n',
        at={'start': 'proof { contains_all(*self, *key); let b: &Q = self.min.borrow_spec(); let c: &Q = self.max.borrow_spec(); assert(b.v() == self.min.v() && c.v() == self.max.v()); }'})
contract(RG, 'IntegerRangeMap::contains_key', ret='r', header=RH, spec='    requires self.wf(), self.lawful::<Q>(),\n    ensures\n        ans_contains(self.ent(), true, *key, r),\n')
contract(RG, 'IntegerRangeMap::get_mut', ret='r', header=RH, spec='''    requires old(self).wf(), old(self).lawful::<Q>(),
    ensures
        match r {
            Some(v) => ans_get_mut(old(self).ent(), true, *key, *v, *final(v), final(self).ent()),
            None => final(self).ent() == old(self).ent() && miss(old(self).ent(), *key),
        },
        Self::same_but_values(*old(self), *final(self)),
''',
    at={'start': 'proof { contains_all(*self, *key); let b: &Q = self.min.borrow_spec(); let c: &Q = self.max.borrow_spec(); assert(b.v() == self.min.v() && c.v() == self.max.v()); }'})

SC_STRUCTS = ('group', [('struct', SC, 'ScanningMap'), ('text', SC_SPEC)])
RG_STRUCTS = ('group', [('struct', RG, 'IntegerRangeMap'), ('text', RG_SPEC)])
F = ('get', 'get_key_value', 'contains_key', 'get_mut')
def sc(part='fn', fns=('from_vec',) + F): return ('group', [(part, SC, 'ScanningMap::' + f) for f in fns])
def rg(part='fn', fns=('from_vec',) + F): return ('group', [(part, RG, 'IntegerRangeMap::' + f) for f in fns])
