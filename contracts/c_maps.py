from vx import contract
import c_hash_table as ht, c_hash_code as hc

class M: pass
KINDS = {}

def kind(name, path, generics, bounds, params, code, ok='', rel='', fields=()):
    k = M()
    k.__dict__.update(locals())
    KINDS[name] = k
    return k

# generics: impl generics for bound-free impls; bounds: with the bounds the lookup impls carry
kind('CommonMap', 'specialized_maps/common_map.rs', 'K, V, S, BH', 'K, V, S: PrimInt, BH: BuildHasher', 'K, V, S, BH',
     'pub open spec fn code<T>(&self, k: &T, h: u64) -> bool { self.bh.hashes(k, h) }', fields=('bh',))
kind('IntegerMap', 'specialized_maps/integer_map.rs', 'K, V, S', 'K, V, S: PrimInt', 'K, V, S',
     'pub open spec fn code<T: AsPrimitive<u64>>(&self, k: &T, h: u64) -> bool { h == (*k).as_spec() }')
kind('LengthMap', 'specialized_maps/length_map.rs', 'K, V, S', 'K, V, S: PrimInt', 'K, V, S',
     'pub open spec fn code<T: Len>(&self, k: &T, h: u64) -> bool { exists|n: usize| #[trigger] k.lens(n) && h == n as u64 }')
kind('LeftSliceMap', 'specialized_maps/left_slice_map.rs', 'K, V, S, BH', 'K, V, S: PrimInt, BH: BuildHasher', 'K, V, S, BH',
     '''pub open spec fn code<T: SliceHash + Len>(&self, k: &T, h: u64) -> bool {
        exists|n: usize| #[trigger] k.lens(n) && if n >= self.range.end { k.shashes(&self.bh, self.range, h) } else { h == 0 }
    }''', ok='self.range.start <= self.range.end', fields=('bh', 'range'))
kind('RightSliceMap', 'specialized_maps/right_slice_map.rs', 'K, V, S, BH', 'K, V, S: PrimInt, BH: BuildHasher', 'K, V, S, BH',
     '''pub open spec fn code<T: SliceHash + Len>(&self, k: &T, h: u64) -> bool {
        exists|n: usize| #[trigger] k.lens(n) && if n >= self.range.end { k.shashes(&self.bh, ((n - self.range.end) as usize)..((n - self.range.start) as usize), h) } else { h == 0 }
    }''', ok='self.range.start <= self.range.end', rel='len_det::<Q>()', fields=('bh', 'range'))

KEYB = {'CommonMap': 'Hash + Eq', 'IntegerMap': 'PrimInt + AsPrimitive<u64>', 'LengthMap': 'Len + Eq',
        'LeftSliceMap': 'SliceHash + Len + Eq', 'RightSliceMap': 'SliceHash + Len + Eq'}
KB = {'CommonMap': '', 'IntegerMap': ': AsPrimitive<u64>', 'LengthMap': ': Len', 'LeftSliceMap': ': SliceHash + Len', 'RightSliceMap': ': SliceHash + Len'}

def spec_text(k):
    n = k.name
    kb = k.bounds.replace('K,', 'K' + KB[n] + ',', 1)
    return f'''
impl<{k.generics}> {n}<{k.params}> {{
    pub open spec fn ent(&self) -> Seq<(K, V)> {{ self.table.entries@ }}
}}
impl<{k.bounds}> {n}<{k.params}> {{
    // h is a hash code this map may use for k
    {k.code}
    // what memory safety rests on: holds whatever the user-supplied implementations do
    pub open spec fn safe(&self) -> bool {{ self.table.safe() {'&& ' + k.ok if k.ok else ''} }}
}}
impl<{k.generics}> {n}<{k.params}> {{
    // everything but the stored values is unchanged
    pub open spec fn same_but_values(a: Self, b: Self) -> bool {{
        &&& a.table.num_slots == b.table.num_slots && a.table.slots == b.table.slots
        &&& a.ent().len() == b.ent().len()
        &&& forall|i: int| 0 <= i < a.ent().len() ==> (#[trigger] a.ent()[i]).0 == b.ent()[i].0
        {''.join('&&& a.%s == b.%s ' % (f, f) for f in k.fields)}
    }}
}}
impl<{k.bounds}> {n}<{k.params}> {{
    // probing with a Q reaches every entry whose key equals it (see keeps_promises)
    pub open spec fn lawful<Q: {KEYB[n]}>(&self) -> bool where K: Borrow<Q> {{
        &&& eq_law::<Q>()
        &&& forall|q: &Q, h: u64, i: int| #[trigger] self.code(q, h) && 0 <= i < self.ent().len() && matches(*q, #[trigger] self.ent()[i]) ==> self.table.in_slot(h, i)
    }}
}}
impl<{kb}> {n}<{k.params}> {{
    // entry i lies in the slot its key's code selects
    pub open spec fn home(&self, i: int) -> bool {{
        exists|h: u64| self.code(&self.ent()[i].0, h) && #[trigger] self.table.in_slot(h, i)
    }}
    pub open spec fn wf(&self) -> bool {{
        self.safe() && forall|i: int| 0 <= i < self.ent().len() ==> #[trigger] self.home(i)
    }}
    // the promise user-supplied implementations make: equal keys have equal codes
    pub open spec fn promises<Q: {KEYB[n]}>(&self) -> bool where K: Borrow<Q> {{
        &&& eq_law::<Q>()
        &&& forall|k: &K, q: &Q, g: u64, h: u64| #[trigger] self.code(k, g) && #[trigger] self.code(q, h) && q.eq_spec(k.borrow_spec()) ==> g == h
    }}
    pub proof fn same_wf(a: Self, b: Self)
        requires a.wf(), Self::same_but_values(a, b)
        ensures b.wf()
    {{
        assert forall|i: int| 0 <= i < b.ent().len() implies #[trigger] b.home(i) by {{
            assert(a.home(i));
            assert(a.ent()[i].0 == b.ent()[i].0);
            let h = choose|h: u64| a.code(&a.ent()[i].0, h) && #[trigger] a.table.in_slot(h, i);
            assert(b.code(&b.ent()[i].0, h) && b.table.in_slot(h, i));
        }}
    }}
    pub proof fn promises_lawful<Q: {KEYB[n]}>(&self) where K: Borrow<Q>
        requires self.wf(), self.promises::<Q>()
        ensures self.lawful::<Q>()
    {{
        assert forall|q: &Q, h: u64, i: int| #[trigger] self.code(q, h) && 0 <= i < self.ent().len() && matches(*q, #[trigger] self.ent()[i]) implies self.table.in_slot(h, i) by {{
            assert(self.home(i));
        }}
    }}
}}
'''

def lookup_contracts(k):
    p, n = k.path, k.name
    req = '        self.safe(),\n' + (f'        {k.rel},\n' if k.rel else '')
    reqo = req.replace('self.', 'old(self).')
    contract(p, f'{n}::get_hash_info', ret='r', spec=f'''    requires
{req}    ensures
        r.start <= r.end <= self.ent().len(),
        exists|h: u64| #[trigger] self.code(key, h) && r.start == self.table.slot_of(h).min_index.v() && r.end == self.table.slot_of(h).max_index.v(),
''', at=({} if n in ('CommonMap',) else {'tail': '''proof { assert(self.code(key, hash_code)); }'''}), tail_bind='proof { assert(self.code(key, hash_code)); }')
    kw = 'K' + KB[n]
    loop_inv = f'''    invariant
        law == self.lawful::<Q>(),
        0 <= lo <= hi <= self.ent().len(),
        entries@ == self.ent().subrange(lo as int, hi as int),
        law ==> eq_law::<Q>(),
        law ==> forall|i: int| lo <= i < lo + it.index@ ==> !matches(*key, #[trigger] self.ent()[i]),
        law ==> forall|i: int| 0 <= i < self.ent().len() && matches(*key, #[trigger] self.ent()[i]) ==> lo <= i < hi,'''
    pre = '''let ghost law = self.lawful::<Q>();
let ghost lo = range.start as int;
let ghost hi = range.end as int;'''
    for fn in ('get', 'get_key_value'):
        contract(p, f'{n}::{fn}', ret='r',
            spec=f'    requires\n{req}    ensures\n        ans_{fn}(self.ent(), self.lawful::<Q>(), *key, r),\n',
            at={'before:let entries': pre, 'return0': '''proof {
    let i = lo + it.index@;
    assert(0 <= i < self.ent().len());
    assert(self.ent()[i] == *entry);
    assert(law ==> hit(self.ent(), *key, i));
}'''},
            loops={0: ('it', loop_inv)})
    contract(p, f'{n}::contains_key', ret='r',
        spec=f'    requires\n{req}    ensures\n        ans_contains(self.ent(), self.lawful::<Q>(), *key, r),\n')

def mut_contracts(k):
    p, n = k.path, k.name
    reqo = '        old(self).safe(),\n' + (f'        {k.rel},\n' if k.rel else '')
    contract(p, f'{n}::get_mut', ret='r',
        spec=f'''    requires
{reqo}    ensures
        match r {{
            Some(v) => ans_get_mut(old(self).ent(), old(self).lawful::<Q>(), *key, *v, *final(v), final(self).ent()),
            None => final(self).ent() == old(self).ent() && (old(self).lawful::<Q>() ==> miss(old(self).ent(), *key)),
        }},
        Self::same_but_values(*old(self), *final(self)),
''',
        at={'before:let entries': '''let ghost law = self.lawful::<Q>();
let ghost s0 = self.ent();
let ghost lo = range.start as int;
let ghost hi = range.end as int;''',
            'loop0.pre': '''let ghost n0 = it__src@.len();''',
            'loop0.mid': '''let ghost r0 = it.remaining();
let ghost mut k: int = 0;''',
            'loop0.begin': '''proof { k = k + 1; }''',
            'return0': '''proof {
    assert(has_resolved(it));
    assert forall|j: int| k <= j < r0.len() implies *final(#[trigger] r0[j]) == *r0[j] by {
        assert(it.remaining()[j - k] == r0[j]);
        assert(has_resolved(it.remaining()[j - k]));
    }
}'''},
        desugar={0: 'it'},
        loops={0: '''    invariant
        law ==> eq_law::<Q>(),
        0 <= lo <= hi <= s0.len(),
        it.obeys_prophetic_iter_laws(), it.decrease() is Some,
        0 <= k <= r0.len() == n0, r0.len() == hi - lo,
        it.remaining() == r0.skip(k),
        forall|i: int| 0 <= i < k ==> *final(#[trigger] r0[i]) == *r0[i],
        forall|i: int| lo <= i < hi ==> #[trigger] s0[i] == *r0[i - lo],
        law ==> forall|i: int| lo <= i < lo + k ==> !matches(*key, #[trigger] s0[i]),
        law ==> forall|i: int| 0 <= i < s0.len() && matches(*key, #[trigger] s0[i]) ==> lo <= i < hi,
    decreases n0 - k,'''})

for k in KINDS.values():
    lookup_contracts(k); mut_contracts(k)

def structs(k):
    return ('group', [('struct', k.path, k.name), ('text', spec_text(k))])
def lookups(k, part='fn'):
    return ('group', [(part, k.path, f'{k.name}::{f}') for f in ('get_hash_info', 'get', 'get_key_value', 'contains_key')])

# ---------------------------------------------------------------- construction
KBC = {'CommonMap': 'K: Hash', 'IntegerMap': 'K: PrimInt + AsPrimitive<u64>', 'LengthMap': 'K: Len + Eq', 'LeftSliceMap': 'K: SliceHash + Len + Eq', 'RightSliceMap': 'K: SliceHash + Len + Eq'}
CODE_OF = {  # as the closures of from_vec see it, before the map exists
 'CommonMap': 'bh.hashes({k}, {h})',
 'IntegerMap': '{h} == (*{k}).as_spec()',
 'LengthMap': '(exists|n: usize| #[trigger] ({k}).lens(n) && {h} == n as u64)',
 'LeftSliceMap': '(exists|n: usize| #[trigger] ({k}).lens(n) && if n >= range.end {{ ({k}).shashes(&bh, range, {h}) }} else {{ {h} == 0 }})',
 'RightSliceMap': '(exists|n: usize| #[trigger] ({k}).lens(n) && if n >= range.end {{ ({k}).shashes(&bh, ((n - range.end) as usize)..((n - range.start) as usize), {h}) }} else {{ {h} == 0 }})',
}
def made(k, seq):
    n = k.name
    s = f'''r.wf(), is_perm(r.ent(), {seq}), {seq}.len() <= S::max_v(),'''
    return s

def new_contracts(k):
    p, n = k.path, k.name
    slice_ = n in ('LeftSliceMap', 'RightSliceMap')
    req = ''
    if slice_: req += 'range.start <= range.end, '
    if n == 'RightSliceMap': req += 'len_det::<K>(), '
    reqs = f'    requires {req}\n' if req else ''
    fn = f'{n}::from_vec' if n in ('IntegerMap', 'LengthMap') else f'{n}::from_vec_with_hasher'
    extra = ''
    if 'bh' in k.fields: extra += ' r.bh == bh,'
    if slice_: extra += ' r.range == range,'
    co = lambda kk, h: CODE_OF[n].format(k=kk, h=h)
    contract(p, fn, ret='r',
        spec=f'''{reqs}    ensures {made(k, 'payload@')}{extra}
''',
        panic='payload@.len() > S::max_v()', redirect={'map': 'vmap'},
        at={'start': 'let ghost p0 = payload@;'},
        closures={0: f'|entry: &(K, V)| -> (h: u64) ensures {co("&entry.0", "h")}',
                  1: f'|k: &K| -> (h: u64) ensures {co("k", "h")}'},
        tail_bind='''proof {
    assert forall|i: int| 0 <= i < __r.ent().len() implies #[trigger] __r.home(i) by {
        assert(__r.table.entries@[i] == __r.ent()[i]);
    }
}''')
for k in KINDS.values(): new_contracts(k)
def new_fn(k):
    return f'{k.name}::from_vec' if k.name in ('IntegerMap', 'LengthMap') else f'{k.name}::from_vec_with_hasher'
