from vx import contract
HT = 'specialized_maps/hash_table.rs'

SPEC = r'''
impl<K, V, S: PrimInt> HashTable<K, V, S> {
    pub open spec fn safe(&self) -> bool {
        &&& self.slots@.len() > 0
        &&& self.num_slots.n == self.slots@.len()
        &&& self.entries@.len() <= usize::MAX
        &&& forall|s: int| 0 <= s < self.slots@.len() ==>
            0 <= (#[trigger] self.slots@[s]).min_index.v() <= self.slots@[s].max_index.v() <= self.entries@.len()
    }
    pub open spec fn slot_of(&self, h: u64) -> HashTableSlot<S> { self.slots@[(h % self.num_slots.n) as int] }
    // position i lies in the slot hash code h selects
    pub open spec fn in_slot(&self, h: u64, i: int) -> bool {
        self.slot_of(h).min_index.v() <= i < self.slot_of(h).max_index.v()
    }
}
impl<K, V, S: PrimInt> HashTable<K, V, S> {
    // position i lies in the slot selected by the hash code of e's key
    pub open spec fn placed<F: Fn(&K) -> u64>(&self, e: (K, V), hash: F, i: int) -> bool {
        exists|h: u64| #[trigger] hash.ensures((&e.0,), h) && self.in_slot(h, i)
    }
}
pub open spec fn slot_ok<K, V, F: Fn(&K) -> u64>(item: PrepItem<K, V>, hash: F, n: int) -> bool {
    exists|h: u64| #[trigger] hash.ensures((&item.entry.0,), h) && item.hash_slot_index == h as int % n
}
pub proof fn perm_preserves<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(T) -> bool)
    requires is_perm(a, b), forall|i: int| 0 <= i < b.len() ==> p(#[trigger] b[i])
    ensures forall|i: int| 0 <= i < a.len() ==> p(#[trigger] a[i])
{
    let (x, y) = choose|x: Seq<int>, y: Seq<int>| perm_by(a, b, x, y);
    assert forall|i: int| 0 <= i < a.len() implies p(#[trigger] a[i]) by { assert(a[i] == b[x[i]]); }
}
'''

contract(HT, 'HashTable::new', ret='r',
    spec='''    requires
        payload@.len() > 0 ==> num_hash_slots > 0,
        forall|k: &K| hash.requires((k,)),
    ensures
        r.safe(),
        is_perm(r.entries@, payload@),
        payload@.len() <= S::max_v(),
        forall|i: int| 0 <= i < r.entries@.len() ==> r.placed(#[trigger] r.entries@[i], hash, i),
''',
    panic='payload@.len() > S::max_v()',
    tail_bind='''proof {
    assert forall|i: int| 0 <= i < __r.entries@.len() implies __r.placed(#[trigger] __r.entries@[i], hash, i) by {
        let x = q[n - 1 - i];
        assert(slot_ok(x, hash, num_hash_slots as int));
        let h = choose|h: u64| #[trigger] hash.ensures((&x.entry.0,), h) && x.hash_slot_index == h as int % num_hash_slots as int;
        assert(hash.ensures((&__r.entries@[i].0,), h));
        assert(h as int % num_hash_slots as int == h % num_hash_slots as u64);
        assert(__r.in_slot(h, i));
        assert(__r.placed(__r.entries@[i], hash, i));
    }
}''',
    let_types={'prep_items': 'Vec<PrepItem<K, V>>', 'slots': 'Vec<HashTableSlot<S>>', 'entries': 'Vec<(K, V)>'},
   
    at={
        'start': '''let ghost p0 = payload@;
proof { perm_refl(p0); assert(p0.len() == 0 ==> p0 =~= Seq::empty()); }''',
        'loop0.end': '''proof {
    let x = prep_items@.last();
    assert(hash.ensures((&x.entry.0,), hash_code));
    assert(slot_ok(x, hash, num_hash_slots as int));
}''',
        'loop0.before': 'let ghost num = num_hash_slots as int;',
        'before:prep_items.sort_unstable_by': '''let ghost qp = prep_items@;
proof {
    assert(qp.map_values(|x: PrepItem<K, V>| x.entry) =~= p0);
}''',
        'before:let mut entry_index': '''let ghost q = prep_items@;
let ghost n = q.len();
proof {
    perm_map(q, qp, q.map_values(|x: PrepItem<K, V>| x.entry), p0, |x: PrepItem<K, V>| x.entry);
    perm_preserves(q, qp, |x: PrepItem<K, V>| slot_ok(x, hash, num_hash_slots as int));
    assert(q.take(n as int) =~= q);
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] q[a].hash_slot_index <= #[trigger] q[b].hash_slot_index by {}
    assert forall|a: int| 0 <= a < n implies 0 <= #[trigger] q[a].hash_slot_index < num_hash_slots by {
        let x = q[a];
        assert((|x: PrepItem<K, V>| slot_ok(x, hash, num_hash_slots as int))(x));
        assert(slot_ok(x, hash, num_hash_slots as int));
    }
}''',
        'loop2.before': 'let ghost e0 = entry_index as int;',
        'loop2.after': '''proof {
    let m = prep_items@.len() as int;
    assert forall|a: int, b: int| 0 <= a < m <= b < n implies #[trigger] q[a].hash_slot_index < #[trigger] q[b].hash_slot_index by {
        assert(q[a].hash_slot_index <= q[m - 1].hash_slot_index);
        assert(prep_items@[m - 1] == q[m - 1]);
        if b < n - e0 { assert(q[b].hash_slot_index == hash_slot_index); }
    }
    assert(e0 + num_entries == entries@.len() <= S::max_v());
    assert forall|a: S, b: S| a.v() == e0 && b.v() == num_entries implies #[trigger] a.add_req(b) && a.add_spec(b).v() == e0 + num_entries by { ax::axiom_prim_add(a, b); assert(S::min_v() == 0); }
}
let ghost slots0 = slots@;''',
        'loop1.end': '''proof {
    let nw = slots@[hash_slot_index as int];
    assert(nw.min_index.v() == e0);
    assert(nw.max_index.v() == e0 + num_entries);
    assert forall|i: int| 0 <= i < e0 implies (#[trigger] q[n - 1 - i]).hash_slot_index != hash_slot_index by {
        assert(q[prep_items@.len() as int].hash_slot_index == hash_slot_index);
    }
}''',
        'tail': '''proof {
    assert(prep_items@.len() == 0);
    let qe = q.map_values(|x: PrepItem<K, V>| x.entry);
    assert forall|i: int| 0 <= i < entries@.len() implies #[trigger] entries@[i] == qe[qe.len() - 1 - i] by {}
    perm_reverse(entries@, qe);
    perm_trans(entries@, qe, p0);
    assert forall|i: int| 0 <= i < entries@.len() implies slot_ok(#[trigger] q[n - 1 - i], hash, num_hash_slots as int) by {
        let x = q[n - 1 - i];
        assert((|x: PrepItem<K, V>| slot_ok(x, hash, num_hash_slots as int))(x));
    }
}''',
    },
    closures={
        0: '|max: usize| -> (b: bool) ensures b == (payload@.len() > max)',
        1: '|x: &PrepItem<K, V>, y: &PrepItem<K, V>| -> (o: std::cmp::Ordering) ensures o == (if x.hash_slot_index < y.hash_slot_index { std::cmp::Ordering::Less } else if x.hash_slot_index == y.hash_slot_index { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })',
        2: '|| -> (s: HashTableSlot<S>) ensures s.min_index.v() == 0, s.max_index.v() == 0',
    },
    loops={
        0: ('it', '''    invariant
        num_hash_slots > 0,
        forall|k: &K| hash.requires((k,)),
        prep_items@.len() == it.index@,
        it.seq() == p0,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] prep_items@[i]).entry == p0[i],
        forall|i: int| 0 <= i < it.index@ ==> slot_ok(#[trigger] prep_items@[i], hash, num_hash_slots as int),'''),
        1: '''    invariant
        n == q.len() == p0.len(), n <= S::max_v(), num_hash_slots > 0, n <= usize::MAX,
        slots@.len() == num_hash_slots,
        prep_items@.len() <= n,
        prep_items@ == q.take(prep_items@.len() as int),
        entries@.len() == n - prep_items@.len(), entry_index == entries@.len(),
        forall|i: int| 0 <= i < entries@.len() ==> #[trigger] entries@[i] == q[n - 1 - i].entry,
        forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] q[a].hash_slot_index <= #[trigger] q[b].hash_slot_index,
        forall|a: int, b: int| 0 <= a < prep_items@.len() <= b < n ==> #[trigger] q[a].hash_slot_index < #[trigger] q[b].hash_slot_index,
        forall|a: int| 0 <= a < n ==> 0 <= #[trigger] q[a].hash_slot_index < num_hash_slots,
        forall|s: int| 0 <= s < slots@.len() ==> 0 <= (#[trigger] slots@[s]).min_index.v() <= slots@[s].max_index.v() <= entry_index,
        forall|i: int| 0 <= i < entry_index ==> slots@[(#[trigger] q[n - 1 - i]).hash_slot_index as int].min_index.v() <= i < slots@[q[n - 1 - i].hash_slot_index as int].max_index.v(),
    ensures prep_items@.len() == 0,
    decreases prep_items@.len(),''',
        2: '''    invariant_except_break
        n == q.len() <= usize::MAX, n <= S::max_v(),
        prep_items@.len() < n,
        e0 == entry_index,
        prep_items@ == q.take(prep_items@.len() as int),
        item == q[prep_items@.len() as int],
        item.hash_slot_index == hash_slot_index,
        entries@.len() == n - prep_items@.len() - 1,
        entry_index + num_entries == entries@.len(), entry_index <= n,
        prep_items@.len() < n - e0,
        forall|i: int| 0 <= i < entries@.len() ==> #[trigger] entries@[i] == q[n - 1 - i].entry,
        forall|b: int| prep_items@.len() <= b < n - e0 ==> (#[trigger] q[b]).hash_slot_index == hash_slot_index,
    ensures
        n == q.len() <= S::max_v(), e0 == entry_index,
        prep_items@.len() < n - e0,
        prep_items@ == q.take(prep_items@.len() as int),
        entries@.len() == n - prep_items@.len(),
        entry_index + num_entries == entries@.len(),
        forall|i: int| 0 <= i < entries@.len() ==> #[trigger] entries@[i] == q[n - 1 - i].entry,
        forall|b: int| prep_items@.len() <= b < n - e0 ==> (#[trigger] q[b]).hash_slot_index == hash_slot_index,
        prep_items@.len() > 0 ==> prep_items@[prep_items@.len() - 1].hash_slot_index != hash_slot_index,
    decreases prep_items@.len(),''',
    })

contract(HT, 'HashTable::get_hash_info', ret='r',
    spec='''    requires self.safe(),
    ensures r.start == self.slot_of(hash_code).min_index.v(), r.end == self.slot_of(hash_code).max_index.v(),
        r.start <= r.end <= self.entries@.len(),
''')
contract(HT, 'HashTable::len', ret='r', spec='    ensures r == self.entries@.len(),\n')

STRUCTS = ('group', [('struct', HT, 'HashTable'), ('struct', HT, 'HashTableSlot'), ('struct', HT, 'PrepItem'), ('text', SPEC)])
VERIFIED = ('group', [('fn', HT, 'HashTable::new'), ('fn', HT, 'HashTable::get_hash_info'), ('fn', HT, 'HashTable::len')])
ASSUMED = ('group', [('assume', HT, 'HashTable::new'), ('assume', HT, 'HashTable::get_hash_info'), ('assume', HT, 'HashTable::len')])
