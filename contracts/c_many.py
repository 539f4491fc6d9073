"""get_many_mut of the maps and of the facade."""
from vx import contract
import c_maps as mp, c_small as sm

def many(path, name, req, law, q='Q', header=None, start=''):
    ty = 'K, ' + q + ', V'
    kw = {'header': header} if header else {}
    contract(path, f'{name}::get_many_mut', ret='r', **kw,
        spec=f'''{req}    ensures
        match r {{
            Some(v) => ans_many::<{ty}>(old(self).ent(), {law('old(self)')}, keys@, cur(v@)),
            None => ans_none::<{ty}>(old(self).ent(), {law('old(self)')}, keys@),
        }},
''',
        at={'start': f'''let ghost law = {law('self')};
let ghost s0 = self.ent();
let ghost m0 = *self;
let ghost mut at: Seq<int> = Seq::empty();{start}''',
            'return0': f'proof {{ assert(law ==> keys@[j as int].eq_spec(keys@[i as int])); }}'},
        redirect={'enumerate': 'vi_enumerate'},
        subst=[('let p = result.as_mut_ptr();', ''),
               ('*(*p).get_unchecked_mut(i) = transmute(self.get(key)?);', f'''let __v = match self.get(key) {{ Some(x) => x, None => {{ proof {{ assert(**key == *keys@[it.index@ as int]); }} return None; }} }};
proof {{
    let e = choose|e: int| 0 <= e < s0.len() && *__v == (#[trigger] s0[e]).1 && (law ==> hit::<{ty}>(s0, **key, e));
    at = at.push(e);
}}
result.put(i, __v);'''),
               ('Some(result.assume_init())', f'''let __r = result.assume_init();
proof {{ picked::<{ty}>(s0, law, keys@, cur(__r@), at); }}
Some(__r)''')],
        loops={0: ('it', f'''    invariant
        keys@.len() == N, it.snapshot.start == 0, it.snapshot.end == N,
        law == {law('old(self)')}, law ==> eq_law::<{q}>(),
        law ==> forall|a: int, b: int| #![trigger keys@[a], keys@[b]] 0 <= a < b < it.index@ ==> !keys@[a].eq_spec(keys@[b]),'''),
               1: ('it', f'''    invariant
        keys@.len() == N, i < N, it.snapshot.start == 0, it.snapshot.end == i,
        law == {law('old(self)')}, law ==> eq_law::<{q}>(),
        law ==> forall|a: int| 0 <= a < it.index@ ==> !(#[trigger] keys@[a]).eq_spec(keys@[i as int]),'''),
               2: ('it', f'''    invariant
        *self == m0, m0 == *old(self), s0 == m0.ent(), law == {law('m0')}, {req.replace('requires', '').strip().rstrip(',').replace('old(self)', 'm0') or 'true'},
        law ==> apart(keys@),
        it.seq().len() == N, keys@.len() == N,
        forall|i: int| 0 <= i < N ==> (#[trigger] it.seq()[i]).0 == i && it.seq()[i].1 === &keys@[i],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] result.got().dom().contains(i),
        at.len() == it.index@,
        forall|i: int| 0 <= i < at.len() ==> 0 <= #[trigger] at[i] < s0.len() && result.got()[i] == s0[at[i]].1 && (law ==> hit::<{ty}>(s0, *keys@[i], at[i])),''')})
for k in mp.KINDS.values():
    many(k.path, k.name, '    requires old(self).safe(),' + (f' {k.rel},' if k.rel else '') + '\n', lambda s: f'{s}.lawful::<Q>()')
many(sm.SC, 'ScanningMap', '', lambda s: f'{s}.lawful::<Q>()')
many(sm.RG, 'IntegerRangeMap', '    requires old(self).wf(), old(self).lawful::<Q>(),\n', lambda s: f'{s}.lawful::<Q>()', header=sm.RH)
many('facades/frozen_map.rs', 'FrozenMap', '    requires old(self).wf(),\n', lambda s: f'{s}.promises()', q='K', start='\nproof { if law { self.map_impl.eq_ok(); } }')
