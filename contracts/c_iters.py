"""Iterators of maps and sets."""
from vx import contract
MI = 'specialized_maps/iterators.rs'
SI = 'specialized_sets/iterators.rs'

def trait_extra(inv, rem, item):
    return f'''    open spec fn inv(&self) -> bool {{ {inv} }}
    open spec fn rem(&self) -> Seq<{item}> {{ {rem} }}
'''
STEP = {'before:Some(#0': '''proof { assert(self.rem() =~= old(self).rem().skip(1)); }'''}
# --- maps
ENT = 'Seq::new((self.entries@.len() - self.index) as nat, |k: int| %s)'
contract(MI, 'Iter::new', ret='r', spec='''    ensures r.inv(), r.entries == entries, r.index == 0, iter_of(r.rem(), entries@),
''', tail_bind='proof { assert(iter_of(__r.rem(), entries@)); }')
contract(MI, 'Iter::next@Iterator', at={'before:Some(': 'proof { assert(self.rem() =~= old(self).rem().skip(1)); }'})
contract(MI, 'Iter::size_hint@Iterator', ret='r', spec='    ensures r.0 == self.rem().len(), r.1 == Some(r.0),\n')
contract(MI, 'Iter::clone@Clone')
MI_SPEC = '''
pub open spec fn iter_of<K, V>(r: Seq<(&K, &V)>, s: Seq<(K, V)>) -> bool {
    &&& r.len() == s.len()
    &&& forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i].0 == s[i].0 && *r[i].1 == s[i].1
}
pub open spec fn keys_of<K, V>(r: Seq<&K>, s: Seq<(K, V)>) -> bool {
    &&& r.len() == s.len()
    &&& forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i] == s[i].0
}
pub open spec fn values_of<K, V>(r: Seq<&V>, s: Seq<(K, V)>) -> bool {
    &&& r.len() == s.len()
    &&& forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r[i] == s[i].1
}
'''
for ty, ix, item, of in (('Keys', '0', '&K', 'keys_of'), ('Values', '1', '&V', 'values_of')):
    contract(MI, f'{ty}::new', ret='r', spec=f'    ensures r.inv(), r.inner.entries == entries, r.inner.index == 0, {of}(r.rem(), entries@),\n',
             tail_bind=f'proof {{ assert({of}(__r.rem(), entries@)); }}')
    contract(MI, f'{ty}::next@Iterator', closures={0: f"|x: (&'a K, &'a V)| -> (r: {item.replace('&', chr(38) + chr(39) + 'a ')}) ensures r == x.{ix}"},
             tail_bind='proof { if __r is Some { assert(self.rem() =~= old(self).rem().skip(1)); } else { assert(self.rem() =~= old(self).rem()); } }')
    contract(MI, f'{ty}::fold@Iterator', sig_subst=[('FnMut', 'Fn'), ('mut f', 'f')],
             closures={0: ('a, p', f"|a: B, p: (&'a K, &'a V)| -> (r: B) requires f.requires((a, p.{ix})) ensures f.ensures((a, p.{ix}), r)")},
             tail_bind=f'''proof {{
    let inner = self.inner.rem();
    assert(folded(f, init, self.rem(), __r)) by {{
        let acc = choose|acc: Seq<B>| #![auto] acc[0] == init && acc[inner.len() as int] == __r && acc.len() == inner.len() + 1
            && forall|i: int| 0 <= i < inner.len() ==> f.ensures((acc[i], (#[trigger] inner[i]).{ix}), acc[i + 1]);
        assert(fold_steps(f, self.rem(), acc));
    }}
}}''')
    contract(MI, f'{ty}::size_hint@Iterator', ret='r', spec='    ensures r.0 == self.rem().len(), r.1 == Some(r.0),\n')

def map_iters():
    parts = [('struct', MI, 'Iter'), ('struct', MI, 'Keys'), ('struct', MI, 'Values'), ('text', MI_SPEC)]
    ii = trait_extra('self.index <= self.entries@.len()', ENT % '(&self.entries@[self.index + k].0, &self.entries@[self.index + k].1)', "(&'a K, &'a V)")
    parts += [('fn', MI, 'Iter::new'), ('trait_impl', MI, 'Iter', 'Clone', ''), ('trait_impl', MI, 'Iter', 'Iterator', ii),
              ('trait_impl', MI, 'Iter', 'ExactSizeIterator', ''), ('trait_impl', MI, 'Iter', 'FusedIterator', '')]
    for ty, ix, item in (('Keys', '0', "&'a K"), ('Values', '1', "&'a V")):
        ii = trait_extra('self.inner.inv()', f'Seq::new(self.inner.rem().len(), |k: int| self.inner.rem()[k].{ix})', item)
        parts += [('fn', MI, f'{ty}::new'), ('trait_impl', MI, ty, 'Clone', ''), ('trait_impl', MI, ty, 'Iterator', ii),
              ('trait_impl', MI, ty, 'ExactSizeIterator', ''), ('trait_impl', MI, ty, 'FusedIterator', '')]
    return ('group', parts)
