"""The frozen_map! macro: what it writes, and that what it writes makes the map it was given the entries of."""
from vx import contract
import c_small as sm, c_analyzers as an, c_facade as fa, c_view as cv, c_maps as mp
MM = 'macros/frozen_map.rs'
INTS = {'u8': ('0', '255'), 'u16': ('0', 'u16::MAX'), 'u32': ('0', 'u32::MAX'), 'u64': ('0', 'u64::MAX'), 'u128': ('0', 'u128::MAX'),
        **{f'i{n}': (f'i{n}::MIN', f'i{n}::MAX') for n in (8, 16, 32, 64, 128)}}
def chain(f, last): return ' else '.join(f'if s == "{t}"@ {{ {f(t)} }}' for t in INTS) + f' else {{ {last} }}'
def names():
    lits = list(INTS) + ['& str']
    return ('pub proof fn names()\n    ensures\n' + ''.join(f'        int_name("{t}"@), int_lo("{t}"@) == {a}, int_hi("{t}"@) == {b}, "{t}"@ != "& str"@,\n' for t, (a, b) in INTS.items()) + '        !int_name("& str"@),\n{\n    reveal(int_name); reveal(int_lo); reveal(int_hi);\n    '
            + ' '.join(f'reveal_strlit("{n}");' for n in lits) + '\n    ' + ' '.join(f'assert("{n}"@[{i}] == \'{ch}\');' for n in lits for i, ch in enumerate(n)) + '\n}')
SPEC = f'''
pub open spec fn kvt(s: Seq<Entry>) -> Seq<(Toks, Toks)> {{ Seq::new(s.len(), |i: int| (s[i].0.toks(), s[i].1.toks())) }}
// ---- the grammar: type, comma, then key : value, with or without commas between
pub open spec fn one_entry(ts: Toks, e: Entry, rest: Toks) -> bool {{
    exists|t1: Toks, c: Colon, t2: Toks, t3: Toks| #[trigger] Expr::reads(ts, e.0, t1) && #[trigger] Colon::reads(t1, c, t2) && #[trigger] Expr::reads(t2, e.1, t3)
        && if at_comma(t3) {{ (exists|d: Comma| #[trigger] Comma::reads(t3, d, rest)) }} else {{ rest == t3 }}
}}
pub open spec fn all_entries(ts: Toks, es: Seq<Entry>, rest: Toks) -> bool
    decreases es.len()
{{ if es.len() == 0 {{ rest == ts }} else {{ exists|mid: Toks| all_entries(ts, es.drop_last(), mid) && #[trigger] one_entry(mid, es.last(), rest) }} }}
pub proof fn entries_step(ts: Toks, es: Seq<Entry>, mid: Toks, rest: Toks)
    requires es.len() > 0, all_entries(ts, es.drop_last(), mid), one_entry(mid, es.last(), rest)
    ensures all_entries(ts, es, rest)
{{
    reveal_with_fuel(all_entries, 2);
}}
impl Parse for Map {{
    open spec fn reads(ts: Toks, t: Self, rest: Toks) -> bool {{
        rest.len() == 0 && exists|t1: Toks, c: Comma, t2: Toks| #[trigger] Type::reads(ts, t.ty, t1) && #[trigger] Comma::reads(t1, c, t2) && all_entries(t2, t.entries@, rest)
    }}
    open spec fn complete() -> bool {{ false }}
}}
// ---- the types with literals of their own
#[verifier::opaque]
pub open spec fn int_name(s: Seq<char>) -> bool {{ {chain(lambda t: 'true', 'false')} }}
#[verifier::opaque]
pub open spec fn int_lo(s: Seq<char>) -> int {{ {chain(lambda t: INTS[t][0] + ' as int', '0')} }}
#[verifier::opaque]
pub open spec fn int_hi(s: Seq<char>) -> int {{ {chain(lambda t: INTS[t][1] + ' as int', '0')} }}
pub open spec fn ints_in(kv: Seq<(Toks, Toks)>, lo: int, hi: int) -> bool {{ forall|i: int| 0 <= i < kv.len() ==> match lit_int((#[trigger] kv[i]).0) {{ Some(x) => lo <= x <= hi, None => false }} }}
pub open spec fn int_lits(kv: Seq<(Toks, Toks)>) -> bool {{ forall|i: int| 0 <= i < kv.len() ==> lit_int((#[trigger] kv[i]).0) is Some }}
pub open spec fn strs_in(kv: Seq<(Toks, Toks)>) -> bool {{ forall|i: int| 0 <= i < kv.len() ==> lit_str((#[trigger] kv[i]).0) is Some }}
// the keys are literals of the type named s
pub open spec fn literals(s: Seq<char>, kv: Seq<(Toks, Toks)>) -> bool {{
    (int_name(s) ==> ints_in(kv, int_lo(s), int_hi(s))) && (s == "& str"@ ==> strs_in(kv))
}}
// the keys are distinct integers that leave no gap
pub open spec fn key_at(kv: Seq<(Toks, Toks)>, i: int) -> int {{ lit_int(kv[i].0)->0 }}
pub open spec fn gapless(kv: Seq<(Toks, Toks)>) -> bool {{
    &&& forall|i: int, j: int| 0 <= i < j < kv.len() ==> #[trigger] key_at(kv, i) != #[trigger] key_at(kv, j)
    &&& forall|i: int, j: int, x: int| 0 <= i < kv.len() && 0 <= j < kv.len() && #[trigger] key_at(kv, i) <= x <= #[trigger] key_at(kv, j) ==> #[trigger] has_lit(kv, x)
}}
pub open spec fn has_lit(kv: Seq<(Toks, Toks)>, x: int) -> bool {{ exists|k: int| 0 <= k < kv.len() && #[trigger] key_at(kv, k) == x }}
// n entries can be counted by the integer type named s
pub open spec fn fits(s: Seq<char>, n: nat) -> bool {{ (s == "u8"@ && n <= u8::MAX) || (s == "u16"@ && n <= u16::MAX) || (s == "usize"@ && n <= usize::MAX) }}
// ---- what is asked for
pub open spec fn wanted_ty(m: Map) -> Toks {{ if m.entries@.len() >= 3 && shown(m.ty.toks()) == "& str"@ {{ string_type() }} else {{ m.ty.toks() }} }}
pub open spec fn stringy(kv: Seq<(Toks, Toks)>) -> Seq<(Toks, Toks)> {{ Seq::new(kv.len(), |i: int| (string_from(kv[i].0), kv[i].1)) }}
pub open spec fn wanted_kv(m: Map) -> Seq<(Toks, Toks)> {{ if m.entries@.len() >= 3 && shown(m.ty.toks()) == "& str"@ {{ stringy(kvt(m.entries@)) }} else {{ kvt(m.entries@) }} }}
{names()}
pub proof fn range_lits<K: PrimInt>(kv: Seq<(Toks, Toks)>, s: Seq<K>)
    requires kv.len() == s.len(), contiguous(keyed(s)), forall|i: int| 0 <= i < s.len() ==> lit_int((#[trigger] kv[i]).0) == Some(s[i].v())
    ensures gapless(kv)
{{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] key_at(kv, i) == keyed(s)[i].0.v() by {{ assert(lit_int(kv[i].0) == Some(s[i].v())); }}
    assert forall|i: int, j: int, x: int| 0 <= i < kv.len() && 0 <= j < kv.len() && #[trigger] key_at(kv, i) <= x <= #[trigger] key_at(kv, j) implies #[trigger] has_lit(kv, x) by {{
        assert(keyed(s)[i].0.v() <= x <= keyed(s)[j].0.v());
        assert(has_key(keyed(s), x));
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] keyed(s)[k]).0.v() == x;
        assert(key_at(kv, k) == x);
    }}
}}
'''
contract(MM, 'Entry::to_tokens@ToTokens', quotes={0: dict(fn='quote_pair', text='#key, #value', spec='    ensures r@ == paired(key.toks(), value.toks())')})
TYPES = {'key': 'Expr', 'value': 'Expr', 'original': 'TokenStream', 'map_type': 'Ident', 'ty': 'Type', 'payload_size': 'Ident', 'kv_pairs': 'Vec<Entry>', 'subslice_index': 'usize', 'subslice_len': 'usize'}
ENT_SPEC = '    open spec fn toks(&self) -> Toks { paired(self.0.toks(), self.1.toks()) }\n'

contract(MM, 'Map::parse@Parse', ret='r', header='impl Map', attrs='#[verifier::loop_isolation(false)]',
    spec='    ensures r is Ok ==> Map::reads(old(input)@, r->Ok_0, final(input)@),\n',
    sig_subst=[('ParseStream', '&mut ParseBuffer')], subst=[('Token![,]', 'Comma'), ('Token![:]', 'Colon')],
    at={'start': 'let ghost ts0 = input@;',
        'before:let mut entries': '',
        'before:while': '''let ghost ts2 = input@;
proof { assert(exists|t1: Toks, c: Comma| #[trigger] Type::reads(ts0, ty, t1) && #[trigger] Comma::reads(t1, c, ts2)); }''',
        'loop0.begin': 'let ghost mid = input@; let ghost before = entries@;',
        'after:let key = input.parse::<Expr>()?;': 'let ghost t1 = input@;',
        'before:let value': 'let ghost t2 = input@; proof { assert(exists|c: Colon| #[trigger] Colon::reads(t1, c, t2)); }',
        'before:entries.push(Entry(key, value));': 'let ghost t3 = input@; let ghost (k0, v0) = (key, value);',
        'loop0.end': '''proof {
    assert(entries@.drop_last() =~= before);
    assert(entries@.last() == Entry(k0, v0));
    assert(Expr::reads(mid, k0, t1) && Expr::reads(t2, v0, t3));
    if at_comma(t3) { assert(exists|d: Comma| #[trigger] Comma::reads(t3, d, input@)); } else { assert(input@ == t3); }
    let c = choose|c: Colon| #[trigger] Colon::reads(t1, c, t2);
    assert(Expr::reads(mid, entries@.last().0, t1) && Colon::reads(t1, c, t2) && Expr::reads(t2, entries@.last().1, t3));
    assert(one_entry(mid, entries@.last(), input@));
    assert(all_entries(ts2, entries@.drop_last(), mid));
    entries_step(ts2, entries@, mid, input@);
    assert(all_entries(ts2, entries@, input@));
}''',
        'tail': '''proof {
    let (t1, c) = choose|t1: Toks, c: Comma| #[trigger] Type::reads(ts0, ty, t1) && #[trigger] Comma::reads(t1, c, ts2);
    assert(Type::reads(ts0, ty, t1) && Comma::reads(t1, c, ts2) && all_entries(ts2, entries@, input@));
    let m = Map { ty, entries };
    assert(Type::reads(ts0, m.ty, t1) && Comma::reads(t1, c, ts2) && all_entries(ts2, m.entries@, input@));
    assert(input@.len() == 0);
    assert(Map::reads(ts0, m, input@));
}'''},
    loops={0: '''    invariant all_entries(ts2, entries@, input@)
    decreases input@.len()'''})

contract(MM, 'process_int_keys', ret='r', generics='<K: PrimInt>', where='', attrs='#[verifier::loop_isolation(false)]',
    spec='''    ensures match r {
        Ok(x) => ints_in(kvt(kv_pairs@), K::min_v(), K::max_v()) && (x == IntKeyAnalysisResult::Range ==> gapless(kvt(kv_pairs@))),
        Err(_) => !ints_in(kvt(kv_pairs@), K::min_v(), K::max_v()),
    },
''', redirect={'map': 'vmap', 'into_iter': 'vi_into_iter'}, closures={0: '|x: &Entry| -> (t: TokenStream) ensures t@ == x.0.toks()'},
    let_types={'parsed': 'Vec<K>'},
    at={'start': 'let ghost kv = kvt(kv_pairs@);',
        'loop0.begin': '''proof { axiom_lits(key@); assert(key@ == kv[it.index@].0); }''',
        'tail': 'proof { if is_range(parsed@) { range_lits(kv, parsed@); } }'},
    loops={0: ('it', '''    invariant
        it.snapshot.remaining().len() == kv.len(),
        forall|i: int| 0 <= i < kv.len() ==> (#[trigger] it.snapshot.remaining()[i])@ == kv[i].0,
        parsed@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> lit_int((#[trigger] kv[i]).0) == Some(parsed@[i].v()),''')})

contract(MM, 'process_string_keys', ret='r', attrs='#[verifier::loop_isolation(false)]',
    spec='''    requires keys.inv()
    ensures match r {
        Ok(x) => match x {
            SliceKeyAnalysisResult::LeftHandSubslice { subslice_index, subslice_len } => subslice_index + subslice_len <= usize::MAX,
            SliceKeyAnalysisResult::RightHandSubslice { subslice_index, subslice_len } => subslice_index + subslice_len <= usize::MAX,
            _ => true,
        },
        Err(_) => exists|i: int| 0 <= i < keys.rem().len() && lit_str((#[trigger] keys.rem()[i])@) is None,
    },
''', redirect={'map': 'vi_imap'}, subst=[('String::as_bytes', 'vstr_bytes')], let_types={'parsed': 'Vec<String>'}, desugar={0: ('it', 'model')},
    at={'start': 'let ghost ks = keys.rem();', 'loop0.mid': 'let ghost mut n: int = 0;', 'loop0.begin': 'proof { axiom_lits(key@); assert(key == ks[n]); n = n + 1; }'},
    loops={0: '''    invariant it.inv(), 0 <= n <= ks.len(), it.rem() == ks.skip(n)
    decreases it.rem().len()'''})

PATH = ('::frozen_collections::specialized_maps::', '')
VEC = ('vec![#((#kv_pairs),)*]', 'kv_pairs')
REP = [PATH, VEC, ('::std::hash::RandomState', 'RandomState'), ('#ty', 'K'), ('#subslice_index', 'subslice_index'), ('#subslice_len', 'subslice_len')]
SIZES = {'u8': 'u8::MAX', 'u16': 'u16::MAX', 'usize': 'usize::MAX'}
ENS = '    ensures r.wf(), is_perm(r.ent(), kv_pairs@),'
def progs(kinds, bound, sig='', req='', rh=''):
    return [dict(choice=[('#map_type', m), ('#payload_size', z)], sig=f'<K: {bound[m]}, V>(kv_pairs: Vec<(K, V)>{sig}) -> (r: {m}<K, V, {z}{rh if m != "CommonMap" else ""}>)',
                 spec=f'    requires kv_pairs@.len() <= {SIZES[z]},{req}\n{ENS}') for m in kinds for z in SIZES]
BOUND = {'CommonMap': 'Hash + Eq', 'IntegerMap': 'PrimInt + AsPrimitive<u64>', 'LengthMap': 'Len + Eq', 'LeftSliceMap': 'SliceHash + Eq', 'RightSliceMap': 'SliceHash + Eq'}
SL = ', subslice_index: usize, subslice_len: usize'
def made(extra): return '    requires ' + extra + '\n    ensures makes(r@, ty.toks(), kvt(kv_pairs@))'
def slices(m): return dict(fn='quote_' + m[:-8].lower(), replace=REP, spec=made(f'map_type@ == "LeftSliceMap"@ || map_type@ == "RightSliceMap"@, fits(payload_size@, kv_pairs@.len()), ty.toks() == string_type(), *subslice_index + *subslice_len <= usize::MAX,'),
    programs=progs(['LeftSliceMap', 'RightSliceMap'], BOUND, SL, ' subslice_index + subslice_len <= usize::MAX, len_det::<K>(),', ', RandomState'))
contract(MM, 'frozen_map_macro', ret='r', strmatch=True, attrs='#[verifier::loop_isolation(false)]',
    spec='    ensures is_error(r@) || exists|m: Map| #[trigger] Map::reads(args@, m, Seq::empty()) && makes(r@, wanted_ty(m), wanted_kv(m)),\n',
    # a macro that panics is a program that does not compile; it may where a key is no literal of the type given
    unwrap_panic='!literals(shown(m0.ty.toks()), kvt(m0.entries@))',
    subst=[('format!("{}",', 'vformat('), ('format_ident!("{}",', 'vident(', True)],
    redirect={'map': 'vi_imap'}, closures={0: '|x: &Entry| -> (t: TokenStream) ensures t@ == x.0.toks()'},
    let_types={'copy': 'Vec<Entry>'},
    quotes={
        0: dict(fn='quote_small', replace=REP, spec='    ensures makes(r@, ty.toks(), kvt(kv_pairs@))',
                programs=[dict(choice=[], sig='<K: Eq, V>(kv_pairs: Vec<(K, V)>) -> (r: ScanningMap<K, V>)', spec='    ensures r.wf(), r.ent() == kv_pairs@,')]),
        1: dict(fn='quote_string_from', text='String::from(#original)', spec='    ensures r@ == string_from(original@)'),
        2: dict(fn='quote_string', text='String', spec='    ensures r@ == string_type()'),
        3: slices('LeftSliceMap'), 4: slices('RightSliceMap'),
        5: dict(fn='quote_range', replace=REP, spec=made('map_type@ == "IntegerRangeMap"@, int_name(shown(ty.toks())), int_lits(kvt(kv_pairs@)), gapless(kvt(kv_pairs@)),'),
                programs=[dict(choice=[('#map_type', 'IntegerRangeMap')], sig='<K: PrimInt, V>(kv_pairs: Vec<(K, V)>) -> (r: IntegerRangeMap<K, V>)', spec=f'    requires contiguous(kv_pairs@),\n{ENS}')]),
        6: dict(fn='quote_hashed', replace=REP, spec=made('fits(payload_size@, kv_pairs@.len()), map_type@ == "CommonMap"@ || (map_type@ == "IntegerMap"@ && int_name(shown(ty.toks()))) || (map_type@ == "LengthMap"@ && ty.toks() == string_type()),'),
                programs=progs(['CommonMap', 'IntegerMap', 'LengthMap'], BOUND)),
    },
    at={'before:let mut kv_pairs': 'let ghost m0 = input; proof { names(); axiom_string_from(seq![]); let kv = kvt(m0.entries@); assert(forall|i: int| 0 <= i < kv.len() ==> kv[i].0 == (#[trigger] m0.entries@[i]).0.toks()); }',
        'loop0.begin': '''proof { axiom_string_from(kv.0.toks()); }''',
        'loop0.after': '''proof { assert(kvt(copy@) =~= stringy(kvt(m0.entries@))); }'''},
    loops={0: ('it', '''    invariant
        it.snapshot.remaining() == m0.entries@,
        copy@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] copy@[i]).0.toks() == string_from(m0.entries@[i].0.toks()) && copy@[i].1 == m0.entries@[i].1,''')})

DERIVE = '#[derive(PartialEq, Eq, Structural, Clone, Copy)]'
STRUCTS = ('group', [('struct', MM, 'Entry', [('Expr, Expr', 'pub Expr, pub Expr')]), ('struct', MM, 'Map'), ('enum', MM, 'KeyVariety')])
def front():
    return [('text', sm.RG_CONTIG), ('text', an.IK_SPEC), ('enum', an.IK, 'IntKeyAnalysisResult', (), '#[derive(PartialEq, Eq, Structural)]'), ('assume', an.IK, 'analyze_int_keys'),
            ('text', an.SK_SPEC), ('enum', an.SK, 'SliceKeyAnalysisResult', (), '#[derive(PartialEq, Eq, Structural)]'), ('assume', an.SK, 'analyze_slice_keys'),
            STRUCTS, ('text', SPEC), ('text', BYTES),
            ('quotes', MM, 'Entry::to_tokens@ToTokens', TYPES), ('trait_impl', MM, 'Entry', 'ToTokens', ENT_SPEC),
            ('fn', MM, 'Map::parse@Parse'), ('fn', MM, 'process_int_keys'), ('fn', MM, 'process_string_keys'),
            ('quotes', MM, 'frozen_map_macro', TYPES), ('fn', MM, 'frozen_map_macro')]
BYTES = '''
#[verifier::external_body]
pub fn vstr_bytes(s: &String) -> (r: &[u8]) { unimplemented!() }
'''
def programs():
    out = fa.maps()
    for n in ('ScanningMap', 'IntegerRangeMap', 'IntegerMap', 'LengthMap'): out.append(('assume_total', cv.VIEW[n].path, f'{n}::from_vec'))
    for n in ('CommonMap', 'LeftSliceMap', 'RightSliceMap'):
        v = cv.VIEW[n]
        out += [('assume_total', v.path, v.new), ('fn_total', v.path, f'{n}::from_vec')]
    return out + [('programs', MM, 'frozen_map_macro')]
