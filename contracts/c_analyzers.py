"""Analyses of integer keys and of slice keys."""
from vx import contract
import c_small as sm
IK, SK = 'analyzers/int_key_analyzer.rs', 'analyzers/slice_key_analyzer.rs'
IK_SPEC = '''
pub open spec fn is_range<K: PrimInt>(s: Seq<K>) -> bool { s.len() > 0 && contiguous(keyed(s)) }
pub proof fn keyed_perm<K>(a: Seq<K>, b: Seq<K>)
    requires is_perm(a, b)
    ensures is_perm(keyed(a), keyed(b))
{ perm_map(a, b, keyed(a), keyed(b), |x: K| (x, ())); }
'''
contract(IK, 'analyze_int_keys', ret='r', spec='    requires keys.inv()\n    ensures (r == IntKeyAnalysisResult::Range) == is_range(keys.rem()), (r == IntKeyAnalysisResult::Normal) == !is_range(keys.rem()),\n',
    redirect={'collect': 'vi_collect'}, attrs='#[verifier::loop_isolation(false)]', at={
        'start': 'let ghost p0 = keys.rem();',
        'before:for i': '''let ghost u = keys@;
proof {
    keyed_perm(u, p0);
    assert(keyed(u).len() == u.len());
    assert forall|a: int, b: int| 0 <= a < b < u.len() implies (#[trigger] keyed(u)[a]).0.v() <= (#[trigger] keyed(u)[b]).0.v() by { assert(u[a].cmp_spec(&u[b]) != std::cmp::Ordering::Greater); }
}''',
        'loop0.begin': '''proof {
    if u[i - 1].v() + 1 != u[i as int].v() {
        gap_not_contiguous(keyed(u), i as int);
        if contiguous(keyed(p0)) { perm_sym(keyed(u), keyed(p0)); contiguous_perm(keyed(p0), keyed(u)); }
    }
}''',
        'loop0.after': 'proof { consecutive_contiguous(keyed(u)); contiguous_perm(keyed(u), keyed(p0)); }'},
    loops={0: ('it', '''    invariant
        keys@ == u, is_perm(keyed(u), keyed(p0)), u.len() > 0, p0.len() > 0,
        it.snapshot.start == 1, it.snapshot.end == u.len(),
        forall|a: int, b: int| 0 <= a < b < u.len() ==> (#[trigger] keyed(u)[a]).0.v() <= (#[trigger] keyed(u)[b]).0.v(),
        forall|j: int| 0 <= j < 1 + it.index@ ==> (#[trigger] keyed(u)[j]).0.v() == keyed(u)[0].0.v() + j,''')})
IK_PARTS = [('text', sm.RG_CONTIG), ('text', IK_SPEC), ('enum', IK, 'IntKeyAnalysisResult'), ('fn', IK, 'analyze_int_keys')]

# ---- slice keys
SK_SPEC = '''
use std::collections::{HashMap, HashSet};
impl<T: Hash> Hash for [T] {}
#[verifier::external_body]
pub fn percentage(n: usize) -> usize { unimplemented!() }
// how many of the first n keys have length l
pub open spec fn cnt<T>(s: Seq<&[T]>, n: int, l: int) -> int
    decreases n
{ if n <= 0 { 0 } else { cnt(s, n - 1, l) + if s[n - 1]@.len() == l { 1int } else { 0 } } }
pub open spec fn lengths_ok<T>(s: Seq<&[T]>) -> bool { s.len() <= 255 && forall|l: int| #[trigger] cnt(s, s.len() as int, l) <= 3 }
pub open spec fn within<T>(s: Seq<&[T]>, i: usize, n: usize) -> bool { forall|j: int| 0 <= j < s.len() ==> i + n <= (#[trigger] s[j])@.len() }
pub open spec fn advised<T>(s: Seq<&[T]>, r: SliceKeyAnalysisResult) -> bool {
    match r {
        SliceKeyAnalysisResult::Normal => true,
        SliceKeyAnalysisResult::Length => lengths_ok(s),
        SliceKeyAnalysisResult::LeftHandSubslice { subslice_index, subslice_len } => subslice_len > 0 && subslice_index + subslice_len <= usize::MAX && within(s, subslice_index, subslice_len),
        SliceKeyAnalysisResult::RightHandSubslice { subslice_index, subslice_len } => subslice_len > 0 && subslice_index + subslice_len <= usize::MAX && within(s, subslice_index, subslice_len),
    }
}
'''
contract(SK, 'analyze_lengths', ret='r', spec='    ensures r == SliceKeyAnalysisResult::Normal || (r == SliceKeyAnalysisResult::Length && lengths_ok(keys@)),\n',
    let_types={'lengths': 'HashMap<usize, usize>'},
    loops={0: ('it', '''    invariant
        keys@.len() <= 255,
        it.snapshot.remaining().len() == keys@.len(),
        forall|i: int| 0 <= i < keys@.len() ==> *(#[trigger] it.snapshot.remaining()[i]) == keys@[i],
        forall|l: usize| lengths@.contains_key(l) ==> #[trigger] lengths@[l] == cnt(keys@, it.index@, l as int) && lengths@[l] <= 3,
        forall|l: int| !(0 <= l <= usize::MAX && lengths@.contains_key(l as usize)) ==> #[trigger] cnt(keys@, it.index@, l) == 0,''')},
    at={'loop0.begin': '''assert(*s == keys@[it.index@]);
assert forall|l: int| #[trigger] cnt(keys@, it.index@ + 1, l) == cnt(keys@, it.index@, l) + if s@.len() == l { 1int } else { 0 } by {}''',
    'tail': '''assert forall|l: int| #[trigger] cnt(keys@, keys@.len() as int, l) <= 3 by { if 0 <= l <= usize::MAX && lengths@.contains_key(l as usize) { assert(lengths@[l as usize] <= 3); } }'''})
contract(SK, 'is_sufficiently_unique', spec='    requires within(keys@, subslice_index, subslice_len), subslice_index + subslice_len <= usize::MAX || keys@.len() == 0,\n',
    loops={0: ('it', '''    invariant
        within(keys@, subslice_index, subslice_len), subslice_index + subslice_len <= usize::MAX || keys@.len() == 0,
        it.snapshot.remaining().len() == keys@.len(),
        forall|i: int| 0 <= i < keys@.len() ==> *(#[trigger] it.snapshot.remaining()[i]) == keys@[i],''')},
    at={'loop0.begin': 'assert(*s == keys@[it.index@]);'})
contract(SK, 'analyze_subslices', ret='r', spec='    ensures !(r is Length), advised(keys@, r),\n',
    subst=[('((keys.len() as f64) * ACCEPTABLE_DUPLICATE_PERCENT) as usize', 'percentage(keys.len())')],
    loops={0: ('it', '''    invariant
        it.snapshot.remaining().len() == keys@.len(),
        forall|i: int| 0 <= i < keys@.len() ==> *(#[trigger] it.snapshot.remaining()[i]) == keys@[i],
        forall|i: int| 0 <= i < it.index@ ==> min_len <= (#[trigger] keys@[i])@.len(),'''),
     1: '''    invariant
        subslice_len > 0, max_subslice_len <= min_len, max_subslice_len <= 16,
        forall|i: int| 0 <= i < keys@.len() ==> min_len <= (#[trigger] keys@[i])@.len(),
    decreases max_subslice_len + 1 - subslice_len''',
     2: '''    invariant
        0 < subslice_len <= min_len,
        forall|i: int| 0 <= i < keys@.len() ==> min_len <= (#[trigger] keys@[i])@.len(),
    decreases min_len - subslice_len + 1 - subslice_index''',
     3: '''    invariant
        0 < subslice_len <= min_len,
        forall|i: int| 0 <= i < keys@.len() ==> min_len <= (#[trigger] keys@[i])@.len(),
    decreases min_len - subslice_len + 1 - subslice_index'''},
    at={'loop0.begin': 'assert(*s == keys@[it.index@]);'})
contract(SK, 'analyze_slice_keys', ret='r', spec='    requires keys.inv()\n    ensures advised(keys.rem(), r),\n', redirect={'collect': 'vi_collect'})
import c_algebra as ca
SK_PARTS = [ca.MINMAX, ('text', SK_SPEC), ('enum', SK, 'SliceKeyAnalysisResult', (), '#[derive(PartialEq, Eq, Structural)]')] + [('fn', SK, f) for f in ('analyze_lengths', 'is_sufficiently_unique', 'analyze_subslices', 'analyze_slice_keys')]
