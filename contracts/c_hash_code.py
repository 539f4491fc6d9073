from vx import contract
HC = 'analyzers/hash_code_analyzer.rs'

SPEC = r'''
// slot s of a table of the given size is hit by one of the first k codes
pub open spec fn occupied(codes: Seq<u64>, size: int, k: int, s: int) -> bool {
    exists|i: int| 0 <= i < k && #[trigger] codes[i] as int % size == s
}
// how many of the first k codes fall on a slot an earlier one occupies
pub open spec fn collisions(codes: Seq<u64>, size: int, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else {
        collisions(codes, size, k - 1) + if occupied(codes, size, k - 1, codes[k - 1] as int % size) { 1int } else { 0int }
    }
}
pub open spec fn prime(p: int) -> bool { p > 1 && forall|d: int| 1 < d < p ==> #[trigger] (p % d) != 0 }
// Bertrand's postulate: there is an odd prime between n and 2n
pub axiom fn bertrand(n: int) -> (p: int)
    requires n >= 3
    ensures n <= p < 2 * n, p % 2 == 1, prime(p);
// a Vec<u64> occupies at most isize::MAX bytes
pub axiom fn vec_u64_bound(v: Vec<u64>)
    ensures v@.len() <= 0x0fff_ffff_ffff_ffff;
// IEEE 754 square root of an integer, truncated
#[verifier::external_body]
pub fn vsqrt(c: u64) -> (r: u64)
    ensures r <= 0x1_0000_0000, c > 5 ==> r < c
{ unimplemented!() }
#[verifier::external_body]
pub struct BitVec { b: Vec<bool> }
impl View for BitVec { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl BitVec {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BitVec) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: BitVec) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, b: bool)
        ensures final(self)@.len() == n, old(self)@.len() == 0 ==> forall|i: int| 0 <= i < n ==> #[trigger] final(self)@[i] == b { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&mut self, b: bool)
        ensures final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < final(self)@.len() ==> #[trigger] final(self)@[i] == b { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: usize, b: bool)
        requires i < old(self)@.len()
        ensures final(self)@ == old(self)@.update(i as int, b) { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<usize> for BitVec {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}
impl std::ops::Index<usize> for BitVec {
    type Output = bool;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &bool) ensures *r == self@[i as int] { unimplemented!() }
}
pub open spec fn sizing_ok(codes: Seq<u64>, slots: int, num_collisions: int) -> bool {
    let n = codes.len();
    &&& n == 0 ==> slots == 0
    &&& n > 0 ==> slots > 0
    &&& n < 128 ==> slots >= n
    &&& n >= 128 ==> 20 * (n - slots) <= n
    &&& slots <= 16 * n
    &&& num_collisions == collisions(codes, slots, n as int)
}
'''

contract(HC, 'analyze_hash_codes', ret='r',
    spec='''    ensures
        hash_codes.obeys_prophetic_iter_laws() ==> hash_codes.will_return_none(),
        hash_codes.obeys_prophetic_iter_laws() ==> sizing_ok(hash_codes.remaining(), r.num_hash_slots as int, r._num_hash_collisions as int),
''',
    let_types={'sizes': 'Vec<usize>'},
    redirect={'extend': 'vextend'},
    desugar={2: 'it', 3: 'jt'},
    at={
        'before:let mut acceptable_collisions': '''proof { vec_u64_bound(hash_codes); }
let ghost codes = hash_codes@;
let ghost n = codes.len() as int;''',
        'loop0.begin': '''let ghost size0 = size as int;
assert(forall|x: usize| x < 0x7fff_ffff_ffff_ffffusize ==> #[trigger] (x | 1) >= x && (x | 1) <= x + 1 && (x | 1) % 2 == 1) by (bit_vector);''',
        'tail': 'assert(sizing_ok(codes, best_size as int, best_num_collisions as int));',
        'loop1.before': 'let ghost pr = bertrand(size as int);',
        'loop2.pre': '''let ghost sz = sizes@;
let ghost mut k: int = 0;
assert(sz[0] == n);''',
        'loop2.begin': 'proof { k = k + 1; }',
        'loop3.pre': '''let ghost mut j: int = 0;
let ghost best0 = best_num_collisions;
let ghost zsize = size as int;''',
        'loop3.begin': '''proof { j = j + 1; assert(*code == codes[j - 1]);
    assert(collisions(codes, zsize, 1) == collisions(codes, zsize, 0)) by { assert(!occupied(codes, zsize, 0, codes[0] as int % zsize)); }
}
let ghost t0 = use_table@;''',
        'loop3.end': '''proof {
    let s0 = codes[j - 1] as int % zsize;
    assert forall|s: int| 0 <= s < zsize implies #[trigger] use_table@[s] == occupied(codes, zsize, j, s) by {
        if occupied(codes, zsize, j - 1, s) {
            let i = choose|i: int| 0 <= i < j - 1 && #[trigger] codes[i] as int % zsize == s;
            assert(codes[i] as int % zsize == s && 0 <= i < j);
        }
        if s == s0 { assert(codes[j - 1] as int % zsize == s); }
    }
}''',
    },
    loops={
        0: '''    invariant
        min_size <= size, min_size >= 7_000_000, increment >= 1, size <= 0x7fff_ffff_ffff_ffff, increment <= 0x0fff_ffff_ffff_ffff, max_size <= 0x2fff_ffff_ffff_ffff,
        sizes@.len() > 0, sizes@[0] == n,
    decreases if size <= max_size { max_size + 1 - size } else { 0 },''',
        1: '''    invariant size % 2 == 1, 3 <= size <= pr <= 0x7fff_ffff_ffff_ffff, pr % 2 == 1, prime(pr), size <= pr, size > 5, size > size0,
    decreases pr - size,''',
        2: '''    invariant
        0 <= k <= sz.len(), it.obeys_prophetic_iter_laws(), it.remaining() == sz.skip(k), it.decrease() is Some,
        sz.len() > 0, sz[0] == n, codes == hash_codes@, n == codes.len(),
        use_table@.len() == max_size, min_size <= n <= max_size, n > 0 ==> min_size > 0,
        k == 0 ==> best_size == 0,
        best_size == 0 ==> best_num_collisions == n,
        k > 0 && n > 0 ==> best_size > 0,
        n == 0 ==> best_size == 0,
        best_size > 0 ==> min_size <= best_size <= max_size && best_num_collisions == collisions(codes, best_size as int, n),
    ensures
        best_size == 0 ==> best_num_collisions == n,
        n > 0 ==> best_size > 0,
        n == 0 ==> best_size == 0,
        best_size > 0 ==> min_size <= best_size <= max_size && best_num_collisions == collisions(codes, best_size as int, n),
    decreases sz.len() - k,''',
        3: '''    invariant_except_break
        0 <= j <= n, jt.obeys_prophetic_iter_laws(), jt.remaining().len() == n - j,
        forall|i: int| 0 <= i < n - j ==> *(#[trigger] jt.remaining()[i]) == codes[i + j],
        num_collisions == collisions(codes, zsize, j),
        0 <= num_collisions <= j, j > 0 ==> num_collisions <= j - 1,
        use_table@.len() == max_size,
        forall|s: int| 0 <= s < zsize ==> #[trigger] use_table@[s] == occupied(codes, zsize, j, s),
    ensures
        num_collisions < best0 ==> num_collisions == collisions(codes, zsize, n),
        n > 0 ==> num_collisions < n,
        n == 0 ==> num_collisions == 0,
        use_table@.len() == max_size,
    decreases n - j,''',
    })
contract(HC, 'is_prime', ret='r',
    spec='''    ensures prime(candidate as int) && candidate > 5 ==> r
''',
    subst=[('f64::sqrt(candidate as f64) as u64', 'vsqrt(candidate)')],
    loops={0: '''    invariant 3 <= divisor, limit <= 0x1_0000_0000, divisor <= limit + 3, candidate > 5 ==> limit < candidate,
    decreases limit + 3 - divisor,'''})
STRUCTS = ('group', [('struct', HC, 'HashCodeAnalysisResult'), ('text', SPEC)])
VERIFIED = ('group', [('fn', HC, 'is_prime'), ('fn', HC, 'analyze_hash_codes')])
ASSUMED = ('group', [('assume', HC, 'analyze_hash_codes')])
