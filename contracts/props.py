"""What each check runs. units: Verus units (those verifying what they assume are added);
level/note: see MANIFEST.json, which tools/manifest.py writes from here."""
import json, os
TITLES = {}
for line in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')):
    if line.strip():
        d = json.loads(line); TITLES[d['id']] = d['title']

ASSUMPTIONS = [
    'Verus, vstd, Z3 and rustc are correct; the extraction (tools/vx.py) keeps the text of function bodies and drops attributes, doc comments, const and visibility',
    'usize has 64 bits',
    'a float, an inconsistent Eq/Ord/Borrow implementation and interior mutability of keys are outside the lawfulness premise of the functional contracts; memory-safety contracts hold without the premise',
]
HASHED = ['CommonMap', 'IntegerMap', 'LengthMap']
SLICED = ['LeftSliceMap', 'RightSliceMap']
def of(prefixes, kinds): return [f'{p}_{k}' for p in prefixes for k in kinds]

PROPS = {}
def prop(id, units, level, note, **kw):
    PROPS[id] = dict(units=units, level=level, note=note, title=TITLES[id], **kw)

ALLK = HASHED + SLICED
SMALL = ['scanning', 'range']
VIEWK = ALLK + ['ScanningMap', 'IntegerRangeMap']
ALG = ['Union', 'SymmetricDifference', 'Difference', 'Intersection']
def sets(kinds): return [f'{p}_{k[:-3]}Set' for p in ('set', 'newset') for k in kinds]
SETIMPL = [u for u in sets(VIEWK) if u.startswith('set_')]
CT = 'new|with_hasher|from_iter_with_hasher|from_vec|from_vec_with_hasher|from|from_iter|default'
LK = 'get|get_key_value|contains|contains_key'
prop('C01', ['frozen_map'] + of(['lookup', 'new'], ALLK) + SMALL, 'proof', '', roots=LK + '|' + CT)
prop('C02', ['frozen_set'] + sets(VIEWK), 'proof', '', roots=LK + '|' + CT)
prop('C03', of(['lookup', 'new'], HASHED) + sets(HASHED), 'proof', '', roots=LK + '|' + CT)
prop('C04', of(['lookup', 'new'], SLICED) + sets(SLICED), 'proof', '', roots=LK + '|' + CT)
prop('C05', SMALL + sets(['ScanningMap', 'IntegerRangeMap']), 'proof', '', roots=LK + '|' + CT)
prop('C06', ['frozen_map'] + of(['getmut'], ALLK) + SMALL, 'proof', '', roots='get_mut')
prop('C07', ['frozen_map'] + of(['many'], VIEWK), 'proof', '', roots='get_many_mut')
prop('C08', ['frozen_map'] + ['map_iters'] + of(['view'], VIEWK), 'proof', '', roots='iter|keys|values|into_iter|next|fold|clone|count')
prop('C09', ['frozen_set'] + ['set_iters'] + [u for u in sets(VIEWK) if u.startswith('set_')], 'proof', '', roots='iter|into_iter|next|clone')
prop('C10', ['frozen_map', 'frozen_set'] + ['map_iters', 'set_iters'] + ['alg_' + n for n in ALG] + of(['view'], VIEWK) + [u for u in sets(VIEWK) if u.startswith('set_')], 'proof', '', roots='len|is_empty|size_hint|count')
prop('C11', ['frozen_set'] + ['alg_' + n for n in ALG] + ['set_defaults', 'std_sets'] + SETIMPL, 'proof', '', roots='new|next|clone|union|intersection|difference|symmetric_difference|iter|contains')
prop('C12', ['frozen_set'] + ['relations', 'set_defaults', 'std_sets'] + SETIMPL, 'proof', '', roots='is_disjoint|is_subset|is_superset')
prop('C13', ['frozen_set'] + ['ops_' + n[:-3] + 'Set' for n in VIEWK] + ['ops_FrozenSet', 'std_sets'] + SETIMPL, 'proof', '', roots='bitor|bitand|bitxor|sub')
prop('C14', ['frozen_map', 'frozen_set'] + of(['view'], VIEWK) + [u for u in sets(VIEWK) if u.startswith('set_')], 'proof', '', roots='eq')
prop('C15', ['frozen_map', 'frozen_set', 'set_totals'] + of(['new'], ALLK) + SMALL + [u for u in sets(VIEWK) if u.startswith('newset_')], 'proof', '', roots=CT)
prop('C16', ['frozen_map', 'frozen_set'] + of(['lookup', 'getmut', 'new'], ALLK) + of(['many'], VIEWK) + SMALL + ['slice_hash'], 'proof', '', clauses=r'wf\(\)|safe\(\)|arithmetic|division|bit shift|termination|decreases')
prop('C17', ['int_keys', 'slice_keys'], 'proof', '')
prop('C18', ['hash_code'], 'proof', '')
prop('C19', ['frozen_map'] + of(['view'], VIEWK), 'proof', '', roots='index|index_mut')
prop('C20', ['frozen_map', 'frozen_set'] + of(['new'], ALLK) + of(['view'], VIEWK) + [u for u in sets(VIEWK) if u.startswith('newset_')], 'proof', '', roots=CT + '|hasher')
prop('C21', ['len_impls', 'slice_hash'], 'proof', '')
SHOWS = ['show_table', 'show_map_iters', 'show_set_iters', 'show_FrozenMap', 'show_FrozenSet'] + of(['show'], VIEWK) + [f'show_{k[:-3]}Set' for k in VIEWK] + ['show_' + n for n in ALG]
prop('C23', SHOWS, 'proof', '', roots='fmt|clone')
prop('C22', ['macro_text', 'macro_programs'], 'proof', '', roots='frozen_map_macro|process_int_keys|process_string_keys|parse|to_tokens|from_vec', programs=True, assumptions=[
    'quote! writes its template with the interpolated values put in; the program a template stands for is verified as a function of what is interpolated (unit macro_programs), and that the tokens written are that program is the reading of quote!, not proved',
    'syn and proc_macro2 are modelled by the contracts of contracts/prelude_macro.rs: parsing reads what the tokens stand for, an integer literal has the value rustc gives it, a string literal the text',
    'String, vec! and the names under ::frozen_collections and ::std mean the usual things where the macro is used',
    'a match on string literals is compared in order; the bounds FromStr and Display of process_int_keys are dropped; frozen-collections-macros/src/lib.rs, which only converts the token streams, is evaluated by the search and not proved'])
NOT_APPLICABLE = []

NOTES = {
    'C01': 'FrozenMap: the model of the representation that was chosen equals the payload, and get, get_key_value and contains_key answer from it; every type constructor path, for every payload, key type and hasher. For lawful keys.',
    'C02': 'FrozenSet: as C01, over the contracts of the nine set types.',
    'C03': 'The hashed maps and sets: slots partition the entries by hash, the probe is hashed as the entry was, and the scan covers exactly that slot.',
    'C04': 'The slice-hashed maps and sets: as C03 with the clamped subslice of every key and probe, whatever their lengths.',
    'C05': 'Scanning and integer-range maps and sets: linear scan; key = least key + index, exact over the whole integer type; from_vec accepts exactly the distinct contiguous keys.',
    'C06': 'get_mut: the reference is to the value of the entry get finds, and nothing else of the map changes whatever is written through it.',
    'C07': 'get_many_mut: None exactly for an absent or repeated key; otherwise references to the values of the keys, in their order, for every N. What the map holds after writing through them is searched, not proved (the code makes them by an unsafe cast the verifier cannot follow).',
    'C08': 'Map iterators: next yields the first of the remaining sequence, clone copies it, fold folds it, and iter starts with all entries, each once.',
    'C09': 'Set iterators: as C08.',
    'C10': 'len, is_empty, count and size_hint against the remaining sequence, in every partially consumed state, set operations included.',
    'C11': 'Union, intersection, difference, symmetric difference: the remaining sequence is the filtered operands without repeats, in every state of the cursor.',
    'C12': 'is_subset, is_superset, is_disjoint over the contract of the Set trait; std sets by assumed contracts.',
    'C13': 'The operators &, |, ^, - on sets yield exactly the elements of the operation.',
    'C14': 'Equality of maps and sets is equality of what they hold.',
    'C15': 'Constructors keep every entry once, or panic exactly where the payload does not fit; the facades never do.',
    'C16': 'Index bounds, arithmetic, termination and type identity at every unsafe site, for arbitrary Hash, Eq, Borrow and Len of the user.',
    'C17': 'The slice key analysis picks what the keys permit; loop invariants over the candidates.',
    'C18': 'The hash code analysis picks a table size it has counted; invariants over the counting loops; Bertrand\'s postulate assumed.',
    'C19': 'Indexing agrees with get and panics exactly for absent keys.',
    'C20': 'Every constructor and conversion yields the model of its payload.',
    'C21': 'Len is the length of the view; SliceHash feeds exactly the bytes of the range.',
    'C22': 'frozen_map!: what the macro writes makes the map of its entries; macro over a token model, each program it can write verified from the template text. Models of syn and quote are assumed.',
    'C23': 'Debug shows exactly what the value holds; Clone equals the original.',
}
for _id, _p in PROPS.items(): _p['note'] = NOTES[_id] + (' ' + _p['note'] if _p['note'] else '')
PROPS['C22']['technique'] = 'Verus contracts on the macro and on every program it can write, extracted on every run; failing invocations by building and running generated programs'
