"""Programs that use frozen_map!: each evaluates the contract of the macro for one invocation."""
import random

HEAD = '''#![allow(warnings)]
use frozen_collections::*;
use std::fmt::Debug;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Side { Left, Right, Mid(u8), Both { a: u8, b: u8 } }
pub const ZERO: Side = Side::Left;
fn fail(case: &str, msg: String) -> ! { println!("FAIL {case} :: {msg}"); std::process::exit(1) }
fn show<K: Debug, V: Debug>(e: &[(K, V)]) -> Vec<(String, String)> {
    let mut r: Vec<(String, String)> = e.iter().map(|(k, v)| (format!("{k:?}"), format!("{v:?}"))).collect();
    r.sort();
    r
}
// the entries the map holds, its length, and what it finds under each probe, against the entries it was given
macro_rules! look {
    ($case:expr, $m:expr, $want:expr, $probes:expr) => {{
        let (case, m, want, probes) = ($case, $m, $want, $probes);
        let mut got = Vec::new();
        for (k, v) in m.iter() { got.push((k.clone(), v.clone())); }
        if show(&got) != show(&want) { fail(case, format!("the map holds {:?}, given were {:?}", cut(&got), cut(&want))); }
        if m.iter().len() != want.len() { fail(case, format!("the map has the length {}, given were {} entries", m.iter().len(), want.len())); }
        for p in want.iter().map(|e| e.0.clone()).chain(probes) {
            let found = m.get(&p);
            let among: Vec<_> = want.iter().filter(|e| e.0 == p).collect();
            let ok = match found { Some(v) => among.iter().any(|e| e.1 == *v), None => among.is_empty() };
            if !ok { fail(case, format!("under {:?} the map finds {:?}", p, found)); }
        }
        println!("OK {case}");
    }};
}
fn cut<K: Debug, V: Debug>(e: &[(K, V)]) -> String { let s = format!("{:?}", e); if s.len() > 400 { format!("{}..", s.chars().take(400).collect::<String>()) } else { s } }
'''

INTS = {f'{s}{n}': ((0, 2**n - 1) if s == 'u' else (-2**(n - 1), 2**(n - 1) - 1)) for n in (8, 16, 32, 64, 128) for s in 'ui'}

def cases(tier, seed):
    rnd = random.Random(seed)
    reps = 1 if tier == 'quick' else 12
    out = []
    def add(name, ty, keys, probes=(), vals=None, trail=True, sep=', ', prog=None):
        vals = vals or [f'{i}u32' for i in range(len(keys))]
        args = f'{ty}, ' + sep.join(f'{k}: {v}' for k, v in zip(keys, vals)) + (',' if trail and keys else '')
        kt = ty
        lit = lambda k: k
        if ty == '&str' and len(keys) >= 3: kt, lit = 'String', lambda k: f'String::from({k})'
        want = ', '.join(f'({lit(k)}, {v})' for k, v in zip(keys, vals))
        pr = ', '.join(lit(str(p)) for p in probes)
        vt = '_' if keys else 'u32'
        bind = 'let m = ' if keys else f'let m: frozen_collections::specialized_maps::ScanningMap<{kt}, u32> = '
        out.append((name, f'{bind}frozen_map!({args}); let want: Vec<({kt}, {vt})> = vec![{want}]; let probes: Vec<{kt}> = vec![{pr}]; look!({name!r}, m, want, probes)'.replace(repr(name), '"' + name + '"')))
    for t, (lo, hi) in INTS.items():
        z = [lo, hi, 0, 1, 5, hi - 1, lo + 1, 40]
        add(f'{t}: none', t, [], z)
        add(f'{t}: one', t, [str(hi)], z)
        add(f'{t}: two', t, [str(lo), str(hi)], z)
        add(f'{t}: range', t, [str(x) for x in (3, 4, 5, 6)], z)
        add(f'{t}: range, mixed up', t, [str(x) for x in (7, 4, 6, 5, 8)], z, trail=False)
        add(f'{t}: gap', t, [str(x) for x in (3, 4, 6)], z)
        add(f'{t}: range up to the greatest', t, [str(x) for x in (hi, hi - 1, hi - 2)], z)
        add(f'{t}: range from the least', t, [str(x) for x in (lo + 2, lo, lo + 1)], z)
        add(f'{t}: far apart', t, [str(x) for x in (lo, 0 if lo else 7, hi)], z)
        add(f'{t}: the same key twice', t, [str(x) for x in (4, 5, 4)], z)
        add(f'{t}: the same key twice in a range', t, [str(x) for x in (4, 5, 4, 6)], z)
        add(f'{t}: the same key twice and a gap', t, [str(x) for x in (4, 6, 4, 7)], z)
        if lo: add(f'{t}: range through zero', t, [str(x) for x in (-2, -1, 0, 1)], z)
        if lo: add(f'{t}: below zero', t, [str(x) for x in (-9, -4, -5)], z)
        add(f'{t}: hexadecimal and suffixed', t, ['0x0a', f'11{t}', '0b1100', '0o15'], z)
        add(f'{t}: underscores', t, ['1_0', '1_2', f'14_{t}'], z)
        for r in range(reps):
            ks = [str(rnd.randint(lo, hi)) for _ in range(9 if not r else rnd.randint(0, 40))]
            add(f'{t}: random {r}', t, ks, z)
            a, n = rnd.randint(lo, hi - 42), 9 if not r else rnd.randint(0, 40)
            ks = [a + i for i in range(n)]
            rnd.shuffle(ks)
            add(f'{t}: shuffled range {r} from {a}', t, [str(x) for x in ks], z + [a - 1 if a > lo else lo, a + n])
            if n > 4: add(f'{t}: shuffled range {r} from {a} but for one', t, [str(x) for x in ks[1:]], z + [ks[0]])
        if hi > 300:
            for n in (255, 256, 257): add(f'{t}: {n} entries and a gap', t, [str(x if x < n - 1 else n) for x in range(n)], z)
        if t in ('u16', 'i32', 'u128'): add(f'{t}: range of 256', t, [str(x) for x in range(7, 263)], z)
    for t, ks, ps in (('usize', [str(x) for x in (1, 2, 3, 900, 2**64 - 1)], ['4']), ('isize', ['-1', '0', '1', '2'], ['4']), ('char', ["'a'", "'b'", "'\\\\n'".replace('\\\\', '\\'), "'\\u{1F600}'"], ["'z'"]),
                      ('bool', ['true', 'false', 'true'], []), ('(u8, i64)', ['(1, 2)', '(1, 3)', '(2, 2)'], ['(3, 3)']), ('Side', ['Side::Left', 'Side::Mid(4)', 'Side::Both { a: 1, b: 2 }', 'Side::Right'], ['Side::Mid(5)', 'ZERO']),
                      ('String', ['"ab".to_string()', 'String::from("cd")', 'String::new()'], ['"x".to_string()']), ('Vec<u8>', ['vec![1, 2]', 'vec![]', 'vec![3]'], ['vec![2]']), ('Option<(u8, u8)>', ['None', 'Some((1, 2))', 'Some((2, 1))'], ['Some((1, 1))']),
                      ('[u8; 2]', ['[1, 2]', '[2, 1]', '[0; 2]'], ['[9, 9]']), ("&'static str", ['"a"', '"bb"', '"ccc"'], ['""', '"b"']), ('std::primitive::u8', ['1', '2', '3'], ['4']), ('core::num::NonZeroU8', ['core::num::NonZeroU8::MIN', 'core::num::NonZeroU8::MAX', 'core::num::NonZeroU8::new(7).unwrap()'], [])):
        for n in range(1, len(ks) + 1): add(f'{t}: {n} entries', t, ks[:n], ps)
    S = lambda l: ['"' + x + '"' for x in l]
    probes = S(['', 'a', 'zz', 'ab', 'abc', 'color_0', 'xa', 'ax', 'aax', 'a longer text than any key there is'])
    strs = {
        'none': [], 'one': ['a'], 'two': ['a', ''], 'lengths': ['a', 'bb', 'ccc', 'dddd'], 'empty and others': ['', 'a', 'bb'], 'left': ['apple', 'berry', 'cider', 'dates'], 'first two': ['aax', 'abx', 'bax', 'bbx'],
        'right': ['xa', 'xb', 'xc', 'xd'], 'right of unequal lengths': ['xxa', 'xb', 'xc', 'xxd', 'xe', 'xf'], 'middle': ['xax', 'xbx', 'xcx', 'xdx'],
        'prefixes': ['color', 'color_', 'color_0', 'color_00'], 'the same key twice': ['ab', 'cd', 'ab'], 'the same key only': ['ab', 'ab', 'ab'], 'many of two letters': [a + b for a in 'abcdefgh' for b in 'abcdefgh'], 'letters beyond ASCII': ['é', 'ü', '日本', '😀', 'e'],
        'same length beyond ASCII': ['éa', 'üa', 'ñb'], 'long ones': ['x' * 300 + c for c in 'abcd'], 'long to short': ['k' * i for i in (40, 9, 3, 1)], 'near misses': ['aaaa', 'aaab', 'aaba', 'abaa', 'baaa'],
        '255': [f'key{i}' for i in range(255)], '256': [f'{i:x}_name' for i in range(256)], '257': [f'name_{i}' for i in range(257)],
        '300 of one length': [f'{i:03}xx' for i in range(300)], '300 of one length, right': [f'xx{i:03}' for i in range(300)], '260 lengths': ['k' * i for i in range(260)], '255 lengths': ['k' * i for i in range(255)]}
    for n in range(10 * reps):
        k = rnd.randint(3, 30)
        al = rnd.choice(['ab', 'abcdef', 'xyz01', 'aé'])
        strs[f'random {n}'] = [''.join(rnd.choice(al) for _ in range(rnd.randint(0, 9))) for _ in range(k)]
        w = rnd.randint(2, 9)
        strs[f'random of one length {n}'] = [''.join(rnd.choice(al) for _ in range(w)) for _ in range(k)]
    for n, l in strs.items():
        near = [x for x in l[:6] for x in (x + 'x', x[:-1], 'x' + x, x[:-1] + '~')]
        add(f'&str: {n}', '&str', S(l), probes + S(near))
    add('&str: escapes and raw', '&str', ['"a\\n"', 'r"b\\n"', 'r#"c"d"#', '"\\u{e9}"', '"\\x41"'], S(['a']))
    add('u8: values of a struct type', 'u8', ['1', '2', '4'], ['3'], vals=['Side::Left', 'Side::Both { a: 1, b: 2 }', 'Side::Mid(3)'])
    add('&str: values with commas', '&str', S(['a', 'b', 'c']), probes, vals=['(1, "x")', '(2, "y")', '(3, { let z = "z"; z })'])
    add('i64: entries without commas between', 'i64', ['1', '2', '4'], ['3'], sep=' ')
    add('i64: two entries without commas between', 'i64', ['1', '2'], ['3'], sep=' ', trail=False)
    add('u32: values that do not copy', 'u32', ['9', '2', '4'], ['3'], vals=['String::from("a")', 'String::from("b")', 'String::new()'])
    if tier == 'thorough':
        for n in (65535, 65536): add(f'u32: {n} entries and a gap', 'u32', [str(x if x < n - 1 else n) for x in range(n)], ['0', '1', '4000000000'])
    return out

def write(outdir, tier, seed, bins=6):
    """-> {bin: [(first line, case)]}"""
    import os
    os.makedirs(outdir, exist_ok=True)
    where = {}
    cs = cases(tier, seed)
    for b in range(bins):
        lines, mine = HEAD.split('\n'), []
        calls = []
        for i, (name, body) in list(enumerate(cs))[b::bins]:
            mine.append((len(lines) + 1, name, body))
            lines.append(f'fn c{i}() {{ {body} }}')
            calls.append(f'c{i}')
        lines.append('fn main() { std::thread::Builder::new().stack_size(1 << 28).spawn(run).unwrap().join().unwrap_or_else(|_| std::process::exit(3)); }')
        lines.append('fn run() { std::panic::set_hook(Box::new(|_| {})); let all: Vec<(&str, fn())> = vec![' + ', '.join(f'("{n}", {c})' for (l, n, _), c in zip(mine, calls)) + '];')
        lines.append('for (n, f) in all { if let Err(e) = std::panic::catch_unwind(f) { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); fail(n, format!("panicked: {m}")); } } }')
        text = '\n'.join(lines) + '\n'
        p = os.path.join(outdir, f'b{b}.rs')
        if not os.path.exists(p) or open(p).read() != text: open(p, 'w').write(text)
        where[f'b{b}'] = mine
    return where

if __name__ == '__main__':
    import sys
    w = write(sys.argv[1], 'quick', 1)
    print(sum(len(x) for x in w.values()), 'cases')
