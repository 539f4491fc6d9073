"""Decides one property: verifies its contracts on /repo's current text, and evaluates them on the
compiled crate to look for a failing input."""
import os, sys, re, json, time, subprocess, threading, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'contracts')]
import vx, props
from rustlex import LostAnchor, lex, code_toks, find_loops, find_closures, top_statements

try:
    import all_units
    BROKEN = None
except Exception as e:                          # the code no longer has what the contracts are attached to
    BROKEN = f'{type(e).__name__}: {e}'

BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(BUILD, 'target/debug/fc-harness')
SHAPES = os.path.join(VERIF, 'contracts/shapes.json')
KNOWN = os.path.join(VERIF, 'known-findings.txt')

# messages of the verifier that mean: this obligation was not discharged
FAILED = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
          'possible arithmetic', 'possible division', 'decreases not satisfied', 'could not prove termination',
          'possible bit shift', 'unable to prove', 'assert_', 'possible out', 'closure requires', 'requires not satisfied',
          'failed precondition', 'failed this postcondition', 'constructed value may fail', 'recommendation')

# ---------------------------------------------------------------- the shape of the code

KEYWORDS = ('let', 'if', 'else', 'match', 'while', 'for', 'loop', 'return', 'break', 'continue', 'mut', 'unsafe')

def shape_of(f):
    toks = getattr(f, 'body_toks', None)
    if not toks: return None
    loops = [k[0] for k in find_loops(toks)]
    # calls and control flow, in the order of the text
    flow = [toks[i].t.replace('debug_assert', 'assert') for i in range(len(toks) - 1) if toks[i].k == 'ident' and (toks[i + 1].t in ('(', '!', '::') or toks[i].t in KEYWORDS)]
    # a contract on one of several loops is attached by their order
    names = [t.t.replace('debug_assert', 'assert') for t in toks if t.k == 'ident'] if len(loops) > 1 else []
    return [loops, len(find_closures(toks)), len(top_statements(toks)), len([t for t in toks if t.t == ';']), flow, names]

def file_shapes(path):
    out = {}
    for key, l in vx.index(path).items():
        out[key] = [shape_of(f) for _, f in l]
    return out

def unit_files(u):
    got = set()
    def walk(parts):
        for p in parts:
            if p[0] == 'group': walk(p[1])
            elif p[0] != 'text': got.add(p[1])
    walk(u.parts)
    return sorted(got)

def all_files():
    return sorted({f for u in vx.UNITS.values() for f in unit_files(u)})

def same_shape(path, key):
    """The function, and the set of functions of its file, look as they did when the contracts were written."""
    key = key.split('#')[0]                       # a program that this function writes
    base = json.load(open(SHAPES)).get(path)
    try: now = json.loads(json.dumps(file_shapes(path)))
    except LostAnchor: return False
    return base is not None and set(base) == set(now) and base.get(key) == now.get(key)

def firm(f):
    """Whether the failure of this obligation speaks of the code and not of a proof written for other code: the function
    looks as it did; or it has neither loops nor closures, so that nothing but its contract and its callees' enters; or it
    fails where it returns before its first loop."""
    where, msg = f[0], f[1]
    if where is None: return False
    if same_shape(*where): return True
    base = json.load(open(SHAPES)).get(where[0])
    try: now = json.loads(json.dumps(file_shapes(where[0])))
    except LostAnchor: return False
    if base is None or set(base) != set(now): return False
    if not msg.startswith(('postcondition', 'precondition')): return False
    b, n = (x.get(where[1].split('#')[0]) for x in (base, now))
    if b and n and len(b) == len(n) == 1 and b[0] and n[0] and f[4] and b[0][:2] == n[0][:2]: return True
    plain = lambda l: l is not None and all(x is not None and not x[0] and not x[1] for x in l)
    return plain(b) and plain(n)

def reach(units, roots):
    """The functions of the units whose name matches roots, and those they call, by name."""
    fns = {}
    def walk(parts):
        for p in parts:
            if p[0] == 'group': walk(p[1])
            elif p[0] in ('fn', 'fn_total', 'assume', 'assume_total', 'ext_fn'): fns[(p[1], p[2])] = 1
            elif p[0].startswith('clone'): fns[(p[1], f'{p[3]}::clone@Clone')] = 1
            elif p[0].startswith('trait'):
                for key in vx.index(p[1]): fns[(p[1], key)] = 1
    for u in units:
        if u in vx.UNITS: walk(vx.UNITS[u].parts)
    name = lambda key: key.split('@')[0].split('::')[-1]
    owner = lambda key: key.split('@')[0].split('::')[0].lstrip('&') if '::' in key else ''
    trait = lambda key: key.split('@')[1] if '@' in key else owner(key)
    out, todo = set(), [k for k in fns if re.fullmatch(roots, name(k[1]))]
    while todo:
        k = todo.pop()
        if k in out: continue
        out.add(k)
        for _, f in vx.index(k[0]).get(k[1], []):
            t = getattr(f, 'body_toks', None) or []
            for i in range(1, len(t) - 1):
                if t[i].k != 'ident': continue
                if t[i - 1].t == '.' and t[i + 1].t in ('(', '::'):
                    todo += [x for x in fns if x not in out and name(x[1]) == t[i].t and owner(x[1])]
                elif t[i - 1].t == '::':
                    j, d = i - 2, 0             # T::name or T::<..>::name
                    if t[j].t == '>':
                        while j > 0:
                            d += (t[j].t == '>') - (t[j].t == '<')
                            j -= 1
                            if d == 0: break
                        if t[j].t == '::': j -= 1
                    q = t[j].t if t[j].t != 'Self' else owner(k[1])
                    todo += [x for x in fns if x not in out and name(x[1]) == t[i].t and (q in (owner(x[1]), trait(x[1])) or not q[:1].isupper())]
                elif t[i + 1].t in ('(', '::'):
                    todo += [x for x in fns if x not in out and name(x[1]) == t[i].t and not owner(x[1])]
    return out

# ---------------------------------------------------------------- Verus

def closed(units, roots=None):
    """units plus those that verify what they assume (of the functions roots reach)"""
    proves = {}
    for n, u in vx.UNITS.items():
        def walk(parts):
            for p in parts:
                if p[0] == 'group': walk(p[1])
                elif p[0] in ('fn', 'ext_fn'): proves.setdefault((p[1], p[2]), n)
                elif p[0] in ('clone', 'clone_trait'): proves.setdefault((p[1], f'{p[3]}::clone@Clone'), n)
                elif p[0] == 'fn_total': proves.setdefault((p[1], p[2], 'total'), n)
                elif p[0] == 'trait_defaults':
                    for f in p[3]: proves.setdefault((p[1], f'{p[2]}::{f}'), n)
                elif p[0] == 'trait_impl': proves.setdefault((p[1], p[2], p[3]), n)
        walk(u.parts)
    out, mine = list(units), None
    while True:
        try: mine = reach(out, roots) if roots else None
        except LostAnchor: mine = None
        add = []
        def want(key, fn=None):
            if key in proves and proves[key] not in out + add and (mine is None or (fn or key) in mine): add.append(proves[key])
        def walk(parts):
            for p in parts:
                if p[0] == 'group': walk(p[1])
                elif p[0] == 'assume_total' and (p[1], p[2], 'total') in proves: want((p[1], p[2], 'total'), (p[1], p[2]))
                elif p[0].startswith('assume'): want((p[1], p[2]))
                elif p[0] == 'clone_assume': want((p[1], f'{p[3]}::clone@Clone'))
                elif p[0] == 'trait_defaults_assume':
                    for f in p[3]: want((p[1], f'{p[2]}::{f}'))
                elif p[0] == 'trait_assume' and (p[1], p[2], p[3]) in proves:
                    keys = [k for k in vx.index(p[1]) if k.startswith(f'{p[2]}::') and k.endswith('@' + p[3])] if mine is not None else []
                    if mine is None or any((p[1], k) in mine for k in keys): want((p[1], p[2], p[3]), next(((p[1], k) for k in keys if (p[1], k) in mine), None) if mine is not None else None)
        for n in out:
            if n in vx.UNITS:
                try: walk(vx.UNITS[n].parts)
                except LostAnchor: pass
        if not add: return out, proves
        out += add

def vacuous_text(text, spans):
    """The same file with assert(false) first in every verified function: each must fail."""
    lines = text.split('\n')
    return lines

def verus(path, extra=()):
    t0 = time.time()
    try:
        r = subprocess.run(['verus', path, '--output-json', '--time', '--error-format=json', '--multiple-errors', '3', *extra],
                           capture_output=True, text=True, cwd=os.path.dirname(path), timeout=300)
    except subprocess.TimeoutExpired:
        return None, [], 'timeout', 300.0
    diags = []
    for line in r.stderr.splitlines():
        line = line.strip()
        if line.startswith('{'):
            try: diags.append(json.loads(line))
            except ValueError: pass
    try:
        k = r.stdout.find('{')
        d = json.loads(r.stdout[k:])
    except ValueError:
        d = None
    return d, diags, r.stderr[-4000:], time.time() - t0

class Result:
    pass

def before_loops(text, spans, where, marks):
    """The failure is at an explicit return that no loop precedes."""
    at = [s['line_start'] for s in marks if 'at this exit' in (s.get('label') or '')]
    own = [(a, b) for a, b, p, k, v in spans if v and (p, k) == where]
    if len(at) != 1 or not own: return False
    a = [x for x in own if x[0] <= at[0] <= x[1]]
    if not a: return False
    toks = code_toks(lex('\n'.join(text.split('\n')[a[0][0] - 1:at[0] - 1])))
    return not any(t.k == 'ident' and t.t in ('for', 'while', 'loop') for t in toks)

def run_unit(name, outdir, seeds=()):
    res = Result()
    res.name, res.status, res.why = name, 'ok', ''
    res.failed, res.fns, res.assumed, res.trusted = [], [], [], []
    res.verified = res.errors = 0
    res.smt_ms = 0
    res.vac = []
    res.seeds = 0
    if name not in vx.UNITS:
        res.status, res.why = 'undecided', f'lost anchor: {BROKEN}'
        return res
    try:
        text, spans = vx.generate(vx.UNITS[name])
        vtext, vspans = vx.generate(vx.UNITS[name], vacuity=True)
    except LostAnchor as e:
        res.status, res.why = 'undecided', f'lost anchor: {e}'
        return res
    except Exception as e:
        res.status, res.why = 'undecided', f'extraction: {type(e).__name__}: {e}'
        return res
    path = os.path.join(outdir, name + '.rs')
    open(path, 'w').write(text)
    d, diags, raw, wall = verus(path)
    res.fns = [(p, k) for a, b, p, k, v in spans if v]
    res.assumed = [(p, k) for a, b, p, k, v in spans if not v]
    res.trusted = trusted(text)
    if d is None or 'verification-results' not in d:
        res.status, res.why = 'undecided', 'the verifier gave no result: ' + first_errors(diags, raw)
        return res
    vr = d['verification-results']
    res.verified, res.errors = vr.get('verified', 0), vr.get('errors', 0)
    res.smt_ms = d.get('times-ms', {}).get('smt', {}).get('smt-run', 0)
    other = []
    for g in diags:
        if g.get('level') != 'error': continue
        msg = g.get('message', '')
        if re.match(r'aborting due to|\d+ errors? (emitted|generated)', msg): continue
        prim = [s for s in g.get('spans', []) if s.get('is_primary')] or g.get('spans', [])
        where = None
        for s in g.get('spans', []):
            for a, b, p, k, v in spans:
                if v and os.path.basename(s['file_name']) == name + '.rs' and a <= s['line_start'] <= b: where = (p, k)
        isv = any(m in msg for m in FAILED) and g.get('code') is None
        if isv:
            # the clause that failed is the labelled span
            labels = [f"{s.get('label') or ''}: {' '.join(x['text'].strip() for x in s.get('text', []))[:240]}" for s in g['spans']]
            res.failed.append((where, msg, labels, g.get('rendered', ''), before_loops(text, spans, where, g['spans'])))
        else:
            other.append(msg)
    if other:
        res.status, res.why = 'undecided', '; '.join(other)[:600]
    elif res.failed:
        res.status = 'failed'
    elif not vr.get('success') or vr.get('encountered-error') or vr.get('encountered-vir-error') or res.verified == 0:
        res.status, res.why = 'undecided', 'the verifier did not succeed: ' + raw[-300:]
    if res.status == 'ok':
        # vacuity
        vp = os.path.join(outdir, name + '_vac.rs')
        open(vp, 'w').write(vtext)
        d2, diags2, raw2, _ = verus(vp)
        hit = set()
        for g in diags2:
            if g.get('level') == 'error' and 'assertion failed' in g.get('message', ''):
                for s in g['spans']:
                    if s.get('is_primary'):
                        for a, b, p, k, v in vspans:
                            if v and a <= s['line_start'] <= b: hit.add((p, k))
        res.vac = [x for x in res.fns if x not in hit]
        if res.vac:
            res.status, res.why = 'undecided', f'contradictory preconditions or axioms: {res.vac}: ' + first_errors(diags2, raw2)
        for sd in seeds:
            d3, _, raw3, _ = verus(path, ['--smt-option', f'smt.random_seed={sd}'])
            if d3 and d3.get('verification-results', {}).get('success'): res.seeds += 1
    return res

def first_errors(diags, raw):
    m = [g.get('message', '') for g in diags if g.get('level') == 'error']
    return '; '.join(m[:3]) or raw[-300:]

def trusted(text):
    out = []
    toks = code_toks(lex(text))
    for i, t in enumerate(toks):
        if t.t == 'assume_specification':
            j = i
            while toks[j].t != '[': j += 1
            if toks[j].t == '[':
                e = j; dep = 0
                while True:
                    if toks[e].t == '[': dep += 1
                    elif toks[e].t == ']':
                        dep -= 1
                        if dep == 0: break
                    e += 1
                out.append('assumed contract on std: ' + text[toks[j].e:toks[e].s].strip())
        elif t.t == 'axiom' and toks[i + 1].t == 'fn':
            out.append('axiom: ' + toks[i + 2].t)
        elif t.t == 'external_body' and toks[i - 1].t == '::':
            j = i
            while toks[j].t not in ('fn', 'struct'): j += 1
            out.append('body not verified: ' + toks[j + 1].t)
        elif t.t in ('assume', 'admit') and toks[i + 1].t == '(':
            out.append(f'{t.t} in the text: ' + text[t.s:t.s + 60].split('\n')[0])
    return sorted(set(out))

# ---------------------------------------------------------------- the harness

def build_harness(asan=False, opt=0, rel=False):
    """rel: with the crate compiled as for release, without debug assertions and overflow checks; 'part': only what needs it most"""
    env = dict(os.environ, RUSTFLAGS='--cfg frozen_verif --cap-lints allow -Awarnings', CARGO_NET_OFFLINE='true')
    env.pop('CARGO_TARGET_DIR', None)
    env['CARGO_PROFILE_DEV_OPT_LEVEL'] = str(opt)
    cmd = ['cargo', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'target')]
    if rel:
        cmd = ['cargo', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'rel')] + (['--features', 'rel'] if rel == 'part' else [])
        env['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = env['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'false'
    if asan:
        env['RUSTFLAGS'] += ' -Zsanitizer=address'
        cmd = ['cargo', '+nightly', 'build', '--offline', '--target', 'x86_64-unknown-linux-gnu', '--target-dir', os.path.join(BUILD, 'asan')]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=env, capture_output=True, text=True, timeout=600)
        if r.returncode and not asan:
            # the private analyzers the hook exposes are no longer there: all but C17 and C18 needs only the public interface
            env['RUSTFLAGS'] = env['RUSTFLAGS'].replace('--cfg frozen_verif', '').strip()
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=env, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    return r.returncode == 0, r.stderr[-3000:]

RELEASE = os.path.join(BUILD, 'rel/debug/fc-harness')
RELCASE = 'without debug assertions: '
SHARDS = 8
def run_harness(prop, tier, seed, secs, only=None, binary=HARNESS):
    if only: return run_shard(prop, tier, seed, secs, only, binary, None)
    with ThreadPoolExecutor(SHARDS) as ex:
        got = list(ex.map(lambda i: run_shard(prop, tier, seed, secs, None, binary, f'{i}/{SHARDS}'), range(SHARDS)))
    for st in ('fail', 'error', 'timeout'):
        for g in got:
            if g['status'] == st: return g
    return {'status': 'ok', 'out': '', 'err': '', 'evals': sum(g['evals'] for g in got), 'nontrivial': sum(g['nontrivial'] for g in got),
            'stopped': any(g['stopped'] for g in got), 'samples': [s for g in got for s in g['samples'][:2]]}

def run_shard(prop, tier, seed, secs, only, binary, shard):
    cmd = [binary, str(prop), '--tier', tier, '--seed', str(seed), '--secs', str(secs)]
    if shard: cmd += ['--shard', shard]
    if only: cmd += ['--only', only]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_segv=0')
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=secs + 90, env=env)
    except subprocess.TimeoutExpired as e:
        return {'status': 'timeout', 'out': (e.stdout or b'')[-2000:].decode('utf8', 'replace') if isinstance(e.stdout, bytes) else ''}
    out = {'status': 'ok', 'code': r.returncode, 'out': r.stdout[-4000:], 'err': r.stderr[-4000:]}
    m = re.search(r'^FAIL (.*?) :: (.*)$', r.stdout, re.M)
    if m:
        out.update(status='fail', case=m.group(1), msg=m.group(2))
        return out
    m = re.search(r'^RESULT evals=(\d+) nontrivial=(\d+) stopped=(\w+)', r.stdout, re.M)
    if r.returncode == 0 and m:
        out.update(evals=int(m.group(1)), nontrivial=int(m.group(2)), stopped=m.group(3) == 'true',
                   samples=re.findall(r'^SAMPLE (.*)$', r.stdout, re.M))
    elif 'AddressSanitizer' in r.stderr:
        out.update(status='fail', case='(the case running when AddressSanitizer stopped the process)', msg=r.stderr[:600].replace('\n', ' '))
    else:
        out['status'] = 'error'
    return out

# ---------------------------------------------------------------- programs that use the macro

def run_macros(tier, seed, only=None):
    """Builds and runs the programs of macrogen.py; a program that the compiler rejects is a failing input too."""
    import macrogen
    d, target = os.path.join(BUILD, 'macro'), os.path.join(BUILD, 'macro_target')
    where = macrogen.write(d, tier, seed)
    for f in ('Cargo.toml', 'Cargo.lock'): shutil.copy(os.path.join(VERIF, 'harness_macro', f), d)
    env = dict(os.environ, RUSTFLAGS='--cap-lints allow -Awarnings', CARGO_NET_OFFLINE='true')
    env.pop('CARGO_TARGET_DIR', None)
    try:
        r = subprocess.run(['cargo', 'build', '--offline', '--bins', '--keep-going', '--message-format=json', '--target-dir', target], cwd=d, env=env, capture_output=True, text=True, timeout=700)
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'out': 'building the programs'}
    at = {(b, l): (n, body) for b, cs in where.items() for l, n, body in cs}
    bad, built, other = {}, set(), []
    for line in r.stdout.splitlines():
        try: g = json.loads(line)
        except ValueError: continue
        t = g.get('target', {}).get('name', '')
        if g.get('reason') == 'compiler-artifact' and g.get('executable'): built.add(t)
        m = g.get('message')
        if g.get('reason') != 'compiler-message' or m.get('level') != 'error': continue
        hits = []
        def spans(l):
            for s in l:
                if (t, s['line_start']) in at and os.path.basename(s['file_name']) == t + '.rs': hits.append((t, s['line_start']))
                if s.get('expansion'): spans([s['expansion']['span']])
        spans(m.get('spans', []))
        if hits: bad.setdefault(hits[0], m.get('message', '') + ': ' + m.get('rendered', '')[:600])
        elif not m.get('message', '').startswith('aborting'): other.append(m.get('message', ''))
    if len(bad) == len(at) or other or (not built and not bad):
        return {'status': 'nobuild', 'out': '', 'err': '; '.join(other)[:600] or r.stderr[-1500:]}
    def fail(b, l, msg): return {'status': 'fail', 'case': at[b, l][0], 'msg': msg.replace('\n', ' ')[:900], 'program': at[b, l][1], 'out': ''}
    for k, msg in bad.items():
        if only is None or at[k][0] == only: return fail(*k, 'does not compile: ' + msg)
    n, names = 0, []
    for b in sorted(built):
        try:
            x = subprocess.run([os.path.join(target, 'debug', b)], capture_output=True, text=True, errors='replace', timeout=200, cwd=d)
        except subprocess.TimeoutExpired:
            return {'status': 'timeout', 'out': b}
        m = re.search(r'^FAIL (.*?) :: (.*)$', x.stdout, re.M)
        if m and only in (None, m.group(1)):
            return fail(b, next(l for (bb, l), v in at.items() if bb == b and v[0] == m.group(1)), m.group(2))
        ok = re.findall(r'^OK (.*)$', x.stdout, re.M)
        if x.returncode and not m:
            l = [k[1] for k in at if k[0] == b]
            if len(ok) < len(l) and x.returncode < 0: return fail(b, sorted(l)[len(ok)], f'the program ended with {x.returncode}: {x.stderr[:300]}')
            return {'status': 'error', 'out': x.stdout[-600:], 'err': x.stderr[-900:]}
        n += len(ok)
        names += ok[:3]
    return {'status': 'ok', 'out': '', 'err': '', 'evals': n, 'nontrivial': n - sum(v[0].endswith(': none') for v in at.values()), 'stopped': False, 'samples': names}

# ---------------------------------------------------------------- a check

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\w+) case=(\S+) (.*)', line)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def main(prop, replay=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    P = props.PROPS[prop]
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    outdir = os.path.join(BUILD, 'verus', prop)
    os.makedirs(outdir, exist_ok=True)
    rp = os.path.join(evdir, 'replay', prop + '.txt')
    num = int(prop[1:])
    if replay:
        txt = open(replay).read()
        m = re.search(r'^case: (.*)$', txt, re.M)
        if not m:
            print('the replay file names no input'); return 0
        case, rel = m.group(1), m.group(1).startswith(RELCASE)
        if P.get('programs'):
            r = run_macros(tier, seed, case)
            print(r.get('case', ''), '::', r.get('msg', r['out'])); return 1 if r['status'] == 'fail' else 0
        ok, err = build_harness(rel='full' if rel else False)
        if not ok: print(err); return 2
        r = run_harness(num, tier, seed, 600, only=case[len(RELCASE):] if rel else case, **({'binary': RELEASE} if rel else {}))
        print(r.get('case', ''), '::', r.get('msg', r['out'])); return 1 if r['status'] == 'fail' else 0

    hb = {}
    if P.get('programs'): th = threading.Thread(target=lambda: hb.update(run_macros(tier, seed)))
    else: th = threading.Thread(target=lambda: hb.update(zip(('ok', 'err'), build_harness(opt=1 if tier == 'thorough' else 0))))
    th.start()
    rel = 'full' if tier == 'thorough' else 'part' if prop in ('C05', 'C15') else None
    if rel:
        rb = {}
        tr = threading.Thread(target=lambda: rb.update(zip(('ok', 'err'), build_harness(opt=1 if tier == 'thorough' else 0, rel=rel))))
        tr.start()
    units, proves = closed(P['units'], P.get('roots'))
    seeds = [seed + 1, seed + 2] if tier == 'thorough' else []
    with ThreadPoolExecutor(6) as ex:
        results = list(ex.map(lambda n: run_unit(n, outdir, seeds), units))
    th.join()
    t_verus = time.time() - t0
    if P.get('programs'): h = hb if 'status' in hb else {'status': 'error', 'out': '', 'err': 'the programs could not be written'}
    elif hb.get('ok'):
        secs = P.get('secs', 60) if tier == 'quick' else 420
        h = run_harness(num, tier, seed, secs)
        for k in known_findings(prop): pass
    else:
        h = {'status': 'nobuild', 'out': '', 'err': hb.get('err', '')}
    if rel:
        tr.join()
        if rb.get('ok') and h['status'] == 'ok':
            r = run_harness(num, 'quick', seed, 60 if tier == 'quick' else 240, binary=RELEASE)
            if r['status'] == 'fail': h = dict(r, case=RELCASE + r['case'])
            elif r['status'] == 'ok': h.update(evals=h['evals'] + r['evals'], nontrivial=h['nontrivial'] + r['nontrivial'])
    asan = None
    if tier == 'thorough' and prop == 'C16' and h['status'] == 'ok':
        ok, err = build_harness(asan=True)
        if ok:
            asan = run_harness(num, 'quick', seed, 240, binary=os.path.join(BUILD, 'asan/x86_64-unknown-linux-gnu/debug/fc-harness'))
            if asan['status'] == 'fail': h = asan

    failed = [(r.name, *f) for r in results for f in r.failed]
    # a unit holds functions of more than one property: what fails elsewhere is for the other checks to report
    elsewhere = []
    if P.get('roots'):
        try:
            mine = reach(units, P['roots'])
            elsewhere = [f for f in failed if f[1] and (f[1][0], f[1][1].split('#')[0]) not in mine]
        except LostAnchor: pass
    if P.get('clauses'):
        elsewhere += [f for f in failed if f not in elsewhere and not f[2].startswith('precondition') and not re.search(P['clauses'], ' '.join([f[2]] + f[3]))]
    failed = [f for f in failed if f not in elsewhere]
    undecided = [(r.name, r.why) for r in results if r.status == 'undecided']
    verdict, extra = 'ok', ''
    known = known_findings(prop)
    if h['status'] == 'fail' and not any(h['case'] == c for c, _ in known):
        verdict = 'input'
    elif failed and not undecided:
        sure = [f for f in failed if firm(f[1:])]
        if sure and len(sure) == len(failed): verdict = 'proof'
        else: undecided.append(('-', 'obligations fail, but the code is shaped differently from the code the proofs were written for'))
    for c, why in known: print(f'KNOWN-FINDING: property={prop} {why}')

    # evidence
    functions = sorted({f'{p}: {k}' for r in results if r.status == 'ok' for p, k in r.fns})
    obligations = sum(r.verified + r.errors for r in results)
    discharged = sum(r.verified for r in results if r.status in ('ok', 'failed'))
    tb = sorted({t for r in results for t in r.trusted})
    assumed = sorted({f'contract assumed in a unit of this check and proved in none: {p}: {k}' for r in results for p, k in r.assumed if (p, k) not in proves and not any((p, k) in x.fns for x in results)})
    lvl = P['level']
    if undecided: lvl = 'exploration'           # the proof was not redone on this text
    cov = {
        'explanation': P['note'],
        'functions_under_contract': functions,
        'units': [{'unit': r.name, 'status': r.status, 'verified': r.verified, 'errors': r.errors, 'smt_ms': r.smt_ms,
                   'reseeded_runs_ok': r.seeds, **({'why': r.why} if r.why else {})} for r in results],
        'solver': 'Z3 (through Verus)', 'solver_time_s': round(sum(r.smt_ms for r in results) / 1000, 3),
        'vacuity': f'{sum(len(r.fns) for r in results if r.status == "ok")} functions re-verified with assert(false) at their entry; each failed, as it must',
        'bounded': P.get('bounded', []),
        'undecided': [f'{n}: {w}' for n, w in undecided],
        'failed_obligations': [f'{n}: {w[0] + " " + w[1] if w else "?"}: {m}' for n, w, m, l, rr, _ in failed],
        'failed_obligations_of_other_properties': [f'{n}: {w[0] + " " + w[1] if w else "?"}: {m}' for n, w, m, l, rr, _ in elsewhere],
        'search': {k: h.get(k) for k in ('status', 'evals', 'nontrivial', 'stopped', 'case', 'msg') if k in h},
    }
    if asan is not None: cov['address_sanitizer'] = {k: asan.get(k) for k in ('status', 'evals', 'nontrivial')}
    if lvl == 'proof':
        cov.update(obligations=obligations, discharged=discharged,
                   checker_cmd=f'verus {{unit}}.rs --output-json --time --multiple-errors 3, for the units {", ".join(units)}, generated by tools/vx.py from /repo on this run',
                   trusted_base=tb + assumed)
    else:
        cov.update(explanation='THE PROOF WAS NOT REDONE on the current text (see undecided); this run only evaluated the contracts on the compiled crate. ' + P['note'],
                   obligations=obligations, discharged=discharged, evaluations=0, distinct_nontrivial=0, rule='', samples=[])
    if 'evals' in h:
        cov.update(evaluations=h['evals'], distinct_nontrivial=h['nontrivial'], samples=h.get('samples', []),
                   rule=('the contract of the macro evaluated on programs generated around one invocation each; non-trivial when entries are given; distinct by name' if P.get('programs') else
                         'the contract of the property evaluated on the compiled crate for systematically generated payloads, key types, hashers and probes; a case is non-trivial when its payload is not empty; cases are distinct by name'))
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=props.ASSUMPTIONS + P.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=0 if verdict == 'ok' else 1)
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)

    print(f'{prop}: {len(units)} units, {obligations} obligations, {discharged} discharged, {len(undecided)} undecided; search {h["status"]} ({h.get("evals", 0)} cases); verifier {t_verus:.0f} s, all {time.time() - t0:.0f} s')
    for n, w in undecided: print(f'  undecided {n}: {w[:300]}')
    if h['status'] in ('error', 'timeout', 'nobuild'): print('  search: ' + (h.get('err') or h.get('out') or h['status'])[-800:])
    if verdict == 'ok':
        return 2 if undecided and h['status'] != 'ok' else 0          # 2: neither proof nor search answered
    with open(rp, 'w') as f:
        f.write(f'property: {prop} {P["title"]}\n')
        if verdict == 'input':
            f.write(f'case: {h["case"]}\nobserved: {h["msg"]}\nreplay: python3 check.py {prop} --replay <this file>\n'
                    f'(the program: {h["program"]})\n' if 'program' in h else f'case: {h["case"]}\nobserved: {h["msg"]}\nreplay: python3 check.py {prop} --replay <this file>\n'
                    f'(or, built as in MANIFEST.json: build/target/debug/fc-harness {num} --tier {tier} --seed {seed} --only "<case>")\n')
        for n, w, m, l, rr, _ in failed:
            f.write(f'\nfailed obligation in unit {n}: {w[0] + " " + w[1] if w else "?"}: {m}\n' + '\n'.join('   ' + x for x in l) + '\n' + rr + '\n')
        for n, w in undecided: f.write(f'\nundecided: {n}: {w}\n')
    for n, w, m, l, rr, _ in failed[:6]: print(f'  failed obligation: {w[0] + " " + w[1] if w else n}: {m}')
    if verdict == 'input':
        print(f'  failing input: {h["case"]} :: {h["msg"][:300]}')
        print(f'VIOLATION property={prop} replay={rp}')
    else:
        print(f'VIOLATION property={prop} replay={rp} no-failing-input-found')
    return 1
