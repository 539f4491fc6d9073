"""Mechanical extraction: /repo functions (verbatim text) + contracts -> one Verus file per unit."""
import os, re, copy
from rustlex import *

SRC = os.environ.get('VERIF_SRC', '/repo/frozen-collections-core/src/')

# ---------------------------------------------------------------- source access

_cache = {}
def load(path):
    if path not in _cache:
        full = os.path.join(SRC, path)
        try:
            src = open(full).read()
        except OSError as e:
            raise LostAnchor(f'{path}: {e.strerror}')
        try:
            _cache[path] = [i for i in parse_items(src) if not i.cfg_test]
        except IndexError:
            raise LostAnchor(f'{path}: cannot be parsed')
    return _cache[path]

def base(ty):
    """`&'a CommonMap<K, V>` -> `&CommonMap`; `[T]` -> `[T]`"""
    ty = ty.strip()
    amp = ''
    while ty.startswith('&'):
        amp += '&'
        ty = re.sub(r"^&\s*('\w+\s*)?(mut\s+)?", '', ty)
    return amp + re.sub(r'<.*$', '', ty).strip()

def fn_key(item, f):
    if item is None:
        return f.name
    if item.kind == 'trait':
        return f'{item.name}::{f.name}'
    if item.trait_ is None:
        return f'{base(item.self_ty)}::{f.name}'
    return f'{base(item.self_ty)}::{f.name}@{base(item.trait_)}'

def index(path):
    """key -> list of (impl item or None, Fn)"""
    out = {}
    for it in load(path):
        if it.kind == 'fn':
            out.setdefault(it.name, []).append((None, it.fn))
        elif it.kind in ('impl', 'trait'):
            for f in it.fns:
                out.setdefault(fn_key(it, f), []).append((it, f))
    return out

def find_fn(path, key):
    got = index(path).get(key)
    if not got:
        raise LostAnchor(f'{path}: no function {key}')
    if len(got) > 1:
        raise LostAnchor(f'{path}: {len(got)} functions {key}')
    return got[0]

def find_item(path, kind, name):
    for it in load(path):
        if it.kind == kind and it.name == name:
            return it
    raise LostAnchor(f'{path}: no {kind} {name}')

# ---------------------------------------------------------------- edits

class Edits:
    def __init__(self, text):
        self.text, self.e, self.n = text, [], 0
    def insert(self, pos, s, prio=0):
        self.e.append((pos, pos, prio, self.n, s)); self.n += 1
    def replace(self, a, b, s):
        self.e.append((a, b, 0, self.n, s)); self.n += 1
    def apply(self):
        # replacements must not overlap; insertions inside a replaced span are dropped
        reps = sorted([x for x in self.e if x[0] != x[1]])
        outer = []
        for r in reps:
            if outer and r[0] < outer[-1][1]:
                if r[1] <= outer[-1][1]: continue
                raise LostAnchor('overlapping edits')
            outer.append(r)
        ins = [x for x in self.e if x[0] == x[1] and not any(r[0] < x[0] < r[1] for r in outer)]
        out, p = [], 0
        for a, b, pr, n, s in sorted(ins + outer, key=lambda x: (x[0], x[0] != x[1], x[2], x[3])):
            out.append(self.text[p:a]); out.append(s); p = max(p, b)
        out.append(self.text[p:])
        return ''.join(out)

class Contract:
    def __init__(self, path, key, ret=None, spec='', loops=None, closures=None, at=None, panic=None,
                 unwrap_panic=None, slicing=False, desugar=None, subst=(), attrs='', mode=None, as_name=None,
                 shape=None, tail_bind=None, header=None, where=None, sig_subst=(), generics=None,
                 external=False, let_types=None, redirect=None, impl_bound=None, panics=None,
                 quotes=None, strmatch=False):
        self.__dict__.update(locals())
        self.loops = loops or {}
        self.closures = closures or {}
        self.at = at or {}
        self.desugar = desugar or {}
        self.let_types = let_types or {}
        self.redirect = redirect or {}
        self.quotes = quotes or {}

CONTRACTS = {}
def contract(path, key, **kw):
    CONTRACTS[(path, key)] = Contract(path, key, **kw)

def strip_inner_attrs(toks, ed, off):
    i = 0
    while i < len(toks):
        if toks[i].t == '#' and toks[i + 1].t == '[':
            e = match_close(toks, i + 1)
            ed.replace(toks[i].s - off, toks[e].e - off, '')
            i = e
        i += 1

def body_text(f, c):
    """The body of f with the contract's annotations injected."""
    toks, off = f.body_toks, f.body_off
    src = f.src
    ed = Edits(f.body)
    strip_inner_attrs(toks, ed, off)
    loops = find_loops(toks)
    closures = find_closures(toks)
    if c is None:
        c = Contract('', '')
    if c.loops and max(c.loops) >= len(loops):
        raise LostAnchor(f'fn {f.name}: {len(loops)} loops')
    if c.closures and max(c.closures) >= len(closures):
        raise LostAnchor(f'fn {f.name}: {len(closures)} closures')
    if c.desugar and max(c.desugar) >= len(loops):
        raise LostAnchor(f'fn {f.name}: {len(loops)} loops')
    # loops
    for k, inv in c.loops.items():
        kind, kw, ob, cb = loops[k]
        if k in c.desugar:
            continue
        ghost = None
        if isinstance(inv, tuple):
            ghost, inv = inv
        if ghost and kind == 'for':
            # `for PAT in ghost: EXPR`
            j = kw + 1
            while toks[j].t != 'in':
                if toks[j].t in OPEN: j = match_close(toks, j)
                j += 1
            ed.insert(toks[j].e - off, f' {ghost}: ')
        ed.insert(toks[ob].s - off, '\n' + inv + '\n')
    for k, name in c.desugar.items():
        kind, kw, ob, cb = loops[k]
        if kind != 'for':
            raise LostAnchor(f'fn {f.name}: loop {k} is not a for loop')
        j = kw + 1
        while toks[j].t != 'in':
            if toks[j].t in OPEN: j = match_close(toks, j)
            j += 1
        pat = src[toks[kw + 1].s:toks[j - 1].e]
        expr = src[toks[j + 1].s:toks[ob - 1].e]
        pre = c.at.get(f'loop{k}.pre', '')
        mid = c.at.get(f'loop{k}.mid', '')
        into = 'std::iter::IntoIterator::into_iter({}__src)'
        if isinstance(name, tuple): name, into = name[0], '{}__src'      # an iterator of the model
        inv = c.loops.get(k, '')
        ed.replace(toks[kw].s - off, toks[ob].e - off,
                   f'let {name}__src = {expr};\n{pre}\nlet mut {name} = {into.format(name)};\n{mid}\n'
                   f'#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\nloop\n{inv}\n{{ match {name}.next() {{ None => {{ break; }} Some({pat}) => {{\n'
                   + c.at.get(f'loop{k}.begin', ''))
        ed.replace(toks[cb].s - off, toks[cb].e - off, c.at.get(f'loop{k}.end', '') + '}}}')
    # closures
    for k, ann in c.closures.items():
        cl = closures[k]
        a, b = toks[cl['po']].s - off, toks[cl['pc']].e - off
        params = f.body[a:b]
        bind = ''
        if isinstance(ann, tuple):
            # (variable, head): the parameter's pattern moves into the body
            pats = params.strip().strip("|").strip()
            ann, bind = ann[1], f'let ({pats}) = ({ann[0]}); ' if ',' in ann[0] else f'let {pats} = {ann[0]}; '
        ed.replace(a, b, ann + ' ')
        if toks[cl['bs']].t != '{':
            ed.insert(toks[cl['bs']].s - off, '{ ' + bind)
            ed.insert(toks[cl['be']].e - off, ' }')
        elif bind:
            ed.insert(toks[cl['bs']].e - off, ' ' + bind)
    # insertions
    stm = None
    for where, text in c.at.items():
        m = re.fullmatch(r'loop(\d+)\.(\w+)', where)
        if m:
            k = int(m.group(1))
            if k >= len(loops): raise LostAnchor(f'fn {f.name}: loop {k}')
            kind, kw, ob, cb = loops[k]
            what = m.group(2)
            if k in c.desugar:
                if what == 'after': ed.insert(toks[cb].e - off, '\n' + text + '\n')
                continue
            if what == 'begin': ed.insert(toks[ob].e - off, '\n' + text + '\n')
            elif what == 'end': ed.insert(toks[cb].s - off, '\n' + text + '\n')
            elif what == 'before':
                p = kw
                ed.insert(toks[p].s - off, '\n' + text + '\n', -1)
            elif what == 'after': ed.insert(toks[cb].e - off, '\n' + text + '\n')
            continue
        if where == 'start':
            ed.insert(1, '\n' + text + '\n'); continue
        m = re.fullmatch(r'return(\d+)', where)
        if m:
            rets = [t for t in toks if t.k == 'ident' and t.t == 'return']
            k = int(m.group(1))
            if k >= len(rets): raise LostAnchor(f'fn {f.name}: return {k}')
            ed.insert(rets[k].s - off, '\n' + text + '\n'); continue
        if where == 'tail':
            if stm is None: stm = top_statements(toks)
            if not stm: raise LostAnchor(f'fn {f.name}: empty body')
            ed.insert(toks[stm[-1][0]].s - off, '\n' + text + '\n'); continue
        m = re.fullmatch(r'stmt(\d+)', where)
        if m:
            if stm is None: stm = top_statements(toks)
            k = int(m.group(1))
            if k >= len(stm): raise LostAnchor(f'fn {f.name}: statement {k}')
            ed.insert(toks[stm[k][0]].s - off, '\n' + text + '\n'); continue
        m = re.fullmatch(r'(before|after):(.+?)(?:#(\d+))?', where)
        if m:
            pat = [t.t for t in code_toks(lex(m.group(2)))]
            hits = [i for i in range(len(toks)) if [t.t for t in toks[i:i + len(pat)]] == pat]
            k = int(m.group(3) or 0)
            if k >= len(hits): raise LostAnchor(f'fn {f.name}: text {m.group(2)!r}')
            i = hits[k]
            ed.insert((toks[i].s if m.group(1) == 'before' else toks[i + len(pat) - 1].e) - off, '\n' + text + '\n', 1 if m.group(1) == 'after' else 0); continue
        raise ValueError(where)
    if c.tail_bind:
        stm = stm or top_statements(toks)
        a, b = toks[stm[-1][0]].s - off, toks[stm[-1][1] - 1].e - off
        if toks[stm[-1][1] - 1].t == ';': raise LostAnchor(f'fn {f.name}: no tail expression')
        ed.insert(a, 'let __r = ', 2)
        ed.insert(b, ';\n' + c.tail_bind + '\n__r')
    # type ascriptions on lets (inference needs them once ghost code mentions the variable)
    for i in range(len(toks) - 2):
        if toks[i].t == 'let':
            j = i + 1 + (toks[i + 1].t == 'mut')
            if toks[j].t in c.let_types and toks[j + 1].t == '=':
                ed.insert(toks[j].e - off, ': ' + c.let_types[toks[j].t])
    # quote!: each place becomes a call of a function of what it interpolates
    if c.quotes or find_macros(toks, ('quote',)):
        for k, (i, e, names, body) in enumerate(quote_sites(toks)):
            q = c.quotes.get(k)
            if q is None: raise LostAnchor(f'fn {f.name}: quote! {k}')
            if 'text' in q and [t.t for t in body] != [t.t for t in code_toks(lex(q['text']))]: raise LostAnchor(f'fn {f.name}: quote! {k} has other text')
            ed.replace(toks[i].s - off, toks[e].e - off, f'{q["fn"]}({", ".join("&" + n for n in names)})')
        if len(quote_sites(toks)) != len(c.quotes): raise LostAnchor(f'fn {f.name}: number of quote!')
    # a match on string literals is the chain of comparisons the language defines it to be
    if c.strmatch:
        ms = [i for i, t in enumerate(toks) if t.t == 'match']
        done = False
        for i in ms:
            ob = i + 1
            while toks[ob].t != '{':
                if toks[ob].t in OPEN: ob = match_close(toks, ob)
                ob += 1
            if toks[ob + 1].k != 'str': continue
            if done: raise LostAnchor(f'fn {f.name}: two matches on strings')
            done = True
            scrut, cb, j = src[toks[i + 1].s:toks[ob - 1].e], match_close(toks, ob), ob + 1
            ed.replace(toks[i].s - off, toks[ob].e - off, '')
            while j < cb:
                if toks[j].k == 'str':
                    lits = [toks[j].t]; a = j; j += 1
                    while toks[j].t == '|': lits.append(toks[j + 1].t); j += 2
                    head = 'if ' + ' || '.join(f'vstr_eq({scrut}, {x})' for x in lits) + ' {'
                elif toks[j].t == '_': a = j; j += 1; head = '{'
                else: raise LostAnchor(f'fn {f.name}: arm of a match on strings')
                if toks[j].t == '=>': x = j + 1
                elif toks[j].t == '=' and toks[j + 1].t == '>': x = j + 2
                else: raise LostAnchor(f'fn {f.name}: guard in a match on strings')
                ed.replace(toks[a].s - off, toks[x - 1].e - off, head)
                if toks[x].t == '{' :
                    x = match_close(toks, x) + 1
                    if x < cb and toks[x].t == ',': ed.replace(toks[x].s - off, toks[x].e - off, '}' + ('' if head == '{' else ' else ')); x += 1
                    else: ed.insert(toks[x - 1].e - off, '}' + ('' if head == '{' else ' else '))
                else:
                    while x < cb and toks[x].t != ',':
                        if toks[x].t in OPEN: x = match_close(toks, x)
                        x += 1
                    if x < cb: ed.replace(toks[x].s - off, toks[x].e - off, '}' + ('' if head == '{' else ' else ')); x += 1
                    else: ed.insert(toks[x - 1].e - off, '}')
                j = x
            ed.replace(toks[cb].s - off, toks[cb].e - off, '')
        if not done: raise LostAnchor(f'fn {f.name}: no match on strings')
    # method calls redirected to a stub carrying the std contract
    for i in range(1, len(toks) - 1):
        if toks[i].t in c.redirect and toks[i - 1].t == '.' and toks[i + 1].t in ('(', '::'):
            ed.replace(toks[i].s - off, toks[i].e - off, c.redirect[toks[i].t])
    # what depends on how the crate is compiled
    for name, i, e in find_macros(toks, ('cfg',)):
        if [t.t for t in toks[i + 3:e]] != ['debug_assertions']: raise LostAnchor(f'fn {f.name}: cfg!')
        ed.replace(toks[i].s - off, toks[e].e - off, 'vdebug()')
    for i in range(len(toks) - 2):
        if toks[i].t == '#' and toks[i + 1].t == '[' and toks[i + 2].t in ('cfg', 'cfg_attr'): raise LostAnchor(f'fn {f.name}: #[cfg] within the body')
    # panicking macros
    for name, i, e in find_macros(toks, ('assert', 'debug_assert', 'assert_eq', 'assert_ne', 'debug_assert_eq', 'debug_assert_ne', 'panic', 'unreachable', 'todo', 'unimplemented')):
        perm = c.panic or 'false'
        dbg = 'vdebug() && ' if name.startswith('debug_') else ''     # may or may not be compiled in
        args = split_args(toks, i + 3, e)
        ts = lambda ab: src[toks[ab[0]].s:toks[ab[1] - 1].e]
        if name in ('panic', 'unreachable', 'todo', 'unimplemented'):
            new = f'vpanic(Ghost({perm}))'
        elif name.endswith('_eq') or name.endswith('_ne'):
            op = '==' if name.endswith('_eq') else '!='
            new = f'if {dbg}!(({ts(args[0])}) {op} ({ts(args[1])})) {{ vpanic(Ghost({perm})) }}'
        else:
            new = f'if {dbg}!({ts(args[0])}) {{ vpanic(Ghost({perm})) }}'
        ed.replace(toks[i].s - off, toks[e].e - off, new)
    if c.unwrap_panic is not None:
        for i in range(len(toks) - 3):
            if toks[i].t == '.' and toks[i + 1].t == 'unwrap' and toks[i + 2].t == '(' and toks[i + 3].t == ')':
                ed.replace(toks[i + 1].s - off, toks[i + 3].e - off, f'vunwrap(Ghost({c.unwrap_panic}))')
    if c.slicing:                               # &E[I] may panic: vslice(E, I)
        for i in range(1, len(toks)):
            if toks[i].t != '[' or toks[i - 1].t in ('&', '=', '(', ',', '!', '#', '['): continue
            j = i - 1
            while j >= 0:
                if toks[j].t in (')', ']'):
                    d = 0
                    while True:
                        d += (toks[j].t in (')', ']')) - (toks[j].t in ('(', '['))
                        if d == 0: break
                        j -= 1
                    if toks[j - 1].k != 'ident': break
                    j -= 1
                if toks[j].k == 'ident' and toks[j - 1].t in ('.', '::'): j -= 2
                else: break
            if toks[j - 1].t != '&': raise LostAnchor(f'fn {f.name}: an index that is no slice')
            ed.replace(toks[j - 1].s - off, toks[j - 1].e - off, 'vslice(')
            ed.replace(toks[i].s - off, toks[i].e - off, ', ')
            e = match_close(toks, i)
            ed.replace(toks[e].s - off, toks[e].e - off, ')')
    out = ed.apply()
    out = apply_subst(out, c.subst, f.name)
    return out

def quote_sites(toks):
    """[(first token, last token, variables interpolated in order, tokens of the template)]"""
    out = []
    for name, i, e in find_macros(toks, ('quote',)):
        body = toks[i + 3:e]
        names = []
        for a, t in enumerate(body[:-1]):
            if t.t == '#' and body[a + 1].k == 'ident' and body[a + 1].t not in names: names.append(body[a + 1].t)
        out.append((i, e, names, body))
    return out

def replace_toks(ts, pat, new):
    out, i = [], 0
    while i < len(ts):
        if ts[i:i + len(pat)] == pat: out.append(new); i += len(pat)
        else: out.append(ts[i]); i += 1
    return [t for t in out if t != '']

def quote_externs(path, key, types):
    """The functions the places of quote! in it stand for, specified by its contract."""
    _, f = find_fn(path, key)
    c, out = CONTRACTS[(path, key)], []
    for k, (i, e, names, body) in enumerate(quote_sites(f.body_toks)):
        q = c.quotes.get(k)
        if q is None: raise LostAnchor(f'fn {f.name}: quote! {k}')
        ps = []
        for n in names:
            if n not in types: raise LostAnchor(f'fn {f.name}: quote! interpolates {n}')
            ps.append(f'{n}: &{types[n]}')
        out.append(f'#[verifier::external_body]\npub fn {q["fn"]}({", ".join(ps)}) -> (r: TokenStream)\n{q["spec"]}\n{{ unimplemented!() }}\n')
    return ''.join(out)

def quote_programs(path, key):
    """(name, text) of the programs the templates are, for each of the choices the contract lists"""
    _, f = find_fn(path, key)
    c, out = CONTRACTS[(path, key)], []
    for k, (i, e, names, body) in enumerate(quote_sites(f.body_toks)):
        q = c.quotes.get(k)
        if q is None: raise LostAnchor(f'fn {f.name}: quote! {k}')
        for n, prog in enumerate(q.get('programs', ())):
            ts = [t.t for t in body]
            for a, b in (q['replace'] + list(prog['choice'])): ts = replace_toks(ts, [t.t for t in code_toks(lex(a))], b)
            if '#' in ts: raise LostAnchor(f'fn {f.name}: quote! {k} interpolates something else')
            text = ' '.join(ts)
            if not text.startswith('{'): text = '{ ' + text + ' }'
            out.append((f'{q["fn"]}_{n}', f'pub fn {q["fn"]}_{n}{prog["sig"]}\n{prog["spec"]}\n' + '{' + MARK + text[1:] + '\n'))
    return out

def apply_subst(text, subst, name):
    for a, b, *opt in subst:
        pat = [t.t for t in code_toks(lex(a))]
        tk = code_toks(lex(text))
        hits, i = [], 0
        while i < len(tk):
            if [t.t for t in tk[i:i + len(pat)]] == pat:
                hits.append((tk[i].s, tk[i + len(pat) - 1].e)); i += len(pat)
            else: i += 1
        if not hits and not (opt and opt[0]):
            raise LostAnchor(f'fn {name}: text {a!r} not found')
        for s, e in reversed(hits):
            text = text[:s] + b + text[e:]
    return text

def sub_assoc(nm, text, ty, where):
    """Self::Nm<'x> -> the type it stands for"""
    g = re.match(r"\s*type\s+\w+\s*<\s*('\w+)\s*>", text)
    def one(m):
        life = re.match(r"<\s*('\w+)", m.group(1) or '')
        return re.sub(g.group(1) + r'\b', life.group(1), ty) if g and life else ty
    return re.sub(r'\bSelf::' + nm + r"\b(<[^>]*>)?", one, where)

def fn_text(item, f, c, assume=False, in_trait=False):
    """Full text of one function, contract injected."""
    quals = [q for q in f.quals if q == 'unsafe']
    out = []
    if c and c.attrs: out.append(c.attrs + '\n')
    if assume or (c and c.external): out.append('#[verifier::external_body]\n')
    name = (c and c.as_name) or f.name
    params = f.params
    gens = f.generics
    if c and c.generics is not None: gens = c.generics
    sig = ('' if in_trait else 'pub ') + ''.join(q + ' ' for q in quals) + 'fn ' + name + gens + params
    if f.ret is not None:
        if c and c.ret: sig += f' -> ({c.ret}: {f.ret})'
        else: sig += f' -> {f.ret}'
    where = f.where
    if c and c.where is not None: where = c.where
    if where and item is None: where = eq_bound(where)
    if where:
        w = where.rstrip().rstrip(',')
        sig += '\n' + w
        if c and c.spec: sig += ','
    if item is not None and item.kind == 'impl':
        for kind, nm, text in item.assoc:
            if kind == 'type' and not in_trait:
                ty = re.split(r'\bwhere\b', text.split('=', 1)[1])[0].rstrip(';').strip()
                sig = sub_assoc(nm, text, ty, sig)
    if c: sig = apply_subst(sig, c.sig_subst, f.name)
    out.append(sig + '\n')
    if c and c.spec: out.append(c.spec.rstrip() + '\n')
    if assume or (c and c.external): out.append('{ unimplemented!() }\n')
    elif f.body is None: out.append(';\n')
    else:
        b = body_text(f, c)
        if item is not None and item.kind == 'impl' and not in_trait:
            for kind, nm, text in item.assoc:
                if kind == 'type':
                    ty = re.split(r'\bwhere\b', text.split('=', 1)[1])[0].rstrip(';').strip()
                    b = sub_assoc(nm, text, ty, b)
        out.append('{' + MARK + b[1:] + '\n')
    return ''.join(out)

def split_top(text):
    """Splits a comma-separated list of generics or where predicates."""
    toks = code_toks(lex(text))
    out, a, i, d = [], 0, 0, 0
    while i < len(toks):
        t = toks[i].t
        if t in OPEN: i = match_close(toks, i)
        elif t == '<': d += 1
        elif t == '>' and toks[i - 1].t not in ('-', '='): d -= 1
        elif t == '>>' : d -= 2
        elif t == ',' and d == 0:
            if i > a: out.append(text[toks[a].s:toks[i - 1].e])
            a = i + 1
        i += 1
    if len(toks) > a: out.append(text[toks[a].s:toks[-1].e])
    return out

def idents(text):
    return {t.t for t in code_toks(lex(text)) if t.k in ('ident', 'life', 'lifetime')}

def with_bound(head, pred):
    return head.rstrip().rstrip(',') + (', ' if re.search(r'\bwhere\b', head) else ' where ') + pred

def eq_bound(head):
    """Set<T> is specified in terms of the equality of T: where it is mentioned, T: Eq is added."""
    return with_bound(head, 'T: Eq') if re.search(r'\bSet<T>', head) else head

def inherent(item):
    """Trait impl -> (header of an inherent impl, generics and predicates its functions take over)"""
    self_ty = re.sub(r"^&\s*('\w+\s*)?", '', item.self_ty)
    gens = split_top(item.impl_generics[1:-1]) if item.impl_generics else []
    name = lambda g: re.sub(r'^const\s+', '', g.strip()).split(':')[0].strip()
    used = idents(self_ty)
    moved = [g for g in gens if name(g) not in used and not g.startswith("'")]
    names = {name(g) for g in moved}
    kept = [g for g in gens if g not in moved]
    preds = split_top(re.sub(r'^where\b', '', item.where.strip())) if item.where else []
    mp = [p for p in preds if idents(p) & names]
    kp = [p for p in preds if p not in mp]
    return ('impl' + ('<' + ', '.join(kept) + '>' if kept else '') + ' ' + self_ty + ('\nwhere ' + ', '.join(kp) if kp else ''), moved, mp)

def with_requires(spec, cond):
    m = re.match(r'\s*requires\b', spec)
    return f'    requires {cond},\n' + (spec[m.end():] if m else spec)

def add_generics(gens, moved):
    if not moved: return gens
    return '<' + ', '.join((split_top(gens[1:-1]) if gens else []) + moved) + '>'

def add_where(where, preds):
    if not preds: return where
    w = where.strip().rstrip(',') if where else ''
    return (w + ', ' if w else 'where ') + ', '.join(preds)

def struct_text(path, kind, name, subst=(), derive=''):
    it = find_item(path, kind, name)
    toks = it.toks
    off = toks[0].s
    ed = Edits(it.text)
    strip_inner_attrs(toks, ed, off)
    # fields public
    if kind == 'struct':
        k = next((i for i, t in enumerate(toks) if t.t == '{'), None)
        if k is not None:
            e = match_close(toks, k)
            i = k + 1
            while i < e:
                _, i = skip_attrs(toks, i)
                if i >= e: break
                j = skip_vis(toks, i)
                ed.replace(toks[i].s - off, toks[j].e - off, 'pub ' + toks[j].t)
                d = 0
                while i < e and not (toks[i].t == ',' and d == 0):
                    if toks[i].t in OPEN: i = match_close(toks, i)
                    elif toks[i].t == '<': d += 1
                    elif toks[i].t == '>': d -= 1
                    i += 1
                i += 1
    out = derive + 'pub ' + apply_subst(ed.apply(), subst, name) + '\n'
    if kind == 'struct' and 'Set<T>' in out:
        a, b = out.split('{', 1)
        out = eq_bound(a) + ' {' + b
    return out

def derived_clone(it):
    """The impl `#[derive(Clone)]` stands for: every field, in the variant there is, cloned."""
    toks = it.toks
    i = next(k for k, t in enumerate(toks) if t.t == it.kind) + 2
    gens = []
    if toks[i].t == '<':
        e = skip_angles(toks, i)
        gens = split_top(it.src[toks[i].e:toks[e - 1].s])
    name = lambda g: re.sub(r'^const\s+', '', g.strip()).split(':')[0].split('=')[0].strip()
    par = lambda g: g if g.strip().startswith(("'", 'const ')) else g.split('=')[0].strip() + (' + ' if ':' in g else ': ') + 'Clone'
    k = next((k for k in range(i, len(toks)) if toks[k].t in ('{', '(', ';') and not (toks[k].t == '(' and it.kind == 'enum')), None)
    def fields(a):
        """names or positions of the fields of the group opening at a"""
        e, out, j, n = match_close(toks, a), [], a + 1, 0
        while j < e:
            _, j = skip_attrs(toks, j)
            if j >= e: break
            j = skip_vis(toks, j)
            out.append(toks[j].t if toks[a].t == '{' else str(n)); n += 1
            d = 0
            while j < e and not (toks[j].t == ',' and d == 0):
                if toks[j].t in OPEN: j = match_close(toks, j)
                elif toks[j].t == '<': d += 1
                elif toks[j].t == '>': d -= 1
                j += 1
            j += 1
        return out, e
    if it.kind == 'struct':
        if toks[k].t == ';': body = 'Self'
        else: body = 'Self { ' + ', '.join(f'{f}: self.{f}.clone()' for f in fields(k)[0]) + ' }'
    else:
        e, j, arms = match_close(toks, k), k + 1, []
        while j < e:
            _, j = skip_attrs(toks, j)
            if j >= e: break
            v = toks[j].t; j += 1
            if toks[j].t == '{':
                fs, x = fields(j); j = x + 1
                arms.append(f'Self::{v} {{ {", ".join(fs)} }} => Self::{v} {{ {", ".join(f"{f}: {f}.clone()" for f in fs)} }}')
            elif toks[j].t == '(':
                fs, x = fields(j); j = x + 1
                arms.append(f'Self::{v}({", ".join("f" + f for f in fs)}) => Self::{v}({", ".join(f"f{f}.clone()" for f in fs)})')
            else: arms.append(f'Self::{v} => Self::{v}')
            while j < e and toks[j].t != ',': j += 1
            j += 1
        body = 'match self {\n' + ',\n'.join(arms) + '\n}'
    g = '<' + ', '.join(par(x) for x in gens) + '>' if gens else ''
    a = '<' + ', '.join(name(x) for x in gens) + '>' if gens else ''
    return f'impl{g} {it.name}{a}', body

def has_derive(it, what):
    return any(what in re.split(r'[\s,:]+', x) for x in re.findall(r'derive\s*\(([^)]*)\)', ' '.join(it.attrs)))

# ---------------------------------------------------------------- units

class Unit:
    """One Verus file. parts: list of
       ('text', str) | ('struct', path, name) | ('enum', path, name) |
       ('fn', path, key) verified | ('assume', path, key) contract only |
       ('trait_impl', path, self, trait, extra_spec) kept as a trait impl, all its functions verified"""
    def __init__(self, name, parts, prelude=()):
        self.name, self.parts, self.prelude = name, parts, prelude

UNITS = {}
def unit(name, parts, prelude=()):
    UNITS[name] = Unit(name, parts, prelude)

HERE = os.path.dirname(os.path.abspath(__file__))
CDIR = os.path.join(os.path.dirname(HERE), 'contracts')

MARK = '/*entry*/'
def entered(text, f, vac):
    return text.replace(MARK, 'proof { assert(false); }' if vac else '')

def generate(u, vacuity=False):
    """-> (text, fnlines) where fnlines is a list of (first line, last line, path, key, verified)"""
    chunks, spans = [], []
    line = [1]
    def emit(s):
        chunks.append(s); line[0] += s.count('\n')
    emit(open(os.path.join(CDIR, 'prelude_head.rs')).read())
    emit('verus! {\n')
    uses = []                                   # one `broadcast use` per module
    def take(m): uses.append(m.group(1)); return ''
    for p in u.prelude:
        emit(f'// ---- {p}\n')
        emit(re.sub(r'^broadcast use \{(.*)\};$', take, open(os.path.join(CDIR, p)).read(), flags=re.M) + '\n')
    if uses: emit('broadcast use {' + ', '.join(uses) + '};\n')
    flat = []
    def expand(parts):
        for p in parts:
            if p[0] == 'group': expand(p[1])
            else: flat.append(p)
    expand(u.parts)
    for p in flat:
        if p[0] == 'text':
            emit(p[1].rstrip() + '\n')
        elif p[0] in ('struct', 'enum'):
            emit(struct_text(p[1], p[0], p[2], *(p[3:])))
        elif p[0] in ('fn', 'fn_total', 'assume', 'assume_total'):
            path, key = p[1], p[2]
            item, f = find_fn(path, key)
            c = CONTRACTS.get((path, key))
            if p[0] not in ('fn', 'fn_total') and c is None: raise ValueError(f'{path} {key}: assumed without a contract')
            if p[0].endswith('_total') and (c.panics or c.panic):
                # where it may panic, its caller must not go
                c = copy.copy(c)
                c.spec = with_requires(c.spec, f'!({c.panics or c.panic})')
                c.panic = None
            head = None
            if item is not None:
                if item.trait_ is not None and not (c and c.header):
                    head, moved, mp = inherent(item)
                    f = copy.copy(f)
                    f.generics = add_generics(f.generics, moved)
                    f.where = add_where(f.where, mp)
                    if item.self_ty.startswith('&'):
                        life = re.match(r"&\s*('\w+)?", item.self_ty).group(1) or ''
                        f.params = re.sub(r'^\(\s*(mut\s+)?self\b', '(&' + life + ' self', f.params)
                else:
                    head = (c and c.header) or item.header
                if c and c.impl_bound:
                    head = with_bound(head, c.impl_bound)
                head = eq_bound(head)
                emit(head + '\n{\n')
            a = line[0]
            emit(entered(fn_text(item, f, c, assume=p[0].startswith('assume')), f, vacuity and p[0].startswith('fn')))
            spans.append((a, line[0], path, key, p[0].startswith('fn')))
            if item is not None: emit('}\n')
        elif p[0] in ('clone', 'clone_assume', 'clone_trait'):
            # the Clone of a type: its impl, or what its derive stands for
            path, kind, name = p[1:4]
            key = f'{name}::clone@Clone'
            c = CONTRACTS.get((path, key))
            asm = p[0] == 'clone_assume'
            if key in index(path):
                item, f = find_fn(path, key)
                head = inherent(item)[0] if p[0] != 'clone_trait' else item.header
                text = fn_text(item, f, c, assume=asm, in_trait=p[0] == 'clone_trait')
            else:
                it = find_item(path, kind, name)
                if not has_derive(it, 'Clone'): raise LostAnchor(f'{path}: {name} has no Clone')
                head, body = derived_clone(it)
                if p[0] == 'clone_trait': head = head.replace(f' {name}', f' Clone for {name}', 1)
                text = ('#[verifier::external_body]\n' if asm else '') + ('' if p[0] == 'clone_trait' else 'pub ') + 'fn clone(&self) -> (r: Self)\n' + (c.spec if c and p[0] != 'clone_trait' else '') + ('{ unimplemented!() }\n' if asm else '{' + MARK + '\n' + (c.at.get('start', '') if c else '') + '\n' + body + '\n}\n')
                f = None
            emit(head + '\n{\n')
            a = line[0]
            emit(entered(text, f, vacuity and not asm))
            spans.append((a, line[0], path, key, not asm))
            emit('}\n')
        elif p[0] == 'trait':
            path, name, extra = p[1:4]
            skip = p[4] if len(p) > 4 else ()
            it = find_item(path, 'trait', name)
            # in a module of its own: the axioms used at the root may mention the trait
            emit(f'pub mod {name.lower()}_trait {{\nuse super::*;\npub ' + eq_bound(it.header) + '\n{\n')
            for kind, nm, text in it.assoc: emit(text + '\n')
            emit(extra.rstrip() + '\n')
            for f in it.fns:
                if f.name in skip: continue
                key = fn_key(it, f)
                c = CONTRACTS.get((path, key))
                a = line[0]
                emit(entered(fn_text(it, f, c, in_trait=True), f, vacuity))
                if f.body is not None: spans.append((a, line[0], path, key, True))
            emit(f'}}\n}}\npub use {name.lower()}_trait::{name};\n')
        elif p[0] == 'quotes':
            emit(quote_externs(*p[1:4]))
        elif p[0] == 'programs':
            for name, text in quote_programs(*p[1:3]):
                a = line[0]
                emit(entered(text, None, vacuity))
                spans.append((a, line[0], p[1], f'{p[2]}#{name}', True))
        elif p[0] == 'ext_fn':
            # a function of `impl Tr for &X`, for every X that implements bound: a default method of a trait of its own
            path, key, bound, tag = p[1:5]
            item, f = find_fn(path, key)
            c = CONTRACTS.get((path, key))
            f = copy.copy(f)
            own = idents(bound)
            gens = split_top(item.impl_generics[1:-1]) if item.impl_generics else []
            f.generics = add_generics(f.generics, [g for g in gens if g.split(':')[0].strip() not in own])
            f.where = add_where(f.where, split_top(re.sub(r'^where\b', '', item.where.strip())) + ['Self: Sized', 'T: Eq'])
            f.params = re.sub(r'^\(\s*(mut\s+)?self\b', '(&self', f.params)
            txt = fn_text(item, f, c, in_trait=True)
            for kind, nm, text in item.assoc:
                if kind == 'type': txt = re.sub(r'\bSelf::' + nm + r'\b', text.split('=', 1)[1].rstrip(';').strip(), txt)
            tp = [g for g in gens if g.split(':')[0].strip() in own]
            emit(eq_bound(f'pub trait {tag}<{", ".join(tp)}>: {bound}') + '\n{\n')
            a = line[0]
            emit(entered(txt, f, vacuity))
            spans.append((a, line[0], path, key, True))
            emit('}\n')
        elif p[0] in ('trait_defaults', 'trait_defaults_assume'):
            # the default methods, in an extension trait (next to the declaration they would make Verus see a cycle)
            path, name, want = p[1:4]
            asm = p[0].endswith('assume')
            it = find_item(path, 'trait', name)
            g = re.search(r'\btrait\s+' + name + r'\s*(<[^>]*>)?', it.header).group(1) or ''
            emit(eq_bound(f'pub trait {name}Defaults{g}: {name}{g}') + '\n{\n')
            for f in it.fns:
                if f.name not in want: continue
                key = fn_key(it, f)
                a = line[0]
                emit(entered(fn_text(it, f, CONTRACTS.get((path, key)), in_trait=True, assume=asm), f, vacuity and not asm))
                spans.append((a, line[0], path, key, not asm))
            emit('}\n' + eq_bound(f'impl{g[:-1] + ", " if g else "<"}X__: {name}{g}> {name}Defaults{g} for X__') + ' {}\n')
        elif p[0] in ('trait_impl', 'trait_assume'):
            asm = p[0] == 'trait_assume'
            path, selfb, tr, extra = p[1:5]
            skip = p[5] if len(p) > 5 else ()
            got = [it for it in load(path) if it.kind == 'impl' and it.trait_ and base(it.self_ty) == selfb and base(it.trait_) == tr]
            if len(got) != 1: raise LostAnchor(f'{path}: impl {tr} for {selfb}')
            it = got[0]
            emit(eq_bound(it.header) + '\n{\n')
            for kind, nm, text in it.assoc: emit(text + '\n')
            emit(extra.rstrip() + '\n')
            for f in it.fns:
                if f.name in skip: continue
                key = fn_key(it, f)
                c = CONTRACTS.get((path, key))
                a = line[0]
                emit(entered(fn_text(it, f, c, assume=asm, in_trait=True), f, vacuity))
                spans.append((a, line[0], path, key, not asm))
            emit('}\n')
        else:
            raise ValueError(p)
    emit('} // verus!\nfn main() {}\n')
    return ''.join(chunks), spans
