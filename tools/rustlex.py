"""A small Rust lexer and item parser: enough to cut functions out of /repo's text verbatim."""
import re

class LostAnchor(Exception):
    """The source does not have the shape the extraction needs; the caller is undecided."""

class Tok:
    __slots__ = ('k', 't', 's', 'e')
    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e
    def __repr__(self):
        return f'{self.k}:{self.t!r}@{self.s}'

_P3 = ('..=', '<<=', '>>=', '...')
_P2 = ('::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '..', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<')

def lex(src):
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            toks.append(Tok('comment', src[i:j], i, j)); i = j; continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            toks.append(Tok('comment', src[i:j], i, j)); i = j; continue
        m = re.compile(r'(?:b|c|br|cr|r)?(#*)"').match(src, i)
        if m and (c == '"' or c in 'bcr'):
            raw = 'r' in src[i:m.end() - 1 - len(m.group(1))]
            if raw:
                j = src.find('"' + m.group(1), m.end())
                j = n if j < 0 else j + 1 + len(m.group(1))
                toks.append(Tok('str', src[i:j], i, j)); i = j; continue
            if not m.group(1):
                j = m.end()
                while j < n and src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                j += 1
                toks.append(Tok('str', src[i:j], i, j)); i = j; continue
        if c == "'" or src.startswith("b'", i):
            m = re.compile(r"b?'(?:\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.)|[^\\'])'").match(src, i)
            if m:
                toks.append(Tok('char', m.group(0), i, m.end())); i = m.end(); continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
            if m:
                toks.append(Tok('lifetime', m.group(0), i, m.end())); i = m.end(); continue
        m = re.compile(r'(?:r#)?[A-Za-z_][A-Za-z0-9_]*').match(src, i)
        if m:
            toks.append(Tok('ident', m.group(0), i, m.end())); i = m.end(); continue
        m = re.compile(r'[0-9](?:[0-9a-zA-Z_]|\.(?=[0-9]))*').match(src, i)
        if m:
            toks.append(Tok('num', m.group(0), i, m.end())); i = m.end(); continue
        for L, tab in ((3, _P3), (2, _P2)):
            if src[i:i + L] in tab:
                toks.append(Tok('p', src[i:i + L], i, i + L)); i += L; break
        else:
            toks.append(Tok('p', c, i, i + 1)); i += 1
    return toks

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def code_toks(toks):
    return [t for t in toks if t.k != 'comment']

def match_close(toks, i):
    """toks[i] is an opening delimiter; index of the matching closing one."""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'p':
            if toks[j].t in OPEN: d += 1
            elif toks[j].t in CLOSE:
                d -= 1
                if d == 0: return j
    raise LostAnchor('unbalanced delimiters')

def skip_angles(toks, i):
    """toks[i] is '<'; index just after the matching '>'."""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j].t
        if toks[j].k == 'p':
            if t == '<': d += 1
            elif t == '<<': d += 2
            elif t == '>':
                d -= 1
                if d == 0: return j + 1
            elif t in OPEN:
                j = match_close(toks, j)
            elif t == '>=' :
                raise LostAnchor('angle')
        j += 1
    raise LostAnchor('unbalanced angle brackets')

class Fn:
    pass

class Item:
    pass

def parse_fn(src, toks, i, end):
    """toks[i] is at (attributes/visibility/qualifiers of) a fn. Returns Fn and next index."""
    f = Fn()
    f.src = src
    j = i
    quals = []
    while toks[j].t != 'fn':
        quals.append(toks[j].t); j += 1
    f.quals = quals
    f.name = toks[j + 1].t
    f.sig_start = toks[j].s
    j += 2
    if toks[j].t == '<':
        a = j
        j = skip_angles(toks, j)
        f.generics = src[toks[a].s:toks[j - 1].e]
    else:
        f.generics = ''
    if toks[j].t != '(': raise LostAnchor(f'fn {f.name}: parameters')
    pe = match_close(toks, j)
    f.params = src[toks[j].s:toks[pe].e]
    f.param_toks = toks[j + 1:pe]
    j = pe + 1
    f.ret = None
    if toks[j].t == '->':
        a = j + 1
        j = a
        while not (toks[j].t in ('{', ';') or toks[j].t == 'where'):
            if toks[j].t in ('(', '['): j = match_close(toks, j) + 1
            elif toks[j].t == '<': j = skip_angles(toks, j)
            else: j += 1
        f.ret = src[toks[a].s:toks[j - 1].e]
    f.where = ''
    if toks[j].t == 'where':
        a = j
        while toks[j].t not in ('{', ';'):
            if toks[j].t in ('(', '['): j = match_close(toks, j) + 1
            elif toks[j].t == '<': j = skip_angles(toks, j)
            else: j += 1
        f.where = src[toks[a].s:toks[j - 1].e]
    if toks[j].t == ';':
        f.body = None
        return f, j + 1
    e = match_close(toks, j)
    f.body_toks = toks[j:e + 1]
    f.body = src[toks[j].s:toks[e].e]
    f.body_off = toks[j].s
    return f, e + 1

def skip_attrs(toks, i):
    attrs = []
    while toks[i].t == '#' and i + 1 < len(toks):
        k = i + 1
        if toks[k].t == '!': k += 1
        if toks[k].t != '[': break
        e = match_close(toks, k)
        attrs.append(''.join(t.t for t in toks[k + 1:e]))
        i = e + 1
    return attrs, i

def skip_vis(toks, i):
    if toks[i].t == 'pub':
        i += 1
        if toks[i].t == '(' :
            i = match_close(toks, i) + 1
    return i

def parse_items(src, toks=None):
    if toks is None:
        toks = code_toks(lex(src))
    items, i, n = [], 0, len(toks)
    while i < n:
        attrs, i = skip_attrs(toks, i)
        if i >= n: break
        start = i
        i = skip_vis(toks, i)
        t = toks[i].t
        it = Item()
        it.attrs = attrs
        it.src = src
        if t == 'use' or (t == 'mod' and toks[i + 2].t == ';') or t == 'type' or (t == 'const' and toks[i+1].t != 'fn') or t == 'static':
            it.kind = t
            it.name = toks[i + 1].t
            while toks[i].t != ';':
                if toks[i].t in OPEN: i = match_close(toks, i)
                i += 1
            it.text = src[toks[start].s:toks[i].e]
            i += 1
        elif t == 'mod':
            e = match_close(toks, i + 2)
            it.kind, it.name = 'modblock', toks[i + 1].t
            i = e + 1
        elif t in ('struct', 'enum', 'union'):
            it.kind, it.name = t, toks[i + 1].t
            it.start = i
            j = i + 2
            it.generics = ''
            if toks[j].t == '<':
                a = j
                j = skip_angles(toks, j)
                it.generics = src[toks[a].s:toks[j - 1].e]
                it.generics_toks = toks[a:j]
            while toks[j].t not in ('{', ';', '('):
                if toks[j].t == '<': j = skip_angles(toks, j)
                else: j += 1
            if toks[j].t == '(':
                j = match_close(toks, j) + 1
                while toks[j].t != ';': j += 1
                e = j
            elif toks[j].t == '{':
                e = match_close(toks, j)
            else:
                e = j
            it.toks = toks[i:e + 1]
            it.text = src[toks[i].s:toks[e].e]
            i = e + 1
        elif t == 'macro_rules':
            it.kind, it.name = 'macro', toks[i + 2].t
            i = match_close(toks, i + 3) + 1
        elif t in ('impl', 'trait') or (t == 'unsafe' and toks[i + 1].t in ('impl', 'trait')):
            if t == 'unsafe': i += 1; t = toks[i].t
            a = i
            j = i + 1
            it.kind = t
            it.impl_generics = ''
            if t == 'impl' and toks[j].t == '<':
                g = j
                j = skip_angles(toks, j)
                it.impl_generics = src[toks[g].s:toks[j - 1].e]
            head = []
            h0 = j
            wherei = None
            while toks[j].t != '{':
                if toks[j].t == 'where' and wherei is None: wherei = j
                if toks[j].t == '<':
                    k = skip_angles(toks, j)
                    j = k
                elif toks[j].t in OPEN:
                    j = match_close(toks, j) + 1
                else:
                    j += 1
            it.header = src[toks[a].s:toks[j - 1].e]
            it.where = src[toks[wherei].s:toks[j - 1].e] if wherei else ''
            hend = wherei if wherei else j
            # top-level `for`
            fori, k = None, h0
            while k < hend:
                if toks[k].t == '<': k = skip_angles(toks, k); continue
                if toks[k].t in OPEN: k = match_close(toks, k) + 1; continue
                if toks[k].t == 'for': fori = k
                k += 1
            def tyname(a, b):
                return src[toks[a].s:toks[b - 1].e] if b > a else ''
            if t == 'trait':
                it.name = toks[h0].t
                it.trait_ = None; it.self_ty = None
            elif fori is not None:
                it.trait_ = re.sub(r'\s+', ' ', tyname(h0, fori)); it.self_ty = re.sub(r'\s+', ' ', tyname(fori + 1, hend))
            else:
                it.trait_ = None; it.self_ty = re.sub(r'\s+', ' ', tyname(h0, hend))
            e = match_close(toks, j)
            it.fns, it.assoc = [], []
            q = j + 1
            while q < e:
                fattrs, q = skip_attrs(toks, q)
                if q >= e: break
                q0 = q
                q = skip_vis(toks, q)
                if toks[q].t in ('type',) or (toks[q].t == 'const' and toks[q + 1].t not in ('fn', 'unsafe')):
                    p = q
                    while toks[p].t != ';':
                        if toks[p].t in OPEN: p = match_close(toks, p)
                        p += 1
                    it.assoc.append((toks[q].t, toks[q + 1].t, src[toks[q].s:toks[p].e]))
                    q = p + 1
                elif toks[q].t in ('fn', 'const', 'unsafe', 'async', 'extern'):
                    f, q = parse_fn(src, toks, q, e)
                    f.attrs = fattrs
                    f.vis = src[toks[q0].s:toks[q0].e] == 'pub'
                    it.fns.append(f)
                else:
                    raise LostAnchor(f'unknown member {toks[q].t}')
            it.text = src[toks[a].s:toks[e].e]
            i = e + 1
        elif t in ('fn', 'const', 'unsafe', 'async', 'extern'):
            f, i = parse_fn(src, toks, i, n)
            f.attrs = attrs
            it.kind, it.name, it.fn = 'fn', f.name, f
        else:
            # macro invocation or something else: skip to ; or matching brace
            it.kind, it.name = 'other', t
            while i < n and toks[i].t != ';':
                if toks[i].t in OPEN:
                    i = match_close(toks, i)
                    if toks[i].t == '}': break
                i += 1
            i += 1
        it.cfg_test = any('cfg(test)' in a for a in attrs)
        items.append(it)
    return items

# ---------------------------------------------------------------- shapes inside a body

def find_loops(toks):
    """Loops of a body in source order: (kind, kw index, open-brace index, close-brace index)."""
    out = []
    for i, t in enumerate(toks):
        if t.k == 'ident' and t.t in ('for', 'while', 'loop'):
            if t.t == 'for' and toks[i + 1].t == '<': continue
            j = i + 1
            while toks[j].t != '{':
                if toks[j].t in ('(', '['): j = match_close(toks, j) + 1
                else: j += 1
            out.append((t.t, i, j, match_close(toks, j)))
    return out

_EXPR_START = {'(', ',', '=', '{', ';', '[', '=>', 'return', 'move', '&&', '||', '+=', '!', '&'}

def find_closures(toks):
    """Closures in source order: dict(start, params_open, params_close, body_start, body_end) token indices."""
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'p' and t.t in ('|', '||'):
            prev = toks[i - 1]
            if prev.t in _EXPR_START or (prev.k == 'ident' and prev.t in ('move', 'return', 'else', 'in')):
                # or-patterns in match arms start with a leading | only after `{` or `,`: require a closing | followed by an expression
                if t.t == '||':
                    pc = i
                else:
                    pc = i + 1
                    d = 0
                    while True:
                        x = toks[pc].t
                        if x in OPEN: d += 1
                        elif x in CLOSE: d -= 1
                        elif x == '|' and d == 0: break
                        pc += 1
                b = pc + 1
                j = b
                if toks[b].t == '->':
                    while toks[j].t != '{': j += 1
                if toks[j].t == '{':
                    be = match_close(toks, j)
                    b = j
                else:
                    # ends at , ) ] } ; at depth 0
                    while True:
                        x = toks[j].t
                        if x in OPEN: j = match_close(toks, j) + 1; continue
                        if x in CLOSE or x in (',', ';'): break
                        j += 1
                    be = j - 1
                out.append(dict(start=i, po=i, pc=pc, bs=b, be=be))
                i = pc + 1
                continue
        i += 1
    return out

def find_macros(toks, names):
    out = []
    for i in range(len(toks) - 2):
        if toks[i].k == 'ident' and toks[i].t in names and toks[i + 1].t == '!' and toks[i + 2].t in OPEN:
            out.append((toks[i].t, i, match_close(toks, i + 2)))
    return out

def split_args(toks, a, b):
    """Split toks[a:b] at top-level commas; list of (start, end) index pairs."""
    out, s, i = [], a, a
    while i < b:
        if toks[i].t in OPEN: i = match_close(toks, i) + 1; continue
        if toks[i].t == ',':
            out.append((s, i)); s = i + 1
        i += 1
    if s < b: out.append((s, b))
    return out

def top_statements(toks):
    """toks is a block including braces. List of (start, end_exclusive) of its top-level statements."""
    out = []
    i, n = 1, len(toks) - 1
    while i < n:
        s = i
        blocklike = toks[i].t in ('if', 'match', 'for', 'while', 'loop', 'unsafe', '{')
        while i < n:
            x = toks[i].t
            if x == ';':
                i += 1
                break
            if x in OPEN:
                c = match_close(toks, i)
                i = c + 1
                if blocklike and x == '{':
                    if i < n and toks[i].t == 'else': continue
                    if i < n and toks[i].t in ('.', '?', 'as'):
                        blocklike = False; continue
                    break
                continue
            i += 1
        out.append((s, i))
    return out
