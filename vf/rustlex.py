"""A small Rust lexer: enough to find items, functions, loops and calls."""
import re

class LexError(Exception):
    pass

IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'[0-9][A-Za-z0-9_]*(\.[0-9][A-Za-z0-9_]*)?')
PUNCT3 = ('...', '..=', '<<=', '>>=')
PUNCT2 = ('::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..')

def blank_comments(t):
    """Replace every comment by spaces, keeping line breaks and offsets."""
    out = list(t)
    i, n = 0, len(t)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = t[i]
        if t.startswith('//', i):
            j = t.find('\n', i)
            j = n if j < 0 else j
            blank(i, j); i = j
        elif t.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if t.startswith('/*', j): d += 1; j += 2
                elif t.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            blank(i, j); i = j
        else:
            j = _skip_literal(t, i)
            i = j if j else i + 1
    return ''.join(out)

RAW = re.compile(r'b?r(#*)"')

def _skip_literal(t, i):
    """If a string, char or lifetime starts at i, return its end."""
    prev = t[i-1] if i else ' '
    if prev.isalnum() or prev == '_':
        isid = True
    else:
        isid = False
    m = RAW.match(t, i)
    if m and not isid:
        e = t.find('"' + m.group(1), m.end())
        if e < 0: raise LexError('raw string')
        return e + 1 + len(m.group(1))
    k = i
    if t[i] == 'b' and not isid and i + 1 < len(t) and t[i+1] in '"\'':
        k = i + 1
    if t[k] == '"':
        j = k + 1
        while j < len(t):
            if t[j] == '\\': j += 2
            elif t[j] == '"': return j + 1
            else: j += 1
        raise LexError('string')
    if t[k] == "'":
        if k + 1 < len(t) and t[k+1] == '\\':
            j = t.find("'", k + 3)
            return j + 1
        if k + 2 < len(t) and t[k+2] == "'":
            return k + 3
        m = IDENT.match(t, k + 1)
        if m: return m.end()       # lifetime or label
        j = t.find("'", k + 1)
        return j + 1
    return None

class Tok:
    __slots__ = ('k', 't', 's', 'e')
    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e
    def __repr__(self):
        return '%s:%r' % (self.k, self.t)

def lex(t):
    """t has no comments. Kinds: id, num, str, char, life, p."""
    toks = []
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if c.isspace():
            i += 1; continue
        e = _skip_literal(t, i)
        if e:
            s = t[i:e]
            if s.endswith('"') or s.endswith('#'): k = 'str'
            elif s.endswith("'") and len(s) > 1: k = 'char'
            else: k = 'life'
            toks.append(Tok(k, s, i, e)); i = e; continue
        m = IDENT.match(t, i)
        if m:
            toks.append(Tok('id', m.group(), i, m.end())); i = m.end(); continue
        if c.isdigit():
            m = NUM.match(t, i)
            e = m.end()
            # `0...63` and `0..n` and `x.0.1`
            s = m.group()
            toks.append(Tok('num', s, i, e)); i = e; continue
        for L in (3, 2):
            if t[i:i+L] in (PUNCT3 if L == 3 else PUNCT2):
                toks.append(Tok('p', t[i:i+L], i, i+L)); i += L; break
        else:
            toks.append(Tok('p', c, i, i+1)); i += 1
    return toks

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}

def match_brackets(toks):
    m, st = {}, []
    for i, x in enumerate(toks):
        if x.k != 'p': continue
        if x.t in OPEN: st.append(i)
        elif x.t in CLOSE:
            if not st or toks[st[-1]].t != CLOSE[x.t]: raise LexError('unbalanced %r at %d' % (x.t, x.s))
            j = st.pop(); m[j] = i; m[i] = j
    if st: raise LexError('unbalanced')
    return m
