"""Expands the macros that a source file defines at the level of items, as rustc does
(macros defined in a function are left to the verifier's front end, unless they hold loops)."""
import re
from .rustlex import lex, match_brackets, LexError

class NoExpansion(Exception): pass

FRAG = ('ident', 'expr', 'ty', 'tt', 'literal', 'pat', 'path', 'block', 'lifetime', 'vis', 'stmt', 'pat_param')

def lexm(t):
    toks = lex(t); return toks, match_brackets(toks)

def sub(toks, text, a, b): return text[toks[a].s:toks[b-1].e] if a < b else ''

class Pat: pass

def parse_pattern(toks, text, m, lo, hi):
    """A list of ('tok', t) ('var', name, frag) ('rep', pattern, sep, op) ('group', open, pattern)."""
    out = []; i = lo
    while i < hi:
        t = toks[i]
        if t.t == '$' and i + 1 < hi:
            if toks[i+1].t == '(':
                e = m[i+1]; inner = parse_pattern(toks, text, m, i + 2, e)
                j = e + 1; sep = None
                if toks[j].t not in ('*', '+', '?'): sep = toks[j].t; j += 1
                out.append(('rep', inner, sep, toks[j].t)); i = j + 1; continue
            if i + 3 < len(toks) and toks[i+2].t == ':' and toks[i+3].t in FRAG:
                out.append(('var', toks[i+1].t, toks[i+3].t)); i += 4; continue
            out.append(('sub', toks[i+1].t)); i += 2; continue
        if t.k == 'p' and t.t in '([{' and i in m:
            out.append(('group', t.t, parse_pattern(toks, text, m, i + 1, m[i]))); i = m[i] + 1; continue
        out.append(('tok', t.t)); i += 1
    return out

def read_fragment(frag, toks, m, i, hi, stop):
    if i >= hi: raise NoExpansion
    if frag == 'ident':
        if toks[i].k != 'id': raise NoExpansion
        return i + 1
    if frag == 'lifetime':
        if toks[i].k != 'life': raise NoExpansion
        return i + 1
    if frag == 'tt': return m[i] + 1 if (toks[i].k == 'p' and toks[i].t in '([{') else i + 1
    if frag == 'literal': return i + 2 if toks[i].t == '-' else i + 1
    if frag == 'block':
        if toks[i].t != '{': raise NoExpansion
        return m[i] + 1
    if frag == 'vis':
        if toks[i].t != 'pub': return i
        return m[i+1] + 1 if toks[i+1].t == '(' else i + 1
    # expr, ty, pat, path, stmt: up to the token that may follow
    j = i; ang = 0
    ends = {'expr': (',', ';', '=>'), 'stmt': (',', ';', '=>'), 'ty': (',', ';', '=', '=>', '|', '{', '[', ':', '>'), 'path': (',', ';', '=', '=>', '|', '{', '[', ':', '>'), 'pat': (',', '=>', '=', 'if', 'in'), 'pat_param': (',', '=>', '=', 'if', 'in', '|')}[frag]
    while j < hi:
        t = toks[j]
        if frag in ('ty', 'path'):
            if t.t == '<': ang += 1; j += 1; continue
            if t.t in ('>', '>>') and ang > 0: ang -= len(t.t); j += 1; continue
            if j == i and t.t in ('[', '('): j = m[j] + 1; continue
        if ang <= 0 and t.t in ends: break
        if t.k == 'p' and t.t in '([{' and j in m: j = m[j] + 1; continue
        j += 1
    if j == i: raise NoExpansion
    return j

def match_pattern(pat, toks, text, m, i, hi, binds):
    for k, p in enumerate(pat):
        if p[0] == 'tok':
            if i >= hi or toks[i].t != p[1]: raise NoExpansion
            i += 1
        elif p[0] == 'group':
            if i >= hi or toks[i].t != p[1]: raise NoExpansion
            e = match_pattern(p[2], toks, text, m, i + 1, m[i], binds)
            if e != m[i]: raise NoExpansion
            i = m[i] + 1
        elif p[0] == 'var':
            e = read_fragment(p[2], toks, m, i, hi, None)
            binds[p[1]] = (p[2], sub(toks, text, i, e)); i = e
        elif p[0] == 'rep':
            names = variables(p[1]); reps = []
            while i < hi:
                if reps and p[2]:
                    if toks[i].t != p[2]: break
                    at = i + 1
                else: at = i
                b = {}
                try: e = match_pattern(p[1], toks, text, m, at, hi, b)
                except NoExpansion: break
                if e == i: break
                reps.append(b); i = e
                if p[3] == '?': break
            if p[3] == '+' and not reps: raise NoExpansion
            for n in names: binds[n] = ('rep', [b.get(n) for b in reps])
        else: raise NoExpansion
    return i

def variables(pat):
    out = []
    for p in pat:
        if p[0] in ('var', 'sub'): out.append(p[1])
        elif p[0] == 'rep': out += variables(p[1])
        elif p[0] == 'group': out += variables(p[2])
    return out

CLOSE = {'(': ')', '[': ']', '{': '}'}

def emit(pat, binds):
    out = []
    for p in pat:
        if p[0] == 'tok': out.append(p[1])
        elif p[0] == 'group': out.append(p[1] + ' ' + emit(p[2], binds) + ' ' + CLOSE[p[1]])
        elif p[0] in ('sub', 'var'):
            if p[1] == 'crate': out.append('crate'); continue
            if p[1] not in binds: raise NoExpansion
            f, v = binds[p[1]]
            if f == 'rep': raise NoExpansion
            if f == 'expr' and not re.match(r'^[\w.]+$', v) and not re.match(r'^"[^"]*"$', v): v = '(%s)' % v
            out.append(v)
            if p[0] == 'var': out.append(': ' + p[2])
        elif p[0] == 'rep':
            names = [n for n in variables(p[1]) if binds.get(n, ('', 0))[0] == 'rep']
            if not names: raise NoExpansion
            n = len(binds[names[0]][1]); parts = []
            for k in range(n):
                b = dict(binds)
                for x in names: b[x] = binds[x][1][k]
                parts.append(emit(p[1], b))
            out.append((' ' + (p[2] or '') + ' ').join(parts))
    return ' '.join(out)

def read_definition(text, toks, m, i):
    """(name, rules, end) of the macro_rules at token i."""
    name = toks[i+2].t; b = i + 3; e = m[b]; rules = []
    k = b + 1
    while k < e:
        pe = m[k]; pat = parse_pattern(toks, text, m, k + 1, pe)
        k = pe + 1
        if toks[k].t != '=>': raise NoExpansion
        k += 1
        body = parse_pattern(toks, text, m, k + 1, m[k])
        rules.append((pat, body)); k = m[k] + 1
        if k < e and toks[k].t == ';': k += 1
    end = e + 1
    if end < len(toks) and toks[end].t == ';' and toks[b].t != '{': end += 1
    return name, rules, end

def in_function(toks, m, i):
    """Is token i within the body of a function (and not only of a module or impl)?"""
    j = i - 1
    while j >= 0:
        if toks[j].k == 'p' and toks[j].t in ')]}' and j in m: j = m[j] - 1; continue
        if toks[j].t == '{':
            h = j - 1
            while h >= 0 and toks[h].t not in (';', '{', '}'): h = (m[h] - 1) if (toks[h].k == 'p' and toks[h].t in ')]' and h in m) else h - 1
            if any(toks[x].t == 'fn' for x in range(h + 1, j)): return True
        j -= 1
    return False

def in_test(toks, m, i):
    j = i - 1
    while j >= 0:
        if toks[j].k == 'p' and toks[j].t in ')]}' and j in m: j = m[j] - 1; continue
        if toks[j].t == '{' and j > 1 and toks[j-2].t == 'mod' and toks[j-3].t == ']' and 'cfg' in [toks[x].t for x in range(m[j-3], j-3)]: return True
        j -= 1
    return False

def expand(text, known):
    """The text without the macros defined at the level of items; `known` collects them."""
    for _ in range(400):
        toks, m = lexm(text); changed = False
        for i in range(len(toks) - 4):
            if toks[i].t != 'macro_rules' or toks[i+1].t != '!' or in_test(toks, m, i): continue
            inside = in_function(toks, m, i)
            if inside and not any(toks[x].t in ('for', 'while', 'loop') for x in range(i, m[i+3])): continue
            try: name, rules, end = read_definition(text, toks, m, i)
            except NoExpansion: continue
            known[name] = rules
            a = i
            while a > 0 and toks[a-1].t == ']' and toks[m[a-1]-1].t == '#': a = m[a-1] - 1
            text = text[:toks[a].s] + ' ' * (toks[end-1].e - toks[a].s) + text[toks[end-1].e:]
            changed = True; break
        if changed: continue
        for i in range(len(toks) - 2):
            if toks[i].k != 'id' or toks[i].t not in known or toks[i+1].t != '!' or toks[i+2].t not in ('(', '[', '{') or in_test(toks, m, i): continue
            e = m[i+2]
            new = None
            for pat, body in known[toks[i].t]:
                b = {}
                try:
                    if match_pattern(pat, toks, text, m, i + 3, e, b) != e: continue
                    new = emit(body, b)
                except NoExpansion: continue
                # names that the macro binds must not be those of its arguments
                own = set(re.findall(r'\blet\s+(?:mut\s+)?(\w+)', ' '.join(p[1] for p in flat(body) if p[0] == 'tok')))
                used = set(t.t for t in toks[i+3:e] if t.k == 'id')
                if own & used: new = None
                break
            if new is None: raise LexError('cannot expand %s!' % toks[i].t)
            end = e + 1
            item = not in_function(toks, m, i)
            if item and end < len(toks) and toks[end].t == ';': end += 1
            if not item:
                # a macro in the place of a statement may bind names for those that follow
                stmt = toks[i-1].t in (';', '{', '}') and (toks[end].t == ';' or toks[i+2].t == '{')
                binds_ = re.match(r'\s*let\b', new)
                if not (stmt and binds_): new = '(%s)' % new if not stmt else ('{ %s }' % new if not new.lstrip().startswith('{') else new)
                elif new.rstrip().endswith(';') and toks[end].t == ';': new = new.rstrip()[:-1]
            text = text[:toks[i].s] + new + text[toks[end-1].e:]
            changed = True; break
        if not changed: return text
    raise LexError('macros do not end')

def flat(pat):
    for p in pat:
        if p[0] == 'group':
            yield ('tok', p[1])
            for x in flat(p[2]): yield x
        elif p[0] == 'rep':
            for x in flat(p[1]): yield x
        else: yield p
