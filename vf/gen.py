"""Builds the Verus file: the code of /repo with contracts, loop invariants and
ghost snapshots inserted. See EXTRACTION in DESIGN.md for what is dropped or rewritten."""
import re
from .rustlex import lex, match_brackets, LexError
from .extract import Reader, all_fns, ExtractError, split_top
from . import grammar, contracts

KEYWORDS = ('requires', 'ensures', 'decreases', 'invariant', 'proof', 'spec', 'tracked', 'ghost', 'forall', 'exists',
            'choose', 'assume', 'is', 'has', 'matches', 'implies', 'global', 'axiom', 'uninterp', 'broadcast', 'exec', 'open', 'closed', 'recommends', 'via', 'when')
INTS = ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128')

class GenError(Exception):
    """The text could not be brought into a form the verifier accepts."""

class NoSplit(GenError):
    """The function has no match to split."""

def edit(text, edits):
    out, last = [], 0
    for a, b, s in sorted(edits, key=lambda x: (x[0], x[1])):
        if a < last: raise GenError('overlapping edits')
        out.append(text[last:a]); out.append(s); last = b
    out.append(text[last:])
    return ''.join(out)

def src(toks, text, a, b):
    return text[toks[a].s:toks[b-1].e] if a < b else ''

def lexm(text):
    toks = lex(text)
    return toks, match_brackets(toks)

# ---- rewrites that keep the meaning (each is listed in DESIGN.md) -------------

def rename_keywords(text):
    toks = lex(text); ed = []
    for n, t in enumerate(toks):
        if t.k == 'id' and t.t in KEYWORDS and not (t.t == 'matches' and n + 1 < len(toks) and toks[n+1].t == '!'): ed.append((t.s, t.e, t.t + '_'))
    return edit(text, ed)

def rw_paths(text):
    """Flatten module paths: names are unique in the crate."""
    text = re.sub(r'\b(crate|super|self)::(?=[A-Za-z_])', '', text)
    text = re.sub(r'\b(std|core)::fmt::', 'fmt::', text)
    text = re.sub(r'\buse\s+(\w+)::\*\s*;', r'use \1::*;', text)
    return text

def rw_int_from(text):
    """`u32::from(x)` between integer types is `(x as u32)`; the compiler accepts `from` only where it is lossless."""
    while True:
        toks, m = lexm(text); done = True
        for i in range(len(toks) - 3):
            if toks[i].k == 'id' and toks[i].t in INTS and toks[i+1].t == '::' and toks[i+2].t == 'from' and toks[i+3].t == '(':
                e = m[i+3]
                text = edit(text, [(toks[i].s, toks[i+3].e, '(('), (toks[e].s, toks[e].e, ') as %s)' % toks[i].t)])
                done = False; break
        if done: return text

def rw_for_mut(text):
    """`for p in &mut it {` is `while let Some(p) = it.next() {`"""
    while True:
        toks, m = lexm(text); done = True
        for i in range(len(toks)):
            if toks[i].k == 'id' and toks[i].t == 'for':
                j = i + 1
                while toks[j].t != 'in': j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([{') else j + 1
                if toks[j+1].t == '&' and toks[j+2].t == 'mut' and toks[j+3].k == 'id' and toks[j+4].t == '{':
                    pat = src(toks, text, i+1, j)
                    text = edit(text, [(toks[i].s, toks[j+3].e, 'while let Some(%s) = %s.next()' % (pat, toks[j+3].t))])
                    done = False; break
                if [x.t for x in toks[j+1:j+5]] == ['&', 'mut', 'self', '.'] and toks[j+5].k == 'id' and toks[j+6].t == '{':
                    pat = src(toks, text, i+1, j)
                    text = edit(text, [(toks[i].s, toks[j+5].e, 'while let Some(%s) = self.%s.next()' % (pat, toks[j+5].t))])
                    done = False; break
                # for p in it.by_ref() {
                if toks[j+1].k == 'id' and toks[j+2].t == '.' and toks[j+3].t == 'by_ref' and toks[j+4].t == '(' and toks[j+6].t == '{':
                    pat = src(toks, text, i+1, j)
                    text = edit(text, [(toks[i].s, toks[j+5].e, 'while let Some(%s) = %s.next()' % (pat, toks[j+1].t))])
                    done = False; break
        if done: return text

def rw_write(text):
    """`write!(f, "a{}b{c}", x)` is the sequence of writes of its pieces; so is `f.write_fmt(format_args!(...))`."""
    text = re.sub(r'\b(\w+)\.write_fmt\(\s*format_args!\s*\(', r'(write!(\1, ', text)
    while True:
        toks, m = lexm(text); done = True
        for i in range(len(toks) - 2):
            if toks[i].t == 'write' and toks[i+1].t == '!' and toks[i+2].t == '(':
                e = m[i+2]
                args = [src(toks, text, a, b) for a, b in split_top(toks, i+3, e, m)]
                fmt = args[1]
                if not fmt.startswith('"') or '\\' in fmt: raise GenError('write! format')
                parts = re.split(r'(\{\{|\}\}|\{\w*\})', fmt[1:-1])
                ws, k, lit = [], 2, ''
                def flush():
                    nonlocal lit
                    if lit: ws.append('%s.write_str("%s")' % (args[0], lit)); lit = ''
                for p_ in parts:
                    if p_ in ('{{', '}}'): lit += p_[0]
                    elif re.match(r'^\{\w*\}$', p_):
                        flush()
                        x = p_[1:-1]
                        if x == '': x = args[k]; k += 1
                        elif x.isdigit(): x = args[2 + int(x)]
                        else:
                            named = [a for a in args[2:] if re.match(r'^%s\s*=[^=]' % x, a)]
                            if named: x = named[0].split('=', 1)[1].strip()
                        ws.append('Shown::show(&(%s), %s)' % (x, args[0]))
                    elif '{' in p_ or '}' in p_: raise GenError('write! format')
                    else: lit += p_
                flush()
                text = edit(text, [(toks[i].s, toks[e].e, '{ ' + ('?; '.join(ws) or 'Ok(())') + ' }')])
                done = False; break
        if done: return text

def rw_asserts(text):
    """`assert!(c)` and `debug_assert!(c)` are calls of a function that must not be reached when c is false."""
    while True:
        toks, m = lexm(text); done = True
        for i in range(len(toks) - 2):
            n = toks[i].t
            if toks[i+1].t == '!' and toks[i+2].t == '(' and n in ('assert', 'debug_assert', 'assert_eq', 'debug_assert_eq', 'assert_ne', 'debug_assert_ne'):
                e = m[i+2]
                args = [src(toks, text, a, b) for a, b in split_top(toks, i + 3, e, m)]
                c = args[0] if n.endswith('assert') else '(%s) %s (%s)' % (args[0], '==' if n.endswith('eq') else '!=', args[1])
                text = edit(text, [(toks[i].s, toks[e].e, 'if !(%s) { must_not_panic(); }' % c)])
                done = False; break
        if done: return text

def rw_matches(text):
    """`matches!(e, p if g)` is `match e { p if g => true, _ => false }`."""
    while True:
        toks, m = lexm(text); done = True
        for i in range(len(toks) - 2):
            if toks[i].t == 'matches' and toks[i+1].t == '!' and toks[i+2].t == '(':
                e = m[i+2]
                a = split_top(toks, i + 3, e, m)[0]
                pat = text[toks[a[1]].e:toks[e].s].strip().rstrip(',')
                text = edit(text, [(toks[i].s, toks[e].e, '(match %s { %s => true, _ => false })' % (src(toks, text, *a), pat))])
                done = False; break
        if done: return text

def rw_entry(text):
    """`m.entry(k).or_insert(v);` is `if !m.contains_key(&k) { m.insert(k, v); }`."""
    n = 0
    while True:
        toks, m = lexm(text); done = True
        for i in range(1, len(toks) - 2):
            if toks[i].t != 'entry' or toks[i-1].t != '.' or toks[i+1].t != '(': continue
            e = m[i+1]
            if [t.t for t in toks[e+1:e+4]] not in (['.', 'or_insert', '('], ['.', 'or_insert_with', '(']): continue
            st = postfix_start(toks, m, i - 1)
            e2 = m[e+3]
            if st is None or e2 + 1 >= len(toks) or toks[e2+1].t != ';' or st > 0 and toks[st-1].t not in (';', '{', '}'): continue
            v = src(toks, text, e + 4, e2)
            if toks[e+2].t == 'or_insert_with':
                c = closure(toks, m, text, e + 4, e2, 0)
                if c is None: continue
                v = c[1]
            x = src(toks, text, st, i - 1); n += 1
            text = edit(text, [(toks[st].s, toks[e2].e, '{ let key%d_ = %s; if !%s.contains_key(&key%d_) { %s.insert(key%d_, %s); } }' % (n, src(toks, text, i + 2, e), x, n, x, n, v))])
            done = False; break
        if done: return text

def rw_entry_match(text):
    """A match over the variants of an entry of a map asks the map whether it has the key."""
    n = 0
    def used(toks, x, a, b, method):
        """The only use of x in a..b is x.method(..): (start, end, inside) or None."""
        us = [u for u in range(a, b) if toks[u].t == x and toks[u].k == 'id' and toks[u-1].t != '.']
        if len(us) > 1 or us and not (toks[us[0]+1].t == '.' and toks[us[0]+2].t in method and toks[us[0]+3].t == '('): return None
        return us
    while True:
        toks, m = lexm(text); done = True
        for i in range(1, len(toks) - 2):
            if toks[i].t != 'entry' or toks[i-1].t != '.' or toks[i+1].t != '(': continue
            e = m[i+1]
            if e + 1 >= len(toks) or toks[e+1].t != '{': continue
            st = postfix_start(toks, m, i - 1)
            if st is None or any(toks[u].k != 'id' and toks[u].t != '.' for u in range(st, i - 1)): continue
            mp, key = src(toks, text, st, i - 1), src(toks, text, i + 2, e)
            b = e + 1; c = m[b]
            k = 'slot%d_' % (text.count('let slot') + 1)
            def variant(a):
                """`[path::]Vacant(x)` from a: (name, x, end)"""
                while toks[a+1].t == '::': a += 2
                if toks[a].t not in ('Vacant', 'Occupied') or toks[a+1].t != '(': return None
                inner = [t.t for t in toks[a+2:m[a+1]] if t.t != 'mut']
                return (toks[a].t, inner[0], m[a+1] + 1) if len(inner) == 1 else None
            def insertion(x, a, z):
                """Replaces x.insert(v)."""
                us = used(toks, x, a, z, ('insert',))
                if us is None: return None
                return [(toks[us[0]].s, toks[us[0]+3].e, '%s.insert(%s, ' % (mp, k))] if us else []
            def reading(x, a, z):
                us = used(toks, x, a, z, ('get', 'into_mut'))
                if us is None: return None
                if not us: return []
                if toks[us[0]+2].t != 'get': return None
                return [(toks[us[0]].s, toks[us[0]+4].e, 'got_')]
            if toks[st-1].t == '=' :
                j = st - 1
                while j > 0 and toks[j].t != 'let': j -= 1
                v = variant(j + 1)
                if v is None or toks[j-1].t != 'if' or v[2] != st - 1 or v[0] != 'Vacant': continue
                ed = insertion(v[1], b, c)
                if ed is None: continue
                end = c
                while toks[end+1].t == 'else':
                    end += 2
                    while toks[end].t != '{': end = (m[end] + 1) if toks[end].t in '([' else end + 1
                    end = m[end]
                ed = [(toks[j-1].s, toks[e].e, '{ let %s = %s; if !%s.contains_key(&%s)' % (k, key, mp, k))] + ed + [(toks[end].e, toks[end].e, ' }')]
            elif toks[st-1].t == 'match':
                a = b + 1; ed = []; arms = 0
                while a < c:
                    v = variant(a)
                    if v is None or toks[v[2]].t != '=>': ed = None; break
                    z = m[v[2]+1] + 1 if toks[v[2]+1].t == '{' else v[2] + 1
                    while z < c and toks[z].t != ',' and toks[v[2]+1].t != '{': z = (m[z] + 1) if (toks[z].k == 'p' and toks[z].t in '([{') else z + 1
                    w = (insertion if v[0] == 'Vacant' else reading)(v[1], v[2] + 1, z)
                    if w is None: ed = None; break
                    ed += [(toks[a].s, toks[v[2]-1].e, 'None' if v[0] == 'Vacant' else 'Some(got_)')] + w
                    arms += 1
                    a = z + 1 if z < c and toks[z].t == ',' else z
                if ed is None or arms != 2: continue
                ed = [(toks[st-1].s, toks[e].e, '{ let %s = %s; match %s.get(&%s)' % (k, key, mp, k))] + ed + [(toks[c].e, toks[c].e, ' }')]
            else: continue
            text = edit(text, ed)
            done = False; break
        if done: return text

def rw_loop_guard(text):
    """`loop { if c { break; } body }` is `while !c { body }`."""
    while True:
        toks, m = lexm(text); done = True
        for i, t in enumerate(toks):
            if t.t == 'loop' and [x.t for x in toks[i+1:i+3]] == ['{', 'let'] and [x.t for x in toks[i+4:i+12:2]] == ['=', '.', '(', ';'] \
                    and toks[i+7].t in ('len', 'cursor', 'is_empty') and toks[i+9].t == ')' and toks[i+11].t == 'if' and toks[i+12].t != 'let' and not (i and toks[i-1].t == ':'):
                # loop { let x = v.len(); if c(x) { break; } .. }: c does not change anything
                o = block_end(toks, m, i + 11)
                cond = toks[i+12:o]
                x, e = toks[i+3].t, src(toks, text, i + 5, i + 10)
                if x != 'mut' and not any(y.t in ('(', '?') for y in cond):
                    ed = [(toks[i+2].s, toks[i+10].e, '')] + [(y.s, y.e, e) for y in cond if y.k == 'id' and y.t == x] + [(toks[m[o]].s, toks[m[o]].e, '} let %s = %s;' % (x, e))]
                    if [y.t for y in toks[o+1:m[o]]] in (['break'], ['break', ';']) and toks[m[o]+1].t != 'else':
                        text = edit(text, ed); done = False; break
            if t.t != 'loop' or toks[i+1].t != '{' or toks[i+2].t != 'if' or toks[i+3].t == 'let': continue
            if i and toks[i-1].t == ':': continue
            o = block_end(toks, m, i + 2)
            c = m[o]
            if [x.t for x in toks[o+1:c]] not in (['break'], ['break', ';']) or toks[c+1].t == 'else': continue
            cond = toks[i+3:o]
            h = src(toks, text, i + 3, o)
            ops = [k for k in range(i + 3, o) if toks[k].t in ('==', '!=', '<', '>', '<=', '>=')]
            if len(ops) == 1 and not any(toks[k].t in ('&&', '||', '!') for k in range(i + 3, o)):
                neg = {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[toks[ops[0]].t]
                h = src(toks, text, i + 3, ops[0]) + ' ' + neg + ' ' + src(toks, text, ops[0] + 1, o)
            else: h = '!(%s)' % h
            text = edit(text, [(t.s, toks[c].e, 'while %s {' % h)])
            done = False; break
        if done: return text

def rw_guards(text):
    """A match over numbers with guards is a chain of ifs."""
    k = 0
    while True:
        toks, m = lexm(text); done = True
        for i, t in enumerate(toks):
            if t.t != 'match': continue
            o = block_end(toks, m, i)
            arms = []; j = o + 1; ok = True
            while j < m[o]:
                a = j
                while toks[j].t != '=>': j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([{') else j + 1
                p = toks[a:j]; g = next((x for x in range(len(p)) if p[x].t == 'if'), None)
                b = j + 1
                if toks[b].t == '{' : j = m[b] + 1
                else:
                    j = b
                    while j < m[o] and toks[j].t != ',': j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([{') else j + 1
                e = j
                if j < m[o] and toks[j].t == ',': j += 1
                arms.append((p[:g], p[g+1:] if g is not None else None, src(toks, text, b, e)))
            if not any(g for _, g, _ in arms) or [x.t for x in arms[-1][0]] != ['_'] or arms[-1][1] is not None: continue
            k += 1; v = 'scrutinee%d' % k; out = ''
            for p, g, body in arms:
                alts, cur = [], []
                for x in p + [None]:
                    if x is None or x.t == '|':
                        if cur: alts.append(cur)
                        cur = []
                    else: cur.append(x)
                cs = []
                for al in alts:
                    ts = [x.t for x in al]
                    lit = lambda x: x.k in ('num', 'char', 'chr', 'byte') or re.match(r"^(b?'.*'|\d\w*)$", x.t)
                    if ts == ['_']: cs.append('true')
                    elif len(al) == 1 and lit(al[0]): cs.append('%s == %s' % (v, ts[0]))
                    elif len(al) == 3 and ts[1] in ('..=', '...') and lit(al[0]) and lit(al[2]): cs.append('(%s <= %s && %s <= %s)' % (ts[0], v, v, ts[2]))
                    else: ok = False
                c = ' || '.join(cs)
                if g is not None:
                    if g and g[0].t == 'let': ok = False
                    else: c = '(%s) && (%s)' % (c, text[g[0].s:g[-1].e])
                out += '{ %s }' % body if (p, g) == (arms[-1][0], None) else 'if %s { %s } else ' % (c, body)
            if not ok: continue
            text = edit(text, [(t.s, toks[m[o]].e, '({ let %s = %s; %s })' % (v, src(toks, text, i + 1, o), out))])
            done = False; break
        if done: return text

def rw_inclusive(text):
    """`for _ in a..=b` over numbers of at most 32 bits runs b - a + 1 times."""
    k = 0
    while True:
        toks, m = lexm(text); done = True
        for i, t in enumerate(toks):
            if t.t != 'for' or toks[i+1].t != '_' or toks[i+2].t != 'in': continue
            o = block_end(toks, m, i)
            h = [x for x in range(i + 3, o) if toks[x].t == '..=']
            if len(h) != 1 or '(' in toks[i+3].t: continue
            k += 1
            a, b = src(toks, text, i + 3, h[0]), src(toks, text, h[0] + 1, o)
            pre = 'let first%d = %s; let last%d = %s; assert(first%d as i64 == first%d && last%d as i64 == last%d); ' % (k, a, k, b, k, k, k, k)
            text = edit(text, [(toks[i].s, toks[o].s, '{ %s for _ in 0..((last%d as i64) - (first%d as i64) + 1) ' % (pre, k, k)), (toks[m[o]].e, toks[m[o]].e, ' }')])
            done = False; break
        if done: return text

def rw_misc(text):
    toks, m = lexm(text); ed = []
    for i in range(len(toks)):
        # 0...63 patterns
        if toks[i].t == '...': ed.append((toks[i].s, toks[i].e, '..='))
    text = edit(text, ed)
    text = rw_asserts(text)
    text = rw_text_eq(text)
    text = re.sub(r'\b([ui](?:16|32|64))::from_be_bytes\s*\(', r'\1_from_be_bytes(', text)
    text = re.sub(r'\bfor\s+_\s+in\s+\(([^()]*\.\.[^()=][^()]*)\)\s*\.\s*rev\s*\(\s*\)', r'for _ in \1', text)
    text = re.sub(r'\.\s*reserve_exact\s*\(', '.reserve(', text)
    text = re.sub(r'\.\s*as_deref\s*\(\s*\)', '.as_ref().inner_ref()', text)
    text = re.sub(r'(?:::\s*)?\b(?:std|core)\s*::\s*ptr\s*::\s*eq\s*\(', 'same_place(', text)
    text = re.sub(r'\bptr\s*::\s*eq\s*\(', 'same_place(', text)
    text = re.sub(r'\.\s*to_string\s*\(\s*\)', '.text_copy()', text)
    text = re.sub(r'\.\s*to_owned\s*\(\s*\)', '.owned_copy()', text)
    text = re.sub(r'\b(?:\w+\s*::\s*)*Display\s*::\s*fmt\s*\(\s*([\w.&]+)\s*,', r'(\1).fmt(', text)
    text = re.sub(r'\bVec\s*::\s*from\s*\(', 'vec_from_slice(', text)
    text = re.sub(r'\bString\s*::\s*from\s*\(', 'string_from_str(', text)
    text = re.sub(r'(?:::\s*)?\b(?:std|core)::([ui](?:8|16|32|64|size))::(MAX|MIN)\b', r'\1::\2', text)
    return text

def rw_text_eq(text):
    """`x == "text"` is `x.same_text("text")`, whether x is a String or a &str."""
    while True:
        toks, m = lexm(text); done = True
        for i in range(1, len(toks) - 1):
            if toks[i].t not in ('==', '!='): continue
            a = postfix_start(toks, m, i)
            b = i + 1
            if toks[b].k == 'str' and toks[b].t.startswith('"') and not (b + 1 < len(toks) and toks[b+1].t == '.') and a is not None and toks[i-1].k != 'str':
                new = '%s(%s).same_text(%s)' % ('!' if toks[i].t == '!=' else '', src(toks, text, a, i), toks[b].t); end = b
                while a > 0 and toks[a-1].t in ('*', '&') and (a == 1 or toks[a-2].t in ('(', '{', ';', ',', '=', '&&', '||', '=>', 'if', 'return', 'while', '!')): a -= 1
            else: continue
            text = edit(text, [(toks[a].s, toks[end].e, new)])
            done = False; break
        if done: return text

def rw_for_each(text):
    """`x.iter().try_for_each(|p| e)?` is the loop of `e?`."""
    while True:
        toks, m = lexm(text); done = True
        for i in range(2, len(toks) - 3):
            if toks[i].t not in ('try_for_each', 'for_each') or toks[i-1].t != '.' or toks[i+1].t != '(': continue
            c = m[i+1]
            j = i + 2
            if toks[j].t == 'move': j += 1
            if toks[j].t != '|' or toks[j+2].t != '|' or toks[j+1].k != 'id': continue
            a = postfix_start(toks, m, i - 1)
            if a is None or a and toks[a-1].t not in (';', '{', '}', '='): continue
            it = src(toks, text, a, i - 1)
            if it.startswith('(') and '..' in it and m.get(a) == i - 2: it = it[1:-1]
            body = src(toks, text, j + 3, c)
            if re.search(r'\breturn\b', body): continue
            var = toks[j+1].t
            if toks[i].t == 'for_each':
                if '?' in body: continue
                new = 'for %s in %s { %s; }' % (var, it, body); end = c
            elif toks[c+1].t == '?': new = 'for %s in %s { (%s)?; }' % (var, it, body); end = c + 1
            elif tail_position(toks, m, c + 1): new = '{ for %s in %s { (%s)?; } Ok(()) }' % (var, it, body); end = c
            else: continue
            text = edit(text, [(toks[a].s, toks[end].e, new)])
            done = False; break
        if done: return text

def rw_ref_let(text):
    """`if let Some(&x) = e {` is `if let Some(x) = e { let x = *x;`, in a match as well."""
    toks, m = lexm(text); ed = []
    for i in range(1, len(toks) - 2):
        if not (toks[i].t == '&' and toks[i-1].t == '(' and toks[i+1].k == 'id' and toks[i+1].t not in ('ref', 'mut', 'self') and toks[i+1].t[0].islower() and toks[i+2].t == ')'): continue
        if i < 2 or toks[i-2].k != 'id' or toks[i-2].t not in ('Some', 'Ok'): continue
        x = toks[i+1].t; c = i + 2
        if i > 3 and toks[i-3].t == 'let' and toks[i-4].t in ('if', 'while') and toks[c+1].t == '=':
            o = block_end(toks, m, i - 4)
            ed += [(toks[i].s, toks[i].e, ''), (toks[o].e, toks[o].e, ' let %s = *%s; ' % (x, x))]
        elif toks[c+1].t == '=>' and toks[i-3].t in ('{', ',', '}'):
            b = c + 2
            if toks[b].t == '{': e = m[b]
            else:
                e = b
                while e < len(toks) and toks[e].t not in (',', '}'): e = (m[e] + 1) if (toks[e].k == 'p' and toks[e].t in '([{') else e + 1
                e -= 1
            ed += [(toks[i].s, toks[i].e, ''), (toks[b].s, toks[b].s, '{ let %s = *%s; ' % (x, x)), (toks[e].e, toks[e].e, ' }')]
    return edit(text, ed)

def rw_same(text):
    """`a == b` of two variables is `same(&a, &b)` (its meaning follows from their types)."""
    toks, m = lexm(text); ed = []
    for i, t in enumerate(toks):
        if t.t not in ('==', '!='): continue
        a = i - 1; b = i + 1
        if toks[a].k != 'id' or a < 1: continue
        a0 = a
        while a0 > 0 and toks[a0-1].t == '*': a0 -= 1
        if a0 and toks[a0-1].t in ('.', '::', '&') or a0 and toks[a0-1].k in ('num',) : continue
        b0 = b
        while toks[b].t == '*': b += 1
        if toks[b].k != 'id' or toks[b].t in ('true', 'false', 'None') or b + 1 < len(toks) and toks[b+1].t in ('.', '::', '(', '[', '{', '!'): continue
        ed.append((toks[a0].s, toks[b].e, '%ssame(&%s, &%s)' % ('!' if t.t == '!=' else '', src(toks, text, a0, i), src(toks, text, b0, b + 1))))
    return edit(text, ed)

def rw_ref_patterns(text):
    """An arm `&P(ref a, b) => e` is `P(a, b) => { let b = *b; e }` (default binding modes)."""
    toks, m = lexm(text); ed = []
    for i, t in enumerate(toks):
        if t.k != 'id' or t.t != 'match': continue
        for a, arrow, b, e in match_arms(text, toks, m, i):
            g = next((k for k in range(a, arrow) if toks[k].t == 'if'), arrow)
            amp = [k for k in range(a, g) if toks[k].t == '&' and (k == a or toks[k-1].t in ('(', ',', '|')) and toks[k+1].k == 'id' and toks[k+1].t[0].isupper()]
            if not amp or g != arrow: continue
            plain = []
            for k in range(a, g):
                x = toks[k]
                if x.k != 'id' or x.t in ('ref', 'mut', '_') or not (x.t[0].islower() or x.t[0] == '_'): continue
                if k + 1 < g and toks[k+1].t in (':', '::', '('): continue
                if toks[k-1].t == 'ref': continue
                if toks[k-1].t == '::': continue
                if x.t not in plain: plain.append(x.t)
            if any(toks[k].t == 'mut' for k in range(a, g)): continue
            for k in range(a, g):
                if k in amp or toks[k].t == 'ref': ed.append((toks[k].s, toks[k].e, ''))
            lets = ''.join('let %s = *%s; ' % (x, x) for x in plain)
            if lets: ed += [(toks[b].s, toks[b].s, '{ ' + lets), (toks[e].e, toks[e].e, ' }')]
    return edit(text, ed)

def in_brackets(toks, m, a, u):
    """Is token u within brackets that open at or after token a?"""
    return any(k < u < m[k] for k in range(a, u) if toks[k].k == 'p' and toks[k].t in '([{' and k in m)

def rw_collect(text):
    """`(0..n).map(|_| e).collect::<..>()?` with a fallible e is the loop that pushes `e?`."""
    k = [0]
    while True:
        # repeat_with(|| e).take(n) is (0..n).map(|_| e)
        toks, m = lexm(text); done = True
        for i in range(len(toks) - 8):
            if toks[i].t != 'repeat_with' or toks[i+1].t != '(' : continue
            e = m[i+1]
            if [t.t for t in toks[e+1:e+4]] != ['.', 'take', '(']: continue
            c = closure(toks, m, text, i + 2, e, 0)
            if c is None: continue
            a = i
            while a > 0 and toks[a-1].t == '::': a -= 2 if a > 1 and toks[a-2].t in ('iter', 'std', 'core') else 1
            text = edit(text, [(toks[a].s, toks[m[e+3]].e, '(0..%s).map(|_| %s)' % (src(toks, text, e + 4, m[e+3]), c[1]))])
            done = False; break
        if done: break
    while True:
        toks, m = lexm(text); done = True
        for i in range(len(toks) - 8):
            if toks[i].t == '(' and i in m and toks[m[i]+1:m[i]+4] and [t.t for t in toks[m[i]+1:m[i]+4]] == ['.', 'map', '(']:
                rng = src(toks, text, i+1, m[i])
                if '..' not in rng: continue
                o = m[i] + 3; c = m[o]
                j = o + 1
                if toks[j].t == 'move': j += 1
                if toks[j].t != '|' or toks[j+2].t != '|': continue
                var = toks[j+1].t
                body = src(toks, text, j+3, c)
                q = c + 1
                if [t.t for t in toks[q:q+2]] != ['.', 'collect']: continue
                q += 2; turbo = ''
                if toks[q].t == '::':
                    while toks[q].t != '(': turbo += toks[q].t; q += 1
                b = i - 1
                while b > 0 and toks[b].t not in (';', '{', '}', 'let'): b -= 1
                if toks[b].t == 'let': turbo += src(toks, text, b, i)
                mp = re.search(r'\b(BTreeMap|HashMap)\b', turbo)
                if toks[q].t != '(': continue
                q = m[q] + 1
                wrap_ok = not (q < len(toks) and toks[q].t == '?')
                later = None
                if wrap_ok and q < len(toks) and toks[q].t == ';' and not tail_position(toks, m, q):
                    # `let x: Result<..> = ..collect();` of which only `x?` is used, with nothing fallible between
                    b = i - 1
                    while b > 0 and toks[b].t not in (';', '{', '}', 'let'): b -= 1
                    if toks[b].t == 'let' and toks[i-1].t == '=' and toks[b+1].k == 'id' and toks[b+1].t != 'mut':
                        x = toks[b+1].t
                        us = [u for u in range(len(toks)) if toks[u].t == x and u > q]
                        if len(us) == 1 and toks[us[0]+1].t == '?' and not any(toks[u].t in ('?', 'return', 'break', 'continue', '{') for u in range(q, us[0])):
                            later = us[0] + 1; wrap_ok = False
                            text = edit(text, [(toks[later].s, toks[later].e, '')] + ([(toks[b+2].s, toks[i-1].s, ' ')] if toks[b+2].t == ':' else []))
                            toks, m = lexm(text)
                            i2 = [u for u in range(len(toks)) if toks[u].t == 'let' and toks[u+1].t == x][-1]
                            i = next(u for u in range(i2, len(toks)) if toks[u].t == '=') + 1
                            q = next(u for u in range(i, len(toks)) if toks[u].t == ';' and not in_brackets(toks, m, i, u))
                            text = edit(text, [(toks[q].s, toks[q].s, '?')])
                            done = False; break
                if wrap_ok and not tail_position(toks, m, q): continue
                end = toks[q].e if not wrap_ok else toks[q-1].e
                k[0] += 1
                v = 'collected%d' % k[0]
                if mp:
                    end_ = ('Ok(%s)' % v) if wrap_ok else v
                    new = '{ let mut %s = %s::new(); for %s in %s { let (key_, value_) = (%s)?; %s.insert(key_, value_); } %s }' % (v, mp.group(1), var, rng, body, v, end_)
                else: new = '{ let mut %s = Vec::new(); for %s in %s { %s.push((%s)?); } %s }' % (v, var, rng, v, body, ('Ok(%s)' % v) if wrap_ok else v)
                text = edit(text, [(toks[i].s, end, new)])
                done = False; break
        if done: return text

OPTION_CALLS = ('get', 'get_mut', 'next', 'first', 'last', 'pop', 'from_digit', 'from_u32', 'to_digit', 'checked_add', 'checked_sub', 'checked_mul', 'find', 'position', 'strip_prefix', 'strip_suffix', 'from_bits', 'ok', 'filter', 'cloned', 'copied', 'nth', 'peek', 'split_first')
RESULT_CALLS = ('ok_or', 'ok_or_else', 'map_err', 'try_from', 'try_into', 'write_str', 'write_char')

def postfix_start(toks, m, i):
    """The first token of the postfix expression that ends before token i."""
    j = i - 1
    while j >= 0:
        t = toks[j]
        if t.t in (')', ']') and t.k == 'p':
            j = m[j]
            if j > 0 and (toks[j-1].k == 'id' and toks[j-1].t not in ('return', 'in', 'match', 'if', 'while', 'else', 'break') or toks[j-1].t in ('?', ')', ']', '!')): j -= 1; continue
            if j > 0 and toks[j-1].t == '>':
                d, k = 0, j - 1
                while k >= 0:
                    d += {'>': 1, '>>': 2, '<': -1, '<<': -2}.get(toks[k].t, 0)
                    k -= 1
                    if d <= 0: break
                if toks[k].t != '::': return None
                j = k - 1; continue
            return j
        if t.t == '?': j -= 1; continue
        if t.t == '!' : j -= 1; continue
        if t.k in ('id', 'num', 'str', 'chr', 'char'):
            if j > 0 and toks[j-1].t in ('.', '::'): j -= 2; continue
            return j
        return None
    return None

def closure(toks, m, text, a, b, arity=1):
    """(pattern, body) of a closure or of the path of a function."""
    j = a
    if toks[j].t == 'move': j += 1
    if toks[j].t == '||':
        if arity: return None
        j += 1; pat = ''
    elif toks[j].t == '|':
        k = j + 1
        while toks[k].t != '|': k = (m[k] + 1) if (toks[k].k == 'p' and toks[k].t in '([{') else k + 1
        ps = split_top(toks, j + 1, k, m)
        if len(ps) != arity: return None
        pats = []
        for x, y in ps:
            e = x
            while e < y and toks[e].t != ':': e = (m[e] + 1) if (toks[e].k == 'p' and toks[e].t in '([{') else e + 1
            pats.append(src(toks, text, x, e))
        pat = ', '.join(pats); j = k + 1
    else:
        if arity > 1: return None
        if all(toks[k].k == 'id' or toks[k].t == '::' for k in range(a, b)) and b > a and (toks[b-1].t[0].isupper() or '::' in src(toks, text, a, b) or arity):
            if toks[b-1].t in ('into', 'from') or b - a == 1 and toks[a].t in ('self', 'true', 'false'): return None
            return ('v_', '%s(v_)' % src(toks, text, a, b)) if arity else ('', '%s()' % src(toks, text, a, b))
        return None
    if toks[j].t == '->': return None
    return pat, src(toks, text, j, b)

def rw_combinators(text, kinds):
    """`r.map(|x| e)` and the like are the match they stand for. kinds: what a function of the crate returns."""
    skip = set()
    while True:
        toks, m = lexm(text); done = True
        for i in range(1, len(toks) - 2):
            if toks[i].k != 'id' or toks[i-1].t != '.' or toks[i+1].t != '(' or toks[i].s in skip: continue
            op = toks[i].t
            if op not in ('map', 'map_err', 'and_then', 'ok', 'ok_or_else', 'unwrap_or_else', 'map_or', 'filter', 'is_some_and', 'or_else'): continue
            st = postfix_start(toks, m, i - 1)
            if st is None: continue
            recv = src(toks, text, st, i - 1)
            kind = kind_of(toks, m, st, i - 1, kinds)
            if kind is None: continue
            e = m[i+1]
            args = split_top(toks, i + 2, e, m)
            followed = e + 1 < len(toks) and toks[e+1].t == '?'
            tail = followed or tail_position(toks, m, e + 1)
            r = kind == 'Result'
            cl = None
            need = {'ok': 0, 'map_or': 2}.get(op, 1)
            if len(args) != need: continue
            if need:
                arity = 0 if (not r and op in ('ok_or_else', 'unwrap_or_else', 'or_else')) else 1
                cl = closure(toks, m, text, args[-1][0], args[-1][1], arity)
                if cl is None: continue
                ct = lex(cl[1])
                if any(t.t == 'return' for t in ct): continue
                if any(t.t == '?' for t in ct) and not (op == 'and_then' and r and tail): continue
            p_, b_ = cl if cl else ('', '')
            if tail and op in ('map', 'and_then') and not any(t.k == 'life' for t in ct):
                v = '({ let %s = %s?; %s })' % (p_, recv, b_)
                if op == 'map' and not followed: v = ('Ok' if r else 'Some') + v
                stop = toks[e+1].e if followed and op == 'map' else toks[e].e
                text = edit(text, [(toks[st].s, stop, v)])
                done = False; break
            good, bad = ('Ok', 'Err(e_) => Err(e_)') if r else ('Some', 'None => None')
            if op == 'map': arms = '%s(%s) => %s(%s), %s' % (good, p_, good, b_, bad)
            elif op == 'and_then': arms = '%s(%s) => %s, %s' % (good, p_, b_, bad)
            elif op == 'map_err' and r: arms = 'Ok(v_) => Ok(v_), Err(%s) => Err(%s)' % (p_, b_)
            elif op == 'ok' and r: arms = 'Ok(v_) => Some(v_), Err(_) => None'
            elif op == 'ok_or_else' and not r: arms = 'Some(v_) => Ok(v_), None => Err(%s)' % b_
            elif op == 'unwrap_or_else': arms = 'Ok(v_) => v_, Err(%s) => %s' % (p_, b_) if r else 'Some(v_) => v_, None => %s' % b_
            elif op == 'or_else': arms = 'Ok(v_) => Ok(v_), Err(%s) => %s' % (p_, b_) if r else 'Some(v_) => Some(v_), None => %s' % b_
            elif op == 'map_or':
                dflt = src(toks, text, *args[0])
                if not re.match(r'^[\w:]+$', dflt): continue
                arms = '%s(%s) => %s, %s => %s' % (good, p_, b_, 'Err(_)' if r else 'None', dflt)
            elif op == 'is_some_and' and not r: arms = 'Some(%s) => %s, None => false' % (p_, b_)
            elif op == 'filter' and not r: arms = 'Some(v_) => if ({ let %s = &v_; %s }) { Some(v_) } else { None }, None => None' % (p_, b_)
            else: continue
            text = edit(text, [(toks[st].s, toks[e].e, '(match %s { %s })' % (recv, arms))])
            done = False; break
        if done: return text

def kind_of(toks, m, a, b, kinds):
    """Result or Option: what the postfix expression of the tokens a to b is."""
    if toks[b-1].t != ')' : return None
    o = m[b-1]
    if o == a:
        # a match made above
        inner = [t.t for t in toks[a+1:b-1]]
        if inner[:1] != ['match']: return None
        k = b - 2
        return arm_kind(toks, m, m[k] + 1, k)
    j = o - 1
    if toks[j].t == '>':
        d = 0
        while j >= 0:
            d += {'>': 1, '>>': 2, '<': -1, '<<': -2}.get(toks[j].t, 0)
            j -= 1
            if d <= 0: break
        if toks[j].t != '::': return None
        j -= 1
    n = toks[j].t
    if n == 'collect' and any(t.t == 'Result' for t in toks[j+1:o]): return 'Result'
    if n in kinds: return kinds[n]
    if n in OPTION_CALLS and toks[j-1].t in ('.', '::'): return 'Option'
    if n in RESULT_CALLS and toks[j-1].t in ('.', '::'): return 'Result'
    if n in ('as_ref', 'as_mut', 'map', 'and_then', 'or_else') and toks[j-1].t == '.':
        st = postfix_start(toks, m, j - 1)
        k = kind_of(toks, m, st, j - 1, kinds) if st is not None else None
        return k or ('Option' if n in ('as_ref', 'as_mut') and j + 3 < len(toks) else None)
    if n in ('Ok', 'Err'): return 'Result'
    if n in ('Some',): return 'Option'
    return None

def arm_kind(toks, m, a, e):
    """What the arms of a rewritten combinator make."""
    for i in range(a, e):
        if toks[i].t == '=>' and toks[i+1].t in ('Err', 'Ok'): return 'Result'
        if toks[i].t == '=>' and toks[i+1].t in ('None', 'Some'): return 'Option'
    return None

def enclosing(toks, m, i):
    """The open bracket that token i is in."""
    j = i - 1
    while j >= 0:
        if toks[j].k == 'p' and toks[j].t in ')]}': j = m[j] - 1; continue
        if toks[j].k == 'p' and toks[j].t in '([{': return j
        j -= 1
    return None

def opener(toks, m, o):
    """What kind of block the brace o opens."""
    if o > 0 and toks[o-1].t == '=>': return 'arm'
    j = o - 1
    while j >= 0:
        t = toks[j]
        if t.k == 'p' and t.t in ')]}': j = m[j] - 1; continue
        if t.k == 'id' and t.t in ('if', 'match', 'while', 'for', 'loop', 'else', 'unsafe'): return t.t
        if t.t in (';', '{', '=>', ',', '(', '['): return 'block'
        j -= 1
    return 'block'

def tail_position(toks, m, e):
    """Is the expression that ends before token e the value of the whole text?"""
    while True:
        if e >= len(toks): return True
        t = toks[e].t
        if t == ',':
            o = enclosing(toks, m, e)
            if o is None or toks[o].t != '{' or opener(toks, m, o) != 'match': return False
            e = m[o] + 1
        elif t == '}':
            o = m[e]; k = opener(toks, m, o)
            if k in ('while', 'for', 'loop'): return False
            e += 1
            if k == 'arm':
                o2 = enclosing(toks, m, o)
                if o2 is None or opener(toks, m, o2) != 'match': return False
                e = m[o2] + 1
            elif k in ('if', 'else'):
                while e < len(toks) and toks[e].t == 'else':
                    e += 1
                    while toks[e].t != '{': e = (m[e] + 1) if (toks[e].k == 'p' and toks[e].t in '([') else e + 1
                    e = m[e] + 1
        else: return False

def block_end(toks, m, i):
    """The brace that opens the block of the `if` at token i."""
    k = i + 1
    while toks[k].t != '{': k = (m[k] + 1) if (toks[k].k == 'p' and toks[k].t in '([') else k + 1
    return k

def guard_returns(text):
    """`if c { return x; } rest` is `if c { x } else { rest }`, and a `return` in tail position is its value."""
    for _ in range(60):
        toks, m = lexm(text); done = True
        if not any(t.t == 'return' for t in toks): return text
        # `C(match e { p => v, .. })` in tail position is `match e { p => C(v), .. }`
        for i, t in enumerate(toks):
            if t.t in ('Ok', 'Some') and i + 2 < len(toks) and toks[i+1].t == '(' and toks[i+2].t == 'match' and tail_position(toks, m, m[i+1] + 1):
                b = block_end(toks, m, i + 2)
                if m[b] + 1 != m[i+1]: continue
                ed = [(t.s, toks[i+1].e, ''), (toks[m[i+1]].s, toks[m[i+1]].e, '')]
                for a, arrow, x, y in match_arms(text, toks, m, i + 2):
                    if toks[x].t == 'return': continue
                    ed += [(toks[x].s, toks[x].s, t.t + '('), (toks[y].e, toks[y].e, ')')]
                text = edit(text, ed); done = False; break
            # `let x = match e { p => v, q => return r }; rest` is `match e { p => { let x = v; rest }, q => r }`
            if t.t == 'let':
                j = i + 1
                while j < len(toks) and toks[j].t not in ('=', ';'): j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([{') else j + 1
                if j >= len(toks) or toks[j].t != '=' or toks[j+1].t != 'match': continue
                b = block_end(toks, m, j + 1)
                if toks[m[b]+1].t != ';': continue
                arms = match_arms(text, toks, m, j + 1)
                vals = [x for x in arms if toks[x[2]].t != 'return']
                if len(vals) > 3 or len(vals) == len(arms): continue
                if any(toks[k].t == 'return' for x in vals for k in range(x[2], x[3] + 1)): continue
                o2 = enclosing(toks, m, i)
                endp = len(text) if o2 is None else toks[m[o2]].s
                if o2 is not None and not tail_position(toks, m, m[o2]): continue
                rest = text[toks[m[b]+1].e:endp]
                head = text[t.s:toks[j].e]
                new = text[toks[j+1].s:toks[b].e]
                for a, arrow, x, y in arms:
                    v = src(toks, text, x, y + 1)
                    if toks[x].t == 'return': v = src(toks, text, x + 1, y + 1)
                    else: v = '{ %s %s; %s }' % (head, v, rest)
                    new += ' %s => %s,' % (src(toks, text, a, arrow), v)
                text = text[:t.s] + new + ' }' + text[endp:]
                done = False; break
        if not done: continue
        for i, t in enumerate(toks):
            if t.k != 'id' or t.t != 'return': continue
            # the end of the statement
            e = i + 1
            while e < len(toks) and toks[e].t not in (';', '}', ','): e = (m[e] + 1) if (toks[e].k == 'p' and toks[e].t in '([{') else e + 1
            if e == i + 1: return text
            semi = e < len(toks) and toks[e].t == ';'
            nxt = e + 1 if semi else e
            if nxt < len(toks) and toks[nxt].t != '}' and semi: continue     # dead code follows
            if tail_position(toks, m, nxt):
                ed = [(toks[i].s, toks[i].e, '')]
                if semi: ed.append((toks[e].s, toks[e].e, ''))
                text = edit(text, ed); done = False; break
            # the last statement of an `if` without else, at the level of the function
            if nxt < len(toks) and toks[nxt].t == '}':
                o = m[nxt]
                if opener(toks, m, o) == 'if' and not (nxt + 1 < len(toks) and toks[nxt+1].t in ('else', '.', '?', ')')):
                    # everything up to the end of the enclosing block
                    o2 = enclosing(toks, m, o)
                    endp = len(text) if o2 is None else toks[m[o2]].s
                    endt = len(toks) if o2 is None else m[o2]
                    if o2 is not None and not tail_position(toks, m, m[o2]): continue
                    if nxt + 1 >= endt: continue
                    rest = text[toks[nxt].e:endp]
                    val = src(toks, text, i + 1, e)
                    text = text[:toks[i].s] + val + ' } else { ' + rest + ' }' + text[endp:]
                    done = False; break
        if done: return text
    return text

def plain(p_):
    return re.sub(r'^mut\s+', '', p_.strip())

def fn_params(h):
    """The parameters of a helper that are functions (names without `mut`)."""
    out = []
    bounds = re.sub(r'\s+', ' ', h.generics + ' ' + h.where)
    for p_, ty in h.params:
        ty = ty.strip(); p_ = plain(p_)
        if re.match(r"^(&\s*(mut\s+)?)?(impl|dyn)\s+Fn(Mut|Once)?\s*\(", ty) or re.match(r'^fn\s*\(', ty): out.append(p_)
        elif re.match(r'^\w+$', ty) and re.search(r'\b%s\s*:\s*(\w+\s*\+\s*)*Fn(Mut|Once)?\s*\(' % ty, bounds): out.append(p_)
    return out

def type_params(h):
    g = h.generics.strip()
    if not g: return []
    toks, m = lexm(g)
    out = []
    for a, b in split_top(toks, 1, len(toks) - 1, m):
        if toks[a].k == 'life': continue
        if toks[a].t == 'const': out.append(toks[a+1].t)
        else: out.append(toks[a].t)
    return out

def apply_fn(text, name, arg):
    """Calls of the parameter `name` of a helper become calls of the argument. None if that is not possible."""
    arg = arg.strip()
    arg = re.sub(r'^&\s*(mut\s+)?(?=\|)', '', arg)
    at, am = lexm(arg)
    if not at: return None
    is_path = all(t.k == 'id' or t.t == '::' for t in at)
    if not is_path and not (at[0].t in ('|', '||', 'move')): return None
    for _ in range(60):
        toks, m = lexm(text); done = True
        for i, t in enumerate(toks):
            if t.k != 'id' or t.t != name or (i and toks[i-1].t in ('.', '::')): continue
            called = i + 1 < len(toks) and toks[i+1].t == '('
            if is_path:
                text = edit(text, [(t.s, t.e, arg)])
                if arg == name: continue
            elif not called:
                # passed on
                a = t.s
                if i and toks[i-1].t == '&': a = toks[i-1].s
                if i > 1 and toks[i-1].t == 'mut' and toks[i-2].t == '&': a = toks[i-2].s
                text = edit(text, [(a, t.e, arg)])
            else:
                c = closure(at, am, arg, 0, len(at), len(split_top(toks, i + 2, m[i+1], m)))
                if c is None: return None
                pats = [x.strip() for x in split_args(c[0])]
                args = [src(toks, text, a, b) for a, b in split_top(toks, i + 2, m[i+1], m)]
                if len(pats) != len(args): return None
                bt = lex(c[1])
                if any(x.t == 'return' for x in bt): return None
                if any(x.t == '?' for x in bt):
                    e = m[i+1] + 1
                    if not (e < len(toks) and toks[e].t == '?') and not tail_position(toks, m, e): return None
                lets = ''.join('let %s = %s; ' % (p_, '&mut *self' if a == 'self' else a) for p_, a in zip(pats, args) if p_ != a)
                text = edit(text, [(t.s, toks[m[i+1]].e, '({ %s%s })' % (lets, c[1]))])
            done = False; break
        if done: return text
        if is_path and arg == name: return text
    return text

def split_args(s):
    toks, m = lexm(s)
    return [src(toks, s, a, b) for a, b in split_top(toks, 0, len(toks), m)]

def rw_local_closures(text):
    """A closure bound to a name that is only called is inlined at its calls."""
    skip = set()
    for _ in range(20):
        toks, m = lexm(text); done = True
        for i, t in enumerate(toks):
            if t.t != 'let': continue
            j = i + 1
            if toks[j].t == 'mut': j += 1
            name = toks[j].t
            if toks[j].k != 'id' or toks[j+1].t != '=' or toks[j+2].t not in ('|', '||', 'move') or name in skip: continue
            e = j + 2
            while toks[e].t != ';': e = (m[e] + 1) if (toks[e].k == 'p' and toks[e].t in '([{') else e + 1
            arg = src(toks, text, j + 2, e)
            skip.add(name)
            if len([x for x in toks if x.t == 'let' and toks[toks.index(x)+1].t == name]) > 1: continue
            t2 = apply_fn(text[:t.s] + ' ' * (toks[e].e - t.s) + text[toks[e].e:], name, reborrow(arg, text))
            if t2 is None: continue
            text = t2; done = False; break
        if done: return text
    return text

def reborrow(arg, text):
    return arg

def inline_helpers(f, helpers, depth=6):
    """Calls of functions that have no contract are replaced by their bodies
    (a call followed by `?` or in tail position, or of a body that cannot return early)."""
    text = rw_local_closures(f.body)
    used = set()
    n = 0
    muts = {p_.replace('mut ', '').strip() for p_, ty in f.params if re.match(r"&\s*('\w+\s+)?mut\b", ty.strip())}
    for _ in range(40):
        toks, m = lexm(text); done = True
        for i in range(len(toks)):
            if toks[i].k != 'id' or i + 1 >= len(toks): continue
            h = None
            if i > 1 and toks[i-1].t == '::':
                q = toks[i-2].t
                h = helpers.get((f.impl_ty if q == 'Self' and f.impl_ty else q) + '::' + toks[i].t)
                if h is None and q[0].isupper() and q != 'Self' and toks[i].t in helpers and helpers[toks[i].t].impl_ty != q: continue
            if h is None: h = helpers.get(toks[i].t)
            if h is None: continue
            j = i + 1
            turbo = None
            if toks[j].t == '::' and toks[j+1].t == '<':
                d, j2 = 0, j + 1
                while True:
                    if toks[j2].t == '<': d += 1
                    elif toks[j2].t == '>': d -= 1
                    elif toks[j2].t == '>>': d -= 2
                    j2 += 1
                    if d <= 0: break
                turbo = [src(toks, text, x, y) for x, y in split_top(toks, j + 2, j2 - 1, m)]
                j = j2
            if toks[j].t != '(': continue
            if i > 0 and toks[i-1].t == 'fn': continue
            args = [src(toks, text, a, b) for a, b in split_top(toks, j+1, m[j], m)]
            start, recv = i, None
            is_method = h.params and h.params[0][0] == 'self'
            if i > 0 and toks[i-1].t == '.':
                if not is_method: continue
                if i < 2 or toks[i-2].k != 'id': continue
                start = i - 2
                while start >= 2 and toks[start-1].t == '.' and toks[start-2].k == 'id': start -= 2
                if start and toks[start-1].t in ('.', '::'): continue
                recv = src(toks, text, start, i - 1)
                if start != i - 2:
                    # the place self.a.b: only lent
                    if re.sub(r"\s|'\w+", '', h.params[0][1]) != '&self': continue
                    recv = '(&%s)' % recv
            elif i > 1 and toks[i-1].t == '::':
                start = i - 2
                if toks[start].k != 'id': continue
                if is_method:
                    if not args: continue
                    recv = args.pop(0).replace('&mut ', '').replace('&', '').strip()
                    if not re.match(r'^\w+$', recv): continue
            elif is_method: continue
            params = h.params[1:] if is_method else h.params
            if len(params) != len(args): continue
            body = guard_returns(h.body)
            fps = fn_params(h)
            for (p_, ty), a in zip(params, args):
                if plain(p_) in fps and body is not None: body = apply_fn(body, plain(p_), a)
            if body is None: continue
            # type parameters
            tp = [g for g in type_params(h) if not any(plain(p_) in fps and ty.strip() == g for p_, ty in h.params)]
            allg = type_params(h)
            sub = dict(zip(allg, turbo)) if turbo and len(turbo) == len(allg) else {}
            bt, bm = lexm(body); ed = []; bad = False
            for k, t in enumerate(bt):
                if t.k == 'id' and t.t in allg and not (k and bt[k-1].t in ('.', '::')):
                    if sub.get(t.t, '_') != '_': ed.append((t.s, t.e, sub[t.t]))
                    elif k + 1 < len(bt) and bt[k+1].t == '::': bad = True
                    else: ed.append((t.s, t.e, '_'))
            if bad: continue
            body = edit(body, ed)
            btoks, bm = lexm(body)
            early = any(t.t == 'return' for t in btoks) or any(t.t == '?' for t in btoks)
            if any(t.k == 'id' and t.t == h.name for t in btoks): continue      # recursive
            e = m[j]
            q = e + 1 < len(toks) and toks[e+1].t == '?' or tail_position(toks, m, e + 1) or (start > 0 and toks[start-1].t == 'return')
            if early and not q: continue
            # a `return` may only return an error
            if any(t.t == 'return' and btoks[k+1].t != 'Err' for k, t in enumerate(btoks)): continue
            if recv and recv != 'self':
                if recv not in muts and not re.search(r'\blet\s+(mut\s+)?%s\s*(:[^=;]*)?=\s*&\s*mut\b' % re.escape(recv), text): body = re.sub(r'&mut \*self\b', '&mut self', body)
                btoks, bm = lexm(body)
                body = edit(body, [(t.s, t.e, recv) for t in btoks if t.k == 'id' and t.t == 'self'])
            n += 1
            tmp = tmp2 = ''
            for k, ((p_, ty), a) in enumerate(zip(params, args)):
                if plain(p_) in fps: continue
                ty = re.sub(r"'\w+\s*", '', ty)
                for g, v in sub.items(): ty = re.sub(r'\b%s\b' % g, v, ty)
                if any(re.search(r'\b%s\b' % g, ty) for g in allg if g not in sub) or 'impl ' in ty:
                    tmp += 'let arg%d_%d = %s; ' % (n, k, '&mut *' + a if a in muts else a)
                else: tmp += 'let arg%d_%d: %s = %s; ' % (n, k, ty, a)
                tmp2 += 'let %s = arg%d_%d; ' % (p_, n, k)
            tmp += tmp2
            if h.ret is None and not body.rstrip().endswith((';', '}')) and body.strip(): body = body + ';'
            text = edit(text, [(toks[start].s, toks[e].e, '({ ' + tmp + body + ' })')])
            used.add(h.key)
            done = False; break
        if done: return text, used
    return text, used

# ---- loops ------------------------------------------------------------------------

class Loop: pass

def stmt_start(toks, m, i):
    """Index of the first token of the statement that token i is in."""
    j = i - 1
    while j >= 0:
        t = toks[j]
        if t.t in (';', '{') : return j + 1
        if t.t == '}':
            # the end of a block statement, or a block inside this statement
            if j + 1 < len(toks) and toks[j+1].k in ('id', 'life') and toks[j+1].t not in ('else', 'as'): return j + 1
            j = m[j] - 1; continue
        if t.t in (')', ']'): j = m[j] - 1; continue
        if t.t == '=>': return None
        j -= 1
    return 0

def find_loops(text):
    toks, m = lexm(text)
    loops = []
    for i, t in enumerate(toks):
        if t.k != 'id' or t.t not in ('for', 'while', 'loop'): continue
        if t.t == 'for' and i + 1 < len(toks) and toks[i+1].t == '<': continue
        L = Loop(); L.kind = t.t; L.i = i
        j = i + 1
        if t.t == 'for':
            while toks[j].t != 'in': j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([{') else j + 1
            L.pat = (i+1, j); k = j + 1
            while toks[k].t != '{': k = (m[k] + 1) if (toks[k].k == 'p' and toks[k].t in '([') else k + 1
            L.head = (j+1, k); L.open = k
        elif t.t == 'while':
            k = j
            while toks[k].t != '{': k = (m[k] + 1) if (toks[k].k == 'p' and toks[k].t in '([') else k + 1
            L.head = (j, k); L.open = k
        else:
            if toks[j].t != '{': continue
            L.head = None; L.open = j
        L.close = m[L.open]
        L.first = i
        if i >= 2 and toks[i-1].t == ':' and toks[i-2].k == 'life': L.first = i - 2
        loops.append(L)
    return text, toks, m, loops

def decoder_vars(f, toks, text, m, upto, is_dec):
    """(name, is a reference) of the decoders in scope before token `upto`, by kind."""
    out = {}
    for p_, ty in f.params:
        if p_ == 'self':
            if f.impl_ty == 'Decoder': out['self'] = True
        elif re.search(r'&\s*(\'\w+\s+)?mut\s+Decoder\b', ty): out[p_.replace('mut ', '').strip()] = True
        elif re.match(r'Decoder\b', ty.strip()): out[p_.replace('mut ', '').strip()] = False
    for i in range(upto):
        if toks[i].t == 'let':
            j = i + 1
            if toks[j].t == 'mut': j += 1
            if toks[j].k != 'id': continue
            name = toks[j].t
            k = j + 1; ty = ''
            if toks[k].t == ':':
                q = k
                while toks[q].t not in ('=', ';'): q += 1
                ty = src(toks, text, k+1, q); k = q
            if toks[k].t != '=': continue
            e = k + 1
            while toks[e].t != ';': e = (m[e] + 1) if (toks[e].k == 'p' and toks[e].t in '([{') else e + 1
            rhs = src(toks, text, k+1, e)
            # out of scope?
            if not in_scope(toks, m, i, upto): continue
            ref = None
            if re.search(r'&\s*mut\s+Decoder\b', ty): ref = True
            elif re.match(r'^&\s*mut\b.*\.(nested|limit)\s*\(', rhs, re.S): ref = True
            elif re.match(r'^\w+\.(nested|limit)\s*\(.*\)\s*\?$', rhs, re.S): ref = False
            elif re.match(r'^Decoder::new\b', rhs): ref = False
            elif re.match(r'^&\s*mut\s+(\w+)$', rhs) and re.match(r'^&\s*mut\s+(\w+)$', rhs).group(1) in out: ref = True
            elif re.match(r'^\w+$', rhs) and rhs in out: ref = out[rhs]
            if ref is None: out.pop(name, None)
            else: out[name] = ref
    return out

def in_scope(toks, m, i, upto):
    """Is the block that token i is in still open at token upto?"""
    j = i
    while j >= 0:
        if toks[j].t in ('}', ')', ']') and toks[j].k == 'p': j = m[j] - 1; continue
        if toks[j].k == 'p' and toks[j].t in ('{', '('): return m[j] > upto
        j -= 1
    return True

def declared_before(toks, m, name, upto):
    for i in range(upto - 1):
        if toks[i].t == 'let':
            j = i + 1
            if toks[j].t == 'mut': j += 1
            if toks[j].t == name and in_scope(toks, m, i, upto): return True
    return False

def alias(toks, L, k):
    """`let k = x;` in the loop: k stands for x."""
    for i in range(L.open, L.close):
        if toks[i].t == 'let' and toks[i+1].t == k and toks[i+2].t == '=' and toks[i+3].k == 'id' and toks[i+4].t == ';': return toks[i+3].t
    return k

def annotate_loops(f, text, mode, notes):
    text, toks, m, loops = find_loops(text)
    if not loops: return text, False
    ed = []
    pool = None
    for p_, ty in f.params:
        if re.match(r"&\s*('\w+\s+)?Pool\b", ty): pool = p_
    for n, L in enumerate(loops):
        ind = '\n            '
        inv, snap, exc, ens = [], [], [], []
        dec = None
        body = toks[L.open:L.close+1]
        names = set(t.t for t in body if t.k == 'id') | set(t.t for t in (toks[L.head[0]:L.head[1]] if L.head else []) if t.k == 'id')
        dv = {k: v for k, v in decoder_vars(f, toks, text, m, L.first, None).items() if k in names}
        for d, ref in dv.items():
            snap.append('let ghost z%d_%s = %s%s;' % (n, d, '*' if ref else '', d))
            inv.append('%s.wf() && %s.same(z%d_%s) && %s.pos() >= z%d_%s.pos()' % (d, d, n, d, d, n, d))
        # what is collected
        cols = []
        for i in range(L.open, L.close - 2):
            if toks[i].k == 'id' and toks[i+1].t == '.' and toks[i+2].t in ('push', 'insert', 'append') and toks[i+3].t == '(' and toks[i-1].t != '.':
                v = toks[i].t
                if v != 'self' and v not in cols and declared_before(toks, m, v, L.first): cols.append(v)
        for p_ in [x for x in cols]:
            if f.local_types.get(p_) == 'Pool': inv.append('%s.wf()' % p_)
        d = sorted(dv)[0] if len(dv) == 1 else None
        rem = rem0 = None
        if L.kind == 'for':
            h = src(toks, text, *L.head)
            mm = re.match(r'^(.*?)\s*\.\.\s*([^=.].*)$', h, re.S)
            pat = src(toks, text, *L.pat)
            if mm:
                lo, hi = mm.group(1).strip(), mm.group(2).strip()
                if pat == '_' or not re.match(r'^\w+$', pat):
                    if pat == '_':
                        ed.append((toks[L.pat[0]].s, toks[L.pat[1]-1].e, 'k%d_' % n)); it = 'k%d_' % n
                    else: it = None
                else: it = pat
                if it:
                    snap.append('let ghost y%d_hi: int = (%s) as int; let ghost y%d_lo: int = (%s) as int;' % (n, hi, n, lo))
                    rem = 'y%d_hi - %s' % (n, it); rem0 = 'y%d_hi - y%d_lo' % (n, n)
                    if not re.match(r'^[0-9]', lo): pass
        elif L.kind == 'while':
            h = src(toks, text, *L.head)
            mm = re.match(r'^(.+?)\s*(<=|>=|<|!=|>)\s*(.+)$', h, re.S)
            if mm and '&&' not in h and '||' not in h and not h.startswith('let') and not (cols == [] and re.match(r'^\w+\s*[%&]', h)):
                a, o, b = mm.group(1).strip(), mm.group(2), mm.group(3).strip()
                if o == '>' and b == '0': rem = '(%s) as int' % a
                elif o == '!=' and b == '0': rem = '(%s) as int' % a
                elif o in ('<', '!='): rem = '(%s) as int - (%s) as int' % (b, a)
                elif o == '>': rem = '(%s) as int - (%s) as int' % (a, b)
                elif o == '<=': rem = '(%s) as int - (%s) as int + 1' % (b, a)
                elif o == '>=': rem = '(%s) as int - (%s) as int + 1' % (a, b)
                if rem:
                    for pv, ty in f.local_types.items():
                        if ty == 'Pool': rem = rem.replace('%s.len()' % pv, '%s.spec_len()' % pv)
                    snap.append('let ghost y%d_rem: int = %s;' % (n, rem)); rem0 = 'y%d_rem' % n
                    dec = 'nonneg(%s)' % rem
                    if o == '!=': inv.append('%s >= 0' % rem)
                    if o in ('<', '<=') and re.match(r'^\w+$', a): inv.append('y%d_rem >= 0 ==> %s >= 0' % (n, rem))
        if d and L.kind == 'while' and not cols and not rem:
            # a loop that skips until an offset is aligned
            mm = re.match(r'^(\w+)\s*(%|&)\s*(\d+)\s*!=\s*0$', h)
            if mm and len([i for i in range(L.open, L.close) if toks[i].t == mm.group(1)]) == 1:
                v = mm.group(1); M = int(mm.group(3)) + (mm.group(2) == '&')
                snap.append('let ghost x%d_k: int = %s as int;' % (n, v))
                inv.append('%s.pos() - %s == z%d_%s.pos() - x%d_k && x%d_k <= %s <= x%d_k + (%d - x%d_k %% %d) %% %d' % (d, v, n, d, n, n, v, n, M, n, M, M))
                dec = 'x%d_k + %d - %s' % (n, M, v)
        if d and rem and not cols:
            # a loop that only skips
            mm = re.match(r'^\{\s*(?:\w+\s*[+-]=\s*1\s*;\s*)?(?:let\s+_\w*\s*=\s*)?%s\s*\.\s*(?:skip\s*\(\s*(\d+)\s*\)|read_[ui](8|16|32|64)\s*\(\s*\))\s*\?\s*;\s*(?:\w+\s*[+-]=\s*1\s*;\s*)?\}$' % d, text[toks[L.open].s:toks[L.close].e])
            if mm:
                inv.append('%s.pos() == z%d_%s.pos() + %d * ((%s) - (%s))' % (d, n, d, int(mm.group(1)) if mm.group(1) else int(mm.group(2)) // 8, rem0, rem))
                inv.append('%s >= 0' % rem if L.kind == 'for' else '%s <= 0 || %s >= 0' % (rem0, rem))
        ctx = lambda x: ('%s.pctx(%s@)' % (x, pool)) if pool in names else '%s.ctx()' % x
        tile = L.kind == 'while' and d and 'parse_instruction' in names and len(cols) == 1 and not h.startswith('let')
        if tile:
            ins = [i for i in range(L.open, L.close) if toks[i].t == 'insert' and toks[i+1].t == '(' and toks[i+2].k == 'id' and toks[i+3].t == ',']
            if len(ins) == 1:
                v, k = cols[0], alias(toks, L, toks[ins[0]+2].t)
                cond = re.sub(r'\b(\w+)\.cursor\(\)', r'\1.pos()', h)
                snap = [x for x in snap if not x.startswith('let ghost y%d_rem' % n)]
                inv = [x for x in inv if 'y%d_rem' % n not in x and not x.endswith(' >= 0')]
                rem = None; dec = '%s.lim() - %s.pos()' % (d, d)
                snap.append('let ghost w%d_%s = %s@; let ghost x%d_k = %s;' % (n, v, v, n, k))
                inv.append('%s.pos() - %s == z%d_%s.pos() - x%d_k && %s < 0x1_0000_0000' % (d, k, n, d, n, k))
                inv.append('%s <= %s.lim() - z%d_%s.pos() + x%d_k' % (k, d, n, d, n))
                inv.append('!(%s) ==> %s.pos() == %s.lim()' % (cond, d, d))
                if 'f' in mode:
                    start = 'Tab::rep(x%d_k as int, w%d_%s, z%d_%s.ctx(), z%d_%s.pos())' % (n, n, v, n, d, n, d)
                    inv.append('(%s) ==> Tab::rep(%s as int, %s@, %s.ctx(), %s.pos()) == %s' % (cond, k, v, d, d, start))
                    inv.append('!(%s) ==> %s == SR::<Map<u32, Instruction>>::Ok((%s@, %s.pos()))' % (cond, start, v, d))
        if d and rem and cols and 'f' in mode:
            for v in cols:
                snap.append('let ghost w%d_%s = %s@;' % (n, v, v))
                inv.append('Tab::rep(%s, %s@, %s, %s.pos()) == Tab::rep(%s, w%d_%s, %s, z%d_%s.pos())' % (rem, v, ctx(d), d, rem0, n, v, ctx('z%d_%s' % (n, d)), n, d))
            if L.kind == 'while':
                # a loop that does not start changes nothing
                inv.append('%s <= 0 ==> %s == %s && %s.pos() == z%d_%s.pos()%s' % (rem0, rem, rem0, d, n, d, ''.join(' && %s@ == w%d_%s' % (v, n, v) for v in cols)))
        for v in cols:
            # each turn adds one entry
            if rem and v in getattr(f, 'rooms', ()):
                snap.append('let ghost l%d_%s = %s@.len();' % (n, v, v))
                eq = '%s@.len() + (%s) == l%d_%s + (%s)' % (v, rem, n, v, rem0)
                inv.append(eq if L.kind == 'for' else '%s && (%s >= 0 || %s == %s)' % (eq, rem, rem, rem0))
        if L.kind == 'loop' and d and 'f' in mode or L.kind == 'loop' and d:
            # a loop that inserts at a running offset
            ins = [i for i in range(L.open, L.close) if toks[i].t == 'insert' and toks[i+1].t == '(' and toks[i+2].k == 'id' and toks[i+3].t == ',']
            brk = [i for i in range(L.open, L.close) if toks[i].t == 'break']
            if len(ins) == 1 and len(brk) == 1 and len(cols) == 1:
                v, k = cols[0], alias(toks, L, toks[ins[0]+2].t)
                snap.append('let ghost w%d_%s = %s@; let ghost x%d_k = %s;' % (n, v, v, n, k))
                exc.append('%s.pos() - %s == z%d_%s.pos() - x%d_k && %s < 0x1_0000_0000' % (d, k, n, d, n, k))
                exc.append('%s <= %s.lim() - z%d_%s.pos() + x%d_k' % (k, d, n, d, n))
                if 'f' in mode:
                    exc.append('Tab::rep(%s as int, %s@, %s.ctx(), %s.pos()) == Tab::rep(x%d_k as int, w%d_%s, z%d_%s.ctx(), z%d_%s.pos())' % (k, v, d, d, n, n, v, n, d, n, d))
                    ens.append('Tab::rep(x%d_k as int, w%d_%s, z%d_%s.ctx(), z%d_%s.pos()) == SR::<Map<u32, Instruction>>::Ok((%s@, %s.pos()))' % (n, n, v, n, d, n, d, v, d))
                dec = '%s.lim() - %s.pos()' % (d, d)
        for extra in f.loop_extra(n, L, toks, text) if f.loop_extra else []:
            kind, s = extra
            if kind == 'iter':
                ed.append((toks[L.head[0]].s, toks[L.head[0]].s, s + ': ')); continue
            {'inv': inv, 'exc': exc, 'ens': ens, 'snap': snap}.get(kind, inv).append(s) if kind != 'dec' else None
            if kind == 'dec': dec = s
        s = ''
        if exc: s += ind + 'invariant_except_break' + ''.join(ind + '    ' + x + ',' for x in exc)
        if inv: s += ind + 'invariant' + ''.join(ind + '    ' + x + ',' for x in inv)
        if ens: s += ind + 'ensures' + ''.join(ind + '    ' + x + ',' for x in ens)
        if dec is None and L.kind == 'loop' and d: dec = '%s.lim() - %s.pos()' % (d, d)
        if dec and L.kind != 'for': s += ind + 'decreases ' + dec + ','
        if s: ed.append((toks[L.open].s, toks[L.open].s, s + '\n        '))
        if snap:
            st = L.first
            if st > 0 and toks[st-1].t not in (';', '{', '}'):
                st = stmt_start(toks, m, st)
                if st is None:
                    notes.append('loop %d of %s: no statement to anchor the snapshot at' % (n, f.key)); continue
            ed.append((toks[st].s, toks[st].s, ' '.join(snap) + '\n        '))
    return edit(text, ed), True

# ---- emission -----------------------------------------------------------------------

def flatten_use(text):
    """Yield (path, name) of a use tree."""
    text = re.sub(r'\s+', ' ', text.strip().rstrip(';'))
    text = re.sub(r'^use ', '', text)
    def go(prefix, t):
        t = t.strip()
        m = re.match(r'^(.*?)\{(.*)\}$', t)
        if m:
            parts, d, cur = [], 0, ''
            for ch in m.group(2):
                if ch == '{': d += 1
                if ch == '}': d -= 1
                if ch == ',' and d == 0: parts.append(cur); cur = ''
                else: cur += ch
            parts.append(cur)
            for p in parts:
                if p.strip(): yield from go(prefix + m.group(1), p)
            return
        full = prefix + t
        if full.endswith('::self'): full = full[:-6]
        yield full
    yield from go('', text)

def pub_fields(text):
    """Make every field of a struct public, so that contracts can mention it."""
    toks, m = lexm(text)
    i = 0
    while i < len(toks) and toks[i].t not in ('{', '('): i += 1
    if i >= len(toks): return text
    ed = []
    for a, b in split_top(toks, i+1, m[i], m):
        while toks[a].t == '#': a = m[a+1] + 1
        if a >= b: continue
        if toks[a].t == 'pub':
            if toks[a+1].t == '(': ed.append((toks[a+1].s, toks[m[a+1]].e, ''))
        else: ed.append((toks[a].s, toks[a].s, 'pub '))
    return edit(text, ed)

def strip_attrs(text):
    toks, m = lexm(text); ed = []
    i = 0
    while i < len(toks):
        if toks[i].t == '#' and i + 1 < len(toks) and toks[i+1].t == '[':
            ed.append((toks[i].s, toks[m[i+1]].e, '')); i = m[i+1] + 1
        else: i += 1
    return edit(text, ed)

class Gen:
    def __init__(self, root, verify, mode='bf', kinds=None, extra_spec='', cap=False, case=None, arms=None, hash_pair=False):
        self.want_hash = hash_pair
        self.arms = arms      # (function, part, parts): a part of the arms of its biggest match
        self.case = case      # (function, extra precondition): one case of a partition of its inputs
        self.root, self.verify, self.mode, self.kinds = root, set(verify), mode, kinds
        self.notes, self.rewrites = [], []
        self.rd = Reader(root)
        self.crate = self.rd.read_crate()
        self.fns = all_fns(self.crate)
        self.by_key = {}
        for f in self.fns:
            if f.key in self.by_key: raise GenError('two functions named ' + f.key)
            self.by_key[f.key] = f
        self.kinds_of = {}
        for f in self.fns:
            k = re.match(r'^(?:\w+::)*(Result|Option)\b', (f.ret or '').strip())
            self.kinds_of[f.name] = k.group(1) if k and self.kinds_of.get(f.name, k.group(1)) == k.group(1) else None
        self.string_consts()
        self.extra_spec = extra_spec
        self.lines = []     # (first line, last line, key)
        self.cap = cap

    def string_consts(self):
        """Constants that are strings are replaced by their values."""
        found = {}
        def walk(mod):
            for it in list(mod.items):
                if it[0] == 'mod': walk(it[1])
                elif it[0] == 'const':
                    mm = re.match(r"^(?:const|static)\s+(\w+)\s*:\s*&\s*(?:'static\s+)?str\s*=\s*(\"(?:[^\"\\\\]|\\\\.)*\")\s*;$", it[2], re.S)
                    if mm and found.get(mm.group(1), mm.group(2)) == mm.group(2): found[mm.group(1)] = mm.group(2); mod.items.remove(it)
        walk(self.crate)
        if not found: return
        for f in self.fns:
            toks, m = lexm(f.body); ed = []
            for i, t in enumerate(toks):
                if t.k != 'id' or t.t not in found or (i and toks[i-1].t == '.'): continue
                a = i
                while a > 1 and toks[a-1].t == '::': a -= 2
                ed.append((toks[a].s, t.e, found[t.t]))
            f.body = edit(f.body, ed)

    def params_of(self, f):
        return [p.replace('mut ', '').strip() if p != 'self' else 'self' for p, _ in f.params]

    def subst(self, s, f):
        names = self.params_of(f)
        return re.sub(r'\$(\d)', lambda mm: names[int(mm.group(1))] if int(mm.group(1)) < len(names) else self.bad(f), s)

    def bad(self, f):
        raise GenError('the contract of %s names a parameter it does not have' % f.key)

    def prepare(self, f, helpers):
        text = rename_keywords(f.body)
        text = rw_paths(text)
        text = rw_matches(text); text = rw_entry_match(rw_entry(text))
        text = rw_combinators(text, self.kinds_of)
        g = f; g0 = f.body
        f.body = text
        text, used = inline_helpers(f, helpers)
        f.body = g0
        text = rw_matches(text); text = rw_entry_match(rw_entry(text))
        text = rw_combinators(text, self.kinds_of)
        if used: self.notes.append('%s: inlined %s' % (f.key, ', '.join(sorted(used))))
        self.inlined |= used
        text = rw_misc(text); text = rw_inclusive(text); text = rw_guards(text); text = rw_int_from(text); text = rw_write(text); text = rw_for_each(text); text = rw_for_mut(text); text = rw_collect(text); text = rw_ref_patterns(rw_ref_let(text))
        if f.key == 'Item::eq': text = rw_same(text)
        from . import loops
        if f.key not in loops.EXTRA: text = rw_loop_guard(text)
        f.rooms = set()
        if self.cap: text, f.rooms = rw_room(rw_capacity(text, f))
        # arithmetic that the lemmas about masks and shifts do not cover: what fails then says nothing about the code
        if re.search(r'\bas\s+i(?:8|16|32|64)\b', g0) and not re.match(r'Decoder::read_i\d', f.key): self.notes.append('%s: no contract for signed casts' % f.key)
        bare = re.sub(r'\b(?:in|return|match|if|while|else)\s*&|&&|\|\||[(,|=]\s*\|[^|]*\||\bat\s*&\s*3\b', ' ', g0)
        if (re.search(r'<<|>>|\^|[\w)]\s*&\s*[\w(!]|!\s*\w+\s*[-+*/]', bare) and f.key not in ('Decoder::read_str', 'Decoder::read_continuation') or re.search(r'\^|wrapping_|overflowing_', bare)) and f.key in self.verify:
            self.notes.append('%s: no contract for bit operations' % f.key)
        if f.key in self.verify and re.search(r'\.\s*(?:find|find_map|any|all|position|filter|filter_map|flat_map|skip_while|take_while|map_while|fold|zip|step_by|keys|values|retain|drain|dedup\w*|sort\w*|split_off|swap\w*|truncate)\s*(?:::<[^()]*>)?\(', text): self.notes.append('%s: no contract for an operation on a whole table' % f.key)
        if f.impl_ty in ('Decoder', 'Item') and f.key != 'Decoder::read_str' and re.search(r'\b(?:for|while|loop)\b', g0): self.notes.append('%s: no contract for its loop' % f.key)
        if self.kinds is not None and f.key == 'parse_attributes': text = restrict_arms(text, self.kinds)
        if self.arms and f.key == self.arms[0]:
            t = split_arms(text, self.arms[1], self.arms[2])
            if t is None:
                if self.arms[1] > 0: raise NoSplit(f.key)
            else: text = t
        f.local_types = {}
        for mm in re.finditer(r'let\s+mut\s+(\w+)\s*=\s*Pool::', text): f.local_types[mm.group(1)] = 'Pool'
        from . import loops
        f.loop_extra = loops.EXTRA.get(f.key)
        if f.loop_extra:
            le = f.loop_extra
            f.loop_extra = lambda n, L, toks, t: le(n, L, toks, t, self.mode, f)
        text, has = annotate_loops(f, text, self.mode, self.notes)
        pro = ''
        own = [n for n in contracts.specs_of(f.key) if n in contracts.OPAQUE and n not in ('s_attributes', 's_code')]
        if f.key == 'parse' and re.search(r'\.\s*read_u32\b', text): own = own + ['s_raw_u32']
        if own: pro = ' proof { %s } ' % ' '.join('reveal(%s);' % n for n in own)
        if f.key in PROLOGUE: pro += PROLOGUE[f.key]
        if f.impl_ty in ('TypeDescriptor', 'MethodDescriptor'): pro = ' broadcast use type_axioms::type_facts; proof { %s } ' % ' '.join('reveal_strlit(%s);' % x for x in sorted({'"["', '"L"', '";"'} | {t.t for t in lex(text) if t.k == 'str' and re.match(r'^"[^"\\\\]{0,8}"$', t.t)}))
        if f.impl_ty == 'Decoder' and re.search(r'split_at|\.\.\s*\]|\[\s*\.\.', text): pro += ' broadcast use {seq_lemmas::part_of_part, seq_lemmas::whole_part}; '
        if f.impl_ty == 'Pool' and f.key != 'Pool::append': pro = ' proof { reveal(slots_ok); reveal(entries_ok); } '
        if f.key == 'PoolIter::next': pro = ' broadcast use derefs_rest; '
        if f.key == 'Pool::append': pro = ' broadcast use pool_lemmas::pool_facts; '
        return pro + text, has

    def contract_text(self, f, body):
        c = contracts.C.get(f.key)
        if c is None:
            # a helper without a contract: safety only
            out = ''
            dec = [i for i, (p_, ty) in enumerate(f.params) if re.search(r'&\s*(\'\w+\s+)?mut\s+Decoder\b', ty) or (p_ == 'self' and 'mut' in ty and f.impl_ty == 'Decoder')]
            if len(dec) == 1:
                k = dec[0]; n = self.params_of(f)[k]
                out = '\n    requires old(%s).wf(),\n    ensures %s,' % (n, contracts.FRAME.replace('$0', n))
            return out, ''
        req = [self.subst(x, f) for x in c.requires]
        if self.cap: req += [self.subst(x, f) for x in contracts.CAP.get(f.key, [])]
        if self.case and self.case[0] == f.key and body: req.append(self.subst(self.case[1], f))
        ens = [self.subst(x, f) for t, x in c.ensures if t in self.mode]
        s = ''
        if req: s += '\n    requires\n' + ''.join('        %s,\n' % x for x in req).rstrip('\n')
        if ens: s += '\n    ensures\n' + ''.join('        %s,\n' % x for x in ens).rstrip('\n')
        if c.decreases and body: s += '\n    decreases ' + self.subst(c.decreases, f)
        return s, c.attrs

    def fn_text(self, f, helpers):
        body = f.key in self.verify
        attrs = ''
        if body:
            text, has_loops = self.prepare(f, helpers)
            if has_loops: attrs += '#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n'
        con, cattrs = self.contract_text(f, body)
        if cattrs: attrs += cattrs + '\n'
        ps = []
        for p_, ty in f.params:
            if p_ == 'self': ps.append(ty)
            else: ps.append('%s: %s' % (rename_keywords(p_), rw_paths(ty)))
        ret = f.ret
        if ret:
            for k, v in f.assoc.items(): ret = ret.replace('Self::' + k, v)
            ret = rw_paths(ret)
        sig = 'pub fn %s%s(%s)%s %s' % (f.name, f.generics, ', '.join(ps), ' -> (r: %s)' % ret if ret else '', f.where)
        if not body:
            attrs += '#[verifier::external_body]\n'
            text = ' unimplemented!() '
        return attrs + sig + con + '\n{' + text + '}\n'

    def hash_pair(self, helpers):
        """The body of the hash of items twice, for two equal items: the same must be written."""
        f = self.by_key.get('Item::hash')
        if f is None: raise GenError('Item::hash is gone')
        me, st = 'self', self.params_of(f)[1]
        out = ''
        for it, h in (('item1_', 'hasher1_'), ('item2_', 'hasher2_')):
            text, _ = self.prepare(f, helpers)
            toks, m = lexm(text); ed = []
            for i, t in enumerate(toks):
                if t.k != 'id': continue
                if t.t == 'self': ed.append((t.s, t.e, it))
                elif t.t == st and toks[i-1].t != '.': ed.append((t.s, t.e, h))
                elif t.t == 'hash' and toks[i-1].t == '.': ed.append((t.s, t.e, 'hash_model'))
            out += '{ ' + edit(text, ed) + ' }\n'
        if re.search(r'\breturn\b|\?', out): raise GenError('the hash returns early')
        return '''pub fn hash_pair(item1_: &Item, item2_: &Item, hasher1_: &mut HasherModel, hasher2_: &mut HasherModel)
    requires same_item(*item1_, *item2_), old(hasher1_)@ == old(hasher2_)@,
    ensures final(hasher1_)@ == final(hasher2_)@,
{
''' + out + '}\n'

    def emit(self):
        from . import loops
        known = set(contracts.C)
        helpers = {}
        for f in self.fns:
            if f.key not in known and f.trait is None:
                helpers[f.name] = f if f.name not in helpers else None
        # names that are also the names of contracted functions are not inlined
        helpers = {k: v for k, v in helpers.items() if v is not None and not any(x.split('::')[-1] == k for x in known)}
        for f in self.fns:
            if f.key not in known and f.trait in (None, 'From', 'TryFrom') and f.impl_ty and not f.impl_gen:
                for k, v in f.assoc.items(): f.ret = f.ret and f.ret.replace('Self::' + k, v)
                helpers[f.key] = f
        for v in set(helpers.values()):
            if v.impl_ty and not v.impl_gen: v.body = re.sub(r'\bSelf\b(?!\s*::\s*[A-Z])', v.impl_ty, v.body)
            v.body = rw_paths(rename_keywords(v.body))
        self.inlined = set()
        uses, out = [], []
        seen_use = set()
        def add_use(t):
            for p in flatten_use(t):
                if re.match(r'(std|core)::fmt(::Write)?$', p): continue
                if p.split('::')[0] in ('std', 'core', 'alloc'):
                    name = p.split(' as ')[-1].split('::')[-1]
                    if name not in seen_use: seen_use.add(name); uses.append('use %s;' % p)
        flags = []
        parts = []   # (key or None, text)
        def walk(mod):
            for it in mod.items:
                k = it[0]
                if k == 'use': add_use(it[2])
                elif k == 'mod': walk(it[1])
                elif k == 'const': parts.append((None, self.const_text(it[2])))
                elif k == 'type': parts.append((None, 'pub ' + rw_paths(it[2])))
                elif k == 'raw': parts.append((None, it[1]))
                elif k in ('struct', 'enum'):
                    parts.append((None, self.type_text(it)))
                elif k == 'flags': parts.append((None, self.flags_text(it)))
                elif k == 'fn': parts.append((it[1].key, it[1]))
                elif k == 'impl': parts.append(('impl', it))
                else: raise GenError('cannot translate a ' + k)
        walk(self.crate)
        # helpers first pass: emit verified bodies to learn what is inlined
        body_out = []
        fn_cache = {}
        for f in self.fns:
            if f.key in known: fn_cache[f.key] = self.fn_text(f, helpers)
        alltext = '\n'.join(fn_cache.values())
        for f in self.fns:
            if f.key in known: continue
            if f.trait in SKIP_TRAITS: continue
            if f.name in helpers and not re.search(r'\b%s\b' % f.name, alltext): continue
            if not re.search(r'\b%s\b' % f.name, alltext): continue
            if f.impl_ty and any(x.split('::')[-1] == f.name for x in known) and not re.search(r'\b(%s|Self)\s*::\s*%s\b|\.\s*%s\b' % (f.impl_ty, f.name, f.name), alltext): continue
            self.verify.add(f.key)
            fn_cache[f.key] = self.fn_text(f, {k: v for k, v in helpers.items() if v is not f})
            self.notes.append('%s: no contract; emitted with the safety contract' % f.key)
        for key, x in parts:
            if key is None: body_out.append((None, x))
            elif key == 'impl':
                _, gen, trait, selfty, tyname, fns = x
                if trait and not any(k == 'fn' and f.key in fn_cache for k, f in [(y[0], y[1]) for y in fns]): continue
                body_out.append((None, 'impl%s %s {' % (gen, selfty)))
                for y in fns:
                    if y[0] == 'const':
                        if not trait: body_out.append((None, 'pub ' + y[2]))
                    elif y[1].key in fn_cache: body_out.append((y[1].key, fn_cache[y[1].key]))
                body_out.append((None, '}'))
            else:
                if key in fn_cache: body_out.append((key, fn_cache[key]))
        head = ['#![allow(unused, non_snake_case, non_camel_case_types)]', 'use vstd::prelude::*;', 'use vstd::pervasive::*;', 'use vstd::std_specs::hash::*;', 'use vstd::std_specs::btree::*;', 'use vstd::std_specs::iter::*;', 'use vstd::string::*;', 'use vstd::utf8::*;'] + uses + ['verus! {', 'broadcast use {axioms::trusted_axioms, bits::bit_facts, %s};' % ', '.join(GROUPS + (['flag_facts::every_bit_has_a_name'] if getattr(self, 'whole', False) else []))]
        import os
        with open(os.path.join(os.path.dirname(__file__), 'prelude.rs')) as fh: head.append(self.opaque(fh.read()))
        head.append('// ---- specification: the class file format ----\n' + self.opaque(grammar.spec_text()))
        with open(os.path.join(os.path.dirname(__file__), 'ghost.rs')) as fh: head.append(fh.read())
        with open(os.path.join(os.path.dirname(__file__), 'types.rs')) as fh: head.append(fh.read())
        head.append(names_lemma()); head.append(bit_lemmas(self.bit_code()))
        head.append(self.extra_spec)
        head.append('// ---- the code under verification ----')
        lines = 0; chunks = []
        def put(t, key=None):
            nonlocal lines
            n = t.count('\n') + 1
            if key: self.lines.append((lines + 1, lines + n, key))
            chunks.append(t); lines += n
        for h in head: put(h)
        self.code_start = lines
        for key, t in body_out: put(t, key)
        if self.want_hash: put(self.hash_pair(helpers), 'Item::hash')
        put('} // verus!\nfn main() {}\n')
        self.unread = self.not_read(fn_cache)
        missing = [k for k in self.verify if k not in self.by_key]
        return '\n'.join(chunks), missing

    def not_read(self, done):
        """(type, function) of the implementations of traits whose functions are called without their names and not read here:
        a hand-written comparison, hash or drop, or a provided function that is overridden."""
        out = []
        for f in self.fns:
            if not f.trait or f.key in contracts.C or f.key in done or f.key == 'Item::hash' or f.trait in ('Debug', 'Error', 'From', 'Into', 'TryFrom'): continue
            out.append(('*' if f.trait == 'Drop' else f.impl_ty, f.key))
        return out

    def opaque(self, t):
        t = t.replace('#[verifier::opaque]\n', '@@')
        """Specifications of contracted functions are unfolded only in the proofs of these functions."""
        return re.sub(r'^pub open spec fn (s_\w+)\(', lambda m: ('#[verifier::opaque]\n' if m.group(1) in contracts.OPAQUE else '') + m.group(0), t, flags=re.M).replace('@@', '#[verifier::opaque]\n')

    def bit_code(self):
        """The bodies under verification that use bit operations."""
        return '\n'.join(f.body for f in self.fns if f.key in self.verify and re.search(r'<<|>>|[\w)]\s*&\s*[\w(!]|[\w)]\s*\|\s*[\w(]|\^|!\s*\w+\s*[-+*/]', f.body) and f.key != 'parse_attributes' or f.key in self.inlined)

    def const_text(self, t):
        t = rw_paths(t)
        m = re.match(r'^const\s+(\w+)\s*:\s*&\s*(\'static\s+)?\[u8(;[^\]]*)?\]\s*=\s*&\s*\[(.*)\]\s*;$', t, re.S)
        if m:
            el = ', '.join(x.strip() + ('u8' if re.match(r'^[0-9]', x.strip()) and not x.strip().endswith('u8') else '') for x in m.group(4).split(',') if x.strip())
            return "pub exec const %s: &'static [u8] ensures %s@ =~= seq![%s] { &[%s] }" % (m.group(1), m.group(1), el, m.group(4))
        return 'pub ' + t

    def type_text(self, it):
        k, vis, name, attrs, text = it
        text = strip_attrs(rename_keywords(rw_paths(text)))
        if k == 'struct': text = pub_fields(text)
        der = ''
        d = ' '.join(attrs)
        if 'derive' in d and 'PartialEq' in d and k == 'enum' and not re.search(r'[({]', text[text.index('{')+1:]):
            der = '#[derive(PartialEq, Eq, Structural, Hash)]\n'
        return der + 'pub ' + text

    def flags_text(self, it):
        _, name, ty, fl = it
        o = ['#[derive(PartialEq, Eq, Structural, Clone, Copy)]\npub struct %s { pub bits: %s }' % (name, ty), 'impl %s {' % name]
        for n, v in fl: o.append('    pub const %s: %s = %s { bits: %s };' % (n, name, name, v))
        o.append('''    #[verifier::external_body]
    pub fn from_bits_truncate(bits: %s) -> (r: %s) ensures r.bits == bits & all_flag_bits() { unimplemented!() }
    #[verifier::external_body]
    pub fn bits(&self) -> (r: %s) ensures r == self.bits { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: %s) ensures r.bits == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bits(bits: %s) -> (r: Option<%s>) ensures r == (if bits & !all_flag_bits() == 0 { Some(%s { bits }) } else { None }) { unimplemented!() }
}''' % (ty, name, ty, name, ty, name, name))
        vals, words = {}, []
        for n, v in fl:
            v = re.sub(r'\b(?:Self|%s)::(\w+)\.bits(?:\(\))?' % name, lambda mm: vals.get(mm.group(1), mm.group(0)), v)
            v = v + ty if re.match(r'^(0b[01_]+|0x[0-9a-fA-F_]+|\d+)$', v) else '((%s) as %s)' % (v, ty)
            vals[n] = v; words.append('(%s)' % v)
        o.append('pub mod flag_facts { use super::*;\npub open spec fn all_flag_bits() -> %s { %s }' % (ty, ' | '.join(words)))
        try: self.whole = all_bits(fl) == 0xffff
        except Exception: self.whole = False
        if self.whole: o.append('pub broadcast proof fn every_bit_has_a_name(w: u16) ensures #![trigger w & all_flag_bits()] #![trigger w & !all_flag_bits()] w & all_flag_bits() == w, w & !all_flag_bits() == 0 { assert(all_flag_bits() == 0xffffu16) by (bit_vector); assert(w & 0xffffu16 == w) by (bit_vector); assert(w & !0xffffu16 == 0) by (bit_vector); }')
        o.append('}\npub use flag_facts::all_flag_bits;')
        self.flags = fl
        return '\n'.join(o)

def all_bits(fl):
    """All bits of the flags, computed as the constants say."""
    env = {}; out = 0
    for n, v in fl:
        v = re.sub(r'(?<=[0-9a-fA-F])_(?=[0-9a-fA-F])', '', v)
        v = re.sub(r'\b(\w+)::(\w+)\.bits(\(\))?', lambda m: str(env[m.group(2)]), v)
        v = re.sub(r'([0-9])u16\b', r'\1', v)
        if not re.match(r'^[0-9a-fA-FxXb\s|<>()+]+$', v): raise ValueError(v)
        env[n] = eval(v, {'__builtins__': {}}); out |= env[n]
    return out

SKIP_TRAITS = ('PartialEq', 'Eq', 'Hash', 'Debug', 'Clone')
GROUPS = ['vstd::std_specs::hash::group_hash_axioms', 'vstd::seq::group_seq_axioms']
PROLOGUE = {'parse_attributes': ' broadcast use cycle::in_attributes; proof { names_distinct(); } ', 'parse_code': ' broadcast use {cycle::unfold_code, cycle::no_code}; '}

def names_lemma():
    names = [n for n, _ in grammar.CONTENT]
    ens, prf = [], []
    for n in names:
        ens.append('"%s"@.len() == %d' % (n, len(n)))
        prf.append('reveal_strlit("%s");' % n)
    for i, a in enumerate(names):
        for b in names[i+1:]:
            if len(a) == len(b):
                k = [x for x in range(len(a)) if a[x] != b[x]][0]
                ens.append('"%s"@ != "%s"@' % (a, b))
                prf.append('assert("%s"@[%d] != "%s"@[%d]);' % (a, k, b, k))
    return 'pub proof fn names_distinct()\n    ensures\n' + ''.join('        %s,\n' % e for e in ens) + '{ ' + '\n    '.join(prf) + ' }'

def bit_lemmas(code):
    """Masks, shifts and disjoint ors as arithmetic (proved by bit blasting),
    for the constants that occur in the code."""
    used = set()
    for t in re.findall(r'(?:&|\^|<<|>>)=?\s*!?\s*(0x[0-9a-fA-F_]+|0b[01_]+|\d+)', code):
        used.add(int(t.replace('_', ''), 0))
    if '&' in code and not used: used |= {3, 0xff, 0xf, 0x3f}
    cleared = set(int(t.replace('_', ''), 0) for t in re.findall(r'&=?\s*!\s*(0x[0-9a-fA-F_]+|0b[01_]+|\d+)', code))
    flipped = set(int(t.replace('_', ''), 0) for t in re.findall(r'\^=?\s*(0x[0-9a-fA-F_]+|0b[01_]+|\d+)', code))
    masked = set(int(t.replace('_', ''), 0) for t in re.findall(r'&=?\s*(0x[0-9a-fA-F_]+|0b[01_]+|\d+)', code))
    inverted = re.search(r'!\s*\w+\s*[-+*/]', code)
    types = [t for t in ('u8', 'u16', 'u32', 'u64', 'usize') if re.search(r'\b%s\b' % t, code)]
    out, names = [], []
    def lem(name, params, trig, req, ens):
        names.append(name)
        e = (req + ' ==> ' if req else '') + ens
        out.append('pub broadcast proof fn %s(%s) ensures %s { assert(%s) by (bit_vector); }' % (name, params, e, e.replace('#[trigger] ', '')))
    for T, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('usize', 64)):
        ms = [1, 3, 7, 0xF, 0x1F, 0x3F, 0x7F] + ([0xFF] if w > 8 else []) + ([0x3FF, 0xFFF] if w > 8 else []) + ([0xFFFF] if w > 16 else [])
        for k in ms:
          if k in used: lem('mask_%s_%x' % (T, k), 'x: ' + T, '', '', '#[trigger] (x & 0x%x%s) == x %% 0x%x%s' % (k, T, k + 1, T))
          if k in cleared and w >= 16: lem('clear_%s_%x' % (T, k), 'x: ' + T, '', '', '#[trigger] (x & !0x%x%s) == x - x %% 0x%x%s' % (k, T, k + 1, T))
          # of a narrowed or inverted number
          if k in used and re.search(r'as\s+%s\b' % T, code):
              for W, v in (('u16', 16), ('u32', 32), ('usize', 64)):
                  if v > w: lem('narrow_%s_%s_%x' % (W, T, k), 'x: ' + W, '', '', '#[trigger] ((x as %s) & 0x%x%s) == x %% 0x%x%s' % (T, k, T, k + 1, W))
          if k in used and re.search(r'!\s*[\w(]', code) and k == 3 and T in ('u32', 'usize'):
              lem('inverted_%s_%x' % (T, k), 'x: ' + T, '', '', '#[trigger] ((!x) & 0x%x%s) == 0x%x%s - x %% 0x%x%s' % (k, T, k, T, k + 1, T))
          if k in used and re.search(r'\^', code):
              lem('flip_%s_%x' % (T, k), 'x: ' + T, '', 'x <= 0x%x%s' % (k, T), '#[trigger] (x ^ 0x%x%s) == 0x%x%s - x' % (k, T, k, T))
        for k in sorted(used):
            if not 0 < k < 1 << min(w, 16): continue
            one = k & (k - 1) == 0
            kk, bit = '0x%x%s' % (k, T), '(x / 0x%x%s) %% 2' % (k, T)
            def both(name, e, even, odd):
                names.append(name)
                es = ['%s == 0%s ==> %s == %s' % (bit, T, e, even), '%s == 1%s ==> %s == %s' % (bit, T, e, odd)]
                out.append('pub broadcast proof fn %s(x: %s) ensures #![trigger %s] %s { %s }' % (name, T, e, ', '.join(es), ' '.join('assert(%s) by (bit_vector);' % e for e in es)))
            if k in cleared and one and k > 1: both('unset_%s_%x' % (T, k), '(x & !%s)' % kk, 'x', 'x - ' + kk)
            if k in masked and one and k > 1: both('one_%s_%x' % (T, k), '(x & %s)' % kk, '0' + T, kk)
            if k not in flipped: continue
            if one: both('toggle_%s_%x' % (T, k), '(x ^ %s)' % kk, 'x + ' + kk, 'x - ' + kk)
            elif k & (k + 1) == 0: lem('turn_%s_%x' % (T, k), 'x: ' + T, '', '', '#[trigger] (x ^ %s) == x - x %% 0x%x%s + (%s - x %% 0x%x%s)' % (kk, k + 1, T, kk, k + 1, T) if k + 1 < 1 << w else '#[trigger] (x ^ %s) == %s - x' % (kk, kk))
            elif k <= 0xff and k & -k >= 16:
                b = k & -k; name = 'blocks_%s_%x' % (T, k); names.append(name)
                es = ['0x%x%s <= x <= 0x%x%s ==> (x ^ 0x%x%s) == x %s 0x%x%s' % (a, T, a + b - 1, T, k, T, '+' if a ^ k >= a else '-', abs((a ^ k) - a), T) for a in range(0, 0x100, b)]
                if w > 8: es.append('x >= 0x100%s ==> (x ^ 0x%x%s) >= 0x100%s' % (T, k, T, T))
                out.append('pub broadcast proof fn %s(x: %s) ensures #![trigger x ^ 0x%x%s] %s { %s }' % (name, T, k, T, ', '.join(es), ' '.join('assert(%s) by (bit_vector);' % e for e in es)))
        if inverted and w < 64: lem('inv_%s' % T, 'x: ' + T, '', '', '#[trigger] (!x) == %s - x' % ('0x' + 'f' * (w // 4) + T))
        for k in ms:
          # the same for the ranges of lead and continuation bytes, without division
          if k in used and k in (0x3f, 0x1f, 0xf, 7):
            names.append('low_%s_%x' % (T, k))
            es = ['0x%x%s <= x <= 0x%x%s ==> (x & 0x%x%s) == x - 0x%x%s' % (a, T, a + k, T, k, T, a, T) for a in range(0x80, 0x100, k + 1)]
            out.append('pub broadcast proof fn low_%s_%x(x: %s) ensures #![trigger x & 0x%x%s] %s { %s }' % (T, k, T, k, T, ', '.join(es), ' '.join('assert(%s) by (bit_vector);' % e for e in es)))
        for hi in (0x80, 0xC0, 0xE0, 0xF0, 0xF8):
            if hi not in used: continue
            lo = 0x100 - hi
            lem('top_%s_%x' % (T, hi), 'x: ' + T, '', 'x <= 0xff%s' % T, '#[trigger] (x & 0x%x%s) == x - x %% 0x%x%s' % (hi, T, lo, T))
        for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 18, 24, 32, 40, 48, 56):
            if k >= w or k not in used: continue
            lem('shl_%s_%d' % (T, k), 'x: ' + T, '', 'x < 0x%x%s' % (1 << (w - k), T), '#[trigger] (x << %d%s) == x * 0x%x%s' % (k, T, 1 << k, T))
            lem('shr_%s_%d' % (T, k), 'x: ' + T, '', '', '#[trigger] (x >> %d%s) == x / 0x%x%s' % (k, T, 1 << k, T))
    # a | b of disjoint numbers is the sum
        for k in (2, 4, 6, 8, 10, 12, 16, 18, 24, 32, 40, 48, 56):
            if k >= w or k not in used: continue
            lem('or_%s_%d' % (T, k), 'x: %s, y: %s' % (T, T), '', 'y < 0x%x%s && x %% 0x%x%s == 0' % (1 << k, T, 1 << k, T), '#[trigger] (x | y) == x + y')
    if not names:
        names.append('none'); out.append('pub broadcast proof fn none(x: u8) ensures #[trigger] (x & 0xffu8) == x { assert(x & 0xffu8 == x) by (bit_vector); }')
    return 'pub mod bits {\nuse super::*;\n' + '\n'.join(out) + '\npub broadcast group bit_facts { %s }\n}' % ', '.join(names)

def restrict_arms(text, kinds):
    """Skip the obligations of the attribute arms that belong to other properties:
    `"Name" => e` becomes `"Name" => { assume(false); e }` (they are discharged by the checks of those properties)."""
    all_names = set(n for n, _ in grammar.CONTENT)
    while True:
        toks, m = lexm(text); done = True
        for i in range(len(toks) - 1):
            if toks[i].k == 'str' and toks[i].t.startswith('"') and toks[i+1].t == '=>':
                n = toks[i].t[1:-1]
                if n in kinds: continue
                if toks[i+2].t == '{' and toks[i+3].t == 'assume': continue
                j = i + 2
                if toks[j].t == '{':
                    text = edit(text, [(toks[j].e, toks[j].e, ' assume(false); ')])
                else:
                    while toks[j].t != ',' and not (toks[j].t == '}' ): j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([{') else j + 1
                    text = edit(text, [(toks[i+2].s, toks[i+2].s, '{ assume(false); '), (toks[j-1].e, toks[j-1].e, ' }')])
                done = False; break
        if done: return text

def match_arms(text, toks, m, i):
    """The arms of the match at token i: (first token of the pattern, index of =>, first and last token of the body)."""
    j = i + 1
    while toks[j].t != '{': j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([') else j + 1
    end = m[j]; k = j + 1; arms = []
    while k < end:
        a = k
        while toks[k].t != '=>': k = (m[k] + 1) if (toks[k].k == 'p' and toks[k].t in '([{') else k + 1
        arrow = k; k += 1
        b = k
        if toks[k].t == '{' and (m[k] + 1 == end or toks[m[k]+1].t == ',' or toks[m[k]+1].t not in ('.', '?', 'as', '+', '-')):
            e = m[k]; k = e + 1
        else:
            while k < end and toks[k].t != ',': k = (m[k] + 1) if (toks[k].k == 'p' and toks[k].t in '([{') else k + 1
            e = k - 1
        if k < end and toks[k].t == ',': k += 1
        arms.append((a, arrow, b, e))
    return arms

def split_arms(text, part, parts):
    """Case split: of the biggest match, skip the obligations of the arms that are not in this part.
    Every arm is in exactly one part."""
    toks, m = lexm(text)
    best = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.t == 'match':
            arms = match_arms(text, toks, m, i)
            if len(arms) > len(best): best = arms
    if len(best) < parts: return None
    ed = []
    for n, (a, arrow, b, e) in enumerate(best):
        if n * parts // len(best) == part: continue
        if toks[b].t == '{' and m[b] == e: ed.append((toks[b].e, toks[b].e, ' assume(false); '))
        else: ed += [(toks[b].s, toks[b].s, '{ assume(false); '), (toks[e].e, toks[e].e, ' }')]
    return edit(text, ed)

def rw_capacity(text, f):
    """Every reservation of memory is given the obligation that it is bounded:
    `X::with_capacity(e)` is `X::with_capacity(cap_checked(e))`; likewise reserve, resize and `vec![_; e]`."""
    toks, m = lexm(text); ed = []
    for i, t in enumerate(toks):
        if t.k != 'id': continue
        if t.t in ('with_capacity', 'reserve', 'reserve_exact', 'resize') and toks[i+1].t == '(':
            if t.t == 'with_capacity':
                j = i - 1
                if toks[j].t != '::': continue
                j -= 1
                if toks[j].t in ('>', '>>'):
                    d = 0
                    while True:
                        d += {'>': 1, '>>': 2, '<': -1, '<<': -2}.get(toks[j].t, 0)
                        j -= 1
                        if d <= 0: break
                    if toks[j].t == '::': j -= 1
                owner = toks[j].t
                if owner in ('Pool', 'Self'): continue
            else: owner = ''
            a = i + 2; e = m[i+1]
            if t.t == 'resize': e = split_top(toks, a, e, m)[0][1]
            text_e = src(toks, text, a, e)
            if re.match(r'^\w+\.len\(\)$', text_e) and t.t != 'resize': continue     # as long as what was already read
            dv = decoder_vars(f, toks, text, m, i, None)
            left = ' + '.join('%s.b().len() - %s.pos()' % (d, d) for d in sorted(dv)) if len(dv) == 1 else '0int'
            new = 'str_cap_checked(%s, Ghost(%s))' % (text_e, left) if owner == 'String' else 'cap_checked(%s)' % text_e
            if owner in ('HashMap', 'HashSet') and not f.key.startswith('Pool::'): new = 'map_room(%s)' % new
            ed.append((toks[a].s, toks[e-1].e, new))
        elif t.t == 'vec' and toks[i+1].t == '!' and toks[i+2].t in '([':
            parts = split_top_semi(toks, i + 3, m[i+2], m)
            if len(parts) == 2:
                a, e = parts[1]
                ed.append((toks[a].s, toks[e-1].e, 'cap_checked(%s)' % src(toks, text, a, e)))
    return edit(text, ed)

def rw_room(text):
    """A table that is complete has little of its reserved room left:
    `let mut v = Vec::with_capacity(cap_checked(e)); .. v.reserve(cap_checked(more)); .. v ..` is
    `let room_v: usize = e; let ghost mut room_v: int = e; let mut v = Vec::with_capacity(cap_checked(room_v)); .. room_used(v, Ghost(room_v)) ..`
    where v is moved. A reservation in a loop that the table outlives is small. Returns the tables too."""
    toks, m = lexm(text); ed = []; vs = {}
    for i in range(len(toks) - 6):
        if not (toks[i].t == 'let' and toks[i+1].t == 'mut' and toks[i+2].k == 'id'): continue
        v = toks[i+2].t; j = i + 3
        if toks[j].t == ':':
            while toks[j].t not in ('=', ';'): j += 1
        if toks[j].t != '=' or toks[j+1].t not in ('Vec', 'HashMap', 'HashSet', 'vec'): continue
        table = toks[j+1].t in ('Vec', 'vec')
        k = j + 2
        while toks[k].t in ('::', '<', '>', ',') or toks[k].k == 'id' and toks[k].t not in ('with_capacity', 'new'): k += 1
        known = None
        if toks[j+1].t == 'vec' and toks[j+2].t == '!' and toks[j+3].t == '[' and m[j+3] == j + 4: known, e0 = '0', j + 5
        elif toks[k].t == 'new' and toks[k+1].t == '(' and toks[m[k+1]+1].t == ';': known, e0 = '0', m[k+1] + 1
        elif toks[k].t == 'with_capacity' and toks[k+1].t == '(' and toks[k+2].t in ('cap_checked', 'map_room') and toks[m[k+1]+1].t == ';': e0 = m[k+1] + 1
        else: continue
        o = enclosing(toks, m, i); end = m[o] if o is not None else len(toks)
        n = 'room%d_%s' % (i, v)
        moves, plain_, more = [], True, []
        for u in range(e0, end):
            if toks[u].t == 'let' and (toks[u+1].t == v or toks[u+1].t == 'mut' and toks[u+2].t == v):
                end2 = m[enclosing(toks, m, u)] if enclosing(toks, m, u) is not None else len(toks)
                if end2 >= end: break
                plain_ = False; break
            if toks[u].k != 'id' or toks[u].t != v: continue
            if toks[u-1].t in (';', '{', '}') and toks[u+1].t == '.' and toks[u+2].t in ('reserve', 'reserve_exact') and toks[u+4].t == 'cap_checked':
                ob, loop = enclosing(toks, m, u), False
                while ob is not None and ob != o:
                    if toks[ob].t == '{' and opener(toks, m, ob) in ('for', 'while', 'loop'): loop = True
                    ob = enclosing(toks, m, ob)
                a, e = u + 6, m[u+5]
                if loop or not table: ed.append((toks[a].s, toks[e-1].e, 'map_room(%s)' % src(toks, text, a, e)))
                else: more.append((u, a, e))
                continue
            b, c = toks[u-1].t, toks[u+1].t if u + 1 < len(toks) else '}'
            if b in ('.', '&', 'mut', '::', 'ref', '|') or c in ('.', '[', '=', ':', '::', '(', '|', '=>', '!', '+=', '@'): continue
            ob = enclosing(toks, m, u)
            short = b in ('{', ',') and c in ('}', ',') and ob is not None and toks[ob].t == '{' and (c == ',' or b == ',' or (toks[ob-1].k == 'id' and toks[ob-1].t not in ('else', 'loop', 'unsafe') and opener(toks, m, ob) not in ('if', 'while', 'for', 'match')))
            moves.append((toks[u].s, toks[u].e, '%sroom_used(%s, Ghost(%s as int))' % (v + ': ' if short else '', v, n + '_g' if more else n)))
        if not table or not plain_ or not moves or known and not more: continue
        if not known:
            a, e = k + 4, m[k+3]
            ed.append((toks[i].s, toks[i].s, 'let %s: usize = %s; ' % (n, src(toks, text, a, e))))
            ed.append((toks[a].s, toks[e-1].e, n))
        if more:
            ed.append((toks[i].s, toks[i].s, 'let ghost mut %s_g: int = %s as int; ' % (n, known or n)))
            for u, a, e in more:
                ed.append((toks[u].s, toks[u].s, 'let %s_m: usize = %s; proof { if %s.len() + %s_m > %s_g { %s_g = %s.len() + %s_m; } } ' % (n, src(toks, text, a, e), v, n, n, n, v, n)))
                ed.append((toks[a].s, toks[e-1].e, '%s_m' % n))
        ed += moves; vs[v] = n
    return edit(text, ed), set(vs)

def split_top_semi(toks, a, b, m):
    out, i, s = [], a, a
    while i < b:
        if toks[i].k == 'p' and toks[i].t in '([{': i = m[i] + 1; continue
        if toks[i].t == ';': out.append((s, i)); s = i + 1
        i += 1
    out.append((s, b))
    return out
