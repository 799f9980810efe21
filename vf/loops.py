"""Loop invariants of functions whose loops are not counted tables.

The variables are found by what they hold, so that their names do not matter:
the iterator over the characters, the u8 number of dimensions, the name, the position,
the parameters, the return type, and which part of a method descriptor is read."""
import re

def lets(toks, text, m, upto, in_scope):
    """(name, type, right side) of the variables in scope."""
    out = []
    for i in range(upto):
        if toks[i].t != 'let': continue
        j = i + 1
        mut = toks[j].t == 'mut'
        if mut: j += 1
        if toks[j].k != 'id' or not in_scope(toks, m, i, upto): continue
        name = toks[j].t; ty = ''; k = j + 1
        if toks[k].t == ':':
            q = k
            while toks[q].t not in ('=', ';'): q += 1
            ty = text[toks[k+1].s:toks[q-1].e]; k = q
        if toks[k].t != '=': out.append((name, ty, None, mut)); continue
        e = k + 1
        while toks[e].t != ';': e = (m[e] + 1) if (toks[e].k == 'p' and toks[e].t in '([{') else e + 1
        out.append((name, ty, text[toks[k+1].s:toks[e-1].e], mut))
    return out

class Vars: pass

def variables(L, toks, text, m, f):
    from .gen import in_scope
    v = Vars()
    v.chars = v.dims = v.name = v.i = v.params = v.ret = v.state = None
    v.desc = f.params[0][0]
    body = text
    numbers = set(re.findall(r'TypeDescriptor::new\(\s*\(?\s*(\w+)', body)) | set(re.findall(r'TypeDescriptor\s*\{\s*dimensions:\s*\(?\s*(\w+)', body))
    v.dims_type = 'u8'
    for n, ty, rhs, mut in lets(toks, text, m, L.first, in_scope):
        if not mut or rhs is None: continue
        if re.search(r'\.chars\(\)$', rhs): v.chars = n
        elif ty == 'u8' or re.match(r'^0_?u8$', rhs): v.dims = n
        elif n in numbers and re.match(r'^0(_?[ui]\d+|_?usize)?$', rhs):
            v.dims = n; v.dims_type = ty or rhs[1:].lstrip('_')
        elif re.match(r'^String::(new|with_capacity)\b', rhs): v.name = n
        elif re.match(r'^Vec::', rhs) or rhs == 'vec![]': v.params = n
        elif rhs == 'None': v.ret = n
        elif rhs == 'true': v.state = '!%s' % n
        elif rhs == 'false': v.state = '%s' % n
        elif re.match(r'^0(_?usize)?$', rhs) or ty == 'usize':
            if re.search(r'\b%s\s*\+=' % n, body) or re.search(r'\b%s\s*=\s*%s\s*\+' % (n, n), body): v.i = n
            elif re.search(r'\b%s\s*=\s*1\b' % n, body): v.state = '(%s != 0)' % n
    return v

def termination(n, v, out, L, toks, text, m):
    from .gen import find_loops, in_scope
    left = 'IteratorSpec::decrease(&%s)' % v.chars
    out.append(('snap', 'let ghost t%d_left = %s;' % (n, left)))
    rem = 'IteratorSpec::remaining(&%s)' % v.chars
    starts = [k for k, M in enumerate(find_loops(text)[3]) if k <= n and in_scope(toks, m, M.first, L.first)]
    for k in starts:
        out.append(('inv', '%s is Some && t%d_left is Some && (%s.len() == 0 || %s->0 <= t%d_left->0)' % (left, k, rem, left, k)))
    out.append(('dec', '%s->0' % left))

def has_call(L, toks, name):
    return any(toks[i].t == name and toks[i-1].t == '.' and toks[i+1].t == '(' for i in range(L.open, L.close))

def nested(L, toks):
    return any(toks[i].k == 'id' and toks[i].t in ('for', 'while', 'loop') for i in range(L.open + 1, L.close))

def type_from_str(n, L, toks, text, mode, f):
    from .rustlex import match_brackets
    m = match_brackets(toks)
    v = variables(L, toks, text, m, f)
    if not v.chars: return []
    out = []
    rem = 'IteratorSpec::remaining(&%s)' % v.chars
    desc = '%s@' % v.desc
    if v.i: out.append(('inv', 'points_into(%s, %s, %s)' % (v.i, rem, desc)))
    out.append(('inv', '%s.len() <= %s.len()' % (rem, desc)))
    if v.dims: out.append(('inv', '%s + %s.len() <= %s.len()' % (v.dims, rem, desc)))
    if v.dims and v.dims_type != 'u8': out.append(('inv', '0 <= %s <= 255' % v.dims))
    termination(n, v, out, L, toks, text, m)
    if 'f' not in mode: return out
    goal = 's_field_type(0, %s)' % desc
    d = '%s as int' % v.dims if v.dims else '0'
    if v.name and has_call(L, toks, 'push'):
        out.append(('inv', 's_reference(%s, %s@, %s) == %s' % (d, v.name, rem, goal)))
    else:
        out.append(('exc', 's_field_type(%s, %s) == %s' % (d, rem, goal)))
        out.append(('ens', 's_reference(%s, Seq::empty(), %s) == %s' % (d, rem, goal)))
    return out

def method_from_str(n, L, toks, text, mode, f):
    from .rustlex import match_brackets
    m = match_brackets(toks)
    v = variables(L, toks, text, m, f)
    if not v.chars: return []
    out = []
    rem = 'IteratorSpec::remaining(&%s)' % v.chars
    desc = '%s@' % v.desc
    if v.i: out.append(('inv', 'points_into(%s, %s, %s)' % (v.i, rem, desc)))
    if v.dims and v.dims_type != 'u8' and not nested(L, toks): out.append(('inv', '0 <= %s <= 255' % v.dims))
    termination(n, v, out, L, toks, text, m)
    if 'f' not in mode: return out
    goal = 's_method_descriptor(%s)' % desc
    st, ps, ret = v.state or 'false', (v.params + '@') if v.params else 'Seq::empty()', v.ret
    d = '%s as int' % v.dims if v.dims else '0'
    if '!=' in st: out.append(('inv', st.replace('!= 0', '== 0') + ' || ' + st.replace('!= 0', '== 1')))
    if nested(L, toks):
        if ret: out.append(('exc', '%s is None' % ret))
        out.append(('exc', 'm_next(%s, 0, %s, %s) == %s' % (st, ps, rem, goal)))
        out.append(('ens', 'm_end(%s, %s, %s) == %s' % (ps, ret, rem, goal)))
    elif v.name and has_call(L, toks, 'push'):
        if ret: out.append(('inv', '%s is None' % ret))
        out.append(('inv', 'm_named(%s, %s, %s, %s@, %s) == %s' % (st, d, ps, v.name, rem, goal)))
        if L.kind == 'while': out.append(('ens', '%s is None' % goal))
    else:
        if ret: out.append(('inv', '%s is None' % ret))
        out.append(('exc', 'm_next(%s, %s, %s, %s) == %s' % (st, d, ps, rem, goal)))
        out.append(('ens', 'm_named(%s, %s, %s, Seq::empty(), %s) == %s' % (st, d, ps, rem, goal)))
    return out

def pool_iter(n, L, toks, text, mode, f):
    s = f.params[0][0]
    left = 'IteratorSpec::decrease(&%s.iter)' % s
    out = [('inv', '%s.wf()' % s), ('snap', 'let ghost t%d_left = %s;' % (n, left)),
        ('inv', 't%d_left is Some && %s->0 <= t%d_left->0' % (n, left, n)), ('dec', left + '->0')]
    if 'f' in mode:
        out.append(('inv', '%s.pending() == old(%s).pending()' % (s, s)))
        if L.kind == 'while': out.append(('ens', '%s.pending().len() == 0' % s))
    return out

def method_fmt(n, L, toks, text, mode, f):
    if L.kind != 'for': return []
    head = text[toks[L.head[0]].s:toks[L.head[1]-1].e]
    s, w = f.params[0][0], f.params[1][0]
    out = [('snap', 'let ghost w%d_text = %s@;' % (n, w))]
    if '..' in head: k = '(%s as int)' % text[toks[L.pat[0]].s:toks[L.pat[1]-1].e]
    else:
        out.append(('iter', 'it%d' % n)); k = 'it%d.index()' % n
    if 'f' in mode: out.append(('inv', '%s.infallible() == old(%s).infallible()' % (w, w)))
    if 'f' in mode: out.append(('inv', '%s@ =~= w%d_text + params_text(%s.params@, %s)' % (w, n, s, k)))
    return out

def type_fmt(n, L, toks, text, mode, f):
    if L.kind != 'for' or 'f' not in mode: return []
    w = f.params[1][0]
    head = text[toks[L.head[0]].s:toks[L.head[1]-1].e]
    pat = text[toks[L.pat[0]].s:toks[L.pat[1]-1].e]
    mm = re.match(r'^(\w+)\s*\.\.', head)
    if not mm: return []
    return [('snap', 'let ghost w%d_text = %s@;' % (n, w)), ('inv', '%s.infallible() == old(%s).infallible()' % (w, w)),
        ('inv', '%s@ =~= w%d_text + brackets(%s - %s)' % (w, n, 'k%d_' % n if pat == '_' else pat, mm.group(1)))]

def pool_append(n, L, toks, text, mode, f):
    """A loop that pushes empty slots."""
    if L.kind != 'for': return []
    s = f.params[0][0]
    body = ''.join(t.t for t in toks[L.open+1:L.close]).rstrip(';')
    mm = re.match(r'^%s\.(\w+)\.push\(None\)$' % s, body)
    head = text[toks[L.head[0]].s:toks[L.head[1]-1].e]
    pat = text[toks[L.pat[0]].s:toks[L.pat[1]-1].e]
    hm = re.match(r'^([\w.]+)\s*\.\.', head)
    if not mm or not hm: return []
    k = 'k%d_' % n if pat == '_' else pat
    others = [x for x in ('length', 'by_index', 'by_entry') if x != mm.group(1)]
    return [('snap', 'let ghost w%d_pool = *%s;' % (n, s))] + [('inv', '%s.%s == w%d_pool.%s' % (s, x, n, x)) for x in others] + [
        ('inv', '%s.%s@ =~= w%d_pool.%s@ + Seq::new((%s - %s) as nat, |i: int| None::<Rc<Item>>)' % (s, mm.group(1), n, mm.group(1), k, hm.group(1))),
        ('inv', '%s == %s ==> %s.%s@ == w%d_pool.%s@' % (k, hm.group(1), s, mm.group(1), n, mm.group(1))),
        ('inv', '%s == %s + 1 ==> %s.%s@ == w%d_pool.%s@.push(None)' % (k, hm.group(1), s, mm.group(1), n, mm.group(1)))]

EXTRA = {'Pool::append': pool_append, 'TypeDescriptor::fmt': type_fmt, 'MethodDescriptor::fmt': method_fmt, 'PoolIter::next': pool_iter, 'TypeDescriptor::from_str': type_from_str, 'MethodDescriptor::from_str': method_from_str}
