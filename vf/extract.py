"""Reads /repo/src and splits it into items, keeping the text of every function."""
import os, re
from .rustlex import blank_comments, lex, match_brackets, LexError
from . import macros

class ExtractError(Exception):
    pass

class Fn:
    def __init__(self):
        self.module = None      # module path, a tuple
        self.impl_ty = None     # e.g. Decoder
        self.impl_gen = ''      # e.g. <'a>
        self.impl_self = ''     # e.g. Decoder<'a>
        self.trait = None       # e.g. FromStr
        self.name = None
        self.generics = ''
        self.params = []        # (pattern text, type text); self params as ('self', '&mut self')
        self.ret = None
        self.where = ''
        self.body = ''          # text between the braces
        self.vis = ''
        self.assoc = {}         # associated types of the impl
        self.const = False
    @property
    def key(self):
        return (self.impl_ty + '::' if self.impl_ty else '') + self.name

class Module:
    def __init__(self, path, file):
        self.path, self.file = path, file
        self.items = []         # ('use', text) ('raw', text) ('struct', name, text) ('enum', name, text) ('const', ...) ('flags', name, ty, [(n, v)]) ('fn', Fn) ('mod', Module)

def split_top(toks, lo, hi, m, sep=','):
    """Split toks[lo:hi] at top-level separators; angle brackets count as nesting."""
    out, cur, i, ang = [], lo, lo, 0
    while i < hi:
        t = toks[i]
        if t.k == 'p' and t.t in '([{' and i in m:
            i = m[i] + 1; continue
        if sep == ',' and t.t == '|' and (i == cur or i == cur + 1 and toks[cur].t == 'move'):
            # the parameters of a closure
            k = i + 1
            while k < hi and toks[k].t != '|': k += 1
            i = k + 1; continue
        if t.t == '<': ang += 1
        elif t.t == '>': ang -= 1
        elif t.t == '>>': ang -= 2
        elif t.t == sep and ang <= 0:
            out.append((cur, i)); cur = i + 1
        i += 1
    if cur < hi: out.append((cur, hi))
    return out

class Reader:
    def __init__(self, root):
        self.root = root
        self.macros = {}
        self.pending = []       # functions found within a body
        self.drops = []         # what was left out, for the evidence

    def src(self, toks, text, a, b):
        if a >= b: return ''
        return text[toks[a].s:toks[b-1].e]

    def read_crate(self):
        crate = self.read_file(os.path.join(self.root, 'src', 'lib.rs'), (), os.path.join(self.root, 'src'))
        local_traits(crate)
        return crate

    def read_file(self, path, modpath, childdir):
        with open(path) as f:
            text = macros.expand(blank_comments(f.read()), self.macros)
        mod = Module(modpath, os.path.relpath(path, self.root))
        toks = lex(text); m = match_brackets(toks)
        self.items(mod, text, toks, m, 0, len(toks), childdir)
        return mod

    def items(self, mod, text, toks, m, lo, hi, childdir):
        i = lo
        while i < hi:
            attrs = []
            while i < hi and toks[i].t == '#':
                j = i + 1
                if toks[j].t == '!': j += 1
                e = m[j]
                attrs.append(self.src(toks, text, j+1, e)); i = e + 1
            if i >= hi: break
            start = i
            vis = ''
            if toks[i].t == 'pub':
                vis = 'pub'; i += 1
                if toks[i].t == '(' : i = m[i] + 1
            cfgtest = any(re.match(r'cfg\s*\(\s*test', a) or re.match(r'test\b', a) for a in attrs)
            t = toks[i].t
            if t == 'extern':
                while toks[i].t != ';': i += 1
                i += 1; continue
            if t == 'mod':
                name = toks[i+1].t
                if toks[i+2].t == ';':
                    i += 3
                    if cfgtest: continue
                    p1 = os.path.join(childdir, name + '.rs'); p2 = os.path.join(childdir, name, 'mod.rs')
                    p = p1 if os.path.exists(p1) else p2
                    mod.items.append(('mod', self.read_file(p, mod.path + (name,), os.path.join(childdir, name)), vis))
                else:
                    b = i + 2; e = m[b]
                    if not cfgtest:
                        sub = Module(mod.path + (name,), mod.file)
                        self.items(sub, text, toks, m, b+1, e, os.path.join(childdir, name))
                        mod.items.append(('mod', sub, vis))
                    else:
                        self.drops.append('test module %s in %s' % (name, mod.file))
                    i = e + 1
                continue
            if t == 'use':
                j = i
                while toks[j].t != ';': j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([{') else j + 1
                if not cfgtest: mod.items.append(('use', vis, self.src(toks, text, i, j+1)))
                i = j + 1; continue
            if t in ('const', 'static') and toks[i+1].t != 'fn':
                j = i
                while toks[j].t != ';': j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([{') else j + 1
                if not cfgtest: mod.items.append(('const', vis, self.src(toks, text, i, j+1)))
                i = j + 1; continue
            if t == 'type':
                j = i
                while toks[j].t != ';': j += 1
                mod.items.append(('type', vis, self.src(toks, text, i, j+1)))
                i = j + 1; continue
            if t in ('struct', 'enum', 'union', 'trait'):
                name = toks[i+1].t
                j = i
                while toks[j].t not in (';', '{', '('): j += 1
                if toks[j].t == '{': e = m[j]
                elif toks[j].t == '(':
                    e = m[j] + 1
                    while toks[e].t != ';': e += 1
                else: e = j
                if not cfgtest:
                    mod.items.append((t, vis, name, attrs, self.src(toks, text, i, e+1)))
                i = e + 1; continue
            if t == 'bitflags' and toks[i+1].t == '!':
                b = i + 2; e = m[b]
                self.bitflags(mod, text, toks, m, b+1, e)
                i = e + 1
                if i < hi and toks[i].t == ';': i += 1
                continue
            if t == 'macro_rules':
                j = i + 3
                e = m[j]
                mod.items.append(('raw', self.src(toks, text, i, e+1)))
                i = e + 1
                if i < hi and toks[i].t == ';': i += 1
                continue
            if t == 'impl' or (t == 'unsafe' and toks[i+1].t == 'impl'):
                if t == 'unsafe': i += 1
                j = i
                while toks[j].t != '{': j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([') else j + 1
                e = m[j]
                if not cfgtest: self.impl(mod, text, toks, m, i, j, e)
                i = e + 1; continue
            # a function
            k = i
            while toks[k].t in ('const', 'unsafe', 'extern', 'async') or toks[k].k == 'str': k += 1
            if toks[k].t == 'fn':
                f, nxt = self.fn(text, toks, m, start, k, vis)
                f.module = mod.path
                for g in self.pending:
                    g.module = mod.path
                    if not cfgtest: mod.items.append(('fn', g))
                self.pending = []
                if not cfgtest: mod.items.append(('fn', f))
                else: self.drops.append('test function ' + f.name)
                i = nxt; continue
            raise ExtractError('unknown item at %s: %s' % (mod.file, self.src(toks, text, i, min(i+8, hi))))

    def fn(self, text, toks, m, start, k, vis):
        f = Fn(); f.vis = vis
        f.name = toks[k+1].t
        i = k + 2
        if toks[i].t == '<':
            d, j = 0, i
            while True:
                if toks[j].t == '<': d += 1
                elif toks[j].t == '>': d -= 1
                elif toks[j].t == '>>': d -= 2
                j += 1
                if d <= 0: break
            f.generics = self.src(toks, text, i, j); i = j
        if toks[i].t != '(': raise ExtractError('fn ' + f.name)
        e = m[i]
        for a, b in split_top(toks, i+1, e, m):
            s = self.src(toks, text, a, b)
            if toks[b-1].t == 'self' and ':' not in [x.t for x in toks[a:b]]:
                f.params.append(('self', s)); continue
            c = a
            while toks[c].t != ':': c = (m[c] + 1) if (toks[c].k == 'p' and toks[c].t in '([{') else c + 1
            f.params.append((self.src(toks, text, a, c), self.src(toks, text, c+1, b)))
        i = e + 1
        if toks[i].t == '->':
            j = i + 1
            while toks[j].t not in ('{', 'where', ';'): j = (m[j] + 1) if (toks[j].k == 'p' and toks[j].t in '([') else j + 1
            f.ret = self.src(toks, text, i+1, j); i = j
        if toks[i].t == 'where':
            j = i
            while toks[j].t != '{': j += 1
            f.where = self.src(toks, text, i, j); i = j
        if toks[i].t != '{': raise ExtractError('fn without body ' + f.name)
        e = m[i]
        f.body = text[toks[i].e:toks[e].s]
        self.nested(f, self.pending)
        return f, e + 1

    def nested(self, f, out):
        """Functions within the body are functions of the module."""
        while True:
            toks = lex(f.body); m = match_brackets(toks)
            for i, t in enumerate(toks):
                if t.t != 'fn' or toks[i+1].k != 'id' or i and toks[i-1].t not in ('{', '}', ';', ']', 'const'): continue
                a = i
                while a and toks[a-1].t == 'const': a -= 1
                while a and toks[a-1].t == ']' and toks[m[a-1]-1].t == '#': a = m[a-1] - 1
                g, e = self.fn(f.body, toks, m, a, i, '')
                out.append(g)
                f.body = f.body[:toks[a].s] + f.body[toks[e-1].e:]
                break
            else: return

    def impl(self, mod, text, toks, m, i, b, e):
        j = i + 1; gen = ''
        if toks[j].t == '<':
            d, k = 0, j
            while True:
                if toks[k].t == '<': d += 1
                elif toks[k].t == '>': d -= 1
                elif toks[k].t == '>>': d -= 2
                k += 1
                if d <= 0: break
            gen = self.src(toks, text, j, k); j = k
        hdr = list(range(j, b))
        fr = [x for x in hdr if toks[x].t == 'for']
        wh = [x for x in hdr if toks[x].t == 'where']
        end = wh[0] if wh else b
        trait = None
        if fr:
            trait = self.src(toks, text, j, fr[0])
            selfty = self.src(toks, text, fr[0]+1, end)
        else:
            selfty = self.src(toks, text, j, end)
        tyname = re.match(r'[A-Za-z_:]+', selfty).group().split('::')[-1]
        k = b + 1; assoc = {}; fns = []
        while k < e:
            attrs = []
            while toks[k].t == '#':
                q = m[k+1]; attrs.append(self.src(toks, text, k+2, q)); k = q + 1
            start = k; vis = ''
            if toks[k].t == 'pub':
                vis = 'pub'; k += 1
                if toks[k].t == '(': k = m[k] + 1
            if toks[k].t == 'type':
                q = k
                while toks[q].t != ';': q += 1
                assoc[toks[k+1].t] = self.src(toks, text, k+3, q); k = q + 1; continue
            if toks[k].t == 'const' and toks[k+1].t != 'fn':
                q = k
                while toks[q].t != ';': q = (m[q] + 1) if (toks[q].k == 'p' and toks[q].t in '([{') else q + 1
                fns.append(('const', vis, self.src(toks, text, k, q+1))); k = q + 1; continue
            q = k
            while toks[q].t in ('const', 'unsafe', 'extern', 'async') or toks[q].k == 'str': q += 1
            if toks[q].t != 'fn': raise ExtractError('impl item ' + toks[q].t)
            f, k = self.fn(text, toks, m, start, q, vis)
            f.module, f.impl_ty, f.impl_gen, f.impl_self = mod.path, tyname, gen, selfty
            f.trait = trait.split('<')[0].split('::')[-1].strip() if trait else None
            f.assoc = assoc
            if any(re.match(r'cfg\s*\(\s*test|test\b', a) for a in attrs): continue
            fns.append(('fn', f))
        for g in self.pending:
            g.module = mod.path
            mod.items.append(('fn', g))
        self.pending = []
        mod.items.append(('impl', gen, trait, selfty, tyname, fns))

    def bitflags(self, mod, text, toks, m, lo, hi):
        i = lo
        while i < hi and toks[i].t == '#': i = m[i+1] + 1
        while toks[i].t != 'struct': i += 1
        name, ty = toks[i+1].t, toks[i+3].t
        b = i + 4; e = m[b]
        fl = []
        k = b + 1
        while k < e:
            if toks[k].t == '#': k = m[k+1] + 1; continue
            if toks[k].t != 'const': raise ExtractError('bitflags')
            q = k
            while toks[q].t != ';': q = (m[q] + 1) if (toks[q].k == 'p' and toks[q].t in '([{') else q + 1
            fl.append((toks[k+1].t, self.src(toks, text, k+3, q))); k = q + 1
        mod.items.append(('flags', name, ty, fl))

def local_traits(crate):
    """The functions of a trait of the crate that provides none are those of its implementations."""
    names = set()
    def walk(mod, do):
        for k, it in enumerate(list(mod.items)):
            if it[0] == 'mod': walk(it[1], do)
            else: do(mod, it)
    def find(mod, it):
        if it[0] == 'trait':
            toks = lex(it[4]); m = match_brackets(toks)
            b = next(i for i, t in enumerate(toks) if t.t == '{')
            if not any(toks[i].t == '{' for i in range(b + 1, m[b])): names.add(it[2]); mod.items.remove(it)
    def change(mod, it):
        if it[0] == 'impl' and it[2] and it[2].split('<')[0].split('::')[-1].strip() in names:
            for y in it[5]:
                if y[0] == 'fn':
                    y[1].trait = None
                    for k, v in y[1].assoc.items():
                        y[1].ret = y[1].ret and y[1].ret.replace('Self::' + k, v)
            mod.items[mod.items.index(it)] = (it[0], it[1], None) + it[3:]
    walk(crate, find)
    if names: walk(crate, change)

def all_fns(mod):
    out = []
    for it in mod.items:
        if it[0] == 'fn': out.append(it[1])
        elif it[0] == 'impl': out += [x[1] for x in it[5] if x[0] == 'fn']
        elif it[0] == 'mod': out += all_fns(it[1])
    return out

if __name__ == '__main__':
    import sys
    r = Reader(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    c = r.read_crate()
    for f in all_fns(c):
        print(f.module, f.key, f.trait, f.generics, f.params, f.ret, len(f.body))
    print(r.drops)
