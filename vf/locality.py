"""C26: lemmas over the grammar, one per rule, generated from it.

mono_X: a rule that succeeds ends at or after its start and within the context.
loc_X:  a rule that succeeds and ends at q gives the same in every context that agrees up to q."""
import re
from . import grammar, contracts

NAMES = '((?:s|rep)_\\w+)\\('

def sig(args):
    """`, x: T` and `, x` of further arguments."""
    return (', ' + args if args else ''), ''.join(', ' + a.split(':')[0].strip() for a in args.split(',')) if args else ''

def text():
    fns = {}       # name -> (params after c and p, args, called, kind)
    body = {nm: b for nm, _, _, b, _ in grammar.RULES}
    for nm, ty, args, b, dec in grammar.RULES:
        if nm in grammar.INLINE: continue
        fns['s_' + nm] = (args, b, 's')
    for T, (elem, rule, rank) in grammar.TABS.items():
        b = body[rule] if rule in grammar.INLINE else 's_%s(c, p)' % rule
        fns['rep_' + T] = (elem, b, 'rep')
    HAND = ('s_attributes', 's_attribute', 's_code', 'rep_Attribute', 's_annotation', 's_element_value', 'rep_Pair', 'rep_ElementValue', 's_switch_pairs', 's_constant_pool')
    out, done = [], set()
    BASE = ['s_u8', 's_u16', 's_u32', 's_u64', 's_i8', 's_i16', 's_i32', 's_i64', 's_f32', 's_f64', 's_bytes', 's_utf8', 's_switch_pairs', 's_tile', 's_annotation', 's_element_value', 's_attributes', 'rep_cp', 's_constant']
    order = []
    def calls(b): return [x for x in dict.fromkeys(re.findall(NAMES, b))]
    def visit(n):
        if n in done: return
        done.add(n)
        if n in fns and n not in HAND and n not in BASE:
            for x in calls(fns[n][1]): visit(x)
            order.append(n)
    def emit(n):
        args, b, kind = fns[n]
        used = [x for x in calls(b) if x != n]
        rev = [n] if n in contracts.OPAQUE else []
        proof = 'broadcast use {%s}; ' % ', '.join(['near_facts'] + ['mono_' + x for x in used] + ['loc_' + x for x in used if x != 's_tile'])
        proofm = ('broadcast use {%s}; ' % ', '.join('mono_' + x for x in used)) if used else ''
        r = ''.join('reveal(%s); ' % x for x in rev)
        if kind == 's':
            a, v = sig(args)
            C, D = '%s(c, p%s)' % (n, v), '%s(d, p%s)' % (n, v)
            out.append('pub broadcast proof fn mono_%s(c: Ctx, p: int%s)\n    ensures p <= c.l ==> #[trigger] moves(%s, c, p)\n{ %s%s }'.replace('#[trigger] moves(%s, c, p)', 'moves(#[trigger] %s, c, p)') % (n, a, C, proofm, r))
            if n == 's_skip': out[-1] = out[-1].replace('p <= c.l', '0 <= n && p <= c.l')
            out.append('pub broadcast proof fn loc_%s(c: Ctx, d: Ctx, p: int%s)\n    ensures #![trigger %s, %s] %s is Ok && near(c, d, p, (%s->Ok_0).1) ==> %s == %s\n{ %s%s }' % (n, a, C, D, C, C, D, C, proof, r))
        else:
            S = 'n: int, acc: Seq<%s>, ' % args
            C, D = '%s(n, acc, c, p)' % n, '%s(n, acc, d, p)' % n
            item = re.sub(r'^\w+', lambda m: m.group(0), b)
            step = '({ %s })' % b
            out.append('pub broadcast proof fn mono_%s(%sc: Ctx, p: int)\n    ensures p <= c.l ==> moves(#[trigger] %s, c, p)\n    decreases n\n{ %s if n > 0 { match %s { Ok((x, q)) => { mono_%s(n - 1, acc.push(x), c, q); }, Err(_) => {} } } }' % (n, S, C, proofm, step, n))
            out.append('pub broadcast proof fn loc_%s(%sc: Ctx, d: Ctx, p: int)\n    ensures #![trigger %s, %s] %s is Ok && near(c, d, p, (%s->Ok_0).1) ==> %s == %s\n    decreases n\n{ %s if n > 0 { match %s { Ok((x, q)) => { mono_%s(n - 1, acc.push(x), c, q); loc_%s(n - 1, acc.push(x), c, d, q); }, Err(_) => {} } } }' % (n, S, C, D, C, C, D, C, proof, step, n, n))
    for n in list(fns):
        if n not in HAND: visit(n)
    pre = [n for n in order if n not in ('s_class', 's_fields', 's_methods', 's_field', 's_method', 'rep_Field', 'rep_Method')]
    import os
    hand = open(os.path.join(os.path.dirname(__file__), 'lemmas', 'c26.rs')).read()
    H = dict(re.findall(r'^// @(\w+)\n(.*?)(?=^// @|\Z)', hand, re.M | re.S))
    # the order does not matter: proofs name what they use
    cp = ['s_constant']
    for n in cp:
        emit(n)
    for n in pre:
        emit(n)
    for n in ('s_class', 's_fields', 's_methods', 's_field', 's_method', 'rep_Field', 'rep_Method'): emit(n)
    content = dict(grammar.CONTENT)
    inner = [re.match(r'(s_\w+)\(d', e).group(1) for e in content.values() if e.startswith('s_') and not e.startswith('s_code')] + ['s_unknown']
    t = H['base'] + H['annotations'] + H['attributes'] + '\n'.join(out) + '\n' + H['theorem']
    t = t.replace('@CONTENT_MONO', ', '.join('mono_' + x for x in inner)).replace('@CONTENT_LOC', ', '.join('loc_' + x for x in inner))
    sg = ''
    for x, y in (('i8', 'u8'), ('i16', 'u16'), ('i32', 'u32'), ('i64', 'u64'), ('f32', 'u32'), ('f64', 'u64')):
        C, D = 's_%s(c, p)' % x, 's_%s(d, p)' % x
        sg += 'pub broadcast proof fn mono_s_%s(c: Ctx, p: int) ensures p <= c.l ==> moves(#[trigger] %s, c, p) { broadcast use mono_s_%s; }\n' % (x, C, y)
        sg += 'pub broadcast proof fn loc_s_%s(c: Ctx, d: Ctx, p: int)\n    ensures #![trigger %s, %s] %s is Ok && near(c, d, p, (%s->Ok_0).1) ==> %s == %s { broadcast use {mono_s_%s, loc_s_%s}; }\n' % (x, C, D, C, C, D, C, y, y)
    ins = [x for x in calls(fns['s_insn'][1])]
    evs = [x for x in calls(fns['s_element_value'][1]) if x.startswith('s_ev_')]
    t = t.replace('@SIGNED', sg).replace('@INSN_MONO', '{' + ', '.join('mono_' + x for x in ins) + '}')
    t = t.replace('@EV_MONO', ', '.join('mono_' + x for x in evs)).replace('@EV_LOC', ', '.join('loc_' + x for x in evs))
    return 'pub mod locality {\nuse super::*;\n' + t + '\n}\n'
