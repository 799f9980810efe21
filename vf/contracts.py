"""Contracts of the functions of jbcrs, keyed by `Type::name` or `name`.

In the texts  $0, $1, ...  stand for the names of the parameters (so that renaming
a parameter does not matter) and $ctx for the reading context at entry.
A contract has clauses (tag, text); tag 'b' is safety and frame, 'f' is the value,
'e' is the error value."""

class Contract:
    def __init__(self, requires=(), ensures=(), decreases=None, prophetic=False, attrs=''):
        self.requires = list(requires)
        self.ensures = list(ensures)      # (tag, text)
        self.decreases = decreases
        self.attrs = attrs

C = {}

FRAME = 'final($0).same(*old($0)) && final($0).wf() && final($0).pos() >= old($0).pos()'

def reader(key, spec, pool=False, dec=None, extra=(), req=()):
    """A function that reads a value through the decoder $0."""
    ctx = 'old($0).pctx($1@)' if pool else 'old($0).ctx()'
    s = spec.replace('$ctx', ctx).replace('$pos', 'old($0).pos()')
    requires = ['old($0).wf()'] + (['$1.wf()'] if pool else []) + list(req)
    C[key] = Contract(requires,
        [('b', FRAME)] + list(extra) + [('f', 'agrees(r, %s, final($0).pos())' % s), ('e', 'same_error(r, %s)' % s)],
        dec and dec.replace('$room', 'old($0).room()'))

# --- Decoder ------------------------------------------------------------------
C['Decoder::new'] = Contract(['*$1 == 0'],
    [('b', 'r.wf() && r.b() == $0@ && r.pos() == 0 && r.lim() == $0@.len() && r.room() == MAX_DEPTH')])
SMALL = '$1 <= 0xffff_ffff'
C['Decoder::limit'] = Contract(['old($0).wf()', SMALL],
    [('b', 'final($0).same(*old($0))'),
     ('b', '''match r {
            Ok(d) => d.wf() && d.b() == old($0).b() && d.pos() == old($0).pos() && d.lim() == old($0).pos() + $1
                && final($0).pos() == d.fin() && d.room() == old($0).room() - 1 && d.lim() <= old($0).lim() && old($0).room() > 0,
            Err(_) => final($0).pos() == old($0).pos() && (old($0).pos() + $1 > old($0).lim() || old($0).room() <= 0),
        }'''),
     ('e', 'r is Err ==> r->Err_0 == Error::LimitExceeded')])
C['Decoder::nested'] = Contract(['old($0).wf()'],
    [('b', 'final($0).same(*old($0))'),
     ('b', '''match r {
            Ok(d) => d.wf() && d.b() == old($0).b() && d.pos() == old($0).pos() && d.lim() == old($0).lim()
                && final($0).pos() == d.fin() && d.room() == old($0).room() - 1 && old($0).room() > 0,
            Err(_) => final($0).pos() == old($0).pos() && old($0).room() <= 0,
        }'''),
     ('e', 'r is Err ==> r->Err_0 == Error::LimitExceeded')])
C['Decoder::remove_limit'] = Contract([],
    [('b', '$0.pos() == $0.fin()'), ('b', 'r is Ok <==> $0.pos() == $0.lim()'), ('e', 'r is Err ==> r->Err_0 == Error::LimitExceeded')])
C['Decoder::skip'] = Contract(['old($0).wf()', SMALL],
    [('b', FRAME), ('b', 'r is Ok ==> final($0).pos() == old($0).pos() + $1'), ('b', 'r is Err ==> old($0).pos() + $1 > old($0).lim()'),
     ('e', 'r is Err ==> r->Err_0 == Error::LimitExceeded')])
C['Decoder::cursor'] = Contract([], [('b', 'r == $0.pos()')])
C['Decoder::check'] = Contract([], [('b', 'r is Ok <==> $1 <= $0.lim()'), ('e', 'r is Err ==> r->Err_0 == Error::LimitExceeded')])
C['Decoder::read_bytes'] = Contract(['old($0).wf()', SMALL],
    [('b', FRAME), ('b', '''match r {
            Ok(s) => s_bytes(old($0).ctx(), old($0).pos(), $1 as int) == SR::<Seq<u8>>::Ok((s@, final($0).pos())),
            Err(_) => s_bytes(old($0).ctx(), old($0).pos(), $1 as int) is Err,
        }'''), ('e', 'same_error(r, s_bytes(old($0).ctx(), old($0).pos(), $1 as int))')])
for t in 'u8 u16 u32 u64 i8 i16 i32 i64 f32 f64'.split():
    reader('Decoder::read_' + t, 's_%s($ctx, $pos)' % t, extra=[('b', 'r is Ok ==> final($0).pos() == old($0).pos() + %d' % (int(t[1:]) // 8))])
reader('Decoder::read_str', 's_utf8($ctx, $pos, $1 as int)', req=[SMALL])
C['Decoder::read_continuation'] = Contract(['old($0).wf()'],
    [('b', FRAME), ('f', '''match r {
            Ok(v) => 0x80 <= v < 0xC0 && s_cont(old($0).ctx(), old($0).pos()) == SR::<int>::Ok((v - 0x80, final($0).pos())),
            Err(_) => s_cont(old($0).ctx(), old($0).pos()) is Err,
        }'''), ('e', 'same_error(r, s_cont(old($0).ctx(), old($0).pos()))')])

# --- class, attribute, code and annotation readers ---------------------------------
P = [  # function, spec, has a pool, decreases
    ('parse_bootstrap_methods', 'bootstrap_methods', 0, None), ('parse_enclosing_method', 'enclosing_method', 0, None),
    ('parse_inner_classes', 'inner_classes', 0, None), ('parse_module_packages', 'module_packages', 0, None), ('parse_module', 'module', 0, None),
    ('parse_exceptions', 'exceptions', 0, None), ('parse_line_number_table', 'line_number_table', 0, None),
    ('parse_local_variable_table', 'local_variable_table', 0, None), ('parse_local_variable_type_table', 'local_variable_type_table', 0, None),
    ('parse_stack_map_table', 'stack_map_table', 0, None), ('parse_verification_type', 'verification_type', 0, None),
    ('parse_method_parameters', 'method_parameters', 0, None),
    ('parse_parameter_annotations', 'parameter_annotations', 0, None), ('parse_annotations', 'annotations', 0, None),
    ('parse_type_annotations', 'type_annotations', 0, None), ('parse_annotation', 'annotation', 0, '$room, 1int'),
    ('parse_element_value', 'element_value', 0, '$room, 0int'), ('parse_type_annotation', 'type_annotation', 0, None),
    ('parse_target_type', 'target_type', 0, None), ('parse_local_variable', 'localvar_table', 0, None), ('parse_type_path', 'type_path', 0, None),
    ('parse_fields', 'fields', 1, None), ('parse_methods', 'methods', 1, None), ('parse_attributes', 'attributes', 1, '$room, 0int'),
    ('parse_code', 'code', 1, '$room, 1int'),
]
for fn, s, pool, dec in P:
    reader(fn, 's_%s($ctx, $pos)' % s, bool(pool), dec)
C['parse_instruction'] = Contract(['old($0).wf()', '$1 <= old($0).pos()', 'old($0).lim() - old($0).pos() + $1 <= 0xffff_ffff'],
    [('b', FRAME), ('b', 'r is Ok ==> r->Ok_0.0 == $1 + (final($0).pos() - old($0).pos()) && final($0).pos() > old($0).pos()'),
     ('f', '''match r {
            Ok(v) => s_insn(old($0).ctx(), old($0).pos(), $1) == SR::<Instruction>::Ok((v.1, final($0).pos())),
            Err(_) => s_insn(old($0).ctx(), old($0).pos(), $1) is Err,
        }'''), ('e', 'same_error(r, s_insn(old($0).ctx(), old($0).pos(), $1))')])
C['read_constant_pool'] = Contract(['old($0).wf()'],
    [('b', FRAME), ('b', 'r is Ok ==> r->Ok_0.wf()'), ('f', '''match r {
            Ok(v) => s_constant_pool(old($0).ctx(), old($0).pos()) == SR::<Pv>::Ok((v@, final($0).pos())),
            Err(_) => s_constant_pool(old($0).ctx(), old($0).pos()) is Err,
        }'''), ('e', 'same_error(r, s_constant_pool(old($0).ctx(), old($0).pos()))')])
C['parse'] = Contract([],
    [('b', 'r is Ok ==> r->Ok_0.0.wf()'), ('f', '''match r {
            Ok(v) => s_class(top($0@), 0) is Ok && s_class(top($0@), 0)->Ok_0.0 == (v.0@, v.1),
            Err(_) => s_class(top($0@), 0) is Err,
        }'''), ('e', 'same_error(r, s_class(top($0@), 0))')])

# --- constant pool ------------------------------------------------------------------
C['Item::is_double'] = Contract([], [('b', 'r == two_slots(*$0)')])
C['Item::eq'] = Contract([], [('f', 'r == same_item(*$0, *$1)')])
NEW = [('b', 'r.wf()'), ('b', 'r@ == Seq::<Option<Rc<Item>>>::empty()')]
C['Pool::new'] = Contract([], NEW)
C['Pool::default'] = Contract([], NEW)
C['Pool::with_capacity'] = Contract([], NEW)
C['Pool::len'] = Contract(['$0.wf()'], [('b', 'r == $0@.len() + 1')])
C['Pool::is_empty'] = Contract(['$0.wf()'], [('f', 'r == ($0@.len() == 0)')])
C['Pool::get'] = Contract(['$0.wf()'],
    [('f', '''match r { Ok(i) => at($0@, $1) == Some(*i), Err(_) => at($0@, $1) is None }'''),
     ('e', 'r is Err ==> r->Err_0 == Error::InvalidCPItem($1)')])
C['Pool::get_utf8'] = Contract(['$0.wf()'],
    [('f', 'match r { Ok(s) => is_utf8($0@, $1) && s == utf8_at($0@, $1), Err(_) => !is_utf8($0@, $1) }'),
     ('e', 'r is Err ==> r->Err_0 == Error::InvalidCPItem($1)')])
C['Pool::get_class_name'] = Contract(['$0.wf()'],
    [('f', 'match r { Ok(s) => is_class($0@, $1) && is_utf8($0@, class_at($0@, $1)) && s == utf8_at($0@, class_at($0@, $1)), Err(_) => !is_class($0@, $1) || !is_utf8($0@, class_at($0@, $1)) }'),
     ('e', 'r is Err ==> r->Err_0 == Error::InvalidCPItem(if is_class($0@, $1) { class_at($0@, $1) } else { $1 })')])
C['Pool::get_class_name_opt'] = Contract(['$0.wf()'],
    [('f', '''match r {
            Ok(None) => is_class($0@, $1) && class_at($0@, $1) == 0,
            Ok(Some(s)) => is_class($0@, $1) && class_at($0@, $1) != 0 && is_utf8($0@, class_at($0@, $1)) && s == utf8_at($0@, class_at($0@, $1)),
            Err(_) => !is_class($0@, $1) || class_at($0@, $1) != 0 && !is_utf8($0@, class_at($0@, $1)),
        }'''),
     ('e', 'r is Err ==> r->Err_0 == Error::InvalidCPItem(if is_class($0@, $1) { class_at($0@, $1) } else { $1 })')])
C['Pool::append'] = Contract(['old($0).wf()'],
    [('b', 'final($0).wf()'), ('b', '''match r {
            Ok(i) => i == old($0)@.len() + 1 && fits(old($0)@, *$1) && final($0)@ == added(old($0)@, *$1),
            Err(_) => !fits(old($0)@, *$1) && *final($0) == *old($0),
        }'''), ('e', 'r is Err ==> r->Err_0 == Error::CPTooLarge')])
C['Pool::push'] = Contract(['old($0).wf()'],
    [('b', 'final($0).wf()'), ('f', '''match r {
            Ok(i) => if holds(old($0)@, $1) { first_at(old($0)@, $1, i) && *final($0) == *old($0) }
                else { i == old($0)@.len() + 1 && fits(old($0)@, $1) && final($0)@ == added(old($0)@, $1) },
            Err(_) => !holds(old($0)@, $1) && !fits(old($0)@, $1) && *final($0) == *old($0),
        }'''), ('e', 'r is Err ==> r->Err_0 == Error::CPTooLarge')])

C['Pool::iter'] = Contract(['$0.wf()'], [('b', 'r.wf()'), ('f', 'r.slots() =~= $0@ && r.pending() == used($0@, 0)')])
C['PoolIter::next'] = Contract(['old($0).wf()'], [('b', 'final($0).wf()'), ('f', '''match r {
            Some(x) => old($0).pending() =~= seq![(x.0, *x.1)] + final($0).pending(),
            None => old($0).pending().len() == 0 && final($0).pending().len() == 0,
        }''')], 'IteratorSpec::decrease(&old($0).iter)->0')

# --- descriptors --------------------------------------------------------------------
C['TypeDescriptor::new'] = Contract([], [('b', 'r == (TypeDescriptor { dimensions: $0, base_type: $1 })')])
C['MethodDescriptor::new'] = Contract([], [('b', 'r == (MethodDescriptor { params: $0, return_type: $1 })')])
ECHO = 'match r { Err(Error::InvalidDescriptor { desc: d, at: a }) => d@ == $0@ && a <= $0@.len(), Err(_) => false, Ok(_) => true }'
for t, s in (('Type', 'type'), ('Method', 'method')):
    C[t + 'Descriptor::from_str'] = Contract([],
        [('f', 'match r { Ok(d) => s_%s_descriptor($0@) == Some(d), Err(_) => s_%s_descriptor($0@) is None }' % (s, s)), ('e', ECHO)])
    C[t + 'Descriptor::fmt'] = Contract([], [('f', 'r is Ok ==> final($1)@ == old($1)@ + %s_text(*$0)' % s),
         ('f', 'final($1).infallible() == old($1).infallible() && (old($1).infallible() ==> r is Ok)')])

# what a caller must know before a string is read: how much is reserved for it
CAP = {'Decoder::read_str': ['cap_string($1, old($0).b().len() - old($0).pos())']}

import re
def specs_of(key):
    """The specification functions named in the contract of a function."""
    c = C.get(key)
    r = sorted(set(x for n in re.findall(r'\b(s_\w+)\(', ' '.join(t for _, t in c.ensures)) for x in (n, n.replace('s_u', 's_raw_u')))) if c else []
    # a number may be read in any way
    if re.match(r'Decoder::read_[uif]\d', key): r = sorted(set(r) | {'s_raw_u16', 's_raw_u32', 's_raw_u64'})
    # the unfolding of a recursive function mentions the others of its cycle in a form that is
    # linked to them only where they are revealed
    for cycle in (('s_annotation', 's_element_value'),):
        if set(cycle) & set(r): r += [x for x in cycle if x not in r]
    return r
OPAQUE = set('s_' + s for _, s, _, _ in P) | {'s_insn', 's_raw_u16', 's_raw_u32', 's_raw_u64', 's_constant_pool'}
