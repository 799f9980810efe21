"""Which functions, in which mode, decide a property."""
import os
from . import contracts, locality
from .verify import Task

CASES = [(0, 0x3f), (0x40, 0x83), (0x84, 0xa9), (0xaa, 0xaa), (0xab, 0xab), (0xac, 0xc3), (0xc4, 0xc4), (0xc5, 0xff)]
HEAVY = ['parse_module', 'read_constant_pool', 'Decoder::read_str', 'parse_attributes', 'parse_stack_map_table', 'TypeDescriptor::from_str', 'MethodDescriptor::from_str']
DECODER = [k for k in contracts.C if k.startswith('Decoder::')]
NUMBERS = [k for k in DECODER if k.startswith('Decoder::read_') and k not in ('Decoder::read_str', 'Decoder::read_continuation')] + ['Decoder::check', 'Decoder::new']
LIMITS = ['Decoder::limit', 'Decoder::nested', 'Decoder::remove_limit', 'Decoder::skip', 'Decoder::cursor', 'Decoder::check', 'Decoder::read_bytes']
POOL = [k for k in contracts.C if k.startswith('Pool::')] + ['Item::is_double']
PARSER = [k for k in contracts.C if k.startswith('parse') or k.startswith('read_constant')] + DECODER

def tasks(keys, mode, kinds=None, **o):
    """Heavy functions on their own, the others in a few groups."""
    keys = list(dict.fromkeys(keys))
    out = []
    if 'parse_instruction' in keys and 'f' not in mode: out.append(Task('parse_instruction', ['parse_instruction'], mode, **o))
    elif 'parse_instruction' in keys:
        for lo, hi in CASES:
            out.append(Task('parse_instruction %02x-%02x' % (lo, hi), ['parse_instruction'], mode,
                case=('parse_instruction', 'old($0).pos() < old($0).lim() ==> %d <= old($0).b()[old($0).pos()] <= %d' % (lo, hi)), **o))
    for k in keys:
        if k in HEAVY: out.append(Task(k, [k], mode, kinds=kinds, **o))
    rest = [k for k in keys if k not in HEAVY and k != 'parse_instruction']
    n = max(1, min(8 - min(len(out), 5), (len(rest) + 7) // 8))
    for i in range(n):
        part = rest[i::n]
        if part: out.append(Task('group %d' % i, part, mode, **o))
    return out

def lemma_text(names):
    out = ''
    for n in names.split():
        with open(os.path.join(os.path.dirname(__file__), 'lemmas', n + '.rs')) as f: out += f.read() + '\n'
    return out

class Prop:
    def __init__(self, keys, mode='bf', kinds=None, only=None, tasks_=None, note='', about=None, explain=True, lemmas=None, **o):
        self.keys, self.mode, self.kinds, self.only, self.note, self.opts = keys, mode, kinds, only, note, o
        self.about, self.explain = about, explain
        if lemmas: self.opts['extra_spec'] = lemma_text(lemmas)
        self._tasks = tasks_
    def tasks(self):
        return self._tasks() if self._tasks else tasks(self.keys, self.mode, self.kinds, **self.opts)

AN = ['parse_annotations', 'parse_annotation', 'parse_element_value']
P = {
 'C01': Prop(PARSER + POOL, 'b'),
 'C02': Prop(PARSER + ['Pool::with_capacity', 'Pool::new', 'Pool::append', 'Pool::push', 'Pool::default'], 'b', cap=True, lemmas='c02', only=lambda k, kind, text: 'cap_' in text),
 'C03': Prop(['parse', 'parse_fields', 'parse_methods', 'parse_attributes'] + NUMBERS, kinds=[]),
 'C04': Prop(['read_constant_pool', 'Pool::append', 'Pool::with_capacity', 'Pool::new', 'Pool::len', 'Pool::get', 'Item::is_double'] + NUMBERS),
 'C05': Prop(['Decoder::read_str', 'Decoder::read_continuation', 'Decoder::read_u8', 'Decoder::read_bytes', 'Decoder::check']),
 'C06': Prop(['parse_attributes', 'parse_code'] + LIMITS),
 'C07': Prop(['parse_instruction'] + NUMBERS + ['Decoder::skip']),
 'C08': Prop(['parse_code'] + LIMITS + NUMBERS),
 'C09': Prop(['parse_stack_map_table', 'parse_verification_type', 'parse_attributes'] + NUMBERS, kinds=['StackMapTable']),
 'C10': Prop(AN + ['parse_parameter_annotations', 'parse_attributes', 'Decoder::nested'] + NUMBERS,
    kinds=['AnnotationDefault', 'RuntimeVisibleAnnotations', 'RuntimeInvisibleAnnotations', 'RuntimeVisibleParameterAnnotations', 'RuntimeInvisibleParameterAnnotations']),
 'C11': Prop(['parse_type_annotations', 'parse_type_annotation', 'parse_target_type', 'parse_local_variable', 'parse_type_path', 'parse_attributes'] + NUMBERS,
    kinds=['RuntimeVisibleTypeAnnotations', 'RuntimeInvisibleTypeAnnotations']),
 'C12': Prop(['parse_attributes', 'Pool::get', 'Decoder::read_bytes', 'Decoder::read_u16', 'Decoder::read_u32', 'Decoder::check'] + LIMITS),
 'C13': Prop(['parse_line_number_table', 'parse_local_variable_table', 'parse_local_variable_type_table', 'parse_exceptions', 'parse_method_parameters', 'parse_attributes'] + NUMBERS,
    kinds=['LineNumberTable', 'LocalVariableTable', 'LocalVariableTypeTable', 'Exceptions', 'MethodParameters']),
 'C14': Prop(['parse_bootstrap_methods', 'parse_inner_classes', 'parse_enclosing_method', 'parse_attributes'] + NUMBERS,
    kinds=['BootstrapMethods', 'InnerClasses', 'EnclosingMethod', 'ConstantValue', 'Signature', 'SourceFile', 'SourceDebugExtension', 'Deprecated', 'Synthetic']),
 'C15': Prop(['parse_module', 'parse_module_packages', 'parse_attributes'] + NUMBERS, kinds=['Module', 'ModulePackages', 'ModuleMainClass']),
 'C16': Prop(['Pool::push', 'Pool::append', 'Pool::new', 'Pool::default', 'Pool::with_capacity', 'Pool::len', 'Item::is_double'], 'bfe'),
 'C17': Prop(['Pool::get', 'Pool::get_utf8', 'Pool::get_class_name', 'Pool::get_class_name_opt', 'Pool::len', 'Pool::is_empty', 'Pool::new', 'Pool::default', 'Pool::with_capacity', 'Pool::append', 'Pool::push', 'Item::is_double'], 'bfe'),
 'C24': Prop(PARSER + POOL, 'bfe', only=lambda k, kind, text: 'same_error(' in text or 'Err_0' in text),
 'C18': Prop(['Pool::iter', 'PoolIter::next', 'Pool::get'], lemmas='c18'),
 'C19': Prop(['Item::eq', 'Item::hash'], lemmas='c19', hash_pair=True),
 'C20': Prop(['TypeDescriptor::from_str', 'TypeDescriptor::new']),
 'C21': Prop(['MethodDescriptor::from_str', 'MethodDescriptor::new', 'TypeDescriptor::new']),
 'C22': Prop(['TypeDescriptor::fmt', 'MethodDescriptor::fmt', 'TypeDescriptor::from_str', 'MethodDescriptor::from_str', 'TypeDescriptor::new', 'MethodDescriptor::new'], lemmas='c22'),
 'C23': Prop(['parse', 'parse_fields', 'parse_methods', 'parse_inner_classes', 'parse_module', 'parse_method_parameters'], kinds=[], lemmas='c23'),
 'C25': Prop(['TypeDescriptor::from_str', 'MethodDescriptor::from_str', 'TypeDescriptor::new', 'MethodDescriptor::new'], 'be', only=lambda k, kind, text: 'InvalidDescriptor' in text),
 'C26': Prop(PARSER + POOL, tasks_=lambda: [Task('locality', ['parse'], 'bf', extra_spec=locality.text())] + tasks(PARSER + POOL, 'bf')),
}
