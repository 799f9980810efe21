"""The class file format (JVMS chapters 4 and 6) as Verus spec functions.

`G(name, type, steps)` is one grammar rule; its steps are compiled to a pure
spec function  s_<name>(c: Ctx, p: int) -> SR<type>  that reads the bytes c.b from
position p up to the end c.l and returns the value and the next position, or the
error of the first offending place. Steps:
    x <- rule(args);        read x by a rule
    x <-[ctx] rule(args);   the same in another context
    x <- n * T;             read a table of n values of the table type T
    x <-[ctx] n * T;
    let x = e;
    check cond else e;      reject with the error e unless cond holds
    = e                     the result
    : e                     the result, already of type SR
"""
import re

# rules that are written out where they are used: the unfolding of mutually recursive
# functions stops at the next function of the cycle
INLINE = ('content', 'pair')
RULES = []      # (name, type, args, text, decreases)
TABS = {}       # table type name -> (rust element type, rule, decreases or None)

def tab(T, elem, rule, rank=None):
    TABS[T] = (elem, rule, rank)

def compile_steps(steps, name):
    steps = [s.strip() for s in re.split(r';(?![^{]*\})\s*', steps.strip()) if s.strip()]
    # re-join pieces of a final expression that contains ';'
    out = ''; close = ''
    for s in steps:
        m = re.match(r'^(\w+|_|\([\w, ]+\))\s*<-\s*(\[[^\]]*\])?\s*(.*)$', s, re.S)
        if m:
            x, ctx, e = m.group(1), (m.group(2) or '[c]')[1:-1], m.group(3).strip()
            t = re.match(r'^(.*)\*\s*(\w+)$', e, re.S)
            if t:
                T = t.group(2); elem = TABS[T][0]
                call = 'rep_%s((%s) as int, Seq::<%s>::empty(), %s, p)' % (T, t.group(1).strip(), elem, ctx)
            else:
                r = re.match(r'^(\w+)\s*(\((.*)\))?$', e, re.S)
                args = (', ' + r.group(3)) if r.group(3) else ''
                if r.group(1) in INLINE:
                    body = [b for nm, _, _, b, _ in RULES if nm == r.group(1)][0]
                    call = '({ let c = %s; %s })' % (ctx, body)
                else: call = 's_%s(%s, p%s)' % (r.group(1), ctx, args)
            out += 'match %s { Err(e) => Err(e), Ok((%s, p)) => ' % (call, x); close += ' }'
            continue
        m = re.match(r'^let\s+(\w+)\s*=\s*(.*)$', s, re.S)
        if m:
            out += '{ let %s = %s; ' % (m.group(1), m.group(2)); close += ' }'; continue
        m = re.match(r'^check\s+(.*)\s+else\s+(.*)$', s, re.S)
        if m:
            out += 'if !(%s) { Err(%s) } else { ' % (m.group(1), m.group(2)); close += ' }'; continue
        if s.startswith('='):
            out += 'Ok((%s, p))' % s[1:].strip(); continue
        if s.startswith(':'):
            out += s[1:].strip(); continue
        raise Exception('bad step in %s: %r' % (name, s))
    return out + close

def G(name, ty, steps, args='', dec=None):
    RULES.append((name, ty, args, compile_steps(steps, name), dec))

# --- tables --------------------------------------------------------------
tab('u16', 'u16', 'u16')
tab('i32', 'i32', 'i32')
tab('Exception', 'Exception', 'exception')
tab('BootstrapMethod', 'BootstrapMethod', 'bootstrap_method')
tab('LineNumber', 'LineNumber', 'line_number')
tab('InnerClass', 'InnerClass', 'inner_class')
tab('StackMapFrame', 'StackMapFrame', 'stack_map_frame')
tab('VerificationType', 'VerificationType', 'verification_type')
tab('Annotation', 'Annotation', 'annotation')
tab('Annotations', 'Vec<Annotation>', 'annotations')
tab('Pair', '(u16, ElementValue)', 'pair', '1')
tab('ElementValue', 'ElementValue', 'element_value', '1')
tab('TypeAnnotation', 'TypeAnnotation', 'type_annotation')
tab('TypePathElement', 'TypePathElement', 'type_path_element')
tab('LocalVariableTarget', 'LocalVariableTarget', 'local_variable_target')
tab('LocalVariable', 'LocalVariable', 'local_variable')
tab('LocalVariableType', 'LocalVariableType', 'local_variable_type')
tab('MethodParameter', 'MethodParameter', 'method_parameter')
tab('Requirement', 'Requirement', 'requirement')
tab('Export', 'Export', 'export')
tab('Opening', 'Opening', 'opening')
tab('Provider', 'Provider', 'provider')
tab('Field', 'Field', 'field')
tab('Method', 'Method', 'method')
tab('Attribute', 'Attribute', 'attribute', '1')

# --- 4.1 ClassFile, 4.5 fields, 4.6 methods ----------------------------------
G('flags', 'AccessFlags', 'w <- u16; = mkflags(w)')
G('class', '(Pool, Class)', '''
    magic <- bytes(4);
    check magic =~= seq![0xCAu8, 0xFEu8, 0xBAu8, 0xBEu8] else Error::NotAClass;
    minor_version <- u16; major_version <- u16;
    pool <- constant_pool;
    let d = Ctx { pool: pool, ..c };
    access_flags <- flags;
    name <- u16; super_name <- u16;
    icount <- u16; interfaces <- icount * u16;
    fields <-[d] fields;
    methods <-[d] methods;
    attributes <-[d] attributes;
    = (pool, ClassV { minor_version, major_version, access_flags, name, super_name,
        interfaces: mkv(interfaces), fields, methods, attributes })''')
RULES[-1] = (RULES[-1][0], '(Pv, Class)', '', RULES[-1][3].replace('ClassV {', 'Class {'), None)
G('field', 'Field', '''
    access_flags <- flags; name <- u16; desc <- u16; attributes <- attributes;
    = Field { access_flags, name, desc, attributes }''')
G('method', 'Method', '''
    access_flags <- flags; name <- u16; desc <- u16; attributes <- attributes;
    = Method { access_flags, name, desc, attributes }''')
G('fields', 'Vec<Field>', 'n <- u16; v <- n * Field; = mkv(v)')
G('methods', 'Vec<Method>', 'n <- u16; v <- n * Method; = mkv(v)')

# --- 4.4 constant pool ---------------------------------------------------------
G('constant', 'Item', '''
    tag <- u8;
    : match tag {
        1u8 => s_c_utf8(c, p), 3u8 => s_c_int(c, p), 4u8 => s_c_float(c, p), 5u8 => s_c_long(c, p), 6u8 => s_c_double(c, p),
        7u8 => s_c_class(c, p), 8u8 => s_c_string(c, p), 9u8 => s_c_field(c, p), 10u8 => s_c_method(c, p), 11u8 => s_c_imethod(c, p),
        12u8 => s_c_nat(c, p), 15u8 => s_c_handle(c, p, index), 16u8 => s_c_mtype(c, p), 18u8 => s_c_indy(c, p),
        19u8 => s_c_module(c, p), 20u8 => s_c_package(c, p),
        _ => Err(Error::InvalidCPItem(index)) }''', args='index: u16')
G('c_utf8', 'Item', 'n <- u16; s <- utf8(n as int); = Item::UTF8(s)')
G('c_int', 'Item', 'v <- i32; = Item::Integer(v)')
G('c_float', 'Item', 'v <- u32; = Item::Float(mkf32(v))')
G('c_long', 'Item', 'v <- i64; = Item::Long(v)')
G('c_double', 'Item', 'v <- u64; = Item::Double(mkf64(v))')
G('c_class', 'Item', 'v <- u16; = Item::Class(v)')
G('c_string', 'Item', 'v <- u16; = Item::String(v)')
G('c_field', 'Item', 'class <- u16; name_and_type <- u16; = Item::FieldRef { class, name_and_type }')
G('c_method', 'Item', 'class <- u16; name_and_type <- u16; = Item::MethodRef { class, name_and_type }')
G('c_imethod', 'Item', 'class <- u16; name_and_type <- u16; = Item::InterfaceMethodRef { class, name_and_type }')
G('c_nat', 'Item', 'name <- u16; desc <- u16; = Item::NameAndType { name, desc }')
G('ref_kind', 'ReferenceKind', '''
    k <- u8;
    : match k {
        1u8 => Ok((ReferenceKind::GetField, p)), 2u8 => Ok((ReferenceKind::GetStatic, p)), 3u8 => Ok((ReferenceKind::PutField, p)),
        4u8 => Ok((ReferenceKind::PutStatic, p)), 5u8 => Ok((ReferenceKind::InvokeVirtual, p)), 6u8 => Ok((ReferenceKind::InvokeStatic, p)),
        7u8 => Ok((ReferenceKind::InvokeSpecial, p)), 8u8 => Ok((ReferenceKind::NewInvokeSpecial, p)), 9u8 => Ok((ReferenceKind::InvokeInterface, p)),
        _ => Err(Error::InvalidCPItem(index)) }''', args='index: u16')
G('c_handle', 'Item', 'kind <- ref_kind(index); i <- u16; = Item::MethodHandle { kind: kind, index: i }', args='index: u16')
G('c_mtype', 'Item', 'v <- u16; = Item::MethodType(v)')
G('c_indy', 'Item', 'bootstrap_method_attribute <- u16; name_and_type <- u16; = Item::InvokeDynamic { bootstrap_method_attribute, name_and_type }')
G('c_module', 'Item', 'v <- u16; = Item::Module(v)')
G('c_package', 'Item', 'v <- u16; = Item::Package(v)')
G('constant_pool', 'Pv', '''
    n <- u16;
    : if n == 0 { Ok((Seq::<Option<Rc<Item>>>::empty(), p)) } else { rep_cp(n - 1, Seq::<Option<Rc<Item>>>::empty(), c, p) }''')

# --- 4.7 attributes ----------------------------------------------------------------
G('attributes', 'Vec<Attribute>', 'n <- u16; v <- n * Attribute; = mkv(v)', dec='c.room, 2int, 0int')
# the content of an attribute, by the name it has
CONTENT = [
    ('AnnotationDefault', 's_annotation_default(d, p)'),
    ('BootstrapMethods', 's_bootstrap_methods(d, p)'),
    ('Code', 's_code(c, p)'),
    ('ConstantValue', 's_constant_value(d, p)'),
    ('Deprecated', 'Ok((Attribute::Deprecated, p))'),
    ('EnclosingMethod', 's_enclosing_method(d, p)'),
    ('Exceptions', 's_exceptions(d, p)'),
    ('InnerClasses', 's_inner_classes(d, p)'),
    ('LineNumberTable', 's_line_number_table(d, p)'),
    ('LocalVariableTable', 's_local_variable_table(d, p)'),
    ('LocalVariableTypeTable', 's_local_variable_type_table(d, p)'),
    ('MethodParameters', 's_method_parameters(d, p)'),
    ('Module', 's_module(d, p)'),
    ('ModuleMainClass', 's_module_main_class(d, p)'),
    ('ModulePackages', 's_module_packages(d, p)'),
    ('RuntimeVisibleAnnotations', 's_rv_annotations(d, p)'),
    ('RuntimeInvisibleAnnotations', 's_ri_annotations(d, p)'),
    ('RuntimeVisibleParameterAnnotations', 's_rv_parameter_annotations(d, p)'),
    ('RuntimeInvisibleParameterAnnotations', 's_ri_parameter_annotations(d, p)'),
    ('RuntimeVisibleTypeAnnotations', 's_rv_type_annotations(d, p)'),
    ('RuntimeInvisibleTypeAnnotations', 's_ri_type_annotations(d, p)'),
    ('SourceFile', 's_source_file(d, p)'),
    ('Signature', 's_signature(d, p)'),
    ('StackMapTable', 's_stack_map_table(d, p)'),
    ('Synthetic', 'Ok((Attribute::Synthetic, p))'),
    ('SourceDebugExtension', 's_source_debug_extension(d, p, length)'),
]
G('content', 'Attribute', 'let d = Ctx { pool: Seq::empty(), ..c }; : ' + ''.join(
    'if is_str(name, "%s"@) { %s } else ' % (n, e) for n, e in CONTENT) + '{ s_unknown(d, p, name_index, length) }',
    args='name_index: u16, name: String, length: u32', dec='c.room, 4int, 0int')
G('attribute', 'Attribute', '''
    name_index <- u16;
    check is_utf8(c.pool, name_index) else Error::InvalidCPItem(name_index);
    let name = utf8_at(c.pool, name_index);
    length <- u32;
    check p + length <= c.l else Error::LimitExceeded;
    check c.room > 0 else Error::LimitExceeded;
    let d = Ctx { b: c.b, l: p + length, room: c.room - 1, pool: Seq::empty() };
    a <-[Ctx { pool: c.pool, ..d }] content(name_index, name, length);
    check p == d.l else Error::LimitExceeded;
    = a''', dec='c.room, 0int, 0int')
G('annotation_default', 'Attribute', 'v <- element_value; = Attribute::AnnotationDefault(v)')
G('constant_value', 'Attribute', 'i <- u16; = Attribute::ConstantValue(i)')
G('module_main_class', 'Attribute', 'i <- u16; = Attribute::ModuleMainClass(i)')
G('source_file', 'Attribute', 'i <- u16; = Attribute::SourceFile(i)')
G('signature', 'Attribute', 'i <- u16; = Attribute::Signature(i)')
G('source_debug_extension', 'Attribute', 's <- utf8(length as int); = Attribute::SourceDebugExtension(s)', args='length: u32')
G('unknown', 'Attribute', 'b <- bytes(length as int); = Attribute::Unknown(name_index, mkv(b))', args='name_index: u16, length: u32')
G('enclosing_method', 'Attribute', 'class_index <- u16; method_index <- u16; = Attribute::EnclosingMethod { class_index, method_index }')
G('rv_annotations', 'Attribute', 'v <- annotations; = Attribute::RuntimeVisibleAnnotations(v)')
G('ri_annotations', 'Attribute', 'v <- annotations; = Attribute::RuntimeInvisibleAnnotations(v)')
G('rv_parameter_annotations', 'Attribute', 'v <- parameter_annotations; = Attribute::RuntimeVisibleParameterAnnotations(v)')
G('ri_parameter_annotations', 'Attribute', 'v <- parameter_annotations; = Attribute::RuntimeInvisibleParameterAnnotations(v)')
G('rv_type_annotations', 'Attribute', 'v <- type_annotations; = Attribute::RuntimeVisibleTypeAnnotations(v)')
G('ri_type_annotations', 'Attribute', 'v <- type_annotations; = Attribute::RuntimeInvisibleTypeAnnotations(v)')

# 4.7.3 Code
G('exception', 'Exception', 'start <- u16; end <- u16; handler <- u16; catch_type <- u16; = Exception { start, end, handler, catch_type }')
G('code', 'Attribute', '''
    max_stack <- u16; max_locals <- u16;
    length <- u32;
    check p + length <= c.l else Error::LimitExceeded;
    check c.room > 0 else Error::LimitExceeded;
    insns <-[Ctx { b: c.b, l: p + length, room: c.room - 1, pool: Seq::empty() }] tile(0, Map::empty());
    n <- u16; exceptions <-[Ctx { pool: Seq::empty(), ..c }] n * Exception;
    attributes <- attributes;
    = Attribute::Code { max_stack, max_locals, instructions: mkhm(insns), exceptions: mkv(exceptions), attributes }''', dec='c.room, 3int, 0int')

# 4.7.4 StackMapTable
G('stack_map_table', 'Attribute', 'n <- u16; v <- n * StackMapFrame; = Attribute::StackMapTable(mkv(v))')
G('stack_map_frame', 'StackMapFrame', '''
    t <- u8;
    : if t <= 63 { Ok((StackMapFrame::Same { offset_delta: t as u16 }, p)) }
      else if t <= 127 { s_same1(c, p, (t - 64) as u16) }
      else if t < 247 { Err(Error::ReservedStackMapFrame(t)) }
      else if t == 247 { s_same1_ext(c, p) }
      else if t <= 250 { s_chop(c, p, (251 - t) as u8) }
      else if t == 251 { s_same_ext(c, p) }
      else if t <= 254 { s_append(c, p, t - 251) }
      else { s_full(c, p) }''')
G('same1', 'StackMapFrame', 'stack <- verification_type; = StackMapFrame::Same1 { offset_delta: delta, stack }', args='delta: u16')
G('same1_ext', 'StackMapFrame', 'offset_delta <- u16; stack <- verification_type; = StackMapFrame::Same1 { offset_delta, stack }')
G('chop', 'StackMapFrame', 'offset_delta <- u16; = StackMapFrame::Chop { offset_delta, count: k }', args='k: u8')
G('same_ext', 'StackMapFrame', 'offset_delta <- u16; = StackMapFrame::Same { offset_delta }')
G('append', 'StackMapFrame', 'offset_delta <- u16; v <- k * VerificationType; = StackMapFrame::Append { offset_delta, locals: mkv(v) }', args='k: int')
G('full', 'StackMapFrame', '''offset_delta <- u16; n <- u16; l <- n * VerificationType; k <- u16; s <- k * VerificationType;
    = StackMapFrame::Full { offset_delta, locals: mkv(l), stack: mkv(s) }''')
G('verification_type', 'VerificationType', '''
    t <- u8;
    : match t {
        0u8 => Ok((VerificationType::Top, p)), 1u8 => Ok((VerificationType::Integer, p)), 2u8 => Ok((VerificationType::Float, p)),
        3u8 => Ok((VerificationType::Double, p)), 4u8 => Ok((VerificationType::Long, p)), 5u8 => Ok((VerificationType::Null, p)),
        6u8 => Ok((VerificationType::UninitializedThis, p)), 7u8 => s_v_object(c, p), 8u8 => s_v_uninit(c, p),
        _ => Err(Error::InvalidVerificationType(t)) }''')
G('v_object', 'VerificationType', 'i <- u16; = VerificationType::Object(i)')
G('v_uninit', 'VerificationType', 'i <- u16; = VerificationType::Uninitialized(i)')

# 4.7.5, 4.7.12-14, 4.7.24
G('exceptions', 'Attribute', 'n <- u16; v <- n * u16; = Attribute::Exceptions(mkv(v))')
G('line_number', 'LineNumber', 'start <- u16; line_number <- u16; = LineNumber { start, line_number }')
G('line_number_table', 'Attribute', 'n <- u16; v <- n * LineNumber; = Attribute::LineNumberTable(mkv(v))')
G('local_variable', 'LocalVariable', 'start <- u16; length <- u16; name <- u16; descriptor <- u16; index <- u16; = LocalVariable { start, length, name, descriptor, index }')
G('local_variable_table', 'Attribute', 'n <- u16; v <- n * LocalVariable; = Attribute::LocalVariableTable(mkv(v))')
G('local_variable_type', 'LocalVariableType', 'start <- u16; length <- u16; name <- u16; signature <- u16; index <- u16; = LocalVariableType { start, length, name, signature, index }')
G('local_variable_type_table', 'Attribute', 'n <- u16; v <- n * LocalVariableType; = Attribute::LocalVariableTypeTable(mkv(v))')
G('method_parameter', 'MethodParameter', 'name <- u16; access_flags <- flags; = MethodParameter { name, access_flags }')
G('method_parameters', 'Attribute', 'n <- u8; v <- n * MethodParameter; = Attribute::MethodParameters(mkv(v))')

# 4.7.6, 4.7.23
G('inner_class', 'InnerClass', '''inner_class_info <- u16; outer_class_info <- u16; inner_name <- u16; inner_class_access_flags <- flags;
    = InnerClass { inner_class_info, outer_class_info, inner_name, inner_class_access_flags }''')
G('inner_classes', 'Attribute', 'n <- u16; v <- n * InnerClass; = Attribute::InnerClasses(mkv(v))')
G('bootstrap_method', 'BootstrapMethod', 'method_ref <- u16; n <- u16; v <- n * u16; = BootstrapMethod { method_ref, arguments: mkv(v) }')
G('bootstrap_methods', 'Attribute', 'n <- u16; v <- n * BootstrapMethod; = Attribute::BootstrapMethods(mkv(v))')

# 4.7.25-27 modules
G('module_packages', 'Attribute', 'n <- u16; v <- n * u16; = Attribute::ModulePackages(mkv(v))')
G('requirement', 'Requirement', 'index <- u16; flags <- flags; version <- u16; = Requirement { index, flags, version }')
G('export', 'Export', 'index <- u16; flags <- flags; n <- u16; v <- n * u16; = Export { index, flags, to: mkv(v) }')
G('opening', 'Opening', 'index <- u16; flags <- flags; n <- u16; v <- n * u16; = Opening { index, flags, to: mkv(v) }')
G('provider', 'Provider', 'index <- u16; n <- u16; v <- n * u16; = Provider { index, with: mkv(v) }')
G('module', 'Attribute', '''
    name <- u16; flags <- flags; version <- u16;
    n1 <- u16; requires_ <- n1 * Requirement;
    n2 <- u16; exports <- n2 * Export;
    n3 <- u16; opens <- n3 * Opening;
    n4 <- u16; uses <- n4 * u16;
    n5 <- u16; provides <- n5 * Provider;
    = Attribute::Module { name, flags, version, requires_: mkv(requires_), exports: mkv(exports), opens: mkv(opens), uses: mkv(uses), provides: mkv(provides) }''')

# 4.7.16-19, 4.7.22 annotations
G('parameter_annotations', 'Vec<Vec<Annotation>>', 'n <- u8; v <- n * Annotations; = mkv(v)')
G('annotations', 'Vec<Annotation>', 'n <- u16; v <- n * Annotation; = mkv(v)')
G('annotation', 'Annotation', 'type_index <- u16; n <- u16; v <- n * Pair; = Annotation { type_index, element_value_pairs: mkv(v) }', dec='c.room, 2int, 0int')
G('pair', '(u16, ElementValue)', 'i <- u16; v <- element_value; = (i, v)', dec='c.room, 0int, 1int')
G('element_value', 'ElementValue', '''
    check c.room > 0 else Error::LimitExceeded;
    let d = Ctx { room: c.room - 1, ..c };
    tag <- u8;
    : match tag {
        66u8 => s_ev_byte(d, p), 67u8 => s_ev_char(d, p), 68u8 => s_ev_double(d, p), 70u8 => s_ev_float(d, p),
        73u8 => s_ev_int(d, p), 74u8 => s_ev_long(d, p), 83u8 => s_ev_short(d, p), 90u8 => s_ev_boolean(d, p),
        115u8 => s_ev_string(d, p), 101u8 => s_ev_enum(d, p), 99u8 => s_ev_class(d, p),
        64u8 => match s_annotation(d, p) { Err(e) => Err(e), Ok((a, q)) => Ok((ElementValue::Annotation(Box::new(a)), q)) },
        91u8 => match s_u16(d, p) { Err(e) => Err(e), Ok((n, q)) => match rep_ElementValue(n as int, Seq::<ElementValue>::empty(), d, q) { Err(e) => Err(e), Ok((v, q2)) => Ok((ElementValue::Array(mkv(v)), q2)) } },
        _ => Err(Error::InvalidElementValue(tag)) }''', dec='c.room, 0int, 0int')
for n, V in [('byte', 'Byte'), ('char', 'Char'), ('double', 'Double'), ('float', 'Float'), ('int', 'Int'), ('long', 'Long'), ('short', 'Short'), ('boolean', 'Boolean'), ('string', 'String'), ('class', 'Class')]:
    G('ev_' + n, 'ElementValue', 'i <- u16; = ElementValue::%s(i)' % V)
G('ev_enum', 'ElementValue', 'type_name <- u16; const_name <- u16; = ElementValue::Enum { type_name, const_name }')

# 4.7.20 type annotations
G('type_annotations', 'Vec<TypeAnnotation>', 'n <- u16; v <- n * TypeAnnotation; = mkv(v)')
G('type_annotation', 'TypeAnnotation', 'target_type <- target_type; target_path <- type_path; annotation <- annotation; = TypeAnnotation { target_type, target_path, annotation }')
G('target_type', 'TargetType', '''
    t <- u8;
    : match t {
        0x00u8 => s_t_param_class(c, p), 0x01u8 => s_t_param_method(c, p), 0x10u8 => s_t_super(c, p),
        0x11u8 => s_t_bound_class(c, p), 0x12u8 => s_t_bound_method(c, p),
        0x13u8 => Ok((TargetType::EmptyField, p)), 0x14u8 => Ok((TargetType::EmptyReturn, p)), 0x15u8 => Ok((TargetType::EmptyReceiver, p)),
        0x16u8 => s_t_formal(c, p), 0x17u8 => s_t_throws(c, p), 0x40u8 => s_t_local(c, p), 0x41u8 => s_t_resource(c, p), 0x42u8 => s_t_catch(c, p),
        0x43u8 => s_t_instanceof(c, p), 0x44u8 => s_t_new(c, p), 0x45u8 => s_t_new_ref(c, p), 0x46u8 => s_t_ref(c, p),
        0x47u8 => s_t_cast(c, p), 0x48u8 => s_t_arg_ctor(c, p), 0x49u8 => s_t_arg_method(c, p), 0x4Au8 => s_t_arg_new_ref(c, p), 0x4Bu8 => s_t_arg_ref(c, p),
        _ => Err(Error::InvalidTargetType) }''')
for n, V, k in [('param_class', 'TypeParameterClass', 'u8'), ('param_method', 'TypeParameterMethod', 'u8'), ('super', 'SuperType', 'u16'), ('formal', 'FormalParameter', 'u8'),
                ('throws', 'Throws', 'u16'), ('catch', 'Catch', 'u16'), ('instanceof', 'OffsetInstanceOf', 'u16'), ('new', 'OffsetNew', 'u16'), ('new_ref', 'OffsetNewRef', 'u16'), ('ref', 'OffsetRef', 'u16'),
                ('local', 'LocalVariable', 'localvar_table'), ('resource', 'ResourceVariable', 'localvar_table')]:
    G('t_' + n, 'TargetType', 'v <- %s; = TargetType::%s(v)' % (k, V))
for n, V in [('bound_class', 'TypeParameterBoundClass'), ('bound_method', 'TypeParameterBoundMethod')]:
    G('t_' + n, 'TargetType', 'type_parameter <- u8; bound_index <- u8; = TargetType::%s { type_parameter, bound_index }' % V)
for n, V in [('cast', 'TypeArgumentCast'), ('arg_ctor', 'TypeArgumentConstructor'), ('arg_method', 'TypeArgumentMethod'), ('arg_new_ref', 'TypeArgumentNewRef'), ('arg_ref', 'TypeArgumentRef')]:
    G('t_' + n, 'TargetType', 'offset <- u16; type_argument <- u8; = TargetType::%s { offset, type_argument }' % V)
G('local_variable_target', 'LocalVariableTarget', 'start <- u16; length <- u16; index <- u16; = LocalVariableTarget { start, length, index }')
G('localvar_table', 'Vec<LocalVariableTarget>', 'n <- u16; v <- n * LocalVariableTarget; = mkv(v)')
G('type_path', 'Vec<TypePathElement>', 'n <- u8; v <- n * TypePathElement; = mkv(v)')
G('path_kind', 'TypePathKind', '''k <- u8;
    : match k { 0u8 => Ok((TypePathKind::ArrayType, p)), 1u8 => Ok((TypePathKind::NestedType, p)), 2u8 => Ok((TypePathKind::WildcardType, p)), 3u8 => Ok((TypePathKind::Type, p)),
        _ => Err(Error::InvalidTypePath) }''')
G('type_path_element', 'TypePathElement', 'path_kind <- path_kind; argument_index <- u8; = TypePathElement { path_kind, argument_index }')

# --- chapter 6: instructions ------------------------------------------------------
# opcode: (variant, operand rule). Mnemonics in the order of JVMS 6.5 / 7.
I = {}
def op(first, names, operand=''):
    for k, n in enumerate(names.split()):
        assert first + k not in I, hex(first + k)
        I[first + k] = (n, operand)
op(0x00, 'NOP AConstNull IConstM1 IConst0 IConst1 IConst2 IConst3 IConst4 IConst5 LConst0 LConst1 FConst0 FConst1 FConst2 DConst0 DConst1')
op(0x10, 'BIPush', 'i8'); op(0x11, 'SIPush', 'i16')
op(0x12, 'LDC', 'u8w'); op(0x13, 'LDC LDC', 'u16')
op(0x15, 'ILoad LLoad FLoad DLoad ALoad', 'u8w')
op(0x1A, 'ILoad0 ILoad1 ILoad2 ILoad3 LLoad0 LLoad1 LLoad2 LLoad3 FLoad0 FLoad1 FLoad2 FLoad3 DLoad0 DLoad1 DLoad2 DLoad3 ALoad0 ALoad1 ALoad2 ALoad3')
op(0x2E, 'IALoad LALoad FALoad DALoad AALoad BALoad CALoad SALoad')
op(0x36, 'IStore LStore FStore DStore AStore', 'u8w')
op(0x3B, 'IStore0 IStore1 IStore2 IStore3 LStore0 LStore1 LStore2 LStore3 FStore0 FStore1 FStore2 FStore3 DStore0 DStore1 DStore2 DStore3 AStore0 AStore1 AStore2 AStore3')
op(0x4F, 'IAStore LAStore FAStore DAStore AAStore BAStore CAStore SAStore')
op(0x57, 'Pop Pop2 Dup DupX1 DupX2 Dup2 Dup2X1 Dup2X2 Swap')
op(0x60, 'IAdd LAdd FAdd DAdd ISub LSub FSub DSub IMul LMul FMul DMul IDiv LDiv FDiv DDiv IRem LRem FRem DRem INeg LNeg FNeg DNeg')
op(0x78, 'IShL LShL IShR LShR IUShR LUShR IAnd LAnd IOr LOr IXOr LXOr')
op(0x84, 'IInc', 'iinc')
op(0x85, 'I2L I2F I2D L2I L2F L2D F2I F2L F2D D2I D2L D2F I2B I2C I2S')
op(0x94, 'LCmp FCmpL FCmpG DCmpL DCmpG')
op(0x99, 'IfEq IfNE IfLT IfGE IfGT IfLE IfICmpEq IfICmpNE IfICmpLT IfICmpGE IfICmpGT IfICmpLE IfACmpEq IfACmpNE', 'i16')
op(0xA7, 'GoTo JSR', 'i16w'); op(0xA9, 'Ret', 'u8w')
op(0xAA, 'TableSwitch', 'tableswitch'); op(0xAB, 'LookupSwitch', 'lookupswitch')
op(0xAC, 'IReturn LReturn FReturn DReturn AReturn Return')
op(0xB2, 'GetStatic PutStatic GetField PutField InvokeVirtual InvokeSpecial InvokeStatic', 'u16')
op(0xB9, 'InvokeInterface', 'invokeinterface'); op(0xBA, 'InvokeDynamic', 'invokedynamic')
op(0xBB, 'New', 'u16'); op(0xBC, 'NewArray', 'newarray'); op(0xBD, 'ANewArray', 'u16')
op(0xBE, 'ArrayLength AThrow'); op(0xC0, 'CheckCast InstanceOf', 'u16'); op(0xC2, 'MonitorEnter MonitorExit')
op(0xC4, 'wide', 'wide'); op(0xC5, 'MultiANewArray', 'multianewarray')
op(0xC6, 'IfNull IfNonNull', 'i16'); op(0xC8, 'GoTo JSR', 'i32')
op(0xCA, 'BreakPoint'); op(0xFE, 'ImpDep1 ImpDep2')

ONE = {'i8': ('i8', 'x'), 'i16': ('i16', 'x'), 'u16': ('u16', 'x'), 'u8w': ('u8', 'x as u16'), 'i16w': ('i16', 'x as i32'), 'i32': ('i32', 'x')}
def insn_arms():
    out = []
    for o in sorted(I):
        v, k = I[o]
        if k == '': e = 'Ok((Instruction::%s, p))' % v
        elif k in ONE: e = 'match s_%s(c, p) { Err(e) => Err(e), Ok((x, q)) => Ok((Instruction::%s(%s), q)) }' % (ONE[k][0], v, ONE[k][1])
        elif k in ('tableswitch', 'lookupswitch', 'newarray', 'wide'): e = 's_i_%s(c, p, at)' % k
        else: e = 's_i_%s(c, p)' % k
        out.append('0x%02Xu8 => %s,' % (o, e))
    return '\n        '.join(out)
G('insn', 'Instruction', 'o <- u8; : match o {\n        ' + insn_arms() + '\n        _ => Err(Error::InvalidInstruction { op_code: o, at }) }', args='at: u32')
G('i_iinc', 'Instruction', 'i <- u8; v <- i8; = Instruction::IInc(i as u16, v as i16)')
# padding to a multiple of four from the start of the code
G('pad', '()', 'check p + (3 - at % 4) <= c.l else Error::LimitExceeded; : Ok(((), p + (3 - at % 4)))', args='at: u32')
G('i_tableswitch', 'Instruction', '''
    _ <- pad(at); default <- i32; low <- i32; high <- i32;
    check low <= high else Error::InvalidInstruction { op_code: 0xAAu8, at };
    v <- (high - low + 1) * i32;
    = Instruction::TableSwitch { default, low, high, offsets: mkv(v) }''', args='at: u32')
G('i_lookupswitch', 'Instruction', '''
    _ <- pad(at); default <- i32; n <- u32;
    m <- switch_pairs(n as int, Map::<i32, i32>::empty());
    = Instruction::LookupSwitch { default, offsets: mkbm(m) }''', args='at: u32')
G('skip', '()', 'check p + n <= c.l else Error::LimitExceeded; : Ok(((), p + n))', args='n: int')
G('i_invokeinterface', 'Instruction', 'i <- u16; n <- u8; _ <- skip(1); = Instruction::InvokeInterface(i, n)')
G('i_invokedynamic', 'Instruction', 'i <- u16; _ <- skip(2); = Instruction::InvokeDynamic(i)')
G('i_multianewarray', 'Instruction', 'i <- u16; n <- u8; = Instruction::MultiANewArray(i, n)')
G('i_newarray', 'Instruction', '''t <- u8;
    : match t { 4u8 => Ok((Instruction::NewArray(ArrayType::Boolean), p)), 5u8 => Ok((Instruction::NewArray(ArrayType::Char), p)),
        6u8 => Ok((Instruction::NewArray(ArrayType::Float), p)), 7u8 => Ok((Instruction::NewArray(ArrayType::Double), p)),
        8u8 => Ok((Instruction::NewArray(ArrayType::Byte), p)), 9u8 => Ok((Instruction::NewArray(ArrayType::Short), p)),
        10u8 => Ok((Instruction::NewArray(ArrayType::Int), p)), 11u8 => Ok((Instruction::NewArray(ArrayType::Long), p)),
        _ => Err(Error::InvalidInstruction { op_code: 0xBCu8, at }) }''', args='at: u32')
def wide_arms():
    return '\n        '.join('0x%02Xu8 => match s_u16(c, p) { Err(e) => Err(e), Ok((x, q)) => Ok((Instruction::%s(x), q)) },' % (o, I[o][0])
        for o in (0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3A, 0xA9))
G('i_wide', 'Instruction', 'o <- u8; : match o {\n        ' + wide_arms() + '''
        0x84u8 => s_i_wide_iinc(c, p),
        _ => Err(Error::InvalidInstruction { op_code: 0xC4u8, at }) }''', args='at: u32')
G('i_wide_iinc', 'Instruction', 'i <- u16; v <- i16; = Instruction::IInc(i, v)')

def spec_text():
    out = []
    for name, ty, args, body, dec in RULES:
        if name in INLINE: continue
        out.append('pub open spec fn s_%s(c: Ctx, p: int%s) -> SR<%s>%s {\n    %s\n}' % (
            name, ', ' + args if args else '', ty, '\n    decreases %s' % dec if dec else '', body))
    for T, (elem, rule, rank) in TABS.items():
        dec = ('c.room, %sint, n' % rank) if rank else 'n'
        out.append('''pub open spec fn rep_%s(n: int, acc: Seq<%s>, c: Ctx, p: int) -> SR<Seq<%s>>
    decreases %s
{
    if n <= 0 { Ok((acc, p)) } else { match %s { Err(e) => Err(e), Ok((x, q)) => rep_%s(n - 1, acc.push(x), c, q) } }
}
impl Tab for Seq<%s> { open spec fn rep(n: int, acc: Self, c: Ctx, p: int) -> SR<Self> { rep_%s(n, acc, c, p) } }''' % (T, elem, elem, dec, ('({ %s })' % [b for nm, _, _, b, _ in RULES if nm == rule][0]) if rule in INLINE else 's_%s(c, p)' % rule, T, elem, T))
    # unfolding lemmas for the cycle attributes - attribute - Code - attributes
    body = {nm: b for nm, _, _, b, _ in RULES}
    cyc = ('s_attributes', 's_attribute', 's_code', 'rep_Attribute')
    out = [re.sub(r'^pub open spec fn (s_attributes|s_attribute|s_code|rep_Attribute)\(', lambda m: '#[verifier::opaque]\n' + m.group(0), o) for o in out]
    rev = ' '.join('reveal(%s);' % x for x in cyc)
    lem = []
    for nm in ('attributes', 'attribute', 'code'):
        lem.append('pub broadcast proof fn unfold_%s(c: Ctx, p: int) ensures #[trigger] s_%s(c, p) == ({ %s }) { %s }' % (nm, nm, body[nm], rev))
    A = 'n: int, acc: Seq<Attribute>, c: Ctx, p: int'
    lem.append('#[verifier::opaque]\npub open spec fn rest_Attribute(%s) -> SR<Seq<Attribute>> { rep_Attribute(n, acc, c, p) }' % A)
    lem.append('pub broadcast proof fn unfold_rep(%s) ensures #[trigger] rep_Attribute(n, acc, c, p) == (if n <= 0 { Ok((acc, p)) } else { match s_attribute(c, p) { Err(e) => Err(e), Ok((x, q)) => rest_Attribute(n - 1, acc.push(x), c, q) } }) { reveal(rest_Attribute); %s }' % (A, rev))
    lem.append('pub broadcast proof fn fold_rest(%s) ensures #[trigger] rep_Attribute(n, acc, c, p) == rest_Attribute(n, acc, c, p) { reveal(rest_Attribute); }' % A)
    lem.append('pub broadcast proof fn no_code(c: Ctx, p: int, at: u32) ensures c.l <= p ==> #[trigger] s_insn(c, p, at) == SR::<Instruction>::Err(Error::LimitExceeded) { reveal(s_insn); }')
    out.append('pub mod cycle {\nuse super::*;\n' + '\n'.join(lem) + '\npub broadcast group in_attributes { unfold_attributes, unfold_attribute, unfold_rep, fold_rest }\n}')
    return '\n'.join(out)
