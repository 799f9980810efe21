//! Reference reader of class files, written from JVMS chapters 4 and 6.
//! It is used only to replay a failed proof obligation on the real code:
//! it says what a byte string should give.
use jbcrs::basic::*;
use std::collections::{BTreeMap, HashMap};

/// The error of the first offending place.
#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    NotAClass,
    Length,
    Utf8,
    Constant(u16),
    PoolFull,
    Insn(u8, u32),
    Frame(u8),
    Verification(u8),
    Element(u8),
    Target,
    Path,
}
pub type R<T> = std::result::Result<T, Bad>;

pub struct ModelClass {
    pub pool: Vec<Option<Item>>, // slot 0 is index 0
    pub class: Class,
}

/// The text of a constant, floats by their bits.
pub fn item_text(i: &Item) -> String {
    match *i {
        Item::Float(f) => format!("Float({:08x})", f.to_bits()),
        Item::Double(f) => format!("Double({:016x})", f.to_bits()),
        ref o => format!("{:?}", o),
    }
}

#[derive(Clone, Copy)]
struct S<'a> {
    b: &'a [u8],
    p: usize,
    end: usize,
    room: u32,
}

pub fn flags(w: u16) -> AccessFlags {
    // all sixteen bits, whatever the library defines
    unsafe { AccessFlags::from_bits_unchecked(w) }
}

impl<'a> S<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.end - self.p {
            return Err(Bad::Length);
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u1(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u2(&mut self) -> R<u16> {
        let s = self.take(2)?;
        Ok(s[0] as u16 * 256 + s[1] as u16)
    }
    fn u4(&mut self) -> R<u32> {
        let s = self.take(4)?;
        Ok(s.iter().fold(0u32, |a, &x| a * 256 + x as u32))
    }
    fn u8_(&mut self) -> R<u64> {
        let s = self.take(8)?;
        Ok(s.iter().fold(0u64, |a, &x| a * 256 + x as u64))
    }
    fn i1(&mut self) -> R<i64> {
        let v = self.u1()? as i64;
        Ok(if v < 128 { v } else { v - 256 })
    }
    fn i2(&mut self) -> R<i64> {
        let v = self.u2()? as i64;
        Ok(if v < 32768 { v } else { v - 65536 })
    }
    fn i4(&mut self) -> R<i64> {
        let v = self.u4()? as i64;
        Ok(if v < 1 << 31 { v } else { v - (1 << 32) })
    }
    fn table<T>(&mut self, n: usize, mut f: impl FnMut(&mut S<'a>) -> R<T>) -> R<Vec<T>> {
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(f(self)?);
        }
        Ok(v)
    }
    fn u2s(&mut self) -> R<Vec<u16>> {
        let n = self.u2()? as usize;
        self.table(n, |s| s.u2())
    }
    fn cont(&mut self) -> R<u32> {
        let v = self.u1()? as u32;
        if (128..192).contains(&v) {
            Ok(v - 128)
        } else {
            Err(Bad::Utf8)
        }
    }
    fn text(&mut self, n: usize) -> R<String> {
        let mut out = String::new();
        let mut left = n;
        while left > 0 {
            let start = self.p;
            let x = self.u1()? as u32;
            let u = if x >= 1 && x <= 127 {
                x
            } else if x / 32 == 6 && left >= 2 {
                (x % 32) * 64 + self.cont()?
            } else if x / 16 == 14 && left >= 3 {
                let y = self.cont()?;
                let z = self.cont()?;
                let u = (x % 16) * 4096 + y * 64 + z;
                if (0xD800..0xDC00).contains(&u) {
                    if left < 6 {
                        return Err(Bad::Utf8);
                    }
                    let x = self.u1()? as i64;
                    let y = self.cont()? as i64;
                    let z = self.cont()? as i64;
                    let low = (x - 224) * 4096 + y * 64 + z;
                    if !(0xDC00..0xE000).contains(&low) {
                        return Err(Bad::Utf8);
                    }
                    0x10000 + (u - 0xD800) * 1024 + (low as u32 - 0xDC00)
                } else {
                    u
                }
            } else {
                return Err(Bad::Utf8);
            };
            out.push(char::from_u32(u).ok_or(Bad::Utf8)?);
            left -= self.p - start;
        }
        Ok(out)
    }
}

pub fn class(b: &[u8]) -> R<(ModelClass, usize)> {
    let mut s = S { b, p: 0, end: b.len(), room: 64 };
    if s.take(4)? != [0xCA, 0xFE, 0xBA, 0xBE] {
        return Err(Bad::NotAClass);
    }
    let minor_version = s.u2()?;
    let major_version = s.u2()?;
    let pool = pool(&mut s)?;
    let access_flags = flags(s.u2()?);
    let name = s.u2()?;
    let super_name = s.u2()?;
    let interfaces = s.u2s()?;
    let n = s.u2()? as usize;
    let fields = s.table(n, |s| {
        Ok(Field { access_flags: flags(s.u2()?), name: s.u2()?, desc: s.u2()?, attributes: attributes(s, &pool)? })
    })?;
    let n = s.u2()? as usize;
    let methods = s.table(n, |s| {
        Ok(Method { access_flags: flags(s.u2()?), name: s.u2()?, desc: s.u2()?, attributes: attributes(s, &pool)? })
    })?;
    let attributes = attributes(&mut s, &pool)?;
    let class = Class { minor_version, major_version, access_flags, name, super_name, interfaces, fields, methods, attributes };
    Ok((ModelClass { pool, class }, s.p))
}

fn pool(s: &mut S) -> R<Vec<Option<Item>>> {
    let count = s.u2()? as usize;
    let mut v: Vec<Option<Item>> = vec![None];
    while v.len() < count {
        let at = v.len() as u16;
        let tag = s.u1()?;
        let item = match tag {
            1 => {
                let n = s.u2()? as usize;
                Item::UTF8(s.text(n)?)
            }
            3 => Item::Integer(s.i4()? as i32),
            4 => Item::Float(f32::from_bits(s.u4()?)),
            5 => Item::Long(s.u8_()? as i64),
            6 => Item::Double(f64::from_bits(s.u8_()?)),
            7 => Item::Class(s.u2()?),
            8 => Item::String(s.u2()?),
            9 => Item::FieldRef { class: s.u2()?, name_and_type: s.u2()? },
            10 => Item::MethodRef { class: s.u2()?, name_and_type: s.u2()? },
            11 => Item::InterfaceMethodRef { class: s.u2()?, name_and_type: s.u2()? },
            12 => Item::NameAndType { name: s.u2()?, desc: s.u2()? },
            15 => {
                let k = s.u1()?;
                use ReferenceKind::*;
                let kind = match k {
                    1 => GetField,
                    2 => GetStatic,
                    3 => PutField,
                    4 => PutStatic,
                    5 => InvokeVirtual,
                    6 => InvokeStatic,
                    7 => InvokeSpecial,
                    8 => NewInvokeSpecial,
                    9 => InvokeInterface,
                    _ => return Err(Bad::Constant(at)),
                };
                Item::MethodHandle { kind, index: s.u2()? }
            }
            16 => Item::MethodType(s.u2()?),
            18 => Item::InvokeDynamic { bootstrap_method_attribute: s.u2()?, name_and_type: s.u2()? },
            19 => Item::Module(s.u2()?),
            20 => Item::Package(s.u2()?),
            _ => return Err(Bad::Constant(at)),
        };
        let wide = tag == 5 || tag == 6;
        if wide && v.len() + 2 > count {
            return Err(if v.len() + 2 > 65535 { Bad::PoolFull } else { Bad::Constant(at) });
        }
        v.push(Some(item));
        if wide {
            v.push(None);
        }
    }
    Ok(v)
}

fn attributes(s: &mut S, pool: &[Option<Item>]) -> R<Vec<Attribute>> {
    let n = s.u2()? as usize;
    s.table(n, |s| attribute(s, pool))
}

fn attribute(s: &mut S, pool: &[Option<Item>]) -> R<Attribute> {
    use Attribute::*;
    let name_index = s.u2()?;
    let name = match pool.get(name_index as usize) {
        Some(Some(Item::UTF8(t))) => t.clone(),
        _ => return Err(Bad::Constant(name_index)),
    };
    let length = s.u4()? as usize;
    if length > s.end - s.p || s.room == 0 {
        return Err(Bad::Length);
    }
    let mut d = S { b: s.b, p: s.p, end: s.p + length, room: s.room - 1 };
    let d_ = &mut d;
    let a = match &name[..] {
        "AnnotationDefault" => AnnotationDefault(element(d_)?),
        "BootstrapMethods" => {
            let n = d_.u2()? as usize;
            BootstrapMethods(d_.table(n, |s| Ok(BootstrapMethod { method_ref: s.u2()?, arguments: s.u2s()? }))?)
        }
        "Code" => code(d_, pool)?,
        "ConstantValue" => ConstantValue(d_.u2()?),
        "Deprecated" => Deprecated,
        "EnclosingMethod" => EnclosingMethod { class_index: d_.u2()?, method_index: d_.u2()? },
        "Exceptions" => Exceptions(d_.u2s()?),
        "InnerClasses" => {
            let n = d_.u2()? as usize;
            InnerClasses(d_.table(n, |s| {
                Ok(InnerClass { inner_class_info: s.u2()?, outer_class_info: s.u2()?, inner_name: s.u2()?, inner_class_access_flags: flags(s.u2()?) })
            })?)
        }
        "LineNumberTable" => {
            let n = d_.u2()? as usize;
            LineNumberTable(d_.table(n, |s| Ok(LineNumber { start: s.u2()?, line_number: s.u2()? }))?)
        }
        "LocalVariableTable" => {
            let n = d_.u2()? as usize;
            LocalVariableTable(d_.table(n, |s| Ok(LocalVariable { start: s.u2()?, length: s.u2()?, name: s.u2()?, descriptor: s.u2()?, index: s.u2()? }))?)
        }
        "LocalVariableTypeTable" => {
            let n = d_.u2()? as usize;
            LocalVariableTypeTable(d_.table(n, |s| Ok(LocalVariableType { start: s.u2()?, length: s.u2()?, name: s.u2()?, signature: s.u2()?, index: s.u2()? }))?)
        }
        "MethodParameters" => {
            let n = d_.u1()? as usize;
            MethodParameters(d_.table(n, |s| Ok(MethodParameter { name: s.u2()?, access_flags: flags(s.u2()?) }))?)
        }
        "Module" => {
            let name = d_.u2()?;
            let fl = flags(d_.u2()?);
            let version = d_.u2()?;
            let n = d_.u2()? as usize;
            let requires = d_.table(n, |s| Ok(Requirement { index: s.u2()?, flags: flags(s.u2()?), version: s.u2()? }))?;
            let n = d_.u2()? as usize;
            let exports = d_.table(n, |s| Ok(Export { index: s.u2()?, flags: flags(s.u2()?), to: s.u2s()? }))?;
            let n = d_.u2()? as usize;
            let opens = d_.table(n, |s| Ok(Opening { index: s.u2()?, flags: flags(s.u2()?), to: s.u2s()? }))?;
            let uses = d_.u2s()?;
            let n = d_.u2()? as usize;
            let provides = d_.table(n, |s| Ok(Provider { index: s.u2()?, with: s.u2s()? }))?;
            Module { name, flags: fl, version, requires, exports, opens, uses, provides }
        }
        "ModuleMainClass" => ModuleMainClass(d_.u2()?),
        "ModulePackages" => ModulePackages(d_.u2s()?),
        "RuntimeVisibleAnnotations" => RuntimeVisibleAnnotations(annotations(d_)?),
        "RuntimeInvisibleAnnotations" => RuntimeInvisibleAnnotations(annotations(d_)?),
        "RuntimeVisibleParameterAnnotations" => {
            let n = d_.u1()? as usize;
            RuntimeVisibleParameterAnnotations(d_.table(n, annotations)?)
        }
        "RuntimeInvisibleParameterAnnotations" => {
            let n = d_.u1()? as usize;
            RuntimeInvisibleParameterAnnotations(d_.table(n, annotations)?)
        }
        "RuntimeVisibleTypeAnnotations" => RuntimeVisibleTypeAnnotations(type_annotations(d_)?),
        "RuntimeInvisibleTypeAnnotations" => RuntimeInvisibleTypeAnnotations(type_annotations(d_)?),
        "SourceFile" => SourceFile(d_.u2()?),
        "Signature" => Signature(d_.u2()?),
        "SourceDebugExtension" => SourceDebugExtension(d_.text(length)?),
        "StackMapTable" => {
            let n = d_.u2()? as usize;
            StackMapTable(d_.table(n, frame)?)
        }
        "Synthetic" => Synthetic,
        _ => Unknown(name_index, d_.take(length)?.to_vec()),
    };
    if d.p != d.end {
        return Err(Bad::Length);
    }
    s.p = d.p;
    Ok(a)
}

fn annotations(s: &mut S) -> R<Vec<Annotation>> {
    let n = s.u2()? as usize;
    s.table(n, annotation)
}
fn annotation(s: &mut S) -> R<Annotation> {
    let type_index = s.u2()?;
    let n = s.u2()? as usize;
    let element_value_pairs = s.table(n, |s| Ok((s.u2()?, element(s)?)))?;
    Ok(Annotation { type_index, element_value_pairs })
}
fn element(s: &mut S) -> R<ElementValue> {
    use ElementValue::*;
    if s.room == 0 {
        return Err(Bad::Length);
    }
    s.room -= 1;
    let tag = s.u1()?;
    let v = match tag as char {
        'B' => Byte(s.u2()?),
        'C' => Char(s.u2()?),
        'D' => Double(s.u2()?),
        'F' => Float(s.u2()?),
        'I' => Int(s.u2()?),
        'J' => Long(s.u2()?),
        'S' => Short(s.u2()?),
        'Z' => Boolean(s.u2()?),
        's' => String(s.u2()?),
        'e' => Enum { type_name: s.u2()?, const_name: s.u2()? },
        'c' => Class(s.u2()?),
        '@' => Annotation(Box::new(annotation(s)?)),
        '[' => {
            let n = s.u2()? as usize;
            Array(s.table(n, element)?)
        }
        _ => return Err(Bad::Element(tag)),
    };
    s.room += 1;
    Ok(v)
}
fn type_annotations(s: &mut S) -> R<Vec<TypeAnnotation>> {
    let n = s.u2()? as usize;
    s.table(n, |s| {
        use TargetType::*;
        let t = s.u1()?;
        let locals = |s: &mut S| {
            let n = s.u2()? as usize;
            s.table(n, |s| Ok(LocalVariableTarget { start: s.u2()?, length: s.u2()?, index: s.u2()? }))
        };
        let target_type = match t {
            0x00 => TypeParameterClass(s.u1()?),
            0x01 => TypeParameterMethod(s.u1()?),
            0x10 => SuperType(s.u2()?),
            0x11 => TypeParameterBoundClass { type_parameter: s.u1()?, bound_index: s.u1()? },
            0x12 => TypeParameterBoundMethod { type_parameter: s.u1()?, bound_index: s.u1()? },
            0x13 => EmptyField,
            0x14 => EmptyReturn,
            0x15 => EmptyReceiver,
            0x16 => FormalParameter(s.u1()?),
            0x17 => Throws(s.u2()?),
            0x40 => LocalVariable(locals(s)?),
            0x41 => ResourceVariable(locals(s)?),
            0x42 => Catch(s.u2()?),
            0x43 => OffsetInstanceOf(s.u2()?),
            0x44 => OffsetNew(s.u2()?),
            0x45 => OffsetNewRef(s.u2()?),
            0x46 => OffsetRef(s.u2()?),
            0x47 => TypeArgumentCast { offset: s.u2()?, type_argument: s.u1()? },
            0x48 => TypeArgumentConstructor { offset: s.u2()?, type_argument: s.u1()? },
            0x49 => TypeArgumentMethod { offset: s.u2()?, type_argument: s.u1()? },
            0x4A => TypeArgumentNewRef { offset: s.u2()?, type_argument: s.u1()? },
            0x4B => TypeArgumentRef { offset: s.u2()?, type_argument: s.u1()? },
            _ => return Err(Bad::Target),
        };
        let n = s.u1()? as usize;
        let target_path = s.table(n, |s| {
            let path_kind = match s.u1()? {
                0 => TypePathKind::ArrayType,
                1 => TypePathKind::NestedType,
                2 => TypePathKind::WildcardType,
                3 => TypePathKind::Type,
                _ => return Err(Bad::Path),
            };
            Ok(TypePathElement { path_kind, argument_index: s.u1()? })
        })?;
        Ok(TypeAnnotation { target_type, target_path, annotation: annotation(s)? })
    })
}
fn verification(s: &mut S) -> R<VerificationType> {
    use VerificationType::*;
    Ok(match s.u1()? {
        0 => Top,
        1 => Integer,
        2 => Float,
        3 => Double,
        4 => Long,
        5 => Null,
        6 => UninitializedThis,
        7 => Object(s.u2()?),
        8 => Uninitialized(s.u2()?),
        x => return Err(Bad::Verification(x)),
    })
}
fn frame(s: &mut S) -> R<StackMapFrame> {
    use StackMapFrame::*;
    let t = s.u1()?;
    Ok(if t < 64 {
        Same { offset_delta: t as u16 }
    } else if t < 128 {
        Same1 { offset_delta: t as u16 - 64, stack: verification(s)? }
    } else if t < 247 {
        return Err(Bad::Frame(t));
    } else if t == 247 {
        Same1 { offset_delta: s.u2()?, stack: verification(s)? }
    } else if t < 251 {
        Chop { offset_delta: s.u2()?, count: 251 - t }
    } else if t == 251 {
        Same { offset_delta: s.u2()? }
    } else if t < 255 {
        let offset_delta = s.u2()?;
        Append { offset_delta, locals: s.table(t as usize - 251, verification)? }
    } else {
        let offset_delta = s.u2()?;
        let n = s.u2()? as usize;
        let locals = s.table(n, verification)?;
        let n = s.u2()? as usize;
        Full { offset_delta, locals, stack: s.table(n, verification)? }
    })
}
fn code(s: &mut S, pool: &[Option<Item>]) -> R<Attribute> {
    let max_stack = s.u2()?;
    let max_locals = s.u2()?;
    let length = s.u4()? as usize;
    if length > s.end - s.p || s.room == 0 {
        return Err(Bad::Length);
    }
    let mut d = S { b: s.b, p: s.p, end: s.p + length, room: s.room - 1 };
    let start = d.p;
    let mut instructions = HashMap::new();
    loop {
        let at = (d.p - start) as u32;
        let i = insn(&mut d, at)?;
        instructions.insert(at, i);
        if d.p == d.end {
            break;
        }
    }
    s.p = d.p;
    let n = s.u2()? as usize;
    let exceptions = s.table(n, |s| Ok(Exception { start: s.u2()?, end: s.u2()?, handler: s.u2()?, catch_type: s.u2()? }))?;
    Ok(Attribute::Code { max_stack, max_locals, instructions, exceptions, attributes: attributes(s, pool)? })
}

/// The instructions without operands, by opcode (JVMS 7).
fn plain(op: u8) -> Option<Instruction> {
    use Instruction::*;
    Some(match op {
        0x00 => NOP,
        0x01 => AConstNull,
        0x02 => IConstM1,
        0x03 => IConst0,
        0x04 => IConst1,
        0x05 => IConst2,
        0x06 => IConst3,
        0x07 => IConst4,
        0x08 => IConst5,
        0x09 => LConst0,
        0x0A => LConst1,
        0x0B => FConst0,
        0x0C => FConst1,
        0x0D => FConst2,
        0x0E => DConst0,
        0x0F => DConst1,
        0x1A => ILoad0,
        0x1B => ILoad1,
        0x1C => ILoad2,
        0x1D => ILoad3,
        0x1E => LLoad0,
        0x1F => LLoad1,
        0x20 => LLoad2,
        0x21 => LLoad3,
        0x22 => FLoad0,
        0x23 => FLoad1,
        0x24 => FLoad2,
        0x25 => FLoad3,
        0x26 => DLoad0,
        0x27 => DLoad1,
        0x28 => DLoad2,
        0x29 => DLoad3,
        0x2A => ALoad0,
        0x2B => ALoad1,
        0x2C => ALoad2,
        0x2D => ALoad3,
        0x2E => IALoad,
        0x2F => LALoad,
        0x30 => FALoad,
        0x31 => DALoad,
        0x32 => AALoad,
        0x33 => BALoad,
        0x34 => CALoad,
        0x35 => SALoad,
        0x3B => IStore0,
        0x3C => IStore1,
        0x3D => IStore2,
        0x3E => IStore3,
        0x3F => LStore0,
        0x40 => LStore1,
        0x41 => LStore2,
        0x42 => LStore3,
        0x43 => FStore0,
        0x44 => FStore1,
        0x45 => FStore2,
        0x46 => FStore3,
        0x47 => DStore0,
        0x48 => DStore1,
        0x49 => DStore2,
        0x4A => DStore3,
        0x4B => AStore0,
        0x4C => AStore1,
        0x4D => AStore2,
        0x4E => AStore3,
        0x4F => IAStore,
        0x50 => LAStore,
        0x51 => FAStore,
        0x52 => DAStore,
        0x53 => AAStore,
        0x54 => BAStore,
        0x55 => CAStore,
        0x56 => SAStore,
        0x57 => Pop,
        0x58 => Pop2,
        0x59 => Dup,
        0x5A => DupX1,
        0x5B => DupX2,
        0x5C => Dup2,
        0x5D => Dup2X1,
        0x5E => Dup2X2,
        0x5F => Swap,
        0x60 => IAdd,
        0x61 => LAdd,
        0x62 => FAdd,
        0x63 => DAdd,
        0x64 => ISub,
        0x65 => LSub,
        0x66 => FSub,
        0x67 => DSub,
        0x68 => IMul,
        0x69 => LMul,
        0x6A => FMul,
        0x6B => DMul,
        0x6C => IDiv,
        0x6D => LDiv,
        0x6E => FDiv,
        0x6F => DDiv,
        0x70 => IRem,
        0x71 => LRem,
        0x72 => FRem,
        0x73 => DRem,
        0x74 => INeg,
        0x75 => LNeg,
        0x76 => FNeg,
        0x77 => DNeg,
        0x78 => IShL,
        0x79 => LShL,
        0x7A => IShR,
        0x7B => LShR,
        0x7C => IUShR,
        0x7D => LUShR,
        0x7E => IAnd,
        0x7F => LAnd,
        0x80 => IOr,
        0x81 => LOr,
        0x82 => IXOr,
        0x83 => LXOr,
        0x85 => I2L,
        0x86 => I2F,
        0x87 => I2D,
        0x88 => L2I,
        0x89 => L2F,
        0x8A => L2D,
        0x8B => F2I,
        0x8C => F2L,
        0x8D => F2D,
        0x8E => D2I,
        0x8F => D2L,
        0x90 => D2F,
        0x91 => I2B,
        0x92 => I2C,
        0x93 => I2S,
        0x94 => LCmp,
        0x95 => FCmpL,
        0x96 => FCmpG,
        0x97 => DCmpL,
        0x98 => DCmpG,
        0xAC => IReturn,
        0xAD => LReturn,
        0xAE => FReturn,
        0xAF => DReturn,
        0xB0 => AReturn,
        0xB1 => Return,
        0xBE => ArrayLength,
        0xBF => AThrow,
        0xC2 => MonitorEnter,
        0xC3 => MonitorExit,
        0xCA => BreakPoint,
        0xFE => ImpDep1,
        0xFF => ImpDep2,
        _ => return None,
    })
}

fn insn(s: &mut S, at: u32) -> R<Instruction> {
    use Instruction::*;
    let op = s.u1()?;
    if let Some(i) = plain(op) {
        return Ok(i);
    }
    let bad = Bad::Insn(op, at);
    let pad = |s: &mut S| s.take((3 - at % 4) as usize).map(|_| ());
    Ok(match op {
        0x10 => BIPush(s.i1()? as i8),
        0x11 => SIPush(s.i2()? as i16),
        0x12 => LDC(s.u1()? as u16),
        0x13 | 0x14 => LDC(s.u2()?),
        0x15 => ILoad(s.u1()? as u16),
        0x16 => LLoad(s.u1()? as u16),
        0x17 => FLoad(s.u1()? as u16),
        0x18 => DLoad(s.u1()? as u16),
        0x19 => ALoad(s.u1()? as u16),
        0x36 => IStore(s.u1()? as u16),
        0x37 => LStore(s.u1()? as u16),
        0x38 => FStore(s.u1()? as u16),
        0x39 => DStore(s.u1()? as u16),
        0x3A => AStore(s.u1()? as u16),
        0x84 => IInc(s.u1()? as u16, s.i1()? as i16),
        0x99 => IfEq(s.i2()? as i16),
        0x9A => IfNE(s.i2()? as i16),
        0x9B => IfLT(s.i2()? as i16),
        0x9C => IfGE(s.i2()? as i16),
        0x9D => IfGT(s.i2()? as i16),
        0x9E => IfLE(s.i2()? as i16),
        0x9F => IfICmpEq(s.i2()? as i16),
        0xA0 => IfICmpNE(s.i2()? as i16),
        0xA1 => IfICmpLT(s.i2()? as i16),
        0xA2 => IfICmpGE(s.i2()? as i16),
        0xA3 => IfICmpGT(s.i2()? as i16),
        0xA4 => IfICmpLE(s.i2()? as i16),
        0xA5 => IfACmpEq(s.i2()? as i16),
        0xA6 => IfACmpNE(s.i2()? as i16),
        0xA7 => GoTo(s.i2()? as i32),
        0xA8 => JSR(s.i2()? as i32),
        0xA9 => Ret(s.u1()? as u16),
        0xAA => {
            pad(s)?;
            let default = s.i4()? as i32;
            let low = s.i4()?;
            let high = s.i4()?;
            if low > high {
                return Err(bad);
            }
            let mut offsets = std::vec::Vec::new();
            for _ in 0..high - low + 1 {
                offsets.push(s.i4()? as i32);
            }
            TableSwitch { default, low: low as i32, high: high as i32, offsets }
        }
        0xAB => {
            pad(s)?;
            let default = s.i4()? as i32;
            let n = s.u4()?;
            let mut offsets = BTreeMap::new();
            for _ in 0..n {
                let k = s.i4()? as i32;
                let v = s.i4()? as i32;
                offsets.insert(k, v);
            }
            LookupSwitch { default, offsets }
        }
        0xB2 => GetStatic(s.u2()?),
        0xB3 => PutStatic(s.u2()?),
        0xB4 => GetField(s.u2()?),
        0xB5 => PutField(s.u2()?),
        0xB6 => InvokeVirtual(s.u2()?),
        0xB7 => InvokeSpecial(s.u2()?),
        0xB8 => InvokeStatic(s.u2()?),
        0xB9 => {
            let i = s.u2()?;
            let n = s.u1()?;
            s.u1()?;
            InvokeInterface(i, n)
        }
        0xBA => {
            let i = s.u2()?;
            s.take(2)?;
            InvokeDynamic(i)
        }
        0xBB => New(s.u2()?),
        0xBC => NewArray(match s.u1()? {
            4 => ArrayType::Boolean,
            5 => ArrayType::Char,
            6 => ArrayType::Float,
            7 => ArrayType::Double,
            8 => ArrayType::Byte,
            9 => ArrayType::Short,
            10 => ArrayType::Int,
            11 => ArrayType::Long,
            _ => return Err(bad),
        }),
        0xBD => ANewArray(s.u2()?),
        0xC0 => CheckCast(s.u2()?),
        0xC1 => InstanceOf(s.u2()?),
        0xC4 => match s.u1()? {
            0x15 => ILoad(s.u2()?),
            0x16 => LLoad(s.u2()?),
            0x17 => FLoad(s.u2()?),
            0x18 => DLoad(s.u2()?),
            0x19 => ALoad(s.u2()?),
            0x36 => IStore(s.u2()?),
            0x37 => LStore(s.u2()?),
            0x38 => FStore(s.u2()?),
            0x39 => DStore(s.u2()?),
            0x3A => AStore(s.u2()?),
            0x84 => IInc(s.u2()?, s.i2()? as i16),
            0xA9 => Ret(s.u2()?),
            _ => return Err(bad),
        },
        0xC5 => MultiANewArray(s.u2()?, s.u1()?),
        0xC6 => IfNull(s.i2()? as i16),
        0xC7 => IfNonNull(s.i2()? as i16),
        0xC8 => GoTo(s.i4()? as i32),
        0xC9 => JSR(s.i4()? as i32),
        _ => return Err(bad),
    })
}
