//! Classes as text, so that two of them can be compared: hash maps in order, floats and flags by their bits.
use jbcrs::basic::*;
use std::collections::BTreeMap;
use std::fmt::Write;

pub fn attrs(o: &mut String, list: &[Attribute]) {
    o.push('[');
    for a in list {
        attr(o, a);
        o.push_str(", ");
    }
    o.push(']');
}
fn list<T>(o: &mut String, l: &[T], f: impl Fn(&mut String, &T)) {
    o.push('[');
    for x in l {
        f(o, x);
        o.push_str(", ");
    }
    o.push(']');
}
fn attr(o: &mut String, a: &Attribute) {
    use Attribute::*;
    match *a {
        Code { max_stack, max_locals, ref instructions, ref exceptions, ref attributes } => {
            let m: BTreeMap<u32, &Instruction> = instructions.iter().map(|(k, v)| (*k, v)).collect();
            let _ = write!(o, "Code {{ max_stack: {}, max_locals: {}, instructions: {:?}, exceptions: {:?}, attributes: ", max_stack, max_locals, m, exceptions);
            attrs(o, attributes);
            o.push('}');
        }
        InnerClasses(ref v) => {
            o.push_str("InnerClasses");
            list(o, v, |o, c| {
                let _ = write!(o, "({}, {}, {}, flags {:#x})", c.inner_class_info, c.outer_class_info, c.inner_name, c.inner_class_access_flags.bits());
            })
        }
        MethodParameters(ref v) => {
            o.push_str("MethodParameters");
            list(o, v, |o, c| {
                let _ = write!(o, "({}, flags {:#x})", c.name, c.access_flags.bits());
            })
        }
        Module { name, flags, version, ref requires, ref exports, ref opens, ref uses, ref provides } => {
            let _ = write!(o, "Module {{ name: {}, flags: {:#x}, version: {}, requires: ", name, flags.bits(), version);
            list(o, requires, |o, r| {
                let _ = write!(o, "({}, flags {:#x}, {})", r.index, r.flags.bits(), r.version);
            });
            o.push_str(" exports: ");
            list(o, exports, |o, r| {
                let _ = write!(o, "({}, flags {:#x}, {:?})", r.index, r.flags.bits(), r.to);
            });
            o.push_str(" opens: ");
            list(o, opens, |o, r| {
                let _ = write!(o, "({}, flags {:#x}, {:?})", r.index, r.flags.bits(), r.to);
            });
            let _ = write!(o, " uses: {:?} provides: ", uses);
            list(o, provides, |o, r| {
                let _ = write!(o, "({}, {:?})", r.index, r.with);
            });
            o.push('}');
        }
        ref x => {
            let _ = write!(o, "{:?}", x);
        }
    }
}
pub fn class(c: &Class) -> String {
    let mut o = String::new();
    let _ = write!(o, "Class {{ version: {}.{}, flags: {:#x}, name: {}, super: {}, interfaces: {:?},\n fields: ", c.major_version, c.minor_version, c.access_flags.bits(), c.name, c.super_name, c.interfaces);
    list(&mut o, &c.fields, |o, f| {
        let _ = write!(o, "field {{ flags: {:#x}, name: {}, desc: {}, attributes: ", f.access_flags.bits(), f.name, f.desc);
        attrs(o, &f.attributes);
        o.push('}');
    });
    o.push_str("\n methods: ");
    list(&mut o, &c.methods, |o, f| {
        let _ = write!(o, "method {{ flags: {:#x}, name: {}, desc: {}, attributes: ", f.access_flags.bits(), f.name, f.desc);
        attrs(o, &f.attributes);
        o.push('}');
    });
    o.push_str("\n attributes: ");
    attrs(&mut o, &c.attributes);
    o.push('}');
    o
}
