//! Replays failed proof obligations on the real code: searches for an input on
//! which the property is broken.
//!   witness search ID SEED SECONDS OUT DICT
//!   witness replay FILE
mod gen;
mod model;
mod pools;
mod text;
mod types;
use gen::*;
use jbcrs::basic::{Attribute, Class, Pool};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

/// Remembers the biggest request, and how much is in use.
struct Meter;
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
const REFUSE: usize = 1 << 31;
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BIGGEST.fetch_max(l.size(), Relaxed);
        if l.size() >= REFUSE {
            // never serve it: the process ends, and its last input is the replay
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BIGGEST.fetch_max(n, Relaxed);
        if n >= REFUSE {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(n, Relaxed);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static METER: Meter = Meter;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

fn walk<'a>(l: &'a [Attribute], f: &mut dyn FnMut(&'a Attribute)) {
    for a in l {
        f(a);
        if let Attribute::Code { ref attributes, .. } = *a {
            walk(attributes, f)
        }
    }
}
fn all_attributes<'a>(c: &'a Class, f: &mut dyn FnMut(&'a Attribute)) {
    for m in &c.fields {
        walk(&m.attributes, f)
    }
    for m in &c.methods {
        walk(&m.attributes, f)
    }
    walk(&c.attributes, f)
}
fn kind_of(a: &Attribute) -> String {
    let s = format!("{:?}", a);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}
/// The part of a class that a property speaks about.
fn view(prop: &str, c: &Class) -> String {
    let mut o = String::new();
    let one = |a: &Attribute| {
        let mut s = String::new();
        text::attrs(&mut s, std::slice::from_ref(a));
        s
    };
    let kinds: &[&str] = match prop {
        "C05" => &["SourceDebugExtension"],
        "C07" | "C08" => &["Code"],
        "C09" => &["StackMapTable"],
        "C10" => &["AnnotationDefault", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"],
        "C11" => &["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"],
        "C13" => &["LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "Exceptions", "MethodParameters"],
        "C14" => &["BootstrapMethods", "InnerClasses", "EnclosingMethod", "ConstantValue", "Signature", "SourceFile", "SourceDebugExtension", "Deprecated", "Synthetic"],
        "C15" => &["Module", "ModulePackages", "ModuleMainClass"],
        _ => &[],
    };
    match prop {
        "C03" => {
            let shape = |n: usize| (0..n).map(|_| Attribute::Deprecated).collect::<Vec<_>>();
            let mut d = Class { minor_version: c.minor_version, major_version: c.major_version, access_flags: c.access_flags, name: c.name, super_name: c.super_name, interfaces: c.interfaces.clone(), fields: vec![], methods: vec![], attributes: shape(c.attributes.len()) };
            for f in &c.fields {
                d.fields.push(jbcrs::basic::Field { access_flags: f.access_flags, name: f.name, desc: f.desc, attributes: shape(f.attributes.len()) })
            }
            for f in &c.methods {
                d.methods.push(jbcrs::basic::Method { access_flags: f.access_flags, name: f.name, desc: f.desc, attributes: shape(f.attributes.len()) })
            }
            text::class(&d)
        }
        "C04" => o,
        "C12" => {
            all_attributes(c, &mut |a| {
                o += &kind_of(a);
                if let Attribute::Unknown(..) = *a {
                    o += &one(a)
                }
                o.push('\n')
            });
            format!("{} {:?} {:?}\n{}", c.attributes.len(), c.fields.iter().map(|f| f.attributes.len()).collect::<Vec<_>>(), c.methods.iter().map(|f| f.attributes.len()).collect::<Vec<_>>(), o)
        }
        "C23" => {
            let t = text::class(c);
            t.split("flags").skip(1).map(|s| s.trim_start_matches(':').trim_start().split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string() + " ").collect()
        }
        _ if kinds.is_empty() => text::class(c),
        _ => {
            all_attributes(c, &mut |a| {
                if kinds.contains(&&kind_of(a)[..]) {
                    o += &one(a);
                    o.push('\n')
                }
            });
            o
        }
    }
}
fn pool_text(len: usize, get: impl Fn(u16) -> Option<String>) -> String {
    let mut o = format!("length {}\n", len);
    for i in 0..(len + 2).min(65536) {
        if let Some(t) = get(i as u16) {
            o += &format!("{}: {}\n", i, t)
        }
    }
    o
}
fn real_pool(p: &Pool) -> String {
    pool_text(p.len() as usize, |i| p.get(i).ok().map(|x| model::item_text(x)))
}
fn model_pool(p: &[Option<jbcrs::basic::Item>]) -> String {
    pool_text(p.len(), |i| p.get(i as usize).and_then(|x| x.as_ref()).map(model::item_text))
}
fn error_text(e: &model::Bad) -> String {
    use model::Bad::*;
    match *e {
        NotAClass => "NotAClass".into(),
        Length => "LimitExceeded".into(),
        Utf8 => "InvalidUTF8".into(),
        Constant(i) => format!("InvalidCPItem({})", i),
        PoolFull => "CPTooLarge".into(),
        Insn(o, at) => format!("InvalidInstruction {{ op_code: {}, at: {} }}", o, at),
        Frame(x) => format!("ReservedStackMapFrame({})", x),
        Verification(x) => format!("InvalidVerificationType({})", x),
        Element(x) => format!("InvalidElementValue({})", x),
        Target => "InvalidTargetType".into(),
        Path => "InvalidTypePath".into(),
    }
}
fn cut(s: &str) -> String {
    if s.len() > 3000 { format!("{}... ({} bytes)", s.chars().take(3000).collect::<String>(), s.len()) } else { s.to_string() }
}
fn differ(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|x| x.0 == x.1).count();
    let from = k.saturating_sub(60);
    let part = |s: &str| String::from_utf8_lossy(&s.as_bytes()[from.min(s.len())..(k + 160).min(s.len())]).to_string();
    format!("expected: ...{}...\nactual:   ...{}...", part(a), part(b))
}

fn check_class(prop: &str, b: &[u8]) -> Option<String> {
    BIGGEST.store(0, Relaxed);
    let before = LIVE.load(Relaxed);
    let real = guarded(|| jbcrs::basic::parse(b));
    let live = LIVE.load(Relaxed).saturating_sub(before);
    let biggest = BIGGEST.load(Relaxed);
    let real = match real {
        Err(m) => return if prop == "C02" { None } else { Some(format!("parsing panics: {}", m)) },
        Ok(r) => r,
    };
    if prop == "C01" {
        return None;
    }
    if prop == "C16" || prop == "C17" || prop == "C18" {
        return pools::check_parsed(prop, b);
    }
    if prop == "C02" {
        // what was read completely has no room left: an element has at least one byte, and takes at most 512
        if real.is_ok() && live > (1 << 20) + 512 * b.len() {
            return Some(format!("the class read from {} bytes holds {} bytes of memory", b.len(), live));
        }
        // the largest element is that of an attribute table, or of the map of instructions
        // (a table that is filled as it is read may be twice as large as what was read)
        let read = 2 * (b.len() + 64) * 256;
        let bound = (65536 * std::mem::size_of::<Attribute>()).max(0);
        let small = b.first() == Some(&0xCA) && b.get(4) == Some(&0xEE); // marks inputs with nothing but strings or switches
        // marks inputs with a single string, of which nothing can be read
        let string = b.first() == Some(&0xCA) && b.get(4) == Some(&0xED);
        let limit = if string { b.len().max(65535) } else if small { 2 * b.len() + (2 << 20) } else { bound.max(read) };
        return if biggest > limit { Some(format!("{} bytes are reserved at once while {} bytes are read", biggest, b.len())) } else { None };
    }
    let want = model::class(b);
    match (real, want) {
        (Ok((p, c)), Ok((m, used))) => {
            if prop == "C24" {
                return None;
            }
            if prop == "C04" || prop == "C05" || prop == "C06" || prop == "C26" || prop == "ALL" {
                let (x, y) = (model_pool(&m.pool), real_pool(&p));
                if x != y {
                    return Some(format!("the constant pool differs\n{}", differ(&x, &y)));
                }
            }
            let (x, y) = (view(prop, &m.class), view(prop, &c));
            if x != y {
                return Some(format!("the class differs\n{}", differ(&x, &y)));
            }
            if prop == "C26" {
                let ks: Vec<usize> = if used < 400 { (0..used).collect() } else { (0..100).chain((0..100).map(|i| 100 + i * (used - 101) / 100)).chain(used - 60..used).collect() };
                for k in ks {
                    match guarded(|| jbcrs::basic::parse(&b[..k]).is_ok()) {
                        Ok(false) => {}
                        _ => return Some(format!("the class ends after {} bytes, but its first {} bytes are accepted", used, k)),
                    }
                }
                for tail in [&[][..], &[0], &[0xCA, 0xFE, 0xBA, 0xBE], &[0xff; 300]] {
                    let mut v = b[..used].to_vec();
                    v.extend_from_slice(tail);
                    match guarded(|| jbcrs::basic::parse(&v)) {
                        Ok(Ok((p2, c2))) if text::class(&c2) == text::class(&c) && real_pool(&p2) == real_pool(&p) => {}
                        _ => return Some(format!("the class ends after {} bytes, but the result depends on what follows", used)),
                    }
                }
            }
            None
        }
        (Err(e), Err(w)) => {
            if prop == "C24" || prop == "ALL" {
                let (x, y) = (error_text(&w), format!("{:?}", e));
                if x != y {
                    return Some(format!("the error is {}, the first offending place calls for {}", y, x));
                }
            }
            None
        }
        (Ok(_), Err(w)) => {
            if prop == "C24" || prop == "C23" {
                return None;
            }
            if prop == "C26" && !matches!(w, model::Bad::Length) {
                return None;
            }
            Some(format!("accepted, but must be rejected: {}", error_text(&w)))
        }
        (Err(e), Ok((_, used))) => {
            if prop == "C26" && used < b.len() {
                // what follows a class must not be the reason
                if let Ok(true) = guarded(|| jbcrs::basic::parse(&b[..used]).is_ok()) {
                    return Some(format!("the first {} bytes are accepted, but with what follows they are rejected with {:?}", used, e));
                }
            }
            if prop == "C23" || prop == "C26" {
                return None;
            }
            Some(format!("rejected with {:?}, but it is a class file", e))
        }
    }
}

pub fn check(prop: &str, kind: &str, b: &[u8]) -> Option<String> {
    match kind {
        "class" => check_class(prop, b),
        "pool" => pools::check_history(prop, b),
        "items" => pools::check_items(b),
        "type" => types::check_type(prop, b),
        "method" => types::check_method(prop, b),
        "flag" => check_flag(b),
        _ => None,
    }
}

fn check_flag(b: &[u8]) -> Option<String> {
    use jbcrs::basic::AccessFlags as F;
    let table: &[(&str, F, u16)] = &[
        ("PUBLIC", F::PUBLIC, 0x0001), ("PRIVATE", F::PRIVATE, 0x0002), ("PROTECTED", F::PROTECTED, 0x0004), ("STATIC", F::STATIC, 0x0008),
        ("FINAL", F::FINAL, 0x0010), ("SUPER", F::SUPER, 0x0020), ("SYNCHRONIZED", F::SYNCHRONIZED, 0x0020), ("VOLATILE", F::VOLATILE, 0x0040),
        ("BRIDGE", F::BRIDGE, 0x0040), ("STATIC_PHASE", F::STATIC_PHASE, 0x0040), ("TRANSIENT", F::TRANSIENT, 0x0080), ("VARARGS", F::VARARGS, 0x0080),
        ("NATIVE", F::NATIVE, 0x0100), ("INTERFACE", F::INTERFACE, 0x0200), ("ABSTRACT", F::ABSTRACT, 0x0400), ("STRICT", F::STRICT, 0x0800),
        ("SYNTHETIC", F::SYNTHETIC, 0x1000), ("ANNOTATION", F::ANNOTATION, 0x2000), ("ENUM", F::ENUM, 0x4000), ("MODULE", F::MODULE, 0x8000), ("MANDATED", F::MANDATED, 0x8000),
    ];
    let (n, f, w) = table[b[0] as usize % table.len()];
    if f.bits() != w { Some(format!("{} is {:#06x}, not {:#06x}", n, f.bits(), w)) } else { None }
}

// ---- the search --------------------------------------------------------------------

pub struct Search {
    pub prop: String,  // what is checked; ALL for everything
    pub about: String, // what the inputs are about
    pub rng: Rng,
    pub until: Instant,
    pub tried: usize,
    pub distinct: HashSet<u64>,
    pub out: String,
    pub found: bool,
    pub dict: Vec<u64>,
    pub words: Vec<String>,
    pub samples: Vec<String>,
    cur: std::fs::File,
    /// What was tried last, for failures that depend on it.
    before: std::collections::VecDeque<(String, Vec<u8>)>,
    held: usize,
    /// A choice of short inputs, and when to try every pair of them in a row.
    short: Vec<(String, Vec<u8>)>,
    pairs_at: usize,
}
impl Search {
    pub fn over(&self) -> bool {
        self.found || Instant::now() > self.until
    }
    pub fn case(&mut self, kind: &str, b: &[u8]) -> bool {
        if self.found {
            return true;
        }
        use std::os::unix::fs::FileExt;
        let head = format!("{:>8} {:>10}\n", kind, b.len());
        let mut all = head.into_bytes();
        all.extend_from_slice(b);
        let _ = self.cur.write_at(&all, 0);
        self.tried += 1;
        if self.distinct.len() < 2_000_000 {
            let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
            for &x in b {
                h = (h ^ x as u64).wrapping_mul(0x100000001b3);
            }
            self.distinct.insert(h);
        }
        if self.samples.len() < 3 && self.tried % 37 == 1 {
            self.samples.push(format!("{} {}", kind, cut(&hex(b))));
        }
        let prop = self.prop.clone();
        let r = match guarded(|| check(&prop, kind, b)) {
            Ok(r) => r,
            Err(m) => Some(format!("panic: {}", m)),
        };
        if let Some(why) = r {
            if let Ok(mut f) = std::fs::File::create(format!("{}.hist", self.out)) {
                let _ = write!(f, "property: {}\n", self.prop);
                for (k, b) in &self.before {
                    let _ = write!(f, "before: {} {}\n", k, hex(b));
                }
                let _ = write!(f, "kind: {}\ninput: {}\nwhat fails:\n{}\n", kind, hex(b), why);
            }
            let (b, why) = self.shrink(kind, b.to_vec(), why);
            let mut f = std::fs::File::create(&self.out).unwrap();
            let _ = write!(f, "property: {}\nkind: {}\ninput: {}\nwhat fails:\n{}\n", self.prop, kind, hex(&b), why);
            self.found = true;
            return true;
        }
        if b.len() < 4096 {
            self.held += b.len();
            self.before.push_back((kind.to_string(), b.to_vec()));
            while self.held > 1_000_000 || self.before.len() > 10_000 {
                self.held -= self.before.pop_front().map_or(0, |x| x.1.len());
            }
        }
        if b.len() < 300 && self.pairs_at > 0 {
            let n = self.tried.wrapping_mul(0x9E37_79B9_7F4A_7C15_u64 as usize) >> 20;
            if self.short.len() < 50 {
                self.short.push((kind.to_string(), b.to_vec()));
            } else if n % (self.tried / 50 + 1) == 0 {
                self.short[n / 7 % 50] = (kind.to_string(), b.to_vec());
            }
            if self.tried >= self.pairs_at {
                let (l, at) = (self.short.clone(), self.pairs_at);
                self.pairs_at = 0;
                for x in &l {
                    for y in &l {
                        if self.over() {
                            return self.found;
                        }
                        self.case(&x.0, &x.1);
                        self.case(&y.0, &y.1);
                    }
                }
                self.pairs_at = self.tried + at * 4;
            }
        }
        self.found
    }
    /// A shorter input that fails, too (tries for a few seconds at most).
    fn shrink(&mut self, kind: &str, mut b: Vec<u8>, mut why: String) -> (Vec<u8>, String) {
        let end = Instant::now() + Duration::from_secs(3);
        let prop = self.prop.clone();
        let fails = |b: &[u8]| guarded(|| check(&prop, kind, b)).unwrap_or_else(|m| Some(format!("panic: {}", m)));
        let mut n = b.len() / 2;
        while n >= 1 && Instant::now() < end {
            let mut i = 0;
            while i + n <= b.len() && Instant::now() < end {
                let mut c = b.clone();
                c.drain(i..i + n);
                if let Some(w) = fails(&c) { b = c; why = w; } else { i += n }
            }
            n /= 2;
        }
        (b, why)
    }
}

fn focus(kinds: &[&'static str]) -> Focus {
    Focus { kinds: kinds.to_vec(), unknown: false, members: false, pool: false, strings: false }
}

fn run(s: &mut Search) {
    let p = s.about.clone();
    match &p[..] {
        "C16" | "C17" | "C18" => return pools::search_history(s),
        "C19" => return pools::search_items(s),
        "C20" | "C21" | "C22" | "C25" => return types::search(s),
        _ => {}
    }
    let is = |l: &[&str]| l.contains(&&p[..]);
    let all = is(&["C01", "C06", "C12", "C24", "C26", "ALL"]);
    // the example classes
    if let Ok(d) = std::fs::read_dir("/repo/examples/resources") {
        let mut l: Vec<_> = d.flatten().map(|e| e.path()).filter(|p| p.extension().map(|x| x == "class").unwrap_or(false)).collect();
        l.sort();
        for f in l {
            if let Ok(b) = std::fs::read(f) {
                s.case("class", &b);
            }
        }
    }
    if is(&["C23"]) {
        for i in 0..21 {
            s.case("flag", &[i]);
        }
    }
    if is(&["C02"]) {
        return reservations(s);
    }
    systematic(s, &p, all);
    if all || is(&["C10"]) {
        deep(s);
    }
    let mut f = match &p[..] {
        "C03" => Focus { members: true, unknown: true, ..focus(&["Deprecated"]) },
        "C04" => Focus { pool: true, ..focus(&[]) },
        "C05" => Focus { strings: true, ..focus(&["SourceDebugExtension"]) },
        "C07" | "C08" => focus(&["Code", "LineNumberTable"]),
        "C09" => focus(&["StackMapTable"]),
        "C10" => focus(&["AnnotationDefault", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"]),
        "C11" => focus(&["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"]),
        "C13" => focus(&["LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "Exceptions", "MethodParameters"]),
        "C14" => focus(&["BootstrapMethods", "InnerClasses", "EnclosingMethod", "ConstantValue", "Signature", "SourceFile", "SourceDebugExtension", "Deprecated", "Synthetic"]),
        "C15" => focus(&["Module", "ModulePackages", "ModuleMainClass"]),
        "C23" => Focus { members: true, ..focus(&["InnerClasses", "MethodParameters", "Module"]) },
        _ => Focus { unknown: true, members: true, pool: true, ..focus(NAMES) },
    };
    let whole = f.clone();
    let (dict, words) = (s.dict.clone(), s.words.clone());
    let mut round = 0u64;
    while !s.over() {
        round += 1;
        if all {
            // small classes about few things find more than large ones
            f = whole.clone();
            if round % 4 != 0 {
                f.kinds = (0..1 + s.rng.below(2)).map(|_| *s.rng.pick(NAMES)).collect();
                f.kinds.dedup();
                f.members = s.rng.chance(6);
                f.pool = s.rng.chance(6);
                f.unknown = s.rng.chance(3);
            }
        }
        let mistakes = s.rng.chance(2);
        let big = s.rng.chance(25);
        let budget = if big { 300_000 } else { 3000 };
        let mut b = { let mut g = G { r: &mut s.rng, dict: &dict, words: &words, budget, mistakes, big, slots: 0 }; g.class(&f) };
        s.case("class", &b);
        if s.rng.chance(3) {
            for _ in 0..3 {
                let mut m = b.clone();
                { let mut g = G { r: &mut s.rng, dict: &dict, words: &words, budget, mistakes, big, slots: 0 }; g.mutate(&mut m); }
                s.case("class", &m);
            }
        }
        if s.rng.chance(10) && b.len() < 2000 {
            while b.len() > 4 && !s.over() {
                let n = 1 + s.rng.below(1 + b.len() / 60);
                let l = b.len().saturating_sub(n);
                b.truncate(l);
                s.case("class", &b);
            }
        }
    }
}

/// All opcodes, tags, frame types, flag bits, byte sequences and table sizes.
fn systematic(s: &mut Search, p: &str, all: bool) {
    let is = |l: &[&str]| all || l.contains(&p);
    if is(&["C26"]) {
        // every byte, and many numbers of bytes, behind a class
        for base in [one("Deprecated", &[]), one("Unknown", &[1, 2, 3]), one_pool(2, &[3, 0, 0, 0, 9]), one_pool(0, &[])] {
            let mut with = |t: &[u8]| {
                let mut v = base.clone();
                v.extend_from_slice(t);
                s.case("class", &v);
            };
            for x in 0..=255u8 {
                with(&[x]);
                for y in [0u8, 1, 2, 10, 0x41, 0x7f, 0x80, 0xCA, 0xFE, 0xff] {
                    with(&[x, y]);
                    with(&[y, y, x]);
                }
                with(&[x; 4]);
                with(&vec![x; 8 + x as usize]);
            }
            for n in 0..300usize {
                for x in [0u8, 0x0a, 0x20, 0xCA, 0xff] {
                    with(&vec![x; n]);
                }
            }
            for k in 9..18 {
                for n in (1usize << k) - 30..(1usize << k) + 3 {
                    with(&vec![0; n]);
                }
            }
        }
    }
    if is(&["C01", "C12"]) {
        // names in which every position of a byte is within a character
        for c in [0xe9u32, 0x4e2d, 0x1f600] {
            for shift in 0..4usize {
                for n in (0..300).chain([1000, 9000]) {
                    let mut t = vec![0x41; shift];
                    for _ in 0..n {
                        encode(&mut t, c)
                    }
                    let mut v = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52, 0, 2, 1];
                    u2(&mut v, t.len() as u16);
                    v.extend_from_slice(&t);
                    v.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 2, 7, 8]);
                    s.case("class", &v);
                }
            }
        }
    }
    if is(&["C04"]) {
        for tag in 0..=255u8 {
            for k in 0..12u8 {
                for fill in [0u8, 1, 0x7f, 0x80, 0xff] {
                    let mut v = vec![tag, k, 1];
                    v.extend(std::iter::repeat(fill).take(9));
                    for count in [0u16, 1, 2, 3, 4] {
                        s.case("class", &one_pool(count, &v));
                    }
                }
            }
        }
        // every number of slots around the limits, with one or two slots at the end
        for last in [&[3u8, 0, 0, 0, 9][..], &[5, 0, 0, 0, 0, 0, 0, 0, 9]] {
            for count in [255u16, 256, 257, 32767, 32768, 65533, 65534, 65535] {
                let mut v = vec![];
                let n = count as usize - 2 - (last.len() > 5) as usize;
                for i in 0..n {
                    v.push(3);
                    v.extend_from_slice(&(i as u32 / 2).to_be_bytes());
                }
                v.extend_from_slice(last);
                s.case("class", &one_pool(count, &v));
                s.case("class", &one_pool(count - 1, &v));
                let mut w = v.clone();
                w.extend_from_slice(&[3, 0, 0, 0, 1]);
                s.case("class", &one_pool(count.wrapping_add(1), &w));
            }
        }
    }
    if is(&["C05", "C06", "C14"]) {
        // attributes whose length does not fit into sixteen bits
        for n in [65534usize, 65535, 65536, 65537, 65541, 70000, 131072, 131075] {
            for k in ["SourceDebugExtension", "Unknown", "Synthetic", "Deprecated"] {
                s.case("class", &one(k, &vec![0x41; n]));
            }
            let mut t = vec![0x41; n];
            t[n - 1] = 0xC3;
            s.case("class", &one("SourceDebugExtension", &t));
        }
    }
    if is(&["C05"]) {
        let utf = |n: usize, t: &[u8]| {
            let mut v = vec![1, (n >> 8) as u8, n as u8];
            v.extend_from_slice(t);
            one_pool(2, &v)
        };
        for a in 0..=255u8 {
            s.case("class", &utf(1, &[a]));
            for b in 0..=255u8 {
                s.case("class", &utf(2, &[a, b]));
            }
        }
        let mid: Vec<u8> = (0..256).map(|x| x as u8).filter(|&x| x % 16 == 0 || x % 16 == 15 || (0xDC..=0xF2).contains(&x) || x % 8 == 7 || x % 64 == 32).collect();
        for &a in &mid {
            for &b in &mid {
                for &c in &mid {
                    if a >= 0xC0 || (a % 64 == 1 && b % 16 == 0) {
                        s.case("class", &utf(3, &[a, b, c]));
                    }
                }
            }
        }
        for a in [0xED] {
            for b in [0x80u8, 0x9f, 0xa0, 0xa1, 0xa8, 0xac, 0xaf, 0xb0] {
                for c in [0x80u8, 0x81, 0xaa, 0xbf, 0xc0] {
                    for d in [0xEDu8, 0xEC, 0xEE, 0x41] {
                        for e in [0x80u8, 0x9f, 0xa0, 0xaf, 0xb0, 0xb1, 0xb7, 0xbc, 0xbf, 0x7f, 0xf0] {
                            for f in [0x80u8, 0x81, 0x95, 0xbf, 0x7f, 0xc0] {
                                for n in 3..=6 {
                                    s.case("class", &utf(n, &[a, b, c, d, e, f]));
                                }
                                s.case("class", &utf(7, &[a, b, c, d, e, f, 0x41]));
                                s.case("class", &utf(8, &[0x41, a, b, c, d, e, f, 0x42]));
                                let mut v = vec![];
                                v.extend_from_slice(&[a, b, c, d, e, f]);
                                s.case("class", &one("SourceDebugExtension", &v));
                            }
                        }
                    }
                }
            }
        }
        for n in [126usize, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 4096, 32767, 32768, 65534, 65535] {
            for c in [0x41u32, 0xe9, 0x4e2d, 0x1f600] {
                let mut t = vec![];
                while t.len() < n {
                    encode(&mut t, c)
                }
                let l = t.len().min(65535);
                s.case("class", &utf(l, &t));
                while t.len() > n {
                    t.pop();
                }
                while t.len() < n {
                    t.push(0x41)
                }
                s.case("class", &utf(n, &t));
                s.case("class", &one("SourceDebugExtension", &t));
            }
        }
    }
    if is(&["C07", "C08"]) {
        for at in 0..4usize {
            for op in 0..=255u8 {
                for arg in 0..14u8 {
                    let mut v = vec![0; at];
                    v.push(op);
                    let x = [0u8, 1, 2, 3, 4, 7, 8, 0x7f, 0x80, 0xfe, 0xff, 0x15, 0x3a, 0x84][arg as usize];
                    for n in 0..6 {
                        let mut w = v.clone();
                        for k in 0..n {
                            w.push(if k == 0 { x } else { x.wrapping_mul(3).wrapping_add(k as u8 * 37) })
                        }
                        s.case("class", &one_code(&w));
                    }
                }
            }
            if at == 0 {
                let mut near = vec![];
                for k in 0..=32u32 {
                    for d in [-1i64, 0, 1] {
                        near.push(((1i64 << k) + d) as u32);
                        near.push((d - (1i64 << k)) as u32);
                    }
                }
                near.sort();
                near.dedup();
                for op in 0..=255u8 {
                    for x in &near {
                        for wide in [false, true] {
                            let head = if wide { vec![0xC4, op] } else { vec![op] };
                            let four: Vec<u8> = head.iter().copied().chain(x.to_be_bytes()).collect();
                            s.case("class", &one_code(&four));
                            if *x < 65536 {
                                s.case("class", &one_code(&four[..head.len()].iter().copied().chain(four[head.len() + 2..].iter().copied()).collect::<Vec<u8>>()));
                            }
                        }
                    }
                }
            }
            for op in 0..=255u8 {
                for n in [2usize, 4] {
                    for x in [0u8, 0x7f, 0x80, 0xff] {
                        let mut v = vec![0; at];
                        v.extend_from_slice(&[0xC4, op]);
                        for k in 0..n {
                            v.push(x.wrapping_add(k as u8))
                        }
                        s.case("class", &one_code(&v));
                    }
                }
            }
            for pad in [0u8, 0xff] {
                for low in [0i32, 1, -1, -5, i32::MIN, i32::MAX - 3, i32::MAX] {
                    for n in [0i64, 1, 2, 3, 4, 10, 1000] {
                        let high = (low as i64 + n - 1).max(i32::MIN as i64).min(i32::MAX as i64) as i32;
                        for over in 0..2 {
                            let mut v = vec![0; at];
                            v.push(0xAA);
                            v.extend(std::iter::repeat(pad).take(3 - at));
                            v.extend_from_slice(&(-7i32).to_be_bytes());
                            v.extend_from_slice(&low.to_be_bytes());
                            v.extend_from_slice(&high.wrapping_sub(over).to_be_bytes());
                            let m = (high as i64 - low as i64 + 1).max(0);
                            for k in 0..m {
                                v.extend_from_slice(&(k as i32 * 1000 - 77).to_be_bytes())
                            }
                            s.case("class", &one_code(&v));
                            v.push(0xB1);
                            s.case("class", &one_code(&v));
                        }
                    }
                }
                for n in [0u32, 1, 2, 3, 10, 500] {
                    for said in [n, n + 1, n.wrapping_sub(1), 0x8000_0000 | n] {
                        let mut v = vec![0; at];
                        v.push(0xAB);
                        v.extend(std::iter::repeat(pad).take(3 - at));
                        v.extend_from_slice(&9i32.to_be_bytes());
                        v.extend_from_slice(&said.to_be_bytes());
                        for k in 0..n {
                            v.extend_from_slice(&((k % 7) as i32 * 100 - 300).to_be_bytes());
                            v.extend_from_slice(&(k as i32 - 5).to_be_bytes())
                        }
                        s.case("class", &one_code(&v));
                        v.push(0xB1);
                        s.case("class", &one_code(&v));
                    }
                }
            }
        }
        for n in [255usize, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 200000] {
            let mut v = vec![0; n];
            s.case("class", &one_code(&v));
            v.extend_from_slice(&[0xFC]);
            s.case("class", &one_code(&v));
            for k in 0..4 {
                let mut w = vec![0; n - k];
                w.push(0xAA);
                w.extend(std::iter::repeat(0).take(3 - (n - k) % 4));
                w.extend_from_slice(&[0, 0, 0, 5, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 7]);
                s.case("class", &one_code(&w));
            }
        }
        // the tables after the code
        for ne in [0usize, 1, 2, 255, 256, 300, 65535] {
            let mut c = vec![0xff, 0xfe, 0x80, 0x01, 0, 0, 0, 1, 0xB1];
            u2(&mut c, ne as u16);
            for k in 0..ne {
                for j in 0..4 {
                    u2(&mut c, (k * 7 + j * 13) as u16)
                }
            }
            c.extend_from_slice(&[0, 0]);
            s.case("class", &one("Code", &c));
        }
        for said in [0u32, 1, 2, 3, 0xffff_ffff, 0x8000_0000] {
            let mut c = vec![0, 1, 0, 1];
            u4(&mut c, said);
            c.extend_from_slice(&[0, 0xB1, 0, 0, 0, 0]);
            s.case("class", &one("Code", &c));
        }
        nested_code(s);
    }
    if is(&["C09"]) {
        for t in 0..=255u8 {
            for a in 0..=10u8 {
                for n in 0..14 {
                    let mut v = vec![0, 1, t];
                    let body = [a, 0x81, 3, a, 7, 0x12, 0x34, 8, 0xff, 0xfe, 0, 1, 2, 3, 4, 5];
                    v.extend_from_slice(&body[..n]);
                    s.case("class", &one("StackMapTable", &v));
                    let mut v = vec![0, 1, t, 0x90, 0x02];
                    let body = [a, 7, 1, 2, 5, 4, 3, 2, 1, 0];
                    v.extend_from_slice(&body[..n.min(10)]);
                    s.case("class", &one("StackMapTable", &v));
                }
            }
            // full frames
            let v = vec![0, 1, 255, t, 3, 0, 3, 1, 7, t, 9, 2, 0, 2, 8, 0, t, 4];
            s.case("class", &one("StackMapTable", &v));
            let v = vec![0, 1, 64 + t % 64, t, 1, 2];
            s.case("class", &one("StackMapTable", &v[..if t == 7 || t == 8 { 6 } else { 4 }]));
        }
    }
    if is(&["C10"]) {
        for t in 0..=255u8 {
            for n in 0..6 {
                let mut v = vec![t];
                v.extend_from_slice(&[0x81, 2, 0x83, 4, 5, 6][..n]);
                s.case("class", &one("AnnotationDefault", &v));
                let mut w = vec![0, 1, 0xfe, 0xdc, 0, 1, 0xab, 0xcd];
                w.extend(&v);
                s.case("class", &one("RuntimeVisibleAnnotations", &w));
                let mut w = vec![b'[', 0, 1];
                w.extend(&v);
                s.case("class", &one("AnnotationDefault", &w));
            }
        }
    }
    if is(&["C11"]) {
        for t in 0..=255u8 {
            for n in 0..12 {
                let mut v = vec![0, 1, t];
                v.extend_from_slice(&[0x80, 1, 2, 0xff, 4, 5, 6, 7, 8, 9, 10, 11][..n]);
                v.extend_from_slice(&[2, 0, 7, 3, 9, 0xab, 0xcd, 0, 0]);
                s.case("class", &one("RuntimeVisibleTypeAnnotations", &v));
            }
            for n in 0..3u16 {
                let mut v = vec![0, 1, t, 0, n as u8];
                for k in 0..n * 3 {
                    u2(&mut v, 0xff00 + k)
                }
                v.extend_from_slice(&[0, 0xab, 0xcd, 0, 0]);
                s.case("class", &one("RuntimeInvisibleTypeAnnotations", &v));
            }
            let v = vec![0, 1, 0x13, 3, 1, t, t, 2, 0, t, 0xab, 0xcd, 0, 0];
            s.case("class", &one("RuntimeInvisibleTypeAnnotations", &v));
        }
    }
    if is(&["C23"]) {
        for w in 0..=65535u16 {
            if w > 300 && w % 17 != 0 && w.count_ones() > 2 && w.count_zeros() > 2 {
                continue;
            }
            let f = w.to_be_bytes();
            let o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 1, 0, 52, 0, 1, f[0], f[1], 0, 7, 0, 9, 0, 0, 0, 1, f[0], f[1], 0, 1, 0, 2, 0, 0, 0, 1, f[0], f[1], 0, 1, 0, 2, 0, 0, 0, 0];
            s.case("class", &o);
            s.case("class", &one("InnerClasses", &[0, 1, 0, 1, 0, 2, 0, 3, f[0], f[1]]));
            s.case("class", &one("MethodParameters", &[1, 0, 1, f[0], f[1]]));
            s.case("class", &one("Module", &[0, 1, f[0], f[1], 0, 2, 0, 1, 0, 5, f[0], f[1], 0, 6, 0, 1, 0, 7, f[0], f[1], 0, 0, 0, 1, 0, 7, f[0], f[1], 0, 0, 0, 0, 0, 0]));
        }
    }
    if is(&["C12", "C06"]) {
        // every name, and names next to it, with contents of every length
        let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
        names.extend(UNKNOWN.iter().map(|s| s.to_string()));
        names.extend(s.words.clone());
        for n in names.clone() {
            for (k, _) in n.char_indices() {
                let mut m = n.clone();
                m.remove(k);
                names.push(m);
            }
            names.push(n.to_lowercase());
            names.push(n.clone() + "s");
            let mut marks: Vec<String> = ["\0", " ", "\u{feff}", "\u{2028}", "\u{200b}", "\u{301}", "/", ";", "\n"].iter().map(|x| x.to_string()).collect();
            marks.extend(s.words.iter().filter(|w| w.chars().count() < 4).cloned());
            for w in marks {
                names.push(n.clone() + &w);
                names.push(w.clone() + &n);
                names.push(n.chars().take(3).collect::<String>() + &w + &n.chars().skip(3).collect::<String>());
            }
        }
        names.sort();
        names.dedup();
        for n in &names {
            for len in [0usize, 1, 2, 3, 4, 5, 6, 8, 10, 12] {
                for fill in [0u8, 1, 0x42] {
                    let v = vec![fill; len];
                    s.case("class", &one(n, &v));
                }
            }
        }
        for len in [255usize, 256, 257, 65535, 65536, 65537, 100000, 1 << 20] {
            let v: Vec<u8> = (0..len).map(|i| (i * 31 % 251) as u8).collect();
            s.case("class", &one("Foo", &v));
        }
        nested_code(s);
    }
    // tables of every size
    let tables: &[(&str, bool, &[u8], &[&str])] = &[
        ("LineNumberTable", true, &[0, 1, 0, 2], &["C13"]),
        ("LocalVariableTable", true, &[0, 1, 0, 2, 0, 3, 0, 4, 0, 5], &["C13"]),
        ("LocalVariableTypeTable", true, &[0, 1, 0, 2, 0, 3, 0, 4, 0, 5], &["C13"]),
        ("Exceptions", true, &[0, 1], &["C13"]),
        ("MethodParameters", false, &[0, 1, 0, 2], &["C13", "C23"]),
        ("InnerClasses", true, &[0, 1, 0, 2, 0, 3, 0, 4], &["C14", "C23"]),
        ("BootstrapMethods", true, &[0, 1, 0, 1, 0, 3], &["C14"]),
        ("ModulePackages", true, &[0, 1], &["C15"]),
        ("StackMapTable", true, &[5], &["C09"]),
        ("RuntimeVisibleAnnotations", true, &[0, 1, 0, 0], &["C10"]),
        ("RuntimeInvisibleAnnotations", true, &[0, 1, 0, 0], &["C10"]),
        ("RuntimeVisibleParameterAnnotations", false, &[0, 1, 0, 1, 0, 0], &["C10"]),
        ("RuntimeInvisibleParameterAnnotations", false, &[0, 1, 0, 1, 0, 0], &["C10"]),
        ("RuntimeVisibleTypeAnnotations", true, &[0x14, 0, 0, 1, 0, 0], &["C11"]),
        ("RuntimeInvisibleTypeAnnotations", true, &[0x14, 0, 0, 1, 0, 0], &["C11"]),
    ];
    let mut sizes: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4096, 10000, 16384, 32767, 32768, 65534, 65535];
    for &d in &s.dict {
        for k in [d.wrapping_sub(1), d, d.wrapping_add(1)] {
            if k < 65536 {
                sizes.push(k as usize)
            }
        }
    }
    sizes.sort();
    sizes.dedup();
    let put = |v: &mut Vec<u8>, wide: bool, n: usize| if wide { u2(v, n as u16) } else { v.push(n as u8) };
    for &(name, wide, entry, props) in tables {
        if !is(props) {
            continue;
        }
        for &n in &sizes {
            if (!wide && n > 255) || (all && n > 4096 && n % 32768 > 2) {
                continue;
            }
            let mut v = vec![];
            put(&mut v, wide, n);
            for k in 0..n {
                let at = v.len();
                v.extend_from_slice(entry);
                // entries that differ from each other
                if !name.starts_with("Runtime") && name != "BootstrapMethods" && name != "StackMapTable" {
                    let e = v.len();
                    v[at] = (k >> 8) as u8;
                    v[e - 1] = v[e - 1].wrapping_add(k as u8);
                } else if name == "StackMapTable" {
                    v[at] = (k % 64) as u8
                }
            }
            s.case("class", &one(name, &v));
            v.pop();
            s.case("class", &one(name, &v));
            if s.over() {
                return;
            }
        }
    }
    if is(&["C10"]) {
        for &n in &sizes {
            let mut v = vec![b'['];
            u2(&mut v, n as u16);
            for k in 0..n {
                v.push(b'I');
                u2(&mut v, k as u16);
            }
            s.case("class", &one("AnnotationDefault", &v));
            let mut v = vec![0, 1, 0, 9];
            u2(&mut v, n as u16);
            for k in 0..n {
                u2(&mut v, !k as u16);
                v.push(b'I');
                u2(&mut v, k as u16);
            }
            s.case("class", &one("RuntimeVisibleAnnotations", &v));
        }
    }
    if is(&["C11"]) {
        for &n in &sizes {
            if n < 256 {
                let mut v = vec![0, 1, 0x15, n as u8];
                for k in 0..n {
                    v.push((k % 4) as u8);
                    v.push(k as u8);
                }
                v.extend_from_slice(&[0, 3, 0, 0]);
                s.case("class", &one("RuntimeVisibleTypeAnnotations", &v));
            }
            for t in [0x40, 0x41] {
                let mut v = vec![0, 1, t];
                u2(&mut v, n as u16);
                for k in 0..n * 3 {
                    u2(&mut v, k as u16)
                }
                v.extend_from_slice(&[0, 0, 3, 0, 0]);
                s.case("class", &one("RuntimeVisibleTypeAnnotations", &v));
            }
        }
    }
    if is(&["C09"]) {
        for &n in &sizes {
            for which in 0..2 {
                let mut v = vec![0, 1, 255, 1, 2];
                for t in 0..2 {
                    let m = if t == which { n } else { 1 };
                    u2(&mut v, m as u16);
                    for k in 0..m {
                        if k % 9 >= 7 {
                            v.push((k % 9) as u8);
                            u2(&mut v, k as u16)
                        } else {
                            v.push((k % 9) as u8)
                        }
                    }
                }
                s.case("class", &one("StackMapTable", &v));
            }
        }
    }
    if is(&["C14"]) {
        for &n in &sizes {
            for m in [1usize, 2, 3] {
                let mut v = vec![];
                u2(&mut v, m as u16);
                for j in 0..m {
                    u2(&mut v, 77);
                    let k = if j == 1 { 1 } else { n };
                    u2(&mut v, k as u16);
                    for i in 0..k {
                        u2(&mut v, i as u16)
                    }
                }
                s.case("class", &one("BootstrapMethods", &v));
            }
        }
    }
    if is(&["C15"]) {
        for &n in &sizes {
            for which in 0..8 {
                let m = |k: usize| if k == which { n } else { k % 3 };
                let mut v = vec![0, 1, 0x80, 0, 0, 3];
                u2(&mut v, m(0) as u16);
                for k in 0..m(0) { u2(&mut v, k as u16); u2(&mut v, !k as u16); u2(&mut v, 5) }
                for part in [1, 3] {
                    let outer = if m(part) > 300 { 1 + m(part) % 7 } else { m(part) };
                    u2(&mut v, outer as u16);
                    for k in 0..outer {
                        u2(&mut v, k as u16);
                        u2(&mut v, 0x8000);
                        let inner = if k == 0 { m(part + 1) } else { 0 };
                        u2(&mut v, inner as u16);
                        for i in 0..inner { u2(&mut v, i as u16) }
                    }
                }
                u2(&mut v, m(5) as u16);
                for k in 0..m(5) { u2(&mut v, k as u16) }
                let outer = m(6).min(3000);
                u2(&mut v, outer as u16);
                for k in 0..outer {
                    u2(&mut v, k as u16);
                    let inner = if k == 0 { m(7) } else { 1 };
                    u2(&mut v, inner as u16);
                    for i in 0..inner { u2(&mut v, i as u16) }
                }
                s.case("class", &one("Module", &v));
            }
        }
    }
    if is(&["C03"]) {
        for &n in &sizes {
            for which in 0..4 {
                let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0xff, 0xfe, 0xfd, 0xfc, 0, 2, 1, 0, 3, b'F', b'o', b'o', 0x81, 2, 0x83, 4, 0x85, 6];
                for t in 0..4 {
                    let m = if t == which { n } else { t % 3 };
                    u2(&mut o, m as u16);
                    for k in 0..m {
                        match t {
                            0 => u2(&mut o, k as u16),
                            1 | 2 => { u2(&mut o, k as u16); u2(&mut o, !k as u16); u2(&mut o, (k * 7) as u16); u2(&mut o, 0) }
                            _ => o.extend_from_slice(&[0, 1, 0, 0, 0, 1, k as u8]),
                        }
                    }
                }
                s.case("class", &o);
                o.pop();
                s.case("class", &o);
            }
        }
        for bit in 0..32 {
            let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
            o[bit / 8] ^= 1 << (bit % 8);
            s.case("class", &o);
        }
        let o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 3, 0, 52, 0, 1, 0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0];
        for k in 0..=o.len() {
            s.case("class", &o[..k]);
        }
        for z in 0..2 {
            let mut o = o.clone();
            o[9] = z;
            s.case("class", &o);
        }
    }
}

/// Code in Code, with attributes whose lengths are a little off.
fn nested_code(s: &mut Search) {
    for depth in 1..4usize {
        for off in 0..depth {
            for delta in [-3i64, -2, -1, 0, 1, 2, 3, 6] {
                let mut inner: Vec<u8> = vec![];
                for d in 0..depth {
                    let mut c = vec![0, 1, 0, 2, 0, 0, 0, 1, 0xB1, 0, 0];
                    if d == 0 { c.extend_from_slice(&[0, 0]) } else { c.extend(&inner) }
                    let mut a = vec![0, 1, 0, 1];
                    let l = c.len() as i64 + if d == off { delta } else { 0 };
                    u4(&mut a, l as u32);
                    a.extend(&c);
                    inner = a;
                }
                let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 1, 0, 52, 0, 2, 1, 0, 4, b'C', b'o', b'd', b'e', 0, 0x21, 0, 7, 0, 9, 0, 0, 0, 0, 0, 0];
                o.extend(&inner);
                s.case("class", &o);
                o.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 0]);
                s.case("class", &o);
                // a field and a method, too
                let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 1, 0, 52, 0, 2, 1, 0, 4, b'C', b'o', b'd', b'e', 0, 0x21, 0, 7, 0, 9, 0, 0, 0, 1, 0, 1, 0, 2, 0, 3];
                o.extend(&inner);
                o.extend_from_slice(&[0, 1, 0, 1, 0, 2, 0, 3]);
                o.extend(&inner);
                o.extend(&inner);
                s.case("class", &o);
            }
        }
    }
}

/// Deeply nested structures.
fn deep(s: &mut Search) {
    for n in [1usize, 2, 10, 30, 31, 32, 33, 60, 61, 62, 63, 64, 65, 66, 100, 127, 128, 255, 256, 257, 1000, 100_000] {
        for kind in 0..4 {
            let mut v = vec![];
            for i in 0..n {
                match if kind == 2 { i % 2 } else { kind } {
                    0 => v.extend_from_slice(&[b'[', 0, 1]),
                    _ => v.extend_from_slice(&[b'@', 0, 9, 0, 1, 0, 7]),
                }
            }
            v.extend_from_slice(&[b'I', 0, 5]);
            if kind == 3 {
                let mut w = vec![0, 1, 0, 9, 0, 1, 0, 7];
                w.extend(&v);
                s.case("class", &one("RuntimeVisibleAnnotations", &w));
            } else {
                s.case("class", &one("AnnotationDefault", &v));
            }
        }
        if n <= 1000 {
            // Code in Code
            let mut inner: Vec<u8> = vec![0, 0];
            for _ in 0..n {
                let mut a = vec![0, 1, 0, 1];
                u4(&mut a, inner.len() as u32 + 11);
                a.extend_from_slice(&[0, 1, 0, 2, 0, 0, 0, 1, 0xB1, 0, 0]);
                a.extend(&inner);
                inner = a;
            }
            let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 1, 0, 52, 0, 2, 1, 0, 4, b'C', b'o', b'd', b'e', 0, 0x21, 0, 7, 0, 9, 0, 0, 0, 0, 0, 0];
            o.extend(&inner);
            s.case("class", &o);
        }
    }
}

/// Inputs that claim much and hold little. A second byte pair EE marks inputs for the small bound.
/// Attributes with a table: what is before its count, an entry, what is behind the table.
fn full_tables() -> Vec<(&'static str, &'static [u8], &'static [u8], &'static [u8])> {
    vec![
        ("BootstrapMethods", b"", &[0, 1, 0, 0], b""),
        ("BootstrapMethods", b"", &[0, 1, 0, 1, 0, 2], b""),
        ("Exceptions", b"", &[0, 1], b""),
        ("ModulePackages", b"", &[0, 1], b""),
        ("LineNumberTable", b"", &[0, 1, 0, 1], b""),
        ("LocalVariableTable", b"", &[0; 10], b""),
        ("LocalVariableTypeTable", b"", &[0; 10], b""),
        ("InnerClasses", b"", &[0; 8], b""),
        ("MethodParameters", b"", &[0; 4], b""),
        ("RuntimeVisibleAnnotations", b"", &[0, 1, 0, 0], b""),
        ("RuntimeVisibleAnnotations", b"", &[0, 1, 0, 1, 0, 2, b'[', 0, 0], b""),
        ("RuntimeInvisibleAnnotations", b"", &[0, 1, 0, 0], b""),
        ("RuntimeVisibleParameterAnnotations", b"", &[0, 0], b""),
        ("RuntimeInvisibleParameterAnnotations", b"", &[0, 1, 0, 1, 0, 0], b""),
        ("RuntimeVisibleTypeAnnotations", b"", &[0x40, 0, 0, 0, 0, 1, 0, 0], b""),
        ("RuntimeVisibleTypeAnnotations", b"", &[0x13, 1, 0, 0, 0, 1, 0, 0], b""),
        ("RuntimeInvisibleTypeAnnotations", b"", &[0x41, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0], b""),
        ("AnnotationDefault", b"[", &[b'[', 0, 0], b""),
        ("AnnotationDefault", b"[", &[b'[', 0, 1, b'[', 0, 0], b""),
        ("AnnotationDefault", b"[", &[b'@', 0, 1, 0, 0], b""),
        ("StackMapTable", b"", &[255, 0, 0, 0, 0, 0, 0], b""),
        ("StackMapTable", b"", &[255, 0, 0, 0, 1, 0, 0, 1, 1], b""),
        ("StackMapTable", b"", &[252, 0, 0, 1], b""),
        ("StackMapTable", b"", &[254, 0, 0, 1, 1, 1], b""),
        ("StackMapTable", b"", &[3], b""),
        ("Module", &[0, 1, 0, 0, 0, 0], &[0, 1, 0, 0, 0, 0], &[0; 8]),
        ("Module", &[0, 1, 0, 0, 0, 0, 0, 0], &[0, 1, 0, 0, 0, 0], &[0; 6]),
        ("Module", &[0, 1, 0, 0, 0, 0, 0, 0, 0, 0], &[0, 1, 0, 0, 0, 0], &[0; 4]),
        ("Module", &[0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[0, 1], &[0; 2]),
        ("Module", &[0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[0, 1, 0, 0], b""),
        ("Code", &[0, 0, 0, 0, 0, 0, 0, 1, 0], &[0; 8], &[0, 0]),
        ("Code", &[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0], &[0, 1, 0, 0, 0, 13, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0], b""),
        ("fields", b"", &[0; 8], b""),
        ("methods", b"", &[0; 8], b""),
    ]
}

fn reservations(s: &mut Search) {
    let mark = |mut v: Vec<u8>| {
        v[4] = 0xEE;
        v
    };
    let string = |mut v: Vec<u8>| {
        v[4] = 0xED;
        v
    };
    while !s.over() {
        for n in [200_000usize, 70_000, 65_536] {
            s.case("class", &string(one("SourceDebugExtension", &vec![0; n])));
        }
        for n in [0xffffu32, 0x8000, 0x4000, 0x1_0000, 0xf_0000, 0x9_0000, 0x1f_0000, 0x3f_0000, 0xff_0000, 0xff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff] {
            for at in 0..4usize {
                let mut v = vec![0; at];
                v.push(0xAB);
                v.extend(std::iter::repeat(0).take(3 - at));
                v.extend_from_slice(&[0, 0, 0, 1]);
                u4(&mut v, n);
                s.case("class", &mark(one_code(&v)));
                v.extend_from_slice(&[0; 64]);
                s.case("class", &mark(one_code(&v)));
                for low in [0i32, 1, -1, i32::MIN, 5] {
                    let mut v = vec![0; at];
                    v.push(0xAA);
                    v.extend(std::iter::repeat(0).take(3 - at));
                    v.extend_from_slice(&[0, 0, 0, 1]);
                    u4(&mut v, low as u32);
                    u4(&mut v, (low as i64 + n as i64).min(i32::MAX as i64) as i32 as u32);
                    v.extend_from_slice(&[0; 8]);
                    s.case("class", &mark(one_code(&v)));
                }
            }
            // code and attributes of a great length
            let mut c = vec![0, 1, 0, 1];
            u4(&mut c, n);
            c.extend_from_slice(&[0; 9]);
            s.case("class", &mark(one("Code", &c)));
            for k in NAMES.iter().chain(UNKNOWN) {
                let mut o = one(k, &[]);
                let l = o.len();
                o[l - 4..].copy_from_slice(&n.to_be_bytes());
                s.case("class", &mark(o.clone()));
                o.extend_from_slice(&[1; 40]);
                s.case("class", &mark(o));
            }
            // strings
            if n <= 0xffff {
                for t in [&b""[..], b"abc"] {
                    let mut v = vec![1];
                    u2(&mut v, n as u16);
                    v.extend_from_slice(t);
                    s.case("class", &string(one_pool(2, &v)));
                }
            }
        }
        // many complete tables with little in each
        for n in [300usize, 4000, 20_000] {
            for (k, head, entry, tail) in full_tables() {
                let mut v = head.to_vec();
                let n = if k.contains("Parameter") { n.min(255) } else { n };
                if k.contains("Parameter") { v.push(n as u8) } else { u2(&mut v, n as u16) }
                for _ in 0..n {
                    v.extend_from_slice(entry);
                }
                v.extend_from_slice(tail);
                if k == "fields" || k == "methods" {
                    let mut o = one_pool(1, &[]);
                    let l = o.len() - if k == "fields" { 6 } else { 4 };
                    o.splice(l..l + 2, v);
                    s.case("class", &o);
                } else {
                    s.case("class", &one(k, &v));
                }
            }
        }
        // many small strings
        for n in [300u16, 5000, 20_000] {
            for t in [&b""[..], b"a"] {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(1);
                    u2(&mut v, t.len() as u16);
                    v.extend_from_slice(t);
                }
                s.case("class", &one_pool(n + 1, &v));
            }
        }
        // many small attributes
        for n in [300usize, 4000, 20_000] {
            for (k, head, entry, tail) in full_tables() {
                if k == "fields" || k == "methods" { continue }
                for (count, high) in [(1, false), (0, false), (1, true), (0, true)] {
                    let mut v = head.to_vec();
                    if high && k == "Code" { v[..4].copy_from_slice(&[0xff; 4]) } else if high && k == "Module" { v[..6].copy_from_slice(&[0xff; 6]) } else if high { continue }
                    if k.contains("Parameter") { v.push(count) } else { u2(&mut v, count as u16) }
                    if count == 1 { v.extend_from_slice(entry) }
                    v.extend_from_slice(tail);
                    let mut o = one(k, &v);
                    let start = o.len() - v.len() - 6;
                    let attribute = o[start..].to_vec();
                    for _ in 1..n {
                        o.extend_from_slice(&attribute);
                    }
                    o[start - 2..start].copy_from_slice(&(n as u16).to_be_bytes());
                    s.case("class", &o);
                    if s.over() { return }
                }
            }
        }
        // many tables
        for k in NAMES {
            for x in [0xffu8, 0xfe, 0x40, 0x5b] {
                for n in [1usize, 2, 3, 4, 6, 8, 10, 12, 20] {
                    s.case("class", &one(k, &vec![x; n]));
                    let mut v = vec![0; n];
                    v.extend_from_slice(&[x; 6]);
                    s.case("class", &one(k, &v));
                }
            }
        }
        let f = Focus { unknown: true, members: true, pool: true, ..focus(NAMES) };
        let (dict, words) = (s.dict.clone(), s.words.clone());
        for _ in 0..2000 {
            let mut b = { let mut g = G { r: &mut s.rng, dict: &dict, words: &words, budget: 500, mistakes: true, big: false, slots: 0 }; g.class(&f) };
            { let mut g = G { r: &mut s.rng, dict: &dict, words: &words, budget: 0, mistakes: true, big: false, slots: 0 }; g.mutate(&mut b); }
            if b.len() > 5 && (b[4] == 0xEE || b[4] == 0xED) { b[4] = 0 }
            s.case("class", &b);
            if s.over() {
                return;
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("WITNESS_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
        for l in t.lines().take_while(|l| !l.starts_with("what fails")).filter_map(|l| l.strip_prefix("before: ")) {
            let mut w = l.split(' ');
            let (kind, b) = (w.next().unwrap_or(""), unhex(w.next().unwrap_or("")));
            if let Ok(Some(w)) = guarded(|| check(&get("property:"), kind, &b)) {
                println!("an earlier input ({}):\n{}", hex(&b), w);
                std::process::exit(3)
            }
        }
        match check(&get("property:"), &get("kind:"), &unhex(&get("input:"))) {
            Some(w) => {
                println!("{}", w);
                std::process::exit(3)
            }
            None => println!("holds"),
        }
        return;
    }
    let dict = std::fs::read_to_string(&a[6]).unwrap_or_default();
    let mut s = Search {
        prop: a[2].split(':').next().unwrap().to_string(),
        about: a[2].split(':').last().unwrap().to_string(),
        rng: Rng(a[3].parse::<u64>().unwrap().wrapping_mul(0x9E37_79B9)),
        until: Instant::now() + Duration::from_millis((a[4].parse::<f64>().unwrap() * 1000.0) as u64),
        tried: 0,
        distinct: HashSet::new(),
        out: a[5].clone(),
        found: false,
        dict: dict.lines().filter_map(|l| l.strip_prefix("n ")).filter_map(|x| x.parse().ok()).collect(),
        words: dict.lines().filter_map(|l| l.strip_prefix("s ")).map(|x| String::from_utf8_lossy(&unhex(x)).to_string()).collect(),
        samples: vec![],
        cur: std::fs::File::create(format!("{}.cur", a[5])).unwrap(),
        before: Default::default(),
        held: 0,
        short: vec![],
        pairs_at: 20_000,
    };
    // the stack that a main thread has; the parser must not need more
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        run(&mut s);
        println!("{{\"found\": {}, \"tried\": {}, \"distinct\": {}, \"samples\": {:?}}}", s.found, s.tried, s.distinct.len(), s.samples);
        s.found
    });
    match h.unwrap().join() {
        Ok(true) => std::process::exit(3),
        Ok(false) => {}
        Err(_) => std::process::exit(4),
    }
}
