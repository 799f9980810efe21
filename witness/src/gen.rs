//! Class files: well-formed ones by construct, and broken ones.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

pub const NAMES: &[&str] = &[
    "AnnotationDefault", "BootstrapMethods", "Code", "ConstantValue", "Deprecated", "EnclosingMethod", "Exceptions", "InnerClasses",
    "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "MethodParameters", "Module", "ModuleMainClass", "ModulePackages",
    "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations",
    "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "SourceFile", "Signature", "StackMapTable", "Synthetic", "SourceDebugExtension",
];
pub const UNKNOWN: &[&str] = &["", "Foo", "code", "CodeX", "Cod", "Synthetic ", "NestHost", "NestMembers", "Record", "PermittedSubclasses", "RuntimeVisibleAnnotation", "org.x.\u{e4}\u{4e2d}\u{1f600}"];

pub struct G<'r> {
    pub r: &'r mut Rng,
    pub dict: &'r [u64],
    pub words: &'r [String],
    pub budget: usize,
    pub mistakes: bool, // wrong lengths and values are allowed
    pub big: bool,      // big tables are allowed
    pub slots: usize,   // of the pool, for indices into it
}

/// What the class files are about.
#[derive(Clone)]
pub struct Focus {
    pub kinds: Vec<&'static str>,
    pub unknown: bool,
    pub members: bool,
    pub pool: bool,
    pub strings: bool,
}

pub fn u2(o: &mut Vec<u8>, v: u16) {
    o.extend_from_slice(&v.to_be_bytes());
}
pub fn u4(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_be_bytes());
}

impl<'r> G<'r> {
    pub fn num(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { !0 } else { (1u64 << bits) - 1 };
        if bits == 16 && self.slots > 1 && self.r.chance(4) {
            return self.r.below(self.slots) as u64;
        }
        (match self.r.below(5) {
            0 => self.r.below(5) as u64,
            1 => {
                let k = self.r.below(bits as usize) as u64;
                let b = 1u64 << k;
                *self.r.pick(&[b, b - 1, b + 1, !b, b.wrapping_neg(), b.wrapping_neg().wrapping_add(1), !0, !0 - 1])
            }
            2 if !self.dict.is_empty() => {
                let d = *self.r.pick(self.dict);
                match self.r.below(5) {
                    0 => d.wrapping_add(1),
                    1 => d.wrapping_sub(1),
                    2 => d.wrapping_neg(),
                    _ => d,
                }
            }
            _ => self.r.next() >> self.r.below(64),
        }) & mask
    }
    fn b(&mut self, o: &mut Vec<u8>) {
        let v = self.num(8) as u8;
        o.push(v)
    }
    fn w(&mut self, o: &mut Vec<u8>) {
        let v = self.num(16) as u16;
        u2(o, v)
    }
    fn ww(&mut self, o: &mut Vec<u8>) {
        let v = self.num(32) as u32;
        u4(o, v)
    }
    /// The number of entries of a table.
    pub fn count(&mut self, max: usize, size: usize) -> usize {
        let room = self.budget / size.max(1);
        let n = match self.r.below(24) {
            0..=13 => self.r.below(4),
            14..=19 => self.r.below(12),
            20 | 21 if !self.dict.is_empty() => (*self.r.pick(self.dict) as usize).wrapping_add(self.r.below(3)).wrapping_sub(1),
            22 => *self.r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257]),
            23 if self.big => *self.r.pick(&[300usize, 511, 512, 1000, 1024, 4095, 4096, 10000, 32767, 32768, 65534, 65535]),
            _ => self.r.below(3),
        };
        let n = n.min(max).min(room).min(if self.big { 65535 } else { 300 });
        self.budget = self.budget.saturating_sub(n * size);
        n
    }
    fn table(&mut self, o: &mut Vec<u8>, wide: bool, size: usize, f: impl Fn(&mut Self, &mut Vec<u8>)) {
        let n = self.count(if wide { 65535 } else { 255 }, size);
        self.table_n(o, wide, n, f);
    }
    pub fn table_n(&mut self, o: &mut Vec<u8>, wide: bool, n: usize, f: impl Fn(&mut Self, &mut Vec<u8>)) {
        let mut said = n;
        if self.mistakes && self.r.chance(40) {
            said = (n + 1).saturating_sub(2 * self.r.below(2));
        }
        if wide {
            u2(o, said as u16)
        } else {
            o.push(said as u8)
        }
        for _ in 0..n {
            f(self, o)
        }
    }
    pub fn code_point(&mut self) -> u32 {
        let r = &mut *self.r;
        match r.below(12) {
            0..=4 => 0x20 + r.below(0x5f) as u32,
            5 => *r.pick(&[1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x1fc00, 0x20000, 0x103ff, 0xfffff, 0x100000]),
            6 => 0x80 + r.below(0x780) as u32,
            7 | 8 => 0x800 + r.below(0xd000) as u32,
            9 => 0xe000 + r.below(0x2000) as u32,
            10 => 0,
            _ => 0x10000 + r.below(0x100000) as u32,
        }
    }
    pub fn text(&mut self) -> Vec<u8> {
        let mut o = vec![];
        let n = self.count(2000, 6);
        for _ in 0..n {
            if self.mistakes && self.r.chance(12) {
                for _ in 0..1 + self.r.below(6) {
                    let v = *self.r.pick(&[0u8, 1, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xdf, 0xe0, 0xec, 0xed, 0xed, 0xed, 0xee, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xff]);
                    o.push(v);
                }
                continue;
            }
            let c = self.code_point();
            encode(&mut o, c);
        }
        if self.mistakes && self.r.chance(6) {
            let k = self.r.below(o.len() + 1);
            o.truncate(k);
        }
        o
    }
    pub fn constant(&mut self, tag: u8) -> Vec<u8> {
        let mut o = vec![tag];
        match tag {
            1 => {
                let mut t = self.text();
                t.truncate(65535);
                u2(&mut o, t.len() as u16);
                o.extend(t);
            }
            3 | 4 | 9 | 10 | 11 | 12 | 18 => self.ww(&mut o),
            5 | 6 => {
                let v = self.num(64);
                o.extend_from_slice(&v.to_be_bytes());
            }
            15 => {
                let k = if self.mistakes && self.r.chance(3) { self.num(8) as u8 } else { 1 + self.r.below(9) as u8 };
                o.push(k);
                self.w(&mut o)
            }
            _ => self.w(&mut o),
        }
        o
    }
    pub fn tag(&mut self) -> u8 {
        if self.mistakes && self.r.chance(60) {
            return self.num(8) as u8;
        }
        *self.r.pick(&[1, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20])
    }
    pub fn instruction(&mut self, at: usize) -> Vec<u8> {
        let op = if self.r.chance(3) { *self.r.pick(&[0x10u8, 0x11, 0x12, 0x13, 0x15, 0x3A, 0x84, 0x99, 0xA7, 0xA9, 0xAA, 0xAB, 0xB2, 0xB9, 0xBA, 0xBC, 0xC4, 0xC5, 0xC8]) } else { self.r.below(if self.mistakes { 256 } else { 0xCB }) as u8 };
        let mut o = vec![op];
        let n = match op {
            0x10 | 0x12 | 0x15..=0x19 | 0x36..=0x3A | 0xA9 => 1,
            0x11 | 0x13 | 0x14 | 0x84 | 0x99..=0xA8 | 0xB2..=0xB8 | 0xBB | 0xBD | 0xC0 | 0xC1 | 0xC6 | 0xC7 => 2,
            0xC5 => 3,
            0xB9 | 0xBA | 0xC8 | 0xC9 => 4,
            0xBC => {
                let v = if self.mistakes && self.r.chance(4) { self.num(8) as u8 } else { 4 + self.r.below(8) as u8 };
                o.push(v);
                0
            }
            0xC4 => {
                let mut s = *self.r.pick(&[0x15u8, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3A, 0xA9, 0x84, 0x84]);
                if self.mistakes && self.r.chance(8) {
                    s = self.num(8) as u8;
                }
                o.push(s);
                if s == 0x84 { 4 } else { 2 }
            }
            0xAA => {
                for _ in 0..3 - at % 4 {
                    self.b(&mut o);
                }
                self.ww(&mut o);
                let n = self.count(60000, 4).max(1) as i64;
                let low = match self.r.below(3) {
                    0 => self.num(32) as u32 as i32 as i64,
                    1 => self.r.below(9) as i64 - 4,
                    _ => *self.r.pick(&[i32::MIN as i64, i32::MAX as i64 - n + 1]),
                };
                let mut high = low + n - 1;
                if self.mistakes && self.r.chance(6) {
                    high = *self.r.pick(&[high + 1, high - 1, low - 1, i32::MAX as i64]);
                }
                u4(&mut o, low as u32);
                u4(&mut o, high as u32);
                for _ in 0..n {
                    self.ww(&mut o);
                }
                0
            }
            0xAB => {
                for _ in 0..3 - at % 4 {
                    self.b(&mut o);
                }
                self.ww(&mut o);
                let n = self.count(60000, 8);
                let mut said = n as u32;
                if self.mistakes && self.r.chance(10) {
                    said = *self.r.pick(&[said + 1, said.wrapping_sub(1), !0, 0x8000_0000]);
                }
                u4(&mut o, said);
                for _ in 0..n {
                    self.ww(&mut o);
                    self.ww(&mut o);
                }
                0
            }
            _ => 0,
        };
        let mut left = n;
        while left > 0 {
            if left == 4 && self.r.chance(3) {
                self.ww(&mut o);
                left -= 4
            } else if left >= 2 && self.r.chance(2) {
                self.w(&mut o);
                left -= 2
            } else {
                if self.r.chance(3) { self.b(&mut o) } else { let v = self.r.next() as u8; o.push(v) }
                left -= 1
            }
        }
        o
    }
    fn verification(&mut self, o: &mut Vec<u8>) {
        let t = if self.mistakes && self.r.chance(40) { self.num(8) as u8 } else { self.r.below(9) as u8 };
        o.push(t);
        if t == 7 || t == 8 {
            self.w(o)
        }
    }
    fn frame(&mut self, o: &mut Vec<u8>) {
        let t = match self.r.below(9) {
            0 => self.r.below(64) as u8,
            1 => 64 + self.r.below(64) as u8,
            2 => 247,
            3 => 248 + self.r.below(3) as u8,
            4 => 251,
            5 => 252 + self.r.below(3) as u8,
            6 => 255,
            7 => *self.r.pick(&[0u8, 63, 64, 127, 247, 248, 250, 251, 252, 254, 255]),
            _ if self.mistakes => self.num(8) as u8,
            _ => 255,
        };
        o.push(t);
        match t {
            64..=127 => self.verification(o),
            247 => { self.w(o); self.verification(o) }
            248..=251 => self.w(o),
            252..=254 => { self.w(o); for _ in 0..t - 251 { self.verification(o) } }
            255 => {
                self.w(o);
                self.table(o, true, 3, |g, o| g.verification(o));
                self.table(o, true, 3, |g, o| g.verification(o));
            }
            _ => {}
        }
    }
    pub fn element(&mut self, o: &mut Vec<u8>, depth: usize) {
        let tags = b"BCDFIJSZsec@[@[";
        let mut t = *self.r.pick(&tags[..if depth == 0 { 11 } else { 15 }]);
        if self.mistakes && self.r.chance(60) {
            t = self.num(8) as u8;
        }
        o.push(t);
        match t {
            b'e' => self.ww(o),
            b'@' => self.annotation(o, depth.saturating_sub(1)),
            b'[' => self.table(o, true, 3, |g, o| g.element(o, depth.saturating_sub(1))),
            _ => self.w(o),
        }
    }
    fn annotation(&mut self, o: &mut Vec<u8>, depth: usize) {
        self.w(o);
        self.table(o, true, 5, |g, o| {
            g.w(o);
            g.element(o, depth)
        })
    }
    fn annotations(&mut self, o: &mut Vec<u8>) {
        let d = self.r.below(4);
        self.table(o, true, 4, |g, o| g.annotation(o, d))
    }
    fn type_annotation(&mut self, o: &mut Vec<u8>) {
        let mut t = *self.r.pick(&[0u8, 1, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4A, 0x4B]);
        if self.mistakes && self.r.chance(60) {
            t = self.num(8) as u8;
        }
        o.push(t);
        match t {
            0 | 1 | 0x16 => self.b(o),
            0x10 | 0x17 | 0x42..=0x46 => self.w(o),
            0x11 | 0x12 => { self.b(o); self.b(o) }
            0x40 | 0x41 => self.table(o, true, 6, |g, o| { g.w(o); g.ww(o) }),
            0x47..=0x4B => { self.w(o); self.b(o) }
            _ => {}
        }
        self.table(o, false, 2, |g, o| {
            let k = if g.mistakes && g.r.chance(60) { g.num(8) as u8 } else { g.r.below(4) as u8 };
            o.push(k);
            g.b(o)
        });
        self.annotation(o, 2)
    }
    pub fn content(&mut self, kind: &str, f: &Focus, names: &Names, depth: usize) -> Vec<u8> {
        let mut o = vec![];
        let o_ = &mut o;
        match kind {
            "AnnotationDefault" => { let d = self.r.below(4); self.element(o_, d) }
            "BootstrapMethods" => self.table(o_, true, 6, |g, o| { g.w(o); g.table(o, true, 2, |g, o| g.w(o)) }),
            "Code" => {
                self.w(o_);
                self.w(o_);
                let mut code = vec![];
                let n = if self.mistakes && self.r.chance(20) { 0 } else { self.count(60000, 3).max(1) };
                for _ in 0..n {
                    let i = self.instruction(code.len());
                    code.extend(i);
                }
                let mut said = code.len();
                if self.mistakes && self.r.chance(12) {
                    said = (said + self.r.below(5)).saturating_sub(2);
                }
                u4(o_, said as u32);
                o.extend(code);
                self.table(&mut o, true, 8, |g, o| { g.ww(o); g.ww(o) });
                self.attributes(&mut o, f, names, depth + 1);
            }
            "ConstantValue" | "ModuleMainClass" | "SourceFile" | "Signature" => self.w(o_),
            "EnclosingMethod" => self.ww(o_),
            "Exceptions" | "ModulePackages" => self.table(o_, true, 2, |g, o| g.w(o)),
            "InnerClasses" => self.table(o_, true, 8, |g, o| { g.w(o); g.w(o); g.w(o); g.w(o) }),
            "LineNumberTable" => self.table(o_, true, 4, |g, o| { g.w(o); g.w(o) }),
            "LocalVariableTable" | "LocalVariableTypeTable" => self.table(o_, true, 10, |g, o| { g.w(o); g.w(o); g.w(o); g.w(o); g.w(o) }),
            "MethodParameters" => self.table(o_, false, 4, |g, o| { g.w(o); g.w(o) }),
            "Module" => {
                self.w(o_);
                self.w(o_);
                self.w(o_);
                self.table(o_, true, 6, |g, o| { g.w(o); g.w(o); g.w(o) });
                self.table(o_, true, 8, |g, o| { g.w(o); g.w(o); g.table(o, true, 2, |g, o| g.w(o)) });
                self.table(o_, true, 8, |g, o| { g.w(o); g.w(o); g.table(o, true, 2, |g, o| g.w(o)) });
                self.table(o_, true, 2, |g, o| g.w(o));
                self.table(o_, true, 8, |g, o| { g.w(o); g.table(o, true, 2, |g, o| g.w(o)) });
            }
            "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" => self.annotations(o_),
            "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => self.table(o_, false, 10, |g, o| g.annotations(o)),
            "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => self.table(o_, true, 10, |g, o| g.type_annotation(o)),
            "StackMapTable" => self.table(o_, true, 6, |g, o| g.frame(o)),
            "SourceDebugExtension" => o = self.text(),
            "Deprecated" | "Synthetic" => {}
            _ => {
                let n = self.count(5000, 1);
                for _ in 0..n {
                    self.b(&mut o);
                }
            }
        }
        o
    }
    pub fn attribute(&mut self, o: &mut Vec<u8>, name: u16, content: &[u8]) {
        u2(o, name);
        let mut said = content.len() as u32;
        if self.mistakes && self.r.chance(12) {
            said = match self.r.below(6) {
                0 => said.wrapping_add(1),
                1 => said.wrapping_sub(1),
                2 => said + 2,
                3 => 0,
                4 => self.num(32) as u32,
                _ => said + self.r.below(40) as u32,
            };
        }
        u4(o, said);
        o.extend_from_slice(content);
        if self.mistakes && self.r.chance(20) {
            for _ in 0..1 + self.r.below(3) {
                self.b(o)
            }
        }
    }
    pub fn attributes(&mut self, o: &mut Vec<u8>, f: &Focus, names: &Names, depth: usize) {
        let at = o.len();
        u2(o, 0);
        let n = if depth > 3 { 0 } else if f.kinds.is_empty() && !f.unknown { 0 } else { self.r.below(4) };
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            if f.unknown && (f.kinds.is_empty() || self.r.chance(3)) {
                let k = self.r.below(names.unknown.len());
                let mut i = names.unknown[k];
                if self.mistakes && self.r.chance(20) {
                    i = self.num(16) as u16;
                }
                let c = self.content("?", f, names, depth);
                self.attribute(o, i, &c);
            } else {
                let k = *self.r.pick(&f.kinds);
                let c = self.content(k, f, names, depth);
                let i = names.of(k);
                self.attribute(o, i, &c);
            }
            let m = u16::from_be_bytes([o[at], o[at + 1]]) + 1;
            o[at..at + 2].copy_from_slice(&m.to_be_bytes());
        }
        if self.mistakes && self.r.chance(40) {
            let m = u16::from_be_bytes([o[at], o[at + 1]]) + 1;
            o[at..at + 2].copy_from_slice(&m.to_be_bytes());
        }
    }
    pub fn class(&mut self, f: &Focus) -> Vec<u8> {
        let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE];
        if self.mistakes && self.r.chance(60) {
            let k = self.r.below(4);
            o[k] ^= 1 << self.r.below(8);
        }
        self.ww(&mut o);
        // the pool: names in random places
        let mut pool = vec![];
        let mut slots = 1usize;
        let mut names = Names { known: vec![], unknown: vec![] };
        let extra = if f.pool || f.strings { self.count(60000, 5) } else { self.r.below(3) };
        let before = self.r.below(extra + 1);
        let add = |g: &mut Self, pool: &mut Vec<u8>, slots: &mut usize| {
            let t = if f.strings { 1 } else { g.tag() };
            if *slots + 2 > 65534 {
                return;
            }
            let c = g.constant(t);
            pool.extend(&c);
            *slots += if t == 5 || t == 6 { 2 } else { 1 };
        };
        self.slots = 0;
        if self.r.chance(3) {
            // constants that refer to each other
            for _ in 0..1 + self.r.below(3) {
                let t: &[u8] = if self.r.chance(4) && !self.words.is_empty() { self.r.pick(self.words).as_bytes() } else { *self.r.pick(&[&b""[..], b"", b"A", b"/", b".", b"[", b"[I", b"I", b"()V", b"java/lang/Object", b"\xC0\x80", b"\xC3\xA9", b"\xED\xA0\xBD\xED\xB8\x80", b"x;", b"<init>"]) };
                pool.push(1);
                u2(&mut pool, t.len() as u16);
                pool.extend_from_slice(t);
                slots += 1;
                for _ in 0..self.r.below(4) {
                    let t = *self.r.pick(&[7u8, 7, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20]);
                    pool.push(t);
                    if t == 15 { pool.push(1 + self.r.below(9) as u8) }
                    for _ in 0..if t >= 9 && t <= 12 || t == 18 { 2 } else { 1 } {
                        let v = if self.r.chance(3) { slots - 1 } else { 1 + self.r.below(slots + 2) };
                        u2(&mut pool, v as u16);
                    }
                    slots += 1;
                }
            }
        }
        for _ in 0..before {
            add(self, &mut pool, &mut slots)
        }
        for k in &f.kinds {
            names.known.push((k, slots as u16));
            utf8(&mut pool, k);
            slots += 1;
        }
        if f.unknown {
            let mut list: Vec<String> = UNKNOWN.iter().map(|s| s.to_string()).collect();
            for w in self.words.iter() {
                if !NAMES.contains(&&w[..]) {
                    list.push(w.clone());
                }
            }
            for _ in 0..1 + self.r.below(3) {
                let w = self.r.pick(&list).clone();
                names.unknown.push(slots as u16);
                utf8(&mut pool, &w);
                slots += 1;
            }
            if self.r.chance(3) {
                let n = self.r.pick(NAMES).to_string();
                let mut m: Vec<char> = n.chars().collect();
                let k = self.r.below(m.len());
                match self.r.below(3) {
                    0 => { m.remove(k); }
                    1 => m[k] = 'x',
                    _ => m.insert(k, 'a'),
                }
                let m: String = m.into_iter().collect();
                if !NAMES.contains(&&m[..]) {
                    names.unknown.push(slots as u16);
                    utf8(&mut pool, &m);
                    slots += 1;
                }
            }
        }
        for _ in before..extra {
            add(self, &mut pool, &mut slots)
        }
        let mut said = slots;
        if slots == 1 && self.r.chance(2) {
            said = 0;
        }
        if self.mistakes && self.r.chance(20) {
            said = (said + 1).saturating_sub(2 * self.r.below(2));
        }
        u2(&mut o, said as u16);
        o.extend(pool);
        self.slots = if self.r.chance(2) { slots } else { 0 };
        self.w(&mut o);
        self.w(&mut o);
        self.w(&mut o);
        if f.members {
            self.table(&mut o, true, 2, |g, o| g.w(o));
        } else {
            u2(&mut o, 0);
        }
        for _ in 0..2 {
            let n = if f.members { self.count(20000, 8) } else { self.r.below(2) };
            u2(&mut o, n as u16);
            for _ in 0..n {
                self.w(&mut o);
                self.w(&mut o);
                self.w(&mut o);
                if n > 20 {
                    u2(&mut o, 0)
                } else {
                    self.attributes(&mut o, f, &names, 0)
                }
            }
        }
        self.attributes(&mut o, f, &names, 0);
        if self.r.chance(4) {
            for _ in 0..self.r.below(9) {
                self.b(&mut o)
            }
        }
        o
    }
    pub fn mutate(&mut self, v: &mut Vec<u8>) {
        if v.is_empty() {
            return;
        }
        for _ in 0..1 + self.r.below(3) {
            let k = if self.r.chance(2) { self.r.below(v.len()) } else { v.len() - 1 - self.r.below(v.len().min(60)) };
            match self.r.below(6) {
                0 => v.truncate(k.max(1)),
                1 => v[k] ^= 1 << self.r.below(8),
                2 => v[k] = self.num(8) as u8,
                3 => { v.remove(k); }
                4 => { let x = self.num(8) as u8; v.insert(k, x) }
                _ => {
                    let x = self.num(16) as u16;
                    v[k] = (x >> 8) as u8;
                    if k + 1 < v.len() {
                        v[k + 1] = x as u8;
                    }
                }
            }
            if v.is_empty() {
                return;
            }
        }
    }
}

pub struct Names {
    pub known: Vec<(&'static str, u16)>,
    pub unknown: Vec<u16>,
}
impl Names {
    pub fn of(&self, k: &str) -> u16 {
        self.known.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0)
    }
}
pub fn encode(o: &mut Vec<u8>, c: u32) {
    let three = |o: &mut Vec<u8>, c: u32| {
        o.push(0xE0 | (c >> 12) as u8);
        o.push(0x80 | (c >> 6 & 63) as u8);
        o.push(0x80 | (c & 63) as u8);
    };
    if c != 0 && c < 0x80 {
        o.push(c as u8)
    } else if c < 0x800 {
        o.push(0xC0 | (c >> 6) as u8);
        o.push(0x80 | (c & 63) as u8)
    } else if c < 0x10000 {
        three(o, c)
    } else {
        let d = c - 0x10000;
        three(o, 0xD800 + (d >> 10));
        three(o, 0xDC00 + (d & 0x3ff))
    }
}
pub fn utf8(o: &mut Vec<u8>, s: &str) {
    let mut t = vec![];
    for c in s.chars() {
        encode(&mut t, c as u32)
    }
    o.push(1);
    u2(o, t.len() as u16);
    o.extend(t);
}

/// A class with one attribute of this content, at class level.
pub fn one(name: &str, content: &[u8]) -> Vec<u8> {
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 1, 0, 52];
    u2(&mut o, 2);
    utf8(&mut o, name);
    o.extend_from_slice(&[0, 0x21, 0, 7, 0, 9, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1]);
    u4(&mut o, content.len() as u32);
    o.extend_from_slice(content);
    o
}
/// A class with this Code array.
pub fn one_code(code: &[u8]) -> Vec<u8> {
    let mut c = vec![0, 3, 0, 4];
    u4(&mut c, code.len() as u32);
    c.extend_from_slice(code);
    c.extend_from_slice(&[0, 0, 0, 0]);
    one("Code", &c)
}
/// A class with this constant pool of `count` - 1 slots.
pub fn one_pool(count: u16, pool: &[u8]) -> Vec<u8> {
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 1, 0, 52];
    u2(&mut o, count);
    o.extend_from_slice(pool);
    o.extend_from_slice(&[0, 0x21, 0, 7, 0, 9, 0, 0, 0, 0, 0, 0, 0, 0]);
    o
}
