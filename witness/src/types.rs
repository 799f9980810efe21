//! Descriptors.
use crate::{guarded, Search};
use jbcrs::{Error, MethodDescriptor, Type, TypeDescriptor};

type D = (u8, Type);
/// A type descriptor at the front, and what is left.
fn field(c: &[char]) -> Option<(D, &[char])> {
    let dims = c.iter().take_while(|&&x| x == '[').count();
    if dims > 255 {
        return None;
    }
    let c = &c[dims..];
    let t = match *c.first()? {
        'Z' => Type::Boolean,
        'B' => Type::Byte,
        'S' => Type::Short,
        'I' => Type::Int,
        'J' => Type::Long,
        'F' => Type::Float,
        'D' => Type::Double,
        'C' => Type::Char,
        'L' => {
            let n = c.iter().position(|&x| x == ';')?;
            if n < 2 {
                return None;
            }
            return Some(((dims as u8, Type::Reference(c[1..n].iter().collect())), &c[n + 1..]));
        }
        _ => return None,
    };
    Some(((dims as u8, t), &c[1..]))
}
fn want_type(s: &str) -> Option<TypeDescriptor> {
    let c: Vec<char> = s.chars().collect();
    match field(&c) {
        Some(((dimensions, base_type), [])) => Some(TypeDescriptor { dimensions, base_type }),
        _ => None,
    }
}
fn want_method(s: &str) -> Option<MethodDescriptor> {
    let c: Vec<char> = s.chars().collect();
    let mut c = &c[..];
    if c.first() != Some(&'(') {
        return None;
    }
    c = &c[1..];
    let mut params = vec![];
    while *c.first()? != ')' {
        let ((dimensions, base_type), rest) = field(c)?;
        params.push(TypeDescriptor { dimensions, base_type });
        c = rest;
    }
    if params.len() > 255 {
        return None;
    }
    c = &c[1..];
    let return_type = if c == ['V'] {
        None
    } else {
        match field(c)? {
            ((dimensions, base_type), []) => Some(TypeDescriptor { dimensions, base_type }),
            _ => return None,
        }
    };
    Some(MethodDescriptor { params, return_type })
}

fn check<T: std::str::FromStr<Err = Error> + std::fmt::Display + PartialEq + std::fmt::Debug>(prop: &str, own: &str, s: &str, want: Option<T>) -> Option<String> {
    let got = match guarded(|| s.parse::<T>()) {
        Ok(r) => r,
        Err(m) => return if prop == own || prop == "ALL" || prop == "C25" { Some(format!("parsing {:?} panics: {}", s, m)) } else { None },
    };
    let all = prop == "ALL";
    if prop == own || all {
        match (&got, &want) {
            (Ok(x), Some(y)) if x == y && format!("{:?}", x) == format!("{:?}", y) => {}
            (Err(_), None) => {}
            _ => return Some(format!("parsing {:?} gives {:?}, not {:?}", s, got, want)),
        }
    }
    if prop == "C25" || all {
        if let Err(ref e) = got {
            match *e {
                Error::InvalidDescriptor { ref desc, at } if desc == s && at <= s.chars().count() => {}
                _ => return Some(format!("parsing {:?} fails with {:?}", s, e)),
            }
        }
    }
    if prop == "C22" || all {
        if let Ok(d) = got {
            let t = match guarded(|| d.to_string()) {
                Ok(t) => t,
                Err(m) => return Some(format!("printing {:?} panics: {}", d, m)),
            };
            if t != s && (all || want.is_some()) {
                return Some(format!("{:?} is printed as {:?} after parsing", s, t));
            }
            match t.parse::<T>() {
                Ok(ref e) if *e == d => {}
                o => return Some(format!("{:?} prints {:?}, which gives {:?}", d, t, o)),
            }
            // whatever the sink and the format of the printing
            if format!("{}{}", d, d) != t.clone() + &t {
                return Some(format!("{:?} prints something else the second time", d));
            }
        }
        // values that parsing can produce, whether it does so now or not
        if let Some(w) = want {
            match guarded(|| w.to_string()) {
                Ok(t) if t == s => {}
                o => return Some(format!("{:?} is printed as {:?}", w, o)),
            }
        }
    }
    None
}
pub fn check_type(prop: &str, b: &[u8]) -> Option<String> {
    let s = std::str::from_utf8(b).ok()?;
    check(prop, "C20", s, want_type(s))
}
pub fn check_method(prop: &str, b: &[u8]) -> Option<String> {
    let s = std::str::from_utf8(b).ok()?;
    check(prop, "C21", s, want_method(s))
}

pub fn search(s: &mut Search) {
    let prop = s.about.clone();
    let kinds: &[&str] = match &prop[..] {
        "C20" => &["type"],
        "C21" => &["method"],
        _ => &["type", "method"],
    };
    let go = |s: &mut Search, t: &str| {
        for k in kinds {
            s.case(k, t.as_bytes());
        }
        s.over()
    };
    // all short strings over an alphabet
    let abc = ["[", "L", ";", "I", "V", "(", ")", "Z", "x", "/", "\u{e9}", "\u{1f600}"];
    let mut level = vec![String::new()];
    for n in 0..5 {
        let mut next = vec![];
        for t in &level {
            if go(s, t) {
                return;
            }
            if kinds.contains(&"method") {
                go(s, &format!("({}", t));
                if n < 4 {
                    go(s, &format!("({})V", t));
                    go(s, &format!("(){}", t));
                }
            }
            if n < 4 {
                for c in abc {
                    next.push(t.clone() + c)
                }
            }
        }
        level = next;
    }
    for c in (0..0x3000u32).chain([0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]) {
        if let Some(c) = char::from_u32(c) {
            for t in [format!("{}", c), format!("[{}", c), format!("L{};", c), format!("La{}b;", c), format!("I{}", c), format!("({})V", c), format!("(){}", c), format!("()L{};", c), format!("({}I)V", c), format!("(I)V{}", c), format!("{}I)V", c)] {
                go(s, &t);
            }
        }
    }
    let mut sizes: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 65534, 65535, 65536, 65537, 70000];
    for &d in &s.dict {
        for k in [d.wrapping_sub(1), d, d.wrapping_add(1)] {
            if k < 70000 {
                sizes.push(k as usize)
            }
        }
    }
    sizes.sort();
    sizes.dedup();
    for &n in &sizes {
        let d = "[".repeat(n);
        let x = "\u{e9}".repeat(n);
        for base in ["Z", "B", "S", "I", "J", "F", "D", "C", "V", "La;", "L;", "L", "", "(", ")", "Q"] {
            for t in [format!("{}{}", d, base), format!("({}{})V", d, base), format!("(){}{}", d, base), format!("(I{}{}La;){}{}", d, base, d, base), format!("({})V", base.repeat(n)), format!("({}){}", base.repeat(n), base), format!("({}[J)V", base.repeat(n))] {
                if t.len() < 300_000 && go(s, &t) {
                    return;
                }
            }
        }
        for t in [format!("L{};", x), format!("L{}", x), format!("[[L{};", "a".repeat(n)), format!("(L{};)L{};", x, x), format!("()L{}", x), format!("({}", x)] {
            go(s, &t);
        }
    }
    let parts = ["[", "[[", "I", "J", "Z", "B", "S", "F", "D", "C", "V", "L", ";", "(", ")", "La/b;", "Ljava/lang/String;", "L\u{4e2d}\u{1f600};", "()", ")V", "(I", "x", "[", "La", "L;", "\u{0}", " "];
    let words = s.words.clone();
    while !s.over() {
        let one = |r: &mut crate::gen::Rng, n: usize, valid: bool| {
            let mut o = String::new();
            for _ in 0..n {
                if !valid {
                    if !words.is_empty() && r.chance(10) { o += &r.pick(&words).clone() } else { o += *r.pick(&parts) }
                } else {
                    let k = if r.chance(40) { r.below(257) } else { r.below(4) };
                    o += &"[".repeat(k);
                    if r.chance(2) {
                        o += *r.pick(&["I", "J", "Z", "B", "S", "F", "D", "C"])
                    } else {
                        o.push('L');
                        for _ in 0..1 + r.below(5) {
                            if !words.is_empty() && r.chance(10) { o += &r.pick(&words).clone() } else { o += *r.pick(&["a", "B", "/", "$", "[", "L", "(", ")", "V", "I", "\u{e9}", "\u{4e2d}", "\u{1f600}", " "]) }
                        }
                        o.push(';')
                    }
                }
            }
            o
        };
        let valid = !s.rng.chance(3);
        let n = s.rng.below(6);
        let t = if s.rng.chance(2) {
            let k = if valid { 1 } else { n };
            one(&mut s.rng, k, valid)
        } else {
            let n = if s.rng.chance(30) { s.rng.below(300) } else { n };
            let a = one(&mut s.rng, n, valid);
            let b = if s.rng.chance(3) { "V".to_string() } else { let k = if s.rng.chance(12) { 2 } else { 1 }; one(&mut s.rng, k, true) };
            format!("({}){}", a, b)
        };
        go(s, &t);
        if s.rng.chance(3) {
            let mut c: Vec<char> = t.chars().collect();
            if !c.is_empty() {
                let i = s.rng.below(c.len());
                match s.rng.below(3) {
                    0 => { c.remove(i); }
                    1 => c.insert(i, s.rng.pick(&parts).chars().next().unwrap()),
                    _ => c.truncate(i),
                }
                go(s, &c.into_iter().collect::<String>());
            }
        }
    }
}
