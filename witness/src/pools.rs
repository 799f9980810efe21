//! Histories of a constant pool, and pairs of items.
use crate::model::{self, item_text};
use crate::{gen, guarded, Search};
use jbcrs::basic::{Item, Pool, ReferenceKind};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

/// What a pool should be.
struct Model {
    slots: Vec<Option<Item>>,
    first: HashMap<String, usize>,
}
impl Model {
    fn push(&mut self, i: Item) -> Result<u16, ()> {
        let key = item_text(&i);
        if let Some(&k) = self.first.get(&key) {
            return Ok(k as u16);
        }
        let wide = matches!(i, Item::Long(_) | Item::Double(_));
        if self.slots.len() + 1 + wide as usize > 65535 {
            return Err(());
        }
        let k = self.slots.len();
        self.first.insert(key, k);
        self.slots.push(Some(i));
        if wide {
            self.slots.push(None)
        }
        Ok(k as u16)
    }
}

fn kind(k: u64) -> ReferenceKind {
    use ReferenceKind::*;
    match k % 9 {
        0 => GetField,
        1 => GetStatic,
        2 => PutField,
        3 => PutStatic,
        4 => InvokeVirtual,
        5 => InvokeStatic,
        6 => InvokeSpecial,
        7 => NewInvokeSpecial,
        _ => InvokeInterface,
    }
}
/// An item from a tag and eight bytes.
fn item(tag: u8, x: u64) -> Item {
    let (a, b) = (x as u16, (x >> 16) as u16);
    match tag % 16 {
        0 => {
            let t: Vec<u16> = (0..(x & 3)).map(|k| (x >> (2 + 16 * k)) as u16).collect();
            Item::UTF8(String::from_utf16_lossy(&t))
        }
        1 => Item::Integer(x as i32),
        2 => Item::Float(f32::from_bits(x as u32)),
        3 => Item::Long(x as i64),
        4 => Item::Double(f64::from_bits(x)),
        5 => Item::Class(a),
        6 => Item::String(a),
        7 => Item::FieldRef { class: a, name_and_type: b },
        8 => Item::MethodRef { class: a, name_and_type: b },
        9 => Item::InterfaceMethodRef { class: a, name_and_type: b },
        10 => Item::NameAndType { name: a, desc: b },
        11 => Item::MethodHandle { kind: kind(b as u64), index: a },
        12 => Item::MethodType(a),
        13 => Item::InvokeDynamic { bootstrap_method_attribute: a, name_and_type: b },
        14 => Item::Module(a),
        _ => Item::Package(a),
    }
}
fn word(b: &[u8]) -> u64 {
    let mut v = [0; 8];
    v[..b.len().min(8)].copy_from_slice(&b[..b.len().min(8)]);
    u64::from_le_bytes(v)
}

/// The lookups that the property promises for an index.
fn looked_up(slots: &[Option<Item>], i: u16) -> [String; 4] {
    let get = |i: u16| slots.get(i as usize).and_then(|x| x.as_ref());
    let no = |i: u16| format!("Err(InvalidCPItem({}))", i);
    let utf8 = |i: u16| match get(i) {
        Some(Item::UTF8(s)) => Ok(s.clone()),
        _ => Err(no(i)),
    };
    let show = |r: Result<String, String>, opt: bool| match r {
        Ok(s) if opt => format!("Ok(Some({:?}))", s),
        Ok(s) => format!("Ok({:?})", s),
        Err(e) => e,
    };
    let class = |opt: bool| match get(i) {
        Some(&Item::Class(0)) if opt => "Ok(None)".to_string(),
        Some(&Item::Class(u)) => show(utf8(u), opt),
        _ => no(i),
    };
    [get(i).map(|x| format!("Ok({})", item_text(x))).unwrap_or(no(i)), show(utf8(i), false), class(false), class(true)]
}
fn really(p: &Pool, i: u16) -> [String; 4] {
    [
        match p.get(i) {
            Ok(x) => format!("Ok({})", item_text(x)),
            Err(e) => format!("Err({:?})", e),
        },
        format!("{:?}", p.get_utf8(i)),
        format!("{:?}", p.get_class_name(i)),
        format!("{:?}", p.get_class_name_opt(i)),
    ]
}
fn compare(prop: &str, p: &mut Pool, slots: &[Option<Item>]) -> Option<String> {
    let all = prop == "ALL";
    if (all || prop == "C16" || prop == "C17") && (p.len() as usize != slots.len() || p.is_empty() != (slots.len() == 1)) {
        return Some(format!("the length is {} (empty: {}), not {}", p.len(), p.is_empty(), slots.len()));
    }
    if all || prop == "C17" || prop == "C16" {
        let mut l: Vec<usize> = if slots.len() < 600 { (0..slots.len() + 40).collect() } else { (0..200).chain((0..100).map(|k| k * slots.len() / 100)).chain(slots.len() - 200..slots.len() + 5).collect() };
        l.extend_from_slice(&[255, 256, 32767, 32768, 65533, 65534, 65535]);
        for i in l {
            if i > 65535 {
                continue;
            }
            let (x, y) = match guarded(|| really(p, i as u16)) {
                Ok(y) => (looked_up(slots, i as u16), y),
                Err(m) => return Some(format!("a lookup of index {} panics: {}", i, m)),
            };
            let n = if prop == "C16" { 1 } else { 4 };
            for k in 0..n {
                if x[k] != y[k] {
                    return Some(format!("{}({}) gives {}, not {}", ["get", "get_utf8", "get_class_name", "get_class_name_opt"][k], i, y[k], x[k]));
                }
            }
        }
    }
    if all || prop == "C18" {
        let mut it = p.iter();
        for (k, want) in slots.iter().enumerate() {
            if let Some(want) = want {
                match it.next() {
                    Some((i, x)) if i as usize == k && item_text(x) == item_text(want) => {
                        match p.get(i) {
                            Ok(y) if std::ptr::eq(x, y) => {}
                            _ => return Some(format!("the item yielded for index {} is not the one stored there", i)),
                        }
                    }
                    o => return Some(format!("yields {:?}, not ({}, {})", o.map(|(i, x)| (i, item_text(x))), k, item_text(want))),
                }
            }
        }
        for _ in 0..3 {
            if let Some((i, x)) = it.next() {
                return Some(format!("yields ({}, {}) after the last item", i, item_text(x)));
            }
        }
        let n = p.iter().count();
        let m = slots.iter().flatten().count();
        if n != m {
            return Some(format!("yields {} items, not {}", n, m));
        }
        let (lo, hi) = p.iter().size_hint();
        if lo > m || hi.map_or(false, |h| h < m) {
            return Some(format!("promises {} to {:?} items, not {}", lo, hi, m));
        }
        let used: Vec<u16> = (0..slots.len()).filter(|&k| slots[k].is_some()).map(|k| k as u16).collect();
        for way in 0..4 {
            let got: Vec<u16> = match way {
                0 => p.iter().map(|x| x.0).collect(),
                1 => p.iter().fold(vec![], |mut v, x| { v.push(x.0); v }),
                2 => p.iter().skip(1).step_by(2).map(|x| x.0).collect(),
                _ => (0..used.len().min(40)).filter_map(|k| p.iter().nth(k)).map(|x| x.0).collect(),
            };
            let want: Vec<u16> = match way {
                2 => used.iter().skip(1).step_by(2).cloned().collect(),
                3 => used.iter().take(40).cloned().collect(),
                _ => used.clone(),
            };
            if got != want {
                return Some(format!("yields the indices {:?}, not {:?} ({})", got, want, ["collect", "fold", "skip and step_by", "nth"][way]));
            }
        }
        let (l, f) = (p.iter().last().map(|x| x.0), slots.iter().rposition(|x| x.is_some()).map(|x| x as u16));
        if l != f {
            return Some(format!("the last index is {:?}, not {:?}", l, f));
        }
    }
    None
}

/// A class file's pool, to which its own items are then pushed again.
pub fn check_parsed(prop: &str, b: &[u8]) -> Option<String> {
    let (m, _) = model::class(b).ok()?;
    let (mut p, _) = guarded(|| jbcrs::basic::parse(b)).ok()?.ok()?;
    if let Some(w) = compare(prop, &mut p, &m.pool) {
        return Some(w);
    }
    if prop == "C16" {
        let mut first = HashMap::new();
        for (k, x) in m.pool.iter().enumerate() {
            if let Some(x) = x {
                let f = *first.entry(item_text(x)).or_insert(k);
                match guarded(|| p.push(x.clone())) {
                    Ok(Ok(i)) if i as usize == f => {}
                    o => return Some(format!("pushing {} gives {:?}, not {}", item_text(x), o, f)),
                }
            }
        }
        return compare(prop, &mut p, &m.pool);
    }
    None
}

/// Runs a history: the first byte chooses the constructor, then come operations.
pub fn check_history(prop: &str, b: &[u8]) -> Option<String> {
    let mut m = Model { slots: vec![None], first: HashMap::new() };
    let c = *b.first().unwrap_or(&0);
    let mut p = match c % 4 {
        0 => Pool::new(),
        1 => Pool::default(),
        2 => Pool::with_capacity([0, 1, 2, 7, 255, 256, 65534, c as u16][(c >> 2) as usize % 8]),
        _ => Pool::with_capacity(65535),
    };
    if let Some(w) = compare(prop, &mut p, &m.slots) {
        return Some(w);
    }
    let mut at = 1;
    let mut fresh = 0u64;
    let mut checked = 0;
    while at < b.len() {
        let op = b[at];
        at += 1;
        let mut list: Vec<Item> = vec![];
        match op {
            0..=99 => {
                let x = word(&b[at.min(b.len())..(at + 8).min(b.len())]);
                at += 8;
                list.push(item(op, x));
            }
            100..=179 => {
                // an item of few values
                let v = *b.get(at).unwrap_or(&0) as u64;
                at += 1;
                list.push(item(op, [0, 1, 2, 0x8000_0000, 0x7fc0_0000, 0xffc0_0001, 1 << 63, 0x7ff8 << 48, 0x0001_0001, 0x10000, 3, 4, 5, 6, 7, 8][v as usize % 16]));
            }
            180..=229 => {
                // a run of new items of one kind
                let n = word(&b[at.min(b.len())..(at + 2).min(b.len())]) as usize;
                at += 2;
                for _ in 0..n {
                    fresh += 1;
                    list.push(match op % 5 {
                        0 => Item::Integer(0x100_0000 + fresh as i32),
                        1 => Item::Long(0x100_0000 + fresh as i64),
                        2 => Item::Double(f64::from_bits(0x100_0000 + fresh)),
                        3 => Item::UTF8(format!("fresh {}", fresh)),
                        _ => if fresh % 2 == 0 { Item::Long(0x200_0000 + fresh as i64) } else { Item::Float(f32::from_bits(fresh as u32)) },
                    })
                }
            }
            _ => {
                // one that is there already
                let i = word(&b[at.min(b.len())..(at + 2).min(b.len())]) as usize;
                at += 2;
                if let Some(Some(x)) = m.slots.get(i % m.slots.len()) {
                    list.push(x.clone())
                }
            }
        }
        for x in list {
            let t = item_text(&x);
            let want = m.push(x.clone());
            match guarded(|| p.push(x)) {
                Err(e) => return if prop == "C16" || prop == "ALL" { Some(format!("pushing {} at length {} panics: {}", t, m.slots.len(), e)) } else { None },
                Ok(r) => {
                    let y = format!("{:?}", r);
                    let x = match want {
                        Ok(i) => format!("Ok({})", i),
                        Err(()) => "Err(CPTooLarge)".to_string(),
                    };
                    if x != y {
                        return if prop == "C16" || prop == "ALL" { Some(format!("pushing {} gives {}, not {}", t, y, x)) } else { None };
                    }
                }
            }
        }
        checked += 1;
        if checked < 4 || at >= b.len() {
            if let Some(w) = compare(prop, &mut p, &m.slots) {
                return Some(w);
            }
        }
    }
    None
}

pub fn search_history(s: &mut Search) {
    let le = |n: usize| [n as u8, (n >> 8) as u8];
    for start in 0..32 {
        s.case("pool", &[start]);
        s.case("pool", &[start, 100, 5, 103, 5, 100, 5]);
    }
    // every kind of item, with a few neighbours
    for op in 100..116u8 {
        for v in 0..16u8 {
            for start in [0u8, 1, 2, 3] {
                s.case("pool", &[start, op, v, 100 + (op + 1) % 16, v, op, v, 116, v]);
            }
            s.case("pool", &[0, 100, 5, op, v, 105, v, 103, 1, op, v, op, v ^ 1]);
        }
    }
    // every kind of method handle, with every other
    for k in 0..9u8 {
        for l in 0..9u8 {
            s.case("pool", &[0, 11, 7, 0, k, 0, 0, 0, 0, 0, 11, 7, 0, l, 0, 0, 0, 0, 0, 11, 7, 0, k, 0, 0, 0, 0, 0]);
        }
    }
    // parsed pools, with duplicates
    let f = gen::Focus { kinds: vec![], unknown: false, members: false, pool: true, strings: false };
    let (dict, words) = (s.dict.clone(), s.words.clone());
    for round in 0..usize::MAX {
        if s.over() {
            return;
        }
        if round == 3000 {
            full_pools(s);
        }
        if round % 3 == 0 {
            let b = { let mut g = gen::G { r: &mut s.rng, dict: &dict, words: &words, budget: 3000, mistakes: false, big: false, slots: 0 }; g.class(&f) };
            s.case("class", &b);
            continue;
        }
        let mut v = vec![s.rng.next() as u8];
        for _ in 0..1 + s.rng.below(30) {
            match s.rng.below(12) {
                0..=1 => {
                    v.push(s.rng.below(16) as u8);
                    let mut x = s.rng.next() >> s.rng.below(64);
                    if s.rng.chance(3) { x &= 0x0003_0003 }
                    v.extend_from_slice(&x.to_le_bytes())
                }
                2..=8 => {
                    v.push(100 + s.rng.below(16) as u8);
                    v.push(s.rng.below(16) as u8)
                }
                9 => {
                    v.push(180 + s.rng.below(5) as u8);
                    let n = if s.rng.chance(60) { s.rng.below(65536) } else { s.rng.below(20) };
                    v.extend_from_slice(&le(n))
                }
                _ => {
                    v.push(230);
                    let n = s.rng.below(40);
                    v.extend_from_slice(&le(n))
                }
            }
        }
        s.case("pool", &v);
    }
}

/// Pools of every size up to full ones.
fn full_pools(s: &mut Search) {
    let le = |n: usize| [n as u8, (n >> 8) as u8];
    let mut sizes = vec![1, 2, 3, 7, 8, 15, 16, 17, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 16384, 32766, 32767, 32768, 65532, 65533, 65534, 65535];
    for &d in &s.dict.clone() {
        for k in [d.wrapping_sub(2), d.wrapping_sub(1), d, d.wrapping_add(1)] {
            if k < 65536 {
                sizes.push(k as usize)
            }
        }
    }
    sizes.sort();
    sizes.dedup();
    sizes.sort_by_key(|&n| (n > 300 && n < 65532) as u8);
    for &n in &sizes {
        for op in 180..185u8 {
            let mut v = vec![0, op];
            v.extend_from_slice(&le(n));
            v.extend_from_slice(&[101, 7, 103, 7, 104, 7, 101, 7, 230, 1, 0, 231, 0, 0, 100, 1, 103, 8, 101, 3]);
            s.case("pool", &v);
        }
        if s.over() {
            return;
        }
    }
}

struct Record(Vec<u8>);
impl Hasher for Record {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b)
    }
}

/// Two items of nine bytes each.
pub fn check_items(b: &[u8]) -> Option<String> {
    let at = |k: usize| item(*b.get(9 * k).unwrap_or(&0), word(&b[(9 * k + 1).min(b.len())..(9 * k + 9).min(b.len())]));
    let (x, y) = (at(0), at(1));
    for (p, q) in [(&x, &y), (&y, &x), (&x, &x), (&y, &y)] {
        let want = item_text(p) == item_text(q);
        if (p == q) != want || (p != q) == want {
            return Some(format!("{} == {} is {}", item_text(p), item_text(q), !want));
        }
        if want {
            let clone = p.clone();
            for (u, v) in [(p, q), (p, &clone)] {
                if u != v {
                    return Some(format!("{} differs from its clone", item_text(u)));
                }
                let (mut a, mut b) = (DefaultHasher::new(), DefaultHasher::new());
                u.hash(&mut a);
                v.hash(&mut b);
                let (mut c, mut d) = (Record(vec![]), Record(vec![]));
                u.hash(&mut c);
                v.hash(&mut d);
                if a.finish() != b.finish() || c.0 != d.0 {
                    return Some(format!("{} hashes differently each time", item_text(u)));
                }
            }
        }
    }
    None
}

pub fn search_items(s: &mut Search) {
    let mut values: Vec<u64> = vec![0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x1_0000, 0x1_0001, 0x2_0001, 0x1_0002, 0x8000_0000, 0x8000, 0x3f80_0000, 0x7f80_0000, 0x7f80_0001, 0x7fc0_0000, 0x7fc0_0001, 0xffc0_0000, 1 << 63, 0x3ff0 << 48, 0x7ff0 << 48, (0x7ff0 << 48) + 1, 0x7ff8 << 48, (0x7ff8 << 48) + 1, 0xfff8 << 48, 0x0041_0001 << 2 | 1, 0x41 << 2 | 1, 0x42 << 2 | 1, 0x61 << 2 | 1, 1 << 32, (1 << 32) + 1, !0];
    values.extend(s.dict.iter());
    values.truncate(90);
    let make = |a: u8, x: u64, b: u8, y: u64| {
        let mut v = vec![a];
        v.extend_from_slice(&x.to_le_bytes());
        v.push(b);
        v.extend_from_slice(&y.to_le_bytes());
        v
    };
    for a in 0..16u8 {
        for &x in &values {
            for &y in &values {
                s.case("items", &make(a, x, a, y));
            }
            for b in 0..16u8 {
                s.case("items", &make(a, x, b, x));
            }
        }
    }
    while !s.over() {
        let (a, x) = (s.rng.below(16) as u8, s.rng.next() >> s.rng.below(64));
        let y = match s.rng.below(4) {
            0 => x,
            1 => x ^ (1 << s.rng.below(64)),
            2 => x.rotate_left(16),
            _ => (x as u32 as u64).rotate_left(16) as u32 as u64 | (x as u32 as u64) >> 16,
        };
        let b = if s.rng.chance(4) { s.rng.below(16) as u8 } else { a };
        s.case("items", &make(a, x, b, y));
    }
}
