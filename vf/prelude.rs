// ---- trusted base: models of library types and functions ---------------------
global size_of usize == 8;

// A reading context: the bytes b up to l, how much deeper structures may nest, the constant pool.
pub struct Ctx { pub b: Seq<u8>, pub l: int, pub room: int, pub pool: Pv }
pub type SR<T> = std::result::Result<(T, int), Error>;

pub mod axioms {
use super::*;
// [assumed] A Vec, String, str, HashMap or BTreeMap is determined by its contents.
pub uninterp spec fn mkv<T>(s: Seq<T>) -> Vec<T>;
pub uninterp spec fn mks(s: Seq<char>) -> String;
pub uninterp spec fn mkstr(s: Seq<char>) -> &'static str;
pub uninterp spec fn mkhm<K, V>(m: Map<K, V>) -> HashMap<K, V>;
pub uninterp spec fn mkbm<K, V>(m: Map<K, V>) -> BTreeMap<K, V>;
pub broadcast axiom fn ax_mkv<T>(v: Vec<T>) ensures mkv(#[trigger] v@) == v;
pub broadcast axiom fn ax_mks(s: String) ensures mks(#[trigger] s@) == s;
pub broadcast axiom fn ax_mkstr(s: &str) ensures mkstr(#[trigger] s@) == s;
pub broadcast axiom fn ax_mkhm<K, V>(m: HashMap<K, V>) ensures mkhm(#[trigger] m@) == m;
pub broadcast axiom fn ax_mkbm<K, V>(m: BTreeMap<K, V>) ensures mkbm(#[trigger] m@) == m;
// [assumed] A slice is not longer than isize::MAX bytes (Rust reference).
pub broadcast axiom fn ax_slice(s: &[u8]) ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff_ffff;

pub broadcast group trusted_axioms { ax_mkv, ax_mks, ax_mkstr, ax_mkhm, ax_mkbm, ax_slice, ax_item_key }

// [assumed] Item's equality is structural and its hash consistent (contracts of C19), as HashMap requires
pub broadcast axiom fn ax_item_key() ensures #[trigger] obeys_key_model::<Rc<Item>>();
}
pub use axioms::*;

// a part of a part
pub mod seq_lemmas {
use super::*;
pub broadcast proof fn part_of_part(s: Seq<u8>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn whole_part(s: Seq<u8>)
    ensures #[trigger] s.subrange(0, s.len() as int) == s
{ assert(s.subrange(0, s.len() as int) =~= s); }
}

// [assumed] comparing a string with a literal compares their characters
pub trait SameText { spec fn text(&self) -> Seq<char>; fn same_text(&self, o: &str) -> (r: bool) ensures r == (self.text() == o@); }
impl SameText for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn same_text(&self, o: &str) -> (r: bool) { self == o } }
impl SameText for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn same_text(&self, o: &str) -> (r: bool) { self == o } }

// [assumed] std functions without a specification in vstd
pub assume_specification [<String as AsRef<str>>::as_ref] (s: &String) -> (r: &str) ensures r@ == s@;
pub assume_specification<T> [std::hint::black_box::<T>] (x: T) -> (r: T) ensures r == x;
pub assume_specification<T> [std::convert::identity::<T>] (x: T) -> (r: T) ensures r == x;
pub assume_specification<T> [std::mem::drop::<T>] (x: T);
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (x: Option<&'a T>) -> (r: Option<T>) ensures r == (match x { Some(v) => Some(*v), None => None });
// [assumed] what std::ptr::eq calls the same is the same
#[verifier::external_body]
pub fn same_place<T>(a: &T, b: &T) -> (r: bool) ensures r ==> *a == *b { unimplemented!() }
// `x.as_deref()` of an option is `x.as_ref().inner_ref()`
pub trait InnerRef<'a, T> { spec fn inner(&self) -> Option<&'a T>; fn inner_ref(self) -> (r: Option<&'a T>) ensures r == self.inner(); }
impl<'a, T> InnerRef<'a, T> for Option<&'a Rc<T>> {
    open spec fn inner(&self) -> Option<&'a T> { match self { Some(v) => Some(&**v), None => None } }
    fn inner_ref(self) -> (r: Option<&'a T>) { match self { Some(v) => Some(&**v), None => None } }
}
#[verifier::external_body]
pub fn must_not_panic() requires false { unimplemented!() }
pub assume_specification [u16::max_value] () -> (r: u16) ensures r == 0xffff;
pub assume_specification [u8::max_value] () -> (r: u8) ensures r == 0xff;
pub assume_specification [u32::max_value] () -> (r: u32) ensures r == 0xffff_ffff;
pub assume_specification [u8::wrapping_neg] (x: u8) -> (r: u8) ensures r == (if x == 0 { 0 } else { 0x100 - x });
pub assume_specification [u8::overflowing_add] (x: u8, y: u8) -> (r: (u8, bool)) ensures r.1 == (x + y >= 0x100), r.0 == (if x + y >= 0x100 { x + y - 0x100 } else { x + y });
pub assume_specification [u8::overflowing_sub] (x: u8, y: u8) -> (r: (u8, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + 0x100 } else { x - y });
pub assume_specification [u16::wrapping_neg] (x: u16) -> (r: u16) ensures r == (if x == 0 { 0 } else { 0x1_0000 - x });
pub assume_specification [u16::overflowing_add] (x: u16, y: u16) -> (r: (u16, bool)) ensures r.1 == (x + y >= 0x1_0000), r.0 == (if x + y >= 0x1_0000 { x + y - 0x1_0000 } else { x + y });
pub assume_specification [u16::overflowing_sub] (x: u16, y: u16) -> (r: (u16, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + 0x1_0000 } else { x - y });
pub assume_specification [u32::wrapping_neg] (x: u32) -> (r: u32) ensures r == (if x == 0 { 0 } else { 0x1_0000_0000 - x });
pub assume_specification [u32::overflowing_add] (x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x + y >= 0x1_0000_0000), r.0 == (if x + y >= 0x1_0000_0000 { x + y - 0x1_0000_0000 } else { x + y });
pub assume_specification [u32::overflowing_sub] (x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + 0x1_0000_0000 } else { x - y });
pub assume_specification [u64::wrapping_neg] (x: u64) -> (r: u64) ensures r == (if x == 0 { 0 } else { 0x1_0000_0000_0000_0000 - x });
pub assume_specification [u64::overflowing_add] (x: u64, y: u64) -> (r: (u64, bool)) ensures r.1 == (x + y >= 0x1_0000_0000_0000_0000), r.0 == (if x + y >= 0x1_0000_0000_0000_0000 { x + y - 0x1_0000_0000_0000_0000 } else { x + y });
pub assume_specification [u64::overflowing_sub] (x: u64, y: u64) -> (r: (u64, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + 0x1_0000_0000_0000_0000 } else { x - y });
pub assume_specification [usize::wrapping_neg] (x: usize) -> (r: usize) ensures r == (if x == 0 { 0 } else { 0x1_0000_0000_0000_0000 - x });
pub assume_specification [usize::overflowing_add] (x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x + y >= 0x1_0000_0000_0000_0000), r.0 == (if x + y >= 0x1_0000_0000_0000_0000 { x + y - 0x1_0000_0000_0000_0000 } else { x + y });
pub assume_specification [usize::overflowing_sub] (x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + 0x1_0000_0000_0000_0000 } else { x - y });
pub assume_specification [i32::abs] (x: i32) -> (r: i32) requires x > i32::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [i64::abs] (x: i64) -> (r: i64) requires x > i64::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [std::char::from_u32] (i: u32) -> (r: Option<char>)
    ensures r == char_of(i as int);
pub open spec fn is_scalar(i: int) -> bool { 0 <= i < 0xD800 || 0xE000 <= i <= 0x10FFFF }
pub open spec fn char_of(i: int) -> Option<char> { if is_scalar(i) { Some(i as char) } else { None } }
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r >= s@.len(), (r == 0) == (s@.len() == 0);
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]),
        (forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] == r@[i]) ==> r@ == s@;

pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);
// [assumed] Vec::from(&[T]) and String::from(&str)
#[verifier::external_body]
pub fn vec_from_slice<T: Clone>(s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]),
        (forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] == r@[i]) ==> r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn string_from_str(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }

// [assumed] to_owned and to_string of texts and slices copy
pub trait OwnedCopy { type Copy; spec fn copy_of(&self, r: Self::Copy) -> bool; fn owned_copy(&self) -> (r: Self::Copy) ensures self.copy_of(r); }
impl OwnedCopy for str { type Copy = String; open spec fn copy_of(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn owned_copy(&self) -> (r: String) { unimplemented!() } }
impl OwnedCopy for String { type Copy = String; open spec fn copy_of(&self, r: String) -> bool { r == *self } #[verifier::external_body] fn owned_copy(&self) -> (r: String) { unimplemented!() } }
impl OwnedCopy for [u8] { type Copy = Vec<u8>; open spec fn copy_of(&self, r: Vec<u8>) -> bool { r@ == self@ } #[verifier::external_body] fn owned_copy(&self) -> (r: Vec<u8>) { unimplemented!() } }
pub trait TextCopy { spec fn text_of(&self, r: String) -> bool; fn text_copy(&self) -> (r: String) ensures self.text_of(r); }
impl TextCopy for str { open spec fn text_of(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn text_copy(&self) -> (r: String) { unimplemented!() } }
impl TextCopy for String { open spec fn text_of(&self, r: String) -> bool { r == *self } #[verifier::external_body] fn text_copy(&self) -> (r: String) { unimplemented!() } }
impl TextCopy for char { open spec fn text_of(&self, r: String) -> bool { r@ == seq![*self] } #[verifier::external_body] fn text_copy(&self) -> (r: String) { unimplemented!() } }

// == of two variables: what it means follows from their types
pub trait Same { spec fn same_as(&self, o: &Self) -> bool; fn same_(&self, o: &Self) -> (r: bool) ensures r == self.same_as(o); }
pub fn same<T: Same + ?Sized>(a: &T, b: &T) -> (r: bool) ensures r == a.same_as(b) { a.same_(b) }
impl Same for bool { open spec fn same_as(&self, o: &bool) -> bool { *self == *o } fn same_(&self, o: &bool) -> (r: bool) { *self == *o } }
impl Same for u8 { open spec fn same_as(&self, o: &u8) -> bool { *self == *o } fn same_(&self, o: &u8) -> (r: bool) { *self == *o } }
impl Same for u16 { open spec fn same_as(&self, o: &u16) -> bool { *self == *o } fn same_(&self, o: &u16) -> (r: bool) { *self == *o } }
impl Same for u32 { open spec fn same_as(&self, o: &u32) -> bool { *self == *o } fn same_(&self, o: &u32) -> (r: bool) { *self == *o } }
impl Same for u64 { open spec fn same_as(&self, o: &u64) -> bool { *self == *o } fn same_(&self, o: &u64) -> (r: bool) { *self == *o } }
impl Same for i32 { open spec fn same_as(&self, o: &i32) -> bool { *self == *o } fn same_(&self, o: &i32) -> (r: bool) { *self == *o } }
impl Same for i64 { open spec fn same_as(&self, o: &i64) -> bool { *self == *o } fn same_(&self, o: &i64) -> (r: bool) { *self == *o } }
impl Same for String { open spec fn same_as(&self, o: &String) -> bool { self@ == o@ } fn same_(&self, o: &String) -> (r: bool) { *self == *o } }
impl Same for ReferenceKind { open spec fn same_as(&self, o: &ReferenceKind) -> bool { *self == *o } fn same_(&self, o: &ReferenceKind) -> (r: bool) { *self == *o } }
impl<'x, T: Same + ?Sized> Same for &'x T { open spec fn same_as(&self, o: &&'x T) -> bool { (**self).same_as(*o) } fn same_(&self, o: &&'x T) -> (r: bool) { (**self).same_(*o) } }

// floats are compared and built by their bits
pub uninterp spec fn mkf32(bits: u32) -> f32;
pub uninterp spec fn mkf64(bits: u64) -> f64;
pub uninterp spec fn f32bits(f: f32) -> u32;
pub uninterp spec fn f64bits(f: f64) -> u64;
pub assume_specification [f32::to_bits] (f: f32) -> (r: u32) ensures r == f32bits(f);
pub assume_specification [f64::to_bits] (f: f64) -> (r: u64) ensures r == f64bits(f);
pub assume_specification [f32::from_bits] (b: u32) -> (r: f32) ensures r == mkf32(b);
pub assume_specification [f64::from_bits] (b: u64) -> (r: f64) ensures r == mkf64(b);

// [assumed] from_be_bytes of the integer types
#[verifier::external_body]
pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == be16(b@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == be32(b@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == be64(b@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn i16_from_be_bytes(b: [u8; 2]) -> (r: i16) ensures r == be16(b@, 0) as i16 { unimplemented!() }
#[verifier::external_body]
pub fn i32_from_be_bytes(b: [u8; 4]) -> (r: i32) ensures r == be32(b@, 0) as i32 { unimplemented!() }
#[verifier::external_body]
pub fn i64_from_be_bytes(b: [u8; 8]) -> (r: i64) ensures r == be64(b@, 0) as i64 { unimplemented!() }

// [assumed] byteorder 1.5.0: BigEndian reads the first bytes of the slice, most significant first
pub struct BigEndian {}
impl BigEndian {
    #[verifier::external_body]
    pub fn read_u16(buf: &[u8]) -> (r: u16) requires buf@.len() >= 2 ensures r == be16(buf@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32(buf: &[u8]) -> (r: u32) requires buf@.len() >= 4 ensures r == be32(buf@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u64(buf: &[u8]) -> (r: u64) requires buf@.len() >= 8 ensures r == be64(buf@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i16(buf: &[u8]) -> (r: i16) requires buf@.len() >= 2 ensures r == be16(buf@, 0) as i16 { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i32(buf: &[u8]) -> (r: i32) requires buf@.len() >= 4 ensures r == be32(buf@, 0) as i32 { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i64(buf: &[u8]) -> (r: i64) requires buf@.len() >= 8 ensures r == be64(buf@, 0) as i64 { unimplemented!() }
    #[verifier::external_body]
    pub fn read_f32(buf: &[u8]) -> (r: f32) requires buf@.len() >= 4 ensures r == mkf32(be32(buf@, 0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_f64(buf: &[u8]) -> (r: f64) requires buf@.len() >= 8 ensures r == mkf64(be64(buf@, 0)) { unimplemented!() }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

// ---- specification: bytes and integers ---------------------------------------
pub open spec fn be16(b: Seq<u8>, p: int) -> u16 { (b[p] as int * 0x100 + b[p + 1] as int) as u16 }
pub open spec fn be32(b: Seq<u8>, p: int) -> u32 {
    (b[p] as int * 0x100_0000 + b[p + 1] as int * 0x1_0000 + b[p + 2] as int * 0x100 + b[p + 3] as int) as u32
}
pub open spec fn be64(b: Seq<u8>, p: int) -> u64 {
    (be32(b, p) as int * 0x1_0000_0000 + be32(b, p + 4) as int) as u64
}
pub open spec fn s_u8(c: Ctx, p: int) -> SR<u8> { if p + 1 <= c.l { Ok((c.b[p], p + 1)) } else { Err(Error::LimitExceeded) } }
pub open spec fn s_u16(c: Ctx, p: int) -> SR<u16> { s_raw_u16(c.b, c.l, p) }
pub open spec fn s_raw_u16(b: Seq<u8>, l: int, p: int) -> SR<u16> { if p + 2 <= l { Ok((be16(b, p), p + 2)) } else { Err(Error::LimitExceeded) } }
pub open spec fn s_u32(c: Ctx, p: int) -> SR<u32> { s_raw_u32(c.b, c.l, p) }
pub open spec fn s_raw_u32(b: Seq<u8>, l: int, p: int) -> SR<u32> { if p + 4 <= l { Ok((be32(b, p), p + 4)) } else { Err(Error::LimitExceeded) } }
pub open spec fn s_u64(c: Ctx, p: int) -> SR<u64> { s_raw_u64(c.b, c.l, p) }
pub open spec fn s_raw_u64(b: Seq<u8>, l: int, p: int) -> SR<u64> { if p + 8 <= l { Ok((be64(b, p), p + 8)) } else { Err(Error::LimitExceeded) } }
// two's complement
pub open spec fn s_i8(c: Ctx, p: int) -> SR<i8> { match s_u8(c, p) { Err(e) => Err(e), Ok((v, q)) => Ok((v as i8, q)) } }
pub open spec fn s_i16(c: Ctx, p: int) -> SR<i16> { match s_u16(c, p) { Err(e) => Err(e), Ok((v, q)) => Ok((v as i16, q)) } }
pub open spec fn s_i32(c: Ctx, p: int) -> SR<i32> { match s_u32(c, p) { Err(e) => Err(e), Ok((v, q)) => Ok((v as i32, q)) } }
pub open spec fn s_i64(c: Ctx, p: int) -> SR<i64> { match s_u64(c, p) { Err(e) => Err(e), Ok((v, q)) => Ok((v as i64, q)) } }
pub open spec fn s_f32(c: Ctx, p: int) -> SR<f32> { match s_u32(c, p) { Err(e) => Err(e), Ok((v, q)) => Ok((mkf32(v), q)) } }
pub open spec fn s_f64(c: Ctx, p: int) -> SR<f64> { match s_u64(c, p) { Err(e) => Err(e), Ok((v, q)) => Ok((mkf64(v), q)) } }
pub open spec fn s_bytes(c: Ctx, p: int, n: int) -> SR<Seq<u8>> {
    if p + n <= c.l { Ok((c.b.subrange(p, p + n), p + n)) } else { Err(Error::LimitExceeded) }
}

// ---- specification: modified UTF-8 (JVMS 4.4.7) -------------------------------
// A continuation byte is 10xxxxxx.
pub open spec fn s_cont(c: Ctx, p: int) -> SR<int> {
    match s_u8(c, p) {
        Err(e) => Err(e),
        Ok((v, q)) => if 0x80 <= v < 0xC0 { Ok((v as int - 0x80, q)) } else { Err(Error::InvalidUTF8) },
    }
}
// One code point, when n bytes of the string are left; n - (q - p) are left after it.
pub open spec fn s_code_point(c: Ctx, p: int, n: int) -> SR<int> {
    match s_u8(c, p) {
        Err(e) => Err(e),
        Ok((x, p1)) =>
            if 0 < x < 0x80 { Ok((x as int, p1)) }
            else if 0xC0 <= x < 0xE0 && n >= 2 {
                match s_cont(c, p1) { Err(e) => Err(e), Ok((y, p2)) => Ok(((x - 0xC0) * 0x40 + y, p2)) }
            }
            else if 0xE0 <= x < 0xF0 && n >= 3 {
                match s_cont(c, p1) { Err(e) => Err(e), Ok((y, p2)) =>
                match s_cont(c, p2) { Err(e) => Err(e), Ok((z, p3)) => {
                    let u = (x - 0xE0) * 0x1000 + y * 0x40 + z;
                    if 0xD800 <= u < 0xDC00 {
                        // the first half of a surrogate pair
                        if n < 6 { Err(Error::InvalidUTF8) } else { s_low_surrogate(c, p3, u) }
                    } else { Ok((u, p3)) }
                } } }
            }
            else { Err(Error::InvalidUTF8) },
    }
}
pub open spec fn s_low_surrogate(c: Ctx, p: int, high: int) -> SR<int> {
    match s_u8(c, p) { Err(e) => Err(e), Ok((x, p1)) =>
    match s_cont(c, p1) { Err(e) => Err(e), Ok((y, p2)) =>
    match s_cont(c, p2) { Err(e) => Err(e), Ok((z, p3)) => {
        let low = (x - 0xE0) * 0x1000 + y * 0x40 + z;
        if 0xDC00 <= low < 0xE000 { Ok((0x1_0000 + (high - 0xD800) * 0x400 + (low - 0xDC00), p3)) } else { Err(Error::InvalidUTF8) }
    } } } }
}
// n is the number of bytes that are left
pub open spec fn rep_utf8(n: int, acc: Seq<char>, c: Ctx, p: int) -> SR<Seq<char>>
    decreases n
{
    if n <= 0 { Ok((acc, p)) } else {
        match s_code_point(c, p, n) {
            Err(e) => Err(e),
            Ok((u, q)) => match char_of(u) {
                None => Err(Error::InvalidUTF8),
                Some(ch) => if q <= p { arbitrary() } else { rep_utf8(n - (q - p), acc.push(ch), c, q) },
            },
        }
    }
}
pub open spec fn s_utf8(c: Ctx, p: int, n: int) -> SR<String> {
    match rep_utf8(n, Seq::empty(), c, p) { Err(e) => Err(e), Ok((s, q)) => Ok((mks(s), q)) }
}

// ---- specification: tables -------------------------------------------------------
// rep(n, acc, c, p): append n more entries read from p to acc
pub trait Tab: Sized { spec fn rep(n: int, acc: Self, c: Ctx, p: int) -> SR<Self>; }
impl Tab for Seq<char> { open spec fn rep(n: int, acc: Self, c: Ctx, p: int) -> SR<Self> { rep_utf8(n, acc, c, p) } }
// the constants that fill n more slots of the constant pool
pub open spec fn rep_cp(n: int, acc: Pv, c: Ctx, p: int) -> SR<Pv>
    decreases n + 1
{
    if n < 0 { Err(Error::InvalidCPItem((acc.len() + n) as u16)) }
    else if n == 0 { Ok((acc, p)) }
    else {
        match s_constant(c, p, (acc.len() + 1) as u16) {
            Err(e) => Err(e),
            Ok((item, q)) => if two_slots(item) && n < 2 { Err(if acc.len() + 3 > 0xffff { Error::CPTooLarge } else { Error::InvalidCPItem((acc.len() + 1) as u16) }) }
                else if two_slots(item) { rep_cp(n - 2, acc.push(Some(Rc::new(item))).push(None), c, q) } else { rep_cp(n - 1, acc.push(Some(Rc::new(item))), c, q) },
        }
    }
}
pub open spec fn two_slots(i: Item) -> bool { i is Long || i is Double }
impl Tab for Pv { open spec fn rep(n: int, acc: Self, c: Ctx, p: int) -> SR<Self> { rep_cp(n, acc, c, p) } }
// the pairs of a lookupswitch
pub open spec fn s_switch_pairs(c: Ctx, p: int, n: int, acc: Map<i32, i32>) -> SR<Map<i32, i32>> { rep_pairs(n, acc, c, p) }
pub open spec fn rep_pairs(n: int, acc: Map<i32, i32>, c: Ctx, p: int) -> SR<Map<i32, i32>>
    decreases n
{
    if n <= 0 { Ok((acc, p)) } else {
        match s_i32(c, p) { Err(e) => Err(e), Ok((k, q)) => match s_i32(c, q) { Err(e) => Err(e), Ok((v, q2)) => rep_pairs(n - 1, acc.insert(k, v), c, q2) } }
    }
}
impl Tab for Map<i32, i32> { open spec fn rep(n: int, acc: Self, c: Ctx, p: int) -> SR<Self> { rep_pairs(n, acc, c, p) } }
// the instructions from offset at on; the code ends where the context ends
pub open spec fn rep_tile(at: int, acc: Map<u32, Instruction>, c: Ctx, p: int) -> SR<Map<u32, Instruction>>
    decreases c.l - p
{
    match s_insn(c, p, at as u32) {
        Err(e) => Err(e),
        Ok((i, q)) => {
            let m = acc.insert(at as u32, i);
            if q == c.l { Ok((m, q)) } else if p < q < c.l { rep_tile(at + (q - p), m, c, q) } else { arbitrary() }
        },
    }
}
pub open spec fn s_tile(c: Ctx, p: int, at: int, acc: Map<u32, Instruction>) -> SR<Map<u32, Instruction>> { rep_tile(at, acc, c, p) }
impl Tab for Map<u32, Instruction> { open spec fn rep(n: int, acc: Self, c: Ctx, p: int) -> SR<Self> { rep_tile(n, acc, c, p) } }

// ---- specification: constant pool lookups --------------------------------------
pub open spec fn at(pool: Pv, i: u16) -> Option<Item> {
    if 0 < i <= pool.len() { match pool[i - 1] { Some(rc) => Some(*rc), None => None } } else { None }
}
pub open spec fn is_utf8(pool: Pv, i: u16) -> bool { at(pool, i) is Some && at(pool, i)->0 is UTF8 }
pub open spec fn utf8_at(pool: Pv, i: u16) -> String { at(pool, i)->0->UTF8_0 }
pub open spec fn is_str(s: String, t: Seq<char>) -> bool { s@ == t }
pub open spec fn mkflags(w: u16) -> AccessFlags { AccessFlags { bits: w & all_flag_bits() } }

// ---- contracts' vocabulary --------------------------------------------------------
// the result of a reader is the value s calls for, and the next position is p
pub open spec fn agrees<T>(r: std::result::Result<T, Error>, s: SR<T>, p: int) -> bool {
    match r { Ok(v) => s == SR::<T>::Ok((v, p)), Err(_) => s is Err }
}
pub open spec fn same_error<T, U>(r: std::result::Result<T, Error>, s: SR<U>) -> bool {
    r is Err ==> s is Err && r->Err_0 == s->Err_0
}
pub open spec fn nonneg(x: int) -> int { if x < 0 { 0 } else { x } }
