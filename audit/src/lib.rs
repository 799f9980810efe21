//! The assumed contracts of vf/prelude.rs about functions of fixed-size input, checked for all inputs
//! by Kani (no loops, no bound). `cargo kani` in this folder.
#![cfg(kani)]
use byteorder::{BigEndian, ByteOrder};
use jbcrs::basic::*;

fn be(b: &[u8]) -> u64 { let mut r = 0; let mut i = 0; while i < b.len() { r = r * 256 + b[i] as u64; i += 1; } r }

macro_rules! numbers { ($($name:ident $from:ident $n:literal $u:ty, $i:ty, $ru:ident, $ri:ident;)*) => { $(
    #[kani::proof] #[kani::unwind(9)]
    fn $name() {
        let b: [u8; $n] = kani::any();
        let v = be(&b) as $u;
        assert!(BigEndian::$ru(&b) == v);
        assert!(BigEndian::$ri(&b) == v as $i);
        assert!(<$u>::from_be_bytes(b) == v);
    }
    #[kani::proof] #[kani::unwind(9)]
    fn $from() { let b: [u8; $n] = kani::any(); assert!(<$i>::from_be_bytes(b) == be(&b) as $u as $i); }
)* } }
numbers! {
    read_16 from_16 2 u16, i16, read_u16, read_i16;
    read_32 from_32 4 u32, i32, read_u32, read_i32;
    read_64 from_64 8 u64, i64, read_u64, read_i64;
}
// a float is its bits
#[kani::proof] #[kani::unwind(9)]
fn floats() {
    let b: [u8; 8] = kani::any();
    let (w, d) = (BigEndian::read_u32(&b), BigEndian::read_u64(&b));
    assert!(BigEndian::read_f32(&b).to_bits() == f32::from_bits(w).to_bits());
    assert!(BigEndian::read_f64(&b).to_bits() == f64::from_bits(d).to_bits());
    assert!(f32::from_bits(w).to_bits() == w);
    assert!(f64::from_bits(d).to_bits() == d);
}
#[kani::proof]
fn chars() {
    let i: u32 = kani::any();
    let scalar = i < 0xD800 || 0xE000 <= i && i <= 0x10FFFF;
    match std::char::from_u32(i) { Some(c) => assert!(scalar && c as u32 == i), None => assert!(!scalar) }
}
#[kani::proof] #[kani::unwind(40)]
fn flags() {
    let w: u16 = kani::any();
    let all = AccessFlags::all().bits();
    assert!(AccessFlags::from_bits_truncate(w).bits() == w & all);
    assert!(AccessFlags::empty().bits() == 0);
    match AccessFlags::from_bits(w) { Some(f) => assert!(w & !all == 0 && f.bits() == w), None => assert!(w & !all != 0) }
}
#[kani::proof]
fn replace() { let (mut a, b): (u64, u64) = (kani::any(), kani::any()); let o = a; assert!(std::mem::replace(&mut a, b) == o && a == b); }
// arithmetic that wraps around, and absolute values
#[kani::proof]
fn wrapping() {
    macro_rules! wraps { ($($t:ty)*) => { $( {
        let (x, y): ($t, $t) = (kani::any(), kani::any());
        let (a, b, size) = (x as i128, y as i128, <$t>::max_value() as i128 + 1);
        assert!(x.wrapping_neg() as i128 == if x == 0 { 0 } else { size - a });
        let (r, over) = x.overflowing_add(y);
        assert!(over == (a + b >= size) && r as i128 == if over { a + b - size } else { a + b });
        let (r, under) = x.overflowing_sub(y);
        assert!(under == (x < y) && r as i128 == if under { a - b + size } else { a - b });
    } )* } }
    wraps! { u8 u16 u32 u64 usize }
    macro_rules! absolute { ($($t:ty)*) => { $( {
        let x: $t = kani::any();
        kani::assume(x != <$t>::min_value());
        assert!(x.abs() as i128 == if x < 0 { -(x as i128) } else { x as i128 });
    } )* } }
    absolute! { i32 i64 }
}
