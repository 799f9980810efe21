// C02: reservations of memory.
pub open spec fn cap_table(n: usize) -> bool { n <= 0xffff }
pub open spec fn cap_string(n: usize, left: int) -> bool { n <= 0xffff || n <= left }
#[verifier::external_body]
pub fn cap_checked(n: usize) -> (r: usize) requires cap_table(n) ensures r == n { unimplemented!() }
#[verifier::external_body]
pub fn str_cap_checked(n: usize, left: Ghost<int>) -> (r: usize) requires cap_string(n, left@) ensures r == n { unimplemented!() }
// room in a map, or made again and again, is small (a failure counts only if an input shows it)
#[verifier::external_body]
pub fn map_room(n: usize) -> (r: usize) requires n <= 256 ensures r == n { unimplemented!() }
// a table that has been read has little room left unused
#[verifier::external_body]
pub fn room_used<T>(v: Vec<T>, room: Ghost<int>) -> (r: Vec<T>) requires room@ <= v@.len() + 256 ensures r == v { unimplemented!() }
