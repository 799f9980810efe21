// C19: a model of Hasher that keeps all that is written to it.
#[verifier::external_body]
pub struct HasherModel { }
pub enum Word { U8(u8), U16(u16), U32(u32), U64(u64), Usize(usize), I8(i8), I16(i16), I32(i32), I64(i64), Isize(isize), Bytes(Seq<u8>) }
impl View for HasherModel { type V = Seq<Word>; uninterp spec fn view(&self) -> Seq<Word>; }
// [assumed] what is hashed depends on nothing but the calls of the methods of Hasher and their arguments
impl HasherModel {
    #[verifier::external_body] pub fn write_u8(&mut self, x: u8) ensures final(self)@ == old(self)@.push(Word::U8(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write_u16(&mut self, x: u16) ensures final(self)@ == old(self)@.push(Word::U16(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write_u32(&mut self, x: u32) ensures final(self)@ == old(self)@.push(Word::U32(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write_u64(&mut self, x: u64) ensures final(self)@ == old(self)@.push(Word::U64(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write_usize(&mut self, x: usize) ensures final(self)@ == old(self)@.push(Word::Usize(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write_i8(&mut self, x: i8) ensures final(self)@ == old(self)@.push(Word::I8(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write_i16(&mut self, x: i16) ensures final(self)@ == old(self)@.push(Word::I16(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write_i32(&mut self, x: i32) ensures final(self)@ == old(self)@.push(Word::I32(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write_i64(&mut self, x: i64) ensures final(self)@ == old(self)@.push(Word::I64(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write_isize(&mut self, x: isize) ensures final(self)@ == old(self)@.push(Word::Isize(x)) { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self, x: &[u8]) ensures final(self)@ == old(self)@.push(Word::Bytes(x@)) { unimplemented!() }
}
// [assumed] the hash of integers, strings and of ReferenceKind (derived) is a function of their value
pub trait HashModel {
    spec fn words(&self) -> Seq<Word>;
    fn hash_model(&self, state: &mut HasherModel) ensures final(state)@ == old(state)@ + self.words();
}
macro_rules! hashed { ($($t:ty),*) => { verus! { $( impl HashModel for $t {
    uninterp spec fn words(&self) -> Seq<Word>;
    #[verifier::external_body] fn hash_model(&self, state: &mut HasherModel) { unimplemented!() }
} )* } } }
hashed!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, bool, char, String, str, ReferenceKind);
impl<A: HashModel, B: HashModel> HashModel for (A, B) {
    open spec fn words(&self) -> Seq<Word> { self.0.words() + self.1.words() }
    #[verifier::external_body] fn hash_model(&self, state: &mut HasherModel) { unimplemented!() }
}
pub proof fn equality_is_identity(a: Item, b: Item)
    ensures
        same_item(a, a), same_item(a, b) == same_item(b, a),
        same_item(a, b) && !(a is Float) && !(a is Double) ==> a == b,
{ }
pub proof fn equality_is_transitive(a: Item, b: Item, c: Item)
    requires same_item(a, b), same_item(b, c)
    ensures same_item(a, c)
{ }
