// ---- specification: descriptors (JVMS 4.3) -----------------------------------------
pub open spec fn base_of(ch: char) -> Option<Type> {
    match ch {
        'Z' => Some(Type::Boolean), 'B' => Some(Type::Byte), 'S' => Some(Type::Short), 'I' => Some(Type::Int),
        'J' => Some(Type::Long), 'F' => Some(Type::Float), 'D' => Some(Type::Double), 'C' => Some(Type::Char), _ => None,
    }
}
pub open spec fn rest(s: Seq<char>) -> Seq<char> { s.drop_first() }
// the rest of a name of which acc was read, up to and with the ';'
pub open spec fn s_name(acc: Seq<char>, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s[0] == ';' { if acc.len() == 0 { None } else { Some((acc, rest(s))) } }
    else { s_name(acc.push(s[0]), rest(s)) }
}
pub open spec fn tdesc(d: int, t: Type) -> TypeDescriptor { TypeDescriptor { dimensions: d as u8, base_type: t } }
pub open spec fn s_reference(d: int, acc: Seq<char>, s: Seq<char>) -> Option<(TypeDescriptor, Seq<char>)> {
    match s_name(acc, s) { None => None, Some((n, q)) => Some((tdesc(d, Type::Reference(mks(n))), q)) }
}
// a field type, of which d dimensions were read
pub open spec fn s_field_type(d: int, s: Seq<char>) -> Option<(TypeDescriptor, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s[0] == '[' { if d >= 255 { None } else { s_field_type(d + 1, rest(s)) } }
    else if s[0] == 'L' { s_reference(d, Seq::empty(), rest(s)) }
    else { match base_of(s[0]) { None => None, Some(t) => Some((tdesc(d, t), rest(s))) } }
}
pub open spec fn complete<T>(r: Option<(T, Seq<char>)>) -> Option<T> { match r { Some((t, q)) => if q.len() == 0 { Some(t) } else { None }, None => None } }
pub open spec fn s_type_descriptor(s: Seq<char>) -> Option<TypeDescriptor> { complete(s_field_type(0, s)) }

pub open spec fn m_end(ps: Seq<TypeDescriptor>, r: Option<TypeDescriptor>, s: Seq<char>) -> Option<MethodDescriptor> {
    if s.len() == 0 && ps.len() <= 255 { Some(MethodDescriptor { params: mkv(ps), return_type: r }) } else { None }
}
// the return type, of which d dimensions were read
pub open spec fn m_return(d: int, ps: Seq<TypeDescriptor>, s: Seq<char>) -> Option<MethodDescriptor> {
    if d == 0 && s.len() > 0 && s[0] == 'V' { m_end(ps, None, rest(s)) }
    else { match s_field_type(d, s) { None => None, Some((t, q)) => m_end(ps, Some(t), q) } }
}
// the parameters after ps, of which d dimensions of the next were read, and the return type
pub open spec fn m_params(d: int, ps: Seq<TypeDescriptor>, s: Seq<char>) -> Option<MethodDescriptor>
    decreases s.len()
{
    if d == 0 && s.len() > 0 && s[0] == ')' { m_return(0, ps, rest(s)) }
    else { match s_field_type(d, s) { None => None, Some((t, q)) => if q.len() < s.len() { m_params(0, ps.push(t), q) } else { None } } }
}
pub open spec fn s_method_descriptor(s: Seq<char>) -> Option<MethodDescriptor> {
    if s.len() > 0 && s[0] == '(' { m_params(0, Seq::empty(), rest(s)) } else { None }
}
// i characters at most were read when s is what is left of all
pub open spec fn points_into(i: usize, s: Seq<char>, all: Seq<char>) -> bool { i + s.len() <= all.len() }
// the states of the reader of a method descriptor
pub open spec fn m_next(ret: bool, d: int, ps: Seq<TypeDescriptor>, s: Seq<char>) -> Option<MethodDescriptor> {
    if ret { m_return(d, ps, s) } else { m_params(d, ps, s) }
}
pub open spec fn m_after(ret: bool, ps: Seq<TypeDescriptor>, t: TypeDescriptor, s: Seq<char>) -> Option<MethodDescriptor> {
    if ret { m_end(ps, Some(t), s) } else { m_params(0, ps.push(t), s) }
}
pub open spec fn m_named(ret: bool, d: int, ps: Seq<TypeDescriptor>, acc: Seq<char>, s: Seq<char>) -> Option<MethodDescriptor> {
    match s_reference(d, acc, s) { None => None, Some((t, q)) => m_after(ret, ps, t, q) }
}
// ---- printing ------------------------------------------------------------------------
pub open spec fn brackets(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| '[') }
pub open spec fn base_text(t: Type) -> Seq<char> {
    match t {
        Type::Boolean => seq!['Z'], Type::Byte => seq!['B'], Type::Short => seq!['S'], Type::Int => seq!['I'], Type::Long => seq!['J'],
        Type::Float => seq!['F'], Type::Double => seq!['D'], Type::Char => seq!['C'], Type::Reference(n) => seq!['L'] + n@ + seq![';'],
    }
}
pub open spec fn type_text(t: TypeDescriptor) -> Seq<char> { brackets(t.dimensions as int) + base_text(t.base_type) }
// the first n types, one after another
pub open spec fn params_text(ps: Seq<TypeDescriptor>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { params_text(ps, n - 1) + type_text(ps[n - 1]) } }
pub open spec fn return_text(r: Option<TypeDescriptor>) -> Seq<char> { match r { Some(t) => type_text(t), None => seq!['V'] } }
pub open spec fn method_text(m: MethodDescriptor) -> Seq<char> { seq!['('] + params_text(m.params@, m.params@.len() as int) + seq![')'] + return_text(m.return_type) }

// [assumed] std::fmt::Formatter without width or precision: what is written is appended, or an error returned;
// one whose sink never fails (a String) never returns an error
pub mod fmt {
    use super::*;
    #[verifier::external_body]
    pub struct Error { }
    pub type Result = std::result::Result<(), Error>;
    #[verifier::external_body]
    pub struct Formatter { }
    impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    impl Formatter {
        pub uninterp spec fn infallible(&self) -> bool;
        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result) ensures r is Ok ==> final(self)@ == old(self)@ + s@, final(self).infallible() == old(self).infallible(), old(self).infallible() ==> r is Ok { unimplemented!() }
        #[verifier::external_body]
        pub fn write_char(&mut self, c: char) -> (r: Result) ensures r is Ok ==> final(self)@ == old(self)@.push(c), final(self).infallible() == old(self).infallible(), old(self).infallible() ==> r is Ok { unimplemented!() }
    }
}
// [assumed] `{}` of a text writes the text; of a descriptor calls its fmt (whose contract is proved)
pub trait Shown {
    spec fn shown(&self) -> Seq<char>;
    fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result)
        ensures r is Ok ==> final(f)@ == old(f)@ + self.shown(), final(f).infallible() == old(f).infallible(), old(f).infallible() ==> r is Ok;
}
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }
impl Shown for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }
impl Shown for TypeDescriptor { open spec fn shown(&self) -> Seq<char> { type_text(*self) } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }
impl<'x, T: Shown + ?Sized> Shown for &'x T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }
pub assume_specification [str::repeat] (s: &str, n: usize) -> (r: String)
    ensures s@.len() == 1 ==> r@ == Seq::new(n as nat, |i: int| s@[0]), r@.len() == s@.len() * n;
pub assume_specification<'a> [std::str::Chars::<'a>::as_str] (it: &std::str::Chars<'a>) -> (r: &'a str) ensures r@ == IteratorSpec::remaining(it);
pub assume_specification<'a> [<std::str::Chars<'a> as Iterator>::count] (it: std::str::Chars<'a>) -> (r: usize) ensures r == IteratorSpec::remaining(&it).len();

pub mod type_axioms {
use super::*;
// [assumed] a string has at most isize::MAX bytes
pub broadcast axiom fn ax_str_bytes(s: &str) ensures (#[trigger] s.spec_bytes()).len() <= 0x7fff_ffff_ffff_ffff;
pub proof fn chars_take_bytes(s: Seq<char>)
    ensures encode_utf8(s).len() >= s.len()
    decreases s.len()
{
    reveal(encode_utf8);
    if s.len() > 0 {
        chars_take_bytes(s.drop_first());
        assert(s =~= seq![s[0]] + s.drop_first());
        encode_utf8_concat(seq![s[0]], s.drop_first());
        assert(encode_utf8(seq![s[0]]).len() >= 1);
    }
}
pub broadcast proof fn str_len(s: &str)
    ensures #![trigger s.spec_bytes()] #![trigger s@.len()] s@.len() <= s.spec_bytes().len() <= 0x7fff_ffff_ffff_ffff
{ chars_take_bytes(s@); ax_str_bytes(s); }
pub broadcast proof fn name_shorter(acc: Seq<char>, s: Seq<char>)
    ensures #![trigger s_name(acc, s)] s_name(acc, s) is Some ==> (s_name(acc, s)->0).1.len() < s.len()
    decreases s.len()
{ if s.len() > 0 && s[0] != ';' { name_shorter(acc.push(s[0]), rest(s)); } }
pub broadcast proof fn type_shorter(d: int, s: Seq<char>)
    ensures #![trigger s_field_type(d, s)] s_field_type(d, s) is Some ==> (s_field_type(d, s)->0).1.len() < s.len()
    decreases s.len()
{ if s.len() > 0 { if s[0] == '[' && d < 255 { type_shorter(d + 1, rest(s)); } else if s[0] == 'L' { name_shorter(Seq::empty(), rest(s)); } } }
pub broadcast group type_facts { str_len, name_shorter, type_shorter }
}
