// C22: parsing a descriptor and printing the result gives the text back.
pub mod round_trip {
use super::*;
pub open spec fn short(s: Seq<char>) -> bool { encode_utf8(s).len() <= 0x7fff_ffff_ffff_ffff }
// [assumed] there is a String of any text that is short enough, and a Vec of up to 255 descriptors
pub axiom fn ax_string(s: Seq<char>) requires short(s) ensures mks(s)@ == s;
pub axiom fn ax_vec(s: Seq<TypeDescriptor>) requires s.len() <= 255 ensures mkv(s)@ == s;

pub proof fn parts_short(a: Seq<char>, b: Seq<char>)
    requires short(a + b)
    ensures short(a), short(b)
{ encode_utf8_concat(a, b); }
pub proof fn name_text(acc: Seq<char>, s: Seq<char>)
    requires s_name(acc, s) is Some
    ensures acc + s == (s_name(acc, s)->0).0 + seq![';'] + (s_name(acc, s)->0).1
    decreases s.len()
{
    assert(s =~= seq![s[0]] + rest(s));
    if s[0] == ';' { assert(acc + s =~= acc + seq![';'] + rest(s)); }
    else { name_text(acc.push(s[0]), rest(s)); assert(acc.push(s[0]) + rest(s) =~= acc + s); }
}
pub open spec fn text_from(d: int, t: TypeDescriptor) -> Seq<char> { brackets(t.dimensions - d) + base_text(t.base_type) }
pub proof fn field_text(d: int, s: Seq<char>)
    requires s_field_type(d, s) is Some, short(s), 0 <= d <= 255
    ensures ({ let (t, q) = s_field_type(d, s)->0; d <= t.dimensions && s == text_from(d, t) + q })
    decreases s.len()
{
    let (t, q) = s_field_type(d, s)->0;
    assert(s =~= seq![s[0]] + rest(s));
    parts_short(seq![s[0]], rest(s));
    if s[0] == '[' {
        field_text(d + 1, rest(s));
        assert(brackets(t.dimensions - d) =~= seq!['['] + brackets(t.dimensions - d - 1));
        assert(s =~= text_from(d, t) + q);
    } else if s[0] == 'L' {
        let (n, q2) = s_name(Seq::empty(), rest(s))->0;
        name_text(Seq::empty(), rest(s));
        assert(Seq::<char>::empty() + rest(s) =~= rest(s));
        assert(rest(s) =~= n + (seq![';'] + q2));
        parts_short(n, seq![';'] + q2);
        ax_string(n);
        assert(brackets(0) =~= Seq::<char>::empty());
        assert(s =~= text_from(d, t) + q);
    } else {
        assert(brackets(0) =~= Seq::<char>::empty());
        assert(s =~= text_from(d, t) + q);
    }
}
pub proof fn return_round(d: int, ps: Seq<TypeDescriptor>, s: Seq<char>)
    requires m_return(0, ps, s) is Some, short(s)
    ensures ({ let m = m_return(0, ps, s)->0; m.params@ == ps && s == return_text(m.return_type) })
{
    if s.len() > 0 && s[0] == 'V' {
        ax_vec(ps);
        assert(s =~= seq!['V'] + rest(s)); assert(rest(s) =~= Seq::<char>::empty()); assert(s =~= seq!['V']);
    } else {
        let (t, q) = s_field_type(0, s)->0;
        field_text(0, s); ax_vec(ps);
        assert(q =~= Seq::<char>::empty());
        assert(s =~= type_text(t));
    }
}
pub proof fn params_agree(a: Seq<TypeDescriptor>, b: Seq<TypeDescriptor>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures params_text(a, n) == params_text(b, n)
    decreases n
{ if n > 0 { params_agree(a, b, n - 1); } }
pub proof fn params_round(ps: Seq<TypeDescriptor>, s: Seq<char>)
    requires m_params(0, ps, s) is Some, short(s)
    ensures ({ let m = m_params(0, ps, s)->0;
        params_text(ps, ps.len() as int) + s == params_text(m.params@, m.params@.len() as int) + seq![')'] + return_text(m.return_type) })
    decreases s.len()
{
    let m = m_params(0, ps, s)->0;
    if s.len() > 0 && s[0] == ')' {
        assert(s =~= seq![s[0]] + rest(s));
        parts_short(seq![s[0]], rest(s));
        return_round(0, ps, rest(s));
        assert(params_text(ps, ps.len() as int) + s =~= params_text(m.params@, m.params@.len() as int) + seq![')'] + return_text(m.return_type));
    } else {
        let (t, q) = s_field_type(0, s)->0;
        field_text(0, s);
        assert(s =~= type_text(t) + q);
        parts_short(type_text(t), q);
        params_round(ps.push(t), q);
        params_agree(ps, ps.push(t), ps.len() as int);
        assert(params_text(ps.push(t), ps.len() as int + 1) =~= params_text(ps, ps.len() as int) + type_text(t));
        assert(params_text(ps, ps.len() as int) + s =~= params_text(ps.push(t), ps.len() as int + 1) + q);
    }
}
// The theorems. What was parsed from s is printed as s; so parsing the printed text gives the same descriptor.
pub proof fn type_round_trip(s: &str)
    ensures match s_type_descriptor(s@) { Some(t) => type_text(t) == s@ && s_type_descriptor(type_text(t)) == Some(t), None => true }
{
    type_axioms::ax_str_bytes(s);
    if s_type_descriptor(s@) is Some {
        field_text(0, s@);
        let (t, q) = s_field_type(0, s@)->0;
        assert(q =~= Seq::<char>::empty());
        assert(s@ =~= type_text(t));
    }
}
pub proof fn method_round_trip(s: &str)
    ensures match s_method_descriptor(s@) { Some(m) => method_text(m) == s@ && s_method_descriptor(method_text(m)) == Some(m), None => true }
{
    type_axioms::ax_str_bytes(s);
    if s_method_descriptor(s@) is Some {
        let m = s_method_descriptor(s@)->0;
        assert(s@ =~= seq!['('] + rest(s@));
        parts_short(seq!['('], rest(s@));
        params_round(Seq::empty(), rest(s@));
        assert(params_text(Seq::empty(), 0) =~= Seq::<char>::empty());
        assert(s@ =~= method_text(m));
    }
}
}
