// @base
// C26: what a rule of the grammar makes of the bytes up to its end does not depend on anything else.
#[verifier::opaque]
pub open spec fn same_bytes(a: Seq<u8>, b: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i] }
// the contexts agree up to q
pub open spec fn near(c: Ctx, d: Ctx, p: int, q: int) -> bool {
    0 <= p <= q && q <= c.l && q <= d.l && c.l <= c.b.len() && d.l <= d.b.len() && c.room == d.room && c.pool == d.pool && same_bytes(c.b, d.b, q)
}
pub open spec fn moves<T>(r: SR<T>, c: Ctx, p: int) -> bool { match r { Ok((_, q)) => p <= q <= c.l, Err(_) => true } }
pub broadcast proof fn fewer_bytes(a: Seq<u8>, b: Seq<u8>, n: int, k: int)
    ensures #![trigger same_bytes(a, b, n), same_bytes(a, b, k)] same_bytes(a, b, n) && k <= n ==> same_bytes(a, b, k)
{ reveal(same_bytes); }
pub broadcast group near_facts { fewer_bytes }

pub broadcast proof fn mono_s_u8(c: Ctx, p: int) ensures p <= c.l ==> moves(#[trigger] s_u8(c, p), c, p) { }
pub broadcast proof fn loc_s_u8(c: Ctx, d: Ctx, p: int)
    ensures #![trigger s_u8(c, p), s_u8(d, p)] s_u8(c, p) is Ok && near(c, d, p, (s_u8(c, p)->Ok_0).1) ==> s_u8(d, p) == s_u8(c, p) { reveal(same_bytes); }
pub broadcast proof fn mono_s_u16(c: Ctx, p: int) ensures p <= c.l ==> moves(#[trigger] s_u16(c, p), c, p) { reveal(s_raw_u16); }
pub broadcast proof fn loc_s_u16(c: Ctx, d: Ctx, p: int)
    ensures #![trigger s_u16(c, p), s_u16(d, p)] s_u16(c, p) is Ok && near(c, d, p, (s_u16(c, p)->Ok_0).1) ==> s_u16(d, p) == s_u16(c, p) { reveal(same_bytes); reveal(s_raw_u16); }
pub broadcast proof fn mono_s_u32(c: Ctx, p: int) ensures p <= c.l ==> moves(#[trigger] s_u32(c, p), c, p) { reveal(s_raw_u32); }
pub broadcast proof fn loc_s_u32(c: Ctx, d: Ctx, p: int)
    ensures #![trigger s_u32(c, p), s_u32(d, p)] s_u32(c, p) is Ok && near(c, d, p, (s_u32(c, p)->Ok_0).1) ==> s_u32(d, p) == s_u32(c, p) { reveal(same_bytes); reveal(s_raw_u32); }
pub broadcast proof fn mono_s_u64(c: Ctx, p: int) ensures p <= c.l ==> moves(#[trigger] s_u64(c, p), c, p) { reveal(s_raw_u64); }
pub broadcast proof fn loc_s_u64(c: Ctx, d: Ctx, p: int)
    ensures #![trigger s_u64(c, p), s_u64(d, p)] s_u64(c, p) is Ok && near(c, d, p, (s_u64(c, p)->Ok_0).1) ==> s_u64(d, p) == s_u64(c, p) { reveal(same_bytes); reveal(s_raw_u64); }
@SIGNED
pub broadcast proof fn mono_s_bytes(c: Ctx, p: int, n: int) ensures p <= c.l && 0 <= n ==> moves(#[trigger] s_bytes(c, p, n), c, p) { }
pub broadcast proof fn loc_s_bytes(c: Ctx, d: Ctx, p: int, n: int)
    ensures #![trigger s_bytes(c, p, n), s_bytes(d, p, n)] s_bytes(c, p, n) is Ok && near(c, d, p, (s_bytes(c, p, n)->Ok_0).1) ==> s_bytes(d, p, n) == s_bytes(c, p, n)
{ reveal(same_bytes); if s_bytes(c, p, n) is Ok && near(c, d, p, p + n) { assert(c.b.subrange(p, p + n) =~= d.b.subrange(p, p + n)); } }
pub proof fn mono_point(c: Ctx, p: int, n: int) ensures match s_code_point(c, p, n) { Ok((_, q)) => p < q <= c.l, Err(_) => true } { }
pub proof fn loc_point(c: Ctx, d: Ctx, p: int, n: int)
    requires s_code_point(c, p, n) is Ok, near(c, d, p, (s_code_point(c, p, n)->Ok_0).1)
    ensures s_code_point(d, p, n) == s_code_point(c, p, n)
{ reveal(same_bytes); }
pub proof fn mono_rep_utf8(n: int, acc: Seq<char>, c: Ctx, p: int)
    requires p <= c.l
    ensures moves(rep_utf8(n, acc, c, p), c, p)
    decreases n
{ mono_point(c, p, n); if n > 0 { match s_code_point(c, p, n) { Ok((u, q)) => { if char_of(u) is Some { mono_rep_utf8(n - (q - p), acc.push(char_of(u)->0), c, q); } }, Err(_) => {} } } }
pub proof fn loc_rep_utf8(n: int, acc: Seq<char>, c: Ctx, d: Ctx, p: int)
    requires rep_utf8(n, acc, c, p) is Ok, near(c, d, p, (rep_utf8(n, acc, c, p)->Ok_0).1)
    ensures rep_utf8(n, acc, d, p) == rep_utf8(n, acc, c, p)
    decreases n
{
    broadcast use near_facts;
    mono_point(c, p, n);
    if n > 0 { match s_code_point(c, p, n) { Ok((u, q)) => { if char_of(u) is Some {
        let a = acc.push(char_of(u)->0);
        mono_rep_utf8(n - (q - p), a, c, q);
        assert(same_bytes(c.b, d.b, q));
        loc_point(c, d, p, n);
        loc_rep_utf8(n - (q - p), a, c, d, q);
    } }, Err(_) => {} } }
}
pub broadcast proof fn mono_s_utf8(c: Ctx, p: int, n: int) ensures p <= c.l ==> moves(#[trigger] s_utf8(c, p, n), c, p) { if p <= c.l { mono_rep_utf8(n, Seq::empty(), c, p); } }
pub broadcast proof fn loc_s_utf8(c: Ctx, d: Ctx, p: int, n: int)
    ensures #![trigger s_utf8(c, p, n), s_utf8(d, p, n)] s_utf8(c, p, n) is Ok && near(c, d, p, (s_utf8(c, p, n)->Ok_0).1) ==> s_utf8(d, p, n) == s_utf8(c, p, n)
{ if s_utf8(c, p, n) is Ok && near(c, d, p, (s_utf8(c, p, n)->Ok_0).1) { loc_rep_utf8(n, Seq::empty(), c, d, p); } }
pub broadcast proof fn mono_rep_cp(n: int, acc: Pv, c: Ctx, p: int)
    ensures p <= c.l ==> moves(#[trigger] rep_cp(n, acc, c, p), c, p)
    decreases n + 1
{
    broadcast use mono_s_constant;
    if n > 0 { match s_constant(c, p, (acc.len() + 1) as u16) { Ok((i, q)) => {
        if two_slots(i) { if n >= 2 { mono_rep_cp(n - 2, acc.push(Some(Rc::new(i))).push(None), c, q); } } else { mono_rep_cp(n - 1, acc.push(Some(Rc::new(i))), c, q); }
    }, Err(_) => {} } }
}
pub broadcast proof fn loc_rep_cp(n: int, acc: Pv, c: Ctx, d: Ctx, p: int)
    ensures #![trigger rep_cp(n, acc, c, p), rep_cp(n, acc, d, p)] rep_cp(n, acc, c, p) is Ok && near(c, d, p, (rep_cp(n, acc, c, p)->Ok_0).1) ==> rep_cp(n, acc, d, p) == rep_cp(n, acc, c, p)
    decreases n + 1
{
    broadcast use {near_facts, mono_s_constant, loc_s_constant};
    let x = (acc.len() + 1) as u16;
    if n > 0 { match s_constant(c, p, x) { Ok((i, q)) => {
        if two_slots(i) { if n >= 2 { let a = acc.push(Some(Rc::new(i))).push(None); mono_rep_cp(n - 2, a, c, q); loc_rep_cp(n - 2, a, c, d, q); } }
        else { let a = acc.push(Some(Rc::new(i))); mono_rep_cp(n - 1, a, c, q); loc_rep_cp(n - 1, a, c, d, q); }
        assert(s_constant(d, p, x) is Ok || true);
    }, Err(_) => {} } }
}
pub broadcast proof fn mono_s_constant_pool(c: Ctx, p: int) ensures p <= c.l ==> moves(#[trigger] s_constant_pool(c, p), c, p)
{ broadcast use {mono_s_u16, mono_rep_cp}; reveal(s_constant_pool); }
pub broadcast proof fn loc_s_constant_pool(c: Ctx, d: Ctx, p: int)
    ensures #![trigger s_constant_pool(c, p), s_constant_pool(d, p)] s_constant_pool(c, p) is Ok && near(c, d, p, (s_constant_pool(c, p)->Ok_0).1) ==> s_constant_pool(d, p) == s_constant_pool(c, p)
{ broadcast use {near_facts, mono_s_u16, loc_s_u16, mono_rep_cp, loc_rep_cp}; reveal(s_constant_pool); }
pub proof fn mono_rep_pairs(n: int, acc: Map<i32, i32>, c: Ctx, p: int)
    requires p <= c.l
    ensures moves(rep_pairs(n, acc, c, p), c, p)
    decreases n
{ broadcast use mono_s_i32; if n > 0 { match s_i32(c, p) { Ok((k, q)) => { match s_i32(c, q) { Ok((v, q2)) => { mono_rep_pairs(n - 1, acc.insert(k, v), c, q2); }, Err(_) => {} } }, Err(_) => {} } } }
pub proof fn loc_rep_pairs(n: int, acc: Map<i32, i32>, c: Ctx, d: Ctx, p: int)
    requires rep_pairs(n, acc, c, p) is Ok, near(c, d, p, (rep_pairs(n, acc, c, p)->Ok_0).1)
    ensures rep_pairs(n, acc, d, p) == rep_pairs(n, acc, c, p)
    decreases n
{
    broadcast use {near_facts, mono_s_i32, loc_s_i32};
    if n > 0 { match s_i32(c, p) { Ok((k, q)) => { match s_i32(c, q) { Ok((v, q2)) => {
        mono_rep_pairs(n - 1, acc.insert(k, v), c, q2);
        loc_rep_pairs(n - 1, acc.insert(k, v), c, d, q2);
        assert(s_i32(d, p) == s_i32(c, p)); assert(s_i32(d, q) == s_i32(c, q));
    }, Err(_) => {} } }, Err(_) => {} } }
}
pub broadcast proof fn mono_s_switch_pairs(c: Ctx, p: int, n: int, acc: Map<i32, i32>) ensures p <= c.l ==> moves(#[trigger] s_switch_pairs(c, p, n, acc), c, p) { if p <= c.l { mono_rep_pairs(n, acc, c, p); } }
pub broadcast proof fn loc_s_switch_pairs(c: Ctx, d: Ctx, p: int, n: int, acc: Map<i32, i32>)
    ensures #![trigger s_switch_pairs(c, p, n, acc), s_switch_pairs(d, p, n, acc)] s_switch_pairs(c, p, n, acc) is Ok && near(c, d, p, (s_switch_pairs(c, p, n, acc)->Ok_0).1) ==> s_switch_pairs(d, p, n, acc) == s_switch_pairs(c, p, n, acc)
{ if s_switch_pairs(c, p, n, acc) is Ok && near(c, d, p, (s_switch_pairs(c, p, n, acc)->Ok_0).1) { loc_rep_pairs(n, acc, c, d, p); } }
// the code ends where its context ends
pub proof fn insn_moves(c: Ctx, p: int, at: u32) ensures p <= c.l && s_insn(c, p, at) is Ok ==> p < (s_insn(c, p, at)->Ok_0).1
{ broadcast use @INSN_MONO; reveal(s_insn); }
pub broadcast proof fn mono_s_tile(c: Ctx, p: int, at: int, acc: Map<u32, Instruction>)
    ensures p <= c.l ==> match (#[trigger] s_tile(c, p, at, acc)) { Ok((_, q)) => p <= q && q == c.l, Err(_) => true }
    decreases c.l - p
{
    if p <= c.l {
        mono_s_insn(c, p, at as u32); insn_moves(c, p, at as u32);
        match s_insn(c, p, at as u32) { Ok((i, q)) => { if q < c.l { mono_s_tile(c, q, at + (q - p), acc.insert(at as u32, i)); } }, Err(_) => {} }
    }
}
pub broadcast proof fn loc_s_tile(c: Ctx, d: Ctx, p: int, at: int, acc: Map<u32, Instruction>)
    ensures #![trigger s_tile(c, p, at, acc), s_tile(d, p, at, acc)] s_tile(c, p, at, acc) is Ok && c.l == d.l && near(c, d, p, c.l) ==> s_tile(d, p, at, acc) == s_tile(c, p, at, acc)
    decreases c.l - p
{
    broadcast use near_facts;
    if s_tile(c, p, at, acc) is Ok && c.l == d.l && near(c, d, p, c.l) {
        mono_s_insn(c, p, at as u32); insn_moves(c, p, at as u32);
        match s_insn(c, p, at as u32) { Ok((i, q)) => {
            assert(same_bytes(c.b, d.b, q));
            loc_s_insn(c, d, p, at as u32);
            if q < c.l { loc_s_tile(c, d, q, at + (q - p), acc.insert(at as u32, i)); }
        }, Err(_) => {} }
    }
}
// @annotations
pub open spec fn down(c: Ctx) -> Ctx { Ctx { room: c.room - 1, ..c } }
pub broadcast proof fn mono_s_element_value(c: Ctx, p: int)
    ensures p <= c.l ==> moves(#[trigger] s_element_value(c, p), c, p)
    decreases c.room, 0int, 0int
{
    broadcast use {mono_s_u8, mono_s_u16, @EV_MONO}; reveal(s_element_value); reveal(s_annotation);
    if c.room > 0 && p <= c.l { match s_u8(c, p) { Ok((t, q)) => {
        if t == 64 { mono_s_annotation(down(c), q); }
        if t == 91 { match s_u16(down(c), q) { Ok((n, q2)) => { mono_rep_ElementValue(n as int, Seq::empty(), down(c), q2); }, Err(_) => {} } }
    }, Err(_) => {} } }
}
pub broadcast proof fn mono_s_annotation(c: Ctx, p: int)
    ensures p <= c.l ==> moves(#[trigger] s_annotation(c, p), c, p)
    decreases c.room, 2int, 0int
{
    broadcast use mono_s_u16; reveal(s_annotation); reveal(s_element_value);
    if p <= c.l { match s_u16(c, p) { Ok((t, q)) => { match s_u16(c, q) { Ok((n, q2)) => { mono_rep_Pair(n as int, Seq::empty(), c, q2); }, Err(_) => {} } }, Err(_) => {} } }
}
pub broadcast proof fn mono_rep_Pair(n: int, acc: Seq<(u16, ElementValue)>, c: Ctx, p: int)
    ensures p <= c.l ==> moves(#[trigger] rep_Pair(n, acc, c, p), c, p)
    decreases c.room, 1int, n
{
    broadcast use mono_s_u16; reveal(s_annotation); reveal(s_element_value);
    if n > 0 && p <= c.l { match s_u16(c, p) { Ok((i, q)) => { mono_s_element_value(c, q); match s_element_value(c, q) { Ok((v, q2)) => { mono_rep_Pair(n - 1, acc.push((i, v)), c, q2); }, Err(_) => {} } }, Err(_) => {} } }
}
pub broadcast proof fn mono_rep_ElementValue(n: int, acc: Seq<ElementValue>, c: Ctx, p: int)
    ensures p <= c.l ==> moves(#[trigger] rep_ElementValue(n, acc, c, p), c, p)
    decreases c.room, 1int, n
{
    reveal(s_annotation); reveal(s_element_value);
    if n > 0 && p <= c.l { mono_s_element_value(c, p); match s_element_value(c, p) { Ok((v, q)) => { mono_rep_ElementValue(n - 1, acc.push(v), c, q); }, Err(_) => {} } }
}
pub broadcast proof fn loc_s_element_value(c: Ctx, d: Ctx, p: int)
    ensures #![trigger s_element_value(c, p), s_element_value(d, p)] s_element_value(c, p) is Ok && near(c, d, p, (s_element_value(c, p)->Ok_0).1) ==> s_element_value(d, p) == s_element_value(c, p)
    decreases c.room, 0int, 0int
{
    broadcast use {near_facts, mono_s_u8, loc_s_u8, mono_s_u16, loc_s_u16, @EV_MONO, @EV_LOC}; reveal(s_element_value); reveal(s_annotation);
    if c.room > 0 && s_element_value(c, p) is Ok && near(c, d, p, (s_element_value(c, p)->Ok_0).1) { match s_u8(c, p) { Ok((t, q)) => {
        mono_s_element_value(c, p);
        if t == 64 { mono_s_annotation(down(c), q); loc_s_annotation(down(c), down(d), q); }
        if t == 91 { match s_u16(down(c), q) { Ok((n, q2)) => { mono_rep_ElementValue(n as int, Seq::empty(), down(c), q2); loc_rep_ElementValue(n as int, Seq::empty(), down(c), down(d), q2); }, Err(_) => {} } }
    }, Err(_) => {} } }
}
pub broadcast proof fn loc_s_annotation(c: Ctx, d: Ctx, p: int)
    ensures #![trigger s_annotation(c, p), s_annotation(d, p)] s_annotation(c, p) is Ok && near(c, d, p, (s_annotation(c, p)->Ok_0).1) ==> s_annotation(d, p) == s_annotation(c, p)
    decreases c.room, 2int, 0int
{
    broadcast use {near_facts, mono_s_u16, loc_s_u16}; reveal(s_annotation); reveal(s_element_value);
    if p <= c.l { match s_u16(c, p) { Ok((t, q)) => { match s_u16(c, q) { Ok((n, q2)) => { mono_rep_Pair(n as int, Seq::empty(), c, q2); loc_rep_Pair(n as int, Seq::empty(), c, d, q2); }, Err(_) => {} } }, Err(_) => {} } }
}
pub broadcast proof fn loc_rep_Pair(n: int, acc: Seq<(u16, ElementValue)>, c: Ctx, d: Ctx, p: int)
    ensures #![trigger rep_Pair(n, acc, c, p), rep_Pair(n, acc, d, p)] rep_Pair(n, acc, c, p) is Ok && near(c, d, p, (rep_Pair(n, acc, c, p)->Ok_0).1) ==> rep_Pair(n, acc, d, p) == rep_Pair(n, acc, c, p)
    decreases c.room, 1int, n
{
    broadcast use {near_facts, mono_s_u16, loc_s_u16}; reveal(s_annotation); reveal(s_element_value);
    if n > 0 && p <= c.l { match s_u16(c, p) { Ok((i, q)) => { mono_s_element_value(c, q); loc_s_element_value(c, d, q); match s_element_value(c, q) { Ok((v, q2)) => { mono_rep_Pair(n - 1, acc.push((i, v)), c, q2); loc_rep_Pair(n - 1, acc.push((i, v)), c, d, q2); }, Err(_) => {} } }, Err(_) => {} } }
}
pub broadcast proof fn loc_rep_ElementValue(n: int, acc: Seq<ElementValue>, c: Ctx, d: Ctx, p: int)
    ensures #![trigger rep_ElementValue(n, acc, c, p), rep_ElementValue(n, acc, d, p)] rep_ElementValue(n, acc, c, p) is Ok && near(c, d, p, (rep_ElementValue(n, acc, c, p)->Ok_0).1) ==> rep_ElementValue(n, acc, d, p) == rep_ElementValue(n, acc, c, p)
    decreases c.room, 1int, n
{
    broadcast use near_facts; reveal(s_annotation); reveal(s_element_value);
    if n > 0 && p <= c.l { mono_s_element_value(c, p); loc_s_element_value(c, d, p); match s_element_value(c, p) { Ok((v, q)) => { mono_rep_ElementValue(n - 1, acc.push(v), c, q); loc_rep_ElementValue(n - 1, acc.push(v), c, d, q); }, Err(_) => {} } }
}
// @attributes
pub broadcast proof fn mono_s_attributes(c: Ctx, p: int)
    ensures p <= c.l ==> moves(#[trigger] s_attributes(c, p), c, p)
    decreases c.room, 2int, 0int
{
    broadcast use {mono_s_u16, cycle::unfold_attributes};
    if p <= c.l { match s_u16(c, p) { Ok((n, q)) => { mono_rep_Attribute(n as int, Seq::empty(), c, q); }, Err(_) => {} } }
}
pub proof fn mono_rep_Attribute(n: int, acc: Seq<Attribute>, c: Ctx, p: int)
    requires p <= c.l
    ensures moves(rep_Attribute(n, acc, c, p), c, p)
    decreases c.room, 1int, n
{
    cycle::unfold_rep(n, acc, c, p);
    if n > 0 { mono_attribute(c, p); match s_attribute(c, p) { Ok((x, q)) => { mono_rep_Attribute(n - 1, acc.push(x), c, q); cycle::fold_rest(n - 1, acc.push(x), c, q); }, Err(_) => {} } }
}
pub open spec fn inside(c: Ctx, p: int, n: u32) -> Ctx { Ctx { b: c.b, l: p + n, room: c.room - 1, pool: c.pool } }
pub proof fn mono_attribute(c: Ctx, p: int)
    requires p <= c.l
    ensures moves(s_attribute(c, p), c, p)
{ broadcast use {mono_s_u16, mono_s_u32}; cycle::unfold_attribute(c, p); }
pub proof fn mono_code(c: Ctx, p: int)
    requires p <= c.l
    ensures moves(s_code(c, p), c, p)
    decreases c.room, 3int, 0int
{ broadcast use {mono_s_u16, mono_s_u32, mono_s_tile, mono_rep_Exception, mono_s_attributes}; cycle::unfold_code(c, p); }
pub broadcast proof fn loc_s_attributes(c: Ctx, d: Ctx, p: int)
    ensures #![trigger s_attributes(c, p), s_attributes(d, p)] s_attributes(c, p) is Ok && near(c, d, p, (s_attributes(c, p)->Ok_0).1) ==> s_attributes(d, p) == s_attributes(c, p)
    decreases c.room, 2int, 0int
{
    broadcast use {near_facts, mono_s_u16, loc_s_u16}; cycle::unfold_attributes(c, p); cycle::unfold_attributes(d, p);
    if s_attributes(c, p) is Ok && near(c, d, p, (s_attributes(c, p)->Ok_0).1) { match s_u16(c, p) { Ok((n, q)) => {
        mono_rep_Attribute(n as int, Seq::empty(), c, q);
        loc_rep_Attribute(n as int, Seq::empty(), c, d, q);
    }, Err(_) => {} } }
}
pub proof fn loc_rep_Attribute(n: int, acc: Seq<Attribute>, c: Ctx, d: Ctx, p: int)
    requires rep_Attribute(n, acc, c, p) is Ok, near(c, d, p, (rep_Attribute(n, acc, c, p)->Ok_0).1)
    ensures rep_Attribute(n, acc, d, p) == rep_Attribute(n, acc, c, p)
    decreases c.room, 1int, n
{
    broadcast use near_facts;
    cycle::unfold_rep(n, acc, c, p); cycle::unfold_rep(n, acc, d, p);
    if n > 0 { mono_attribute(c, p); match s_attribute(c, p) { Ok((x, q)) => {
        cycle::fold_rest(n - 1, acc.push(x), c, q); cycle::fold_rest(n - 1, acc.push(x), d, q);
        mono_rep_Attribute(n - 1, acc.push(x), c, q);
        assert(same_bytes(c.b, d.b, q));
        loc_attribute(c, d, p);
        loc_rep_Attribute(n - 1, acc.push(x), c, d, q);
    }, Err(_) => {} } }
}
pub proof fn loc_attribute(c: Ctx, d: Ctx, p: int)
    requires s_attribute(c, p) is Ok, near(c, d, p, (s_attribute(c, p)->Ok_0).1)
    ensures s_attribute(d, p) == s_attribute(c, p)
    decreases c.room, 0int, 0int
{
    broadcast use {near_facts, mono_s_u16, loc_s_u16, mono_s_u32, loc_s_u32, @CONTENT_MONO, @CONTENT_LOC};
    cycle::unfold_attribute(c, p); cycle::unfold_attribute(d, p);
    match s_u16(c, p) { Ok((i, q)) => { match s_u32(c, q) { Ok((n, q2)) => {
        assert(s_u16(d, p) == s_u16(c, p)); assert(s_u32(d, q) == s_u32(c, q));
        if s_code(inside(c, q2, n), q2) is Ok {
            mono_code(inside(c, q2, n), q2);
            let e = (s_code(inside(c, q2, n), q2)->Ok_0).1;
            if e == q2 + n { loc_code(inside(c, q2, n), inside(d, q2, n), q2); }
        }
    }, Err(_) => {} } }, Err(_) => {} }
}
pub proof fn loc_code(c: Ctx, d: Ctx, p: int)
    requires s_code(c, p) is Ok, near(c, d, p, (s_code(c, p)->Ok_0).1)
    ensures s_code(d, p) == s_code(c, p)
    decreases c.room, 3int, 0int
{
    broadcast use {near_facts, mono_s_u16, loc_s_u16, mono_s_u32, loc_s_u32, mono_s_tile, loc_s_tile, mono_rep_Exception, loc_rep_Exception, mono_s_attributes};
    cycle::unfold_code(c, p); cycle::unfold_code(d, p);
    let (x1, p1) = s_u16(c, p)->Ok_0; let (x2, p2) = s_u16(c, p1)->Ok_0; let (n, p3) = s_u32(c, p2)->Ok_0;
    let cc = Ctx { b: c.b, l: p3 + n, room: c.room - 1, pool: Seq::empty() };
    let dd = Ctx { b: d.b, l: p3 + n, room: c.room - 1, pool: Seq::empty() };
    let (x4, p4) = s_tile(cc, p3, 0, Map::empty())->Ok_0; let (k, p5) = s_u16(c, p4)->Ok_0;
    let (x6, p6) = rep_Exception(k as int, Seq::<Exception>::empty(), Ctx { pool: Seq::empty(), ..c }, p5)->Ok_0;
    assert(s_u16(d, p) == s_u16(c, p)); assert(s_u16(d, p1) == s_u16(c, p1)); assert(s_u32(d, p2) == s_u32(c, p2));
    assert(same_bytes(c.b, d.b, cc.l));
    assert(s_tile(dd, p3, 0, Map::empty()) == s_tile(cc, p3, 0, Map::empty()));
    assert(s_u16(d, p4) == s_u16(c, p4));
    loc_s_attributes(c, d, p6);
}
// @theorem
// The theorem: a class file ends at q; what is after q does not matter, and less than q is not enough.
pub proof fn complete_class_files(b: Seq<u8>, o: Seq<u8>)
    requires s_class(top(b), 0) is Ok
    ensures ({
        let q = (s_class(top(b), 0)->Ok_0).1;
        &&& 0 <= q <= b.len()
        &&& o.len() >= q && o.take(q) == b.take(q) ==> s_class(top(o), 0) == s_class(top(b), 0)
        &&& o.len() < q && o == b.take(o.len() as int) ==> s_class(top(o), 0) is Err
    })
{
    let q = (s_class(top(b), 0)->Ok_0).1;
    mono_s_class(top(b), 0); mono_s_class(top(o), 0);
    if o.len() >= q && o.take(q) == b.take(q) {
        reveal(same_bytes);
        assert forall|i: int| 0 <= i < q implies #[trigger] b[i] == o[i] by { assert(b.take(q)[i] == b[i]); assert(o.take(q)[i] == o[i]); }
        loc_s_class(top(b), top(o), 0);
    }
    if o.len() < q && o == b.take(o.len() as int) && s_class(top(o), 0) is Ok {
        reveal(same_bytes);
        let z = (s_class(top(o), 0)->Ok_0).1;
        loc_s_class(top(o), top(b), 0);
    }
}
