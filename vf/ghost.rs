// ---- ghost members of the data structures ------------------------------------------
pub type Pv = Seq<Option<Rc<Item>>>;

impl<'a> Decoder<'a> {
    pub open spec fn b(&self) -> Seq<u8> { self.bytes@ }
    pub open spec fn pos(&self) -> int { *self.cursor as int }
    pub open spec fn lim(&self) -> int { self.limit as int }
    pub open spec fn room(&self) -> int { MAX_DEPTH - self.depth }
    #[verifier::prophetic]
    pub open spec fn fin(&self) -> int { *final(self.cursor) as int }
    // the invariant: the position is within the limit, the limit within the input, the depth bounded
    pub open spec fn wf(&self) -> bool {
        0 <= self.pos() <= self.lim() <= self.b().len() && self.b().len() <= 0x7fff_ffff_ffff_ffff && 0 <= self.room() <= 64
    }
    // the frame: everything but the position is unchanged
    #[verifier::prophetic]
    pub open spec fn same(&self, o: Decoder<'a>) -> bool {
        self.b() == o.b() && self.lim() == o.lim() && self.room() == o.room() && self.fin() == o.fin()
    }
    pub open spec fn ctx(&self) -> Ctx { Ctx { b: self.b(), l: self.lim(), room: self.room(), pool: Seq::empty() } }
    pub open spec fn pctx(&self, pool: Pv) -> Ctx { Ctx { b: self.b(), l: self.lim(), room: self.room(), pool: pool } }
}
pub open spec fn top(b: Seq<u8>) -> Ctx { Ctx { b: b, l: b.len() as int, room: 64, pool: Seq::empty() } }

// ---- constant pool ------------------------------------------------------------------
pub open spec fn dbl(x: Rc<Item>) -> bool { two_slots(*x) }
pub open spec fn eqi(i: Rc<Item>, x: Rc<Item>) -> bool { *i == *x }
pub open spec fn holds_rc(p: Pv, i: Rc<Item>) -> bool { holds(p, *i) }
pub open spec fn slots(i: Item) -> int { if two_slots(i) { 2 } else { 1 } }
pub open spec fn fits(p: Pv, i: Item) -> bool { p.len() + 1 + slots(i) <= 0xffff }
pub open spec fn added(p: Pv, i: Item) -> Pv { if two_slots(i) { p.push(Some(Rc::new(i))).push(None) } else { p.push(Some(Rc::new(i))) } }
pub open spec fn is_at(p: Pv, k: int, i: Item) -> bool { 0 <= k < p.len() && p[k] is Some && *p[k]->0 == i }
pub open spec fn holds(p: Pv, i: Item) -> bool { exists|k: int| #[trigger] is_at(p, k, i) }
pub open spec fn first_at(p: Pv, i: Item, x: u16) -> bool { is_at(p, x - 1, i) && forall|k: int| 0 <= k < x - 1 ==> !#[trigger] is_at(p, k, i) }
pub open spec fn is_class(p: Pv, i: u16) -> bool { at(p, i) is Some && at(p, i)->0 is Class }
pub open spec fn class_at(p: Pv, i: u16) -> u16 { at(p, i)->0->Class_0 }
impl Pool {
    pub open spec fn view(&self) -> Pv { self.by_index@ }
    pub open spec fn spec_len(&self) -> u16 { self.length }
    pub open spec fn wf(&self) -> bool { self.length == self.by_index@.len() + 1 && slots_ok(self.by_index@) && entries_ok(self.by_index@, self.by_entry@) }
}
// the second slot of a long or double is empty, and only that
#[verifier::opaque]
pub open spec fn slots_ok(p: Pv) -> bool {
    &&& forall|k: int| 0 <= k < p.len() ==> ((#[trigger] p[k]) is None <==> k > 0 && p[k - 1] is Some && two_slots(*p[k - 1]->0))
    &&& p.len() > 0 ==> p.last() is None || !two_slots(*p.last()->0)
}
// m maps every item of the pool to the first index it has
#[verifier::opaque]
pub open spec fn entries_ok(p: Pv, m: Map<Rc<Item>, u16>) -> bool {
    &&& forall|i: Rc<Item>| #[trigger] m.contains_key(i) <==> holds(p, *i)
    &&& forall|i: Rc<Item>| #[trigger] m.contains_key(i) ==> first_at(p, *i, m[i])
}
// the same kind and the same content; floats by their bits
pub open spec fn same_item(a: Item, b: Item) -> bool {
    match (a, b) {
        (Item::Float(x), Item::Float(y)) => f32bits(x) == f32bits(y),
        (Item::Double(x), Item::Double(y)) => f64bits(x) == f64bits(y),
        _ => a == b,
    }
}
// the items in the slots s, where the slot before them has the index i, with their own indices
pub open spec fn used(s: Pv, i: int) -> Seq<(u16, Item)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s[0] is Some { seq![((i + 1) as u16, *s[0]->0)] + used(s.drop_first(), i + 1) }
    else { used(s.drop_first(), i + 1) }
}
pub open spec fn derefs(s: Seq<&Option<Rc<Item>>>) -> Pv { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn derefs_rest(s: Seq<&Option<Rc<Item>>>)
    requires s.len() > 0
    ensures #[trigger] derefs(s.drop_first()) == derefs(s).drop_first()
{ assert(derefs(s.drop_first()) =~= derefs(s).drop_first()); }
impl<'a> PoolIter<'a> {
    #[verifier::prophetic]
    pub open spec fn slots(&self) -> Pv { derefs(IteratorSpec::remaining(&self.iter)) }
    // what is still to be returned
    #[verifier::prophetic]
    pub open spec fn pending(&self) -> Seq<(u16, Item)> { used(self.slots(), self.index as int) }
    #[verifier::prophetic]
    pub open spec fn wf(&self) -> bool { self.index + self.slots().len() <= 0xfffe && IteratorSpec::decrease(&self.iter) is Some }
}
pub mod pool_lemmas {
use super::*;
pub broadcast proof fn slots_single(p: Pv, x: Rc<Item>)
    ensures slots_ok(p) && !two_slots(*x) ==> #[trigger] slots_ok(p.push(Some(x)))
{ reveal(slots_ok); }
pub broadcast proof fn slots_double(p: Pv, x: Rc<Item>)
    ensures slots_ok(p) && two_slots(*x) ==> #[trigger] slots_ok(p.push(Some(x)).push(None))
{ reveal(slots_ok);
  let q = p.push(Some(x)).push(None);
  let ok = slots_ok(p) && dbl(x);
  if ok {
      assert forall|k: int| 0 <= k < q.len() implies ((#[trigger] q[k]) is None <==> k > 0 && q[k - 1] is Some && two_slots(*q[k - 1]->0)) by {
          if k < p.len() { assert(q[k] == p[k]); if k > 0 { assert(q[k - 1] == p[k - 1]); } }
          else if k == p.len() { assert(q[k] == Some(x)); if k > 0 { assert(q[k - 1] == p[k - 1]); assert(p.last() == p[k - 1]); } }
          else { assert(q[k] is None); assert(q[k - 1] == Some(x)); }
      }
  } }
pub broadcast proof fn entries_some(p: Pv, m: Map<Rc<Item>, u16>, x: Rc<Item>, m2: Map<Rc<Item>, u16>)
    requires p.len() < 0xffff, entries_ok(p, m), m2 == (if m.contains_key(x) { m } else { m.insert(x, (p.len() + 1) as u16) }),
    ensures #![trigger entries_ok(p, m), entries_ok(p.push(Some(x)), m2)] entries_ok(p.push(Some(x)), m2)
{ reveal(entries_ok);
  let q = p.push(Some(x));
  assert forall|i: Item, k: int| is_at(p, k, i) implies #[trigger] is_at(q, k, i) by { }
  assert(is_at(q, p.len() as int, *x));
  assert forall|i: Rc<Item>| #[trigger] m2.contains_key(i) <==> holds(q, *i) by {
      if holds_rc(p, i) { let k = choose|k: int| is_at(p, k, *i); assert(is_at(q, k, *i)); }
      if holds_rc(q, i) && !eqi(i, x) { let k = choose|k: int| is_at(q, k, *i); assert(is_at(p, k, *i)); }
  }
  assert forall|i: Rc<Item>| #[trigger] m2.contains_key(i) implies first_at(q, *i, m2[i]) by {
      if m.contains_key(i) { assert forall|k: int| 0 <= k < m2[i] - 1 implies !#[trigger] is_at(q, k, *i) by { assert(!is_at(p, k, *i)); } }
      else { assert forall|k: int| 0 <= k < p.len() implies !#[trigger] is_at(q, k, *i) by { assert(is_at(q, k, *i) ==> is_at(p, k, *i)); assert(is_at(p, k, *i) ==> holds(p, *i)); } }
  }
}
pub broadcast proof fn entries_none(p: Pv, m: Map<Rc<Item>, u16>)
    requires entries_ok(p, m)
    ensures #[trigger] entries_ok(p.push(None), m)
{ reveal(entries_ok);
  let q = p.push(None);
  assert forall|i: Item, k: int| is_at(p, k, i) <==> #[trigger] is_at(q, k, i) by { }
  assert forall|i: Rc<Item>| #[trigger] m.contains_key(i) <==> holds(q, *i) by {
      if holds_rc(p, i) { let k = choose|k: int| is_at(p, k, *i); assert(is_at(q, k, *i)); }
      if holds_rc(q, i) { let k = choose|k: int| is_at(q, k, *i); assert(is_at(p, k, *i)); }
  }
  assert forall|i: Rc<Item>| #[trigger] m.contains_key(i) implies first_at(q, *i, m[i]) by {
      assert forall|k: int| 0 <= k < m[i] - 1 implies !#[trigger] is_at(q, k, *i) by { assert(!is_at(p, k, *i)); }
  }
}
pub broadcast group pool_facts { slots_single, slots_double, entries_some, entries_none }
}

#[verifier::external]
impl PartialEq for Item { fn eq(&self, o: &Item) -> bool { unimplemented!() } }
#[verifier::external]
impl Eq for Item {}
#[verifier::external]
impl Hash for Item { fn hash<H: Hasher>(&self, s: &mut H) { unimplemented!() } }
