// C18: what an iteration returns, read off the contract of next.
pub mod iteration {
use super::*;
// every pair returned carries the index under which a lookup finds the item
pub proof fn found_at_its_index(p: Pv, s: Pv, i: int, k: int)
    requires 0 <= i, i + s.len() == p.len(), p.len() <= 0xfffe, s == p.subrange(i, p.len() as int), 0 <= k < used(s, i).len()
    ensures used(s, i)[k].0 > i, at(p, used(s, i)[k].0) == Some(used(s, i)[k].1)
    decreases s.len()
{
    assert(s[0] == p[i]);
    assert(s.drop_first() =~= p.subrange(i + 1, p.len() as int));
    if s[0] is Some { if k > 0 { found_at_its_index(p, s.drop_first(), i + 1, k - 1); } }
    else { found_at_its_index(p, s.drop_first(), i + 1, k); }
}
// the indices ascend, so that no item is returned twice
pub proof fn ascending(p: Pv, s: Pv, i: int, k: int)
    requires 0 <= i, i + s.len() == p.len(), p.len() <= 0xfffe, s == p.subrange(i, p.len() as int), 0 < k < used(s, i).len()
    ensures used(s, i)[k - 1].0 < used(s, i)[k].0
    decreases s.len()
{
    assert(s[0] == p[i]);
    assert(s.drop_first() =~= p.subrange(i + 1, p.len() as int));
    if s[0] is Some {
        if k > 1 { ascending(p, s.drop_first(), i + 1, k - 1); } else { found_at_its_index(p, s.drop_first(), i + 1, 0); }
    } else { ascending(p, s.drop_first(), i + 1, k); }
}
// every index under which a lookup finds an item is returned
pub proof fn complete_(p: Pv, s: Pv, i: int, x: u16) -> (k: int)
    requires 0 <= i < x, i + s.len() == p.len(), p.len() <= 0xfffe, s == p.subrange(i, p.len() as int), at(p, x) is Some
    ensures 0 <= k < used(s, i).len(), used(s, i)[k].0 == x
    decreases s.len()
{
    assert(s[0] == p[i]);
    assert(s.drop_first() =~= p.subrange(i + 1, p.len() as int));
    if s[0] is Some { if x == i + 1 { 0 } else { complete_(p, s.drop_first(), i + 1, x) + 1 } }
    else { complete_(p, s.drop_first(), i + 1, x) }
}
// the theorem
pub proof fn iteration_of_a_pool(pool: Pool)
    requires pool.wf(), pool@.len() <= 0xfffe
    ensures
        forall|k: int| 0 <= k < used(pool@, 0).len() ==> at(pool@, (#[trigger] used(pool@, 0)[k]).0) == Some(used(pool@, 0)[k].1),
        forall|j: int, k: int| 0 <= j < k < used(pool@, 0).len() && k == j + 1 ==> (#[trigger] used(pool@, 0)[j]).0 < (#[trigger] used(pool@, 0)[k]).0,
        forall|x: u16| x != 0 && #[trigger] at(pool@, x) is Some ==> exists|k: int| 0 <= k < used(pool@, 0).len() && (#[trigger] used(pool@, 0)[k]).0 == x,
{
    let p = pool@;
    assert(p =~= p.subrange(0, p.len() as int));
    assert forall|k: int| 0 <= k < used(p, 0).len() implies at(p, (#[trigger] used(p, 0)[k]).0) == Some(used(p, 0)[k].1) by { found_at_its_index(p, p, 0, k); }
    assert forall|j: int, k: int| 0 <= j < k < used(p, 0).len() && k == j + 1 implies (#[trigger] used(p, 0)[j]).0 < (#[trigger] used(p, 0)[k]).0 by { ascending(p, p, 0, k); }
    assert forall|x: u16| x != 0 && #[trigger] at(p, x) is Some implies exists|k: int| 0 <= k < used(p, 0).len() && (#[trigger] used(p, 0)[k]).0 == x by { let k = complete_(p, p, 0, x); assert(used(p, 0)[k].0 == x); }
}
}
