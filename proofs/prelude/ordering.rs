// ---- assumed contracts on std: Ordering, cmp and slice sorting ------------------------------
use core::cmp::Ordering;
pub open spec fn ord_rev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub open spec fn ord_then(o: Ordering, p: Ordering) -> Ordering { if o == Ordering::Equal { p } else { o } }
pub open spec fn int_cmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub assume_specification [ Ordering::reverse ](o: Ordering) -> (r: Ordering) ensures r == ord_rev(o);
pub assume_specification [ Ordering::then ](o: Ordering, p: Ordering) -> (r: Ordering) ensures r == ord_then(o, p);
pub trait VpCmp { spec fn vp_key(&self) -> int; fn vp_cmp(&self, o: &Self) -> (r: Ordering) ensures r == int_cmp(self.vp_key(), o.vp_key()); }
impl VpCmp for usize { open spec fn vp_key(&self) -> int { *self as int } #[verifier::external_body] fn vp_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }
impl VpCmp for bool { open spec fn vp_key(&self) -> int { b2i(*self) } #[verifier::external_body] fn vp_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) } }

pub open spec fn total_preorder<T>(cmp: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| #[trigger] cmp(a, b) == ord_rev(cmp(b, a))
    &&& forall|a: T, b: T, c: T| #![trigger cmp(a, b), cmp(b, c)] cmp(a, b) != Ordering::Greater && cmp(b, c) != Ordering::Greater ==> cmp(a, c) != Ordering::Greater
}
pub open spec fn sorted_by<T>(s: Seq<T>, cmp: spec_fn(T, T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater
}
#[verifier::external_body]
pub fn vp_sort_unstable_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F, Ghost(cmp): Ghost<spec_fn(T, T) -> Ordering>)
    requires
        total_preorder(cmp),
        forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> call_requires(f, (&#[trigger] old(v)@[i], &#[trigger] old(v)@[j])),
        forall|a: &T, b: &T, o: Ordering| #[trigger] call_ensures(f, (a, b), o) ==> o == cmp(*a, *b),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        final(v)@.len() == old(v)@.len(),
        sorted_by(final(v)@, cmp),
{ v.sort_unstable_by(f) }
pub open spec fn key_le<T, F: Fn(&T) -> usize>(f: F, a: T, b: T) -> bool {
    exists|x: usize, y: usize| #[trigger] call_ensures(f, (&a,), x) && #[trigger] call_ensures(f, (&b,), y) && x <= y
}
pub proof fn lemma_in_perm<T>(a: Seq<T>, b: Seq<T>, i: int)
    requires a.to_multiset() == b.to_multiset(), 0 <= i < a.len(),
    ensures exists|j: int| 0 <= j < b.len() && b[j] == a[i],
{
    broadcast use group_to_multiset_ensures;
    assert(a.contains(a[i]));
    assert(a.to_multiset().count(a[i]) > 0);
    assert(b.contains(a[i]));
}
pub proof fn lemma_count2<T>(s: Seq<T>, i: int, j: int)
    requires 0 <= i < j < s.len(), s[i] == s[j],
    ensures s.to_multiset().count(s[i]) >= 2,
{
    broadcast use group_to_multiset_ensures;
    let t = s.remove(j);
    assert(t[i] == s[i]);
    assert(t.contains(s[i]));
    assert(t.to_multiset() =~= s.to_multiset().remove(s[j]));
    assert(s.contains(s[j]));
    assert(Multiset::singleton(s[j]).count(s[j]) == 1);
    assert(t.to_multiset().count(s[j]) > 0);
    assert(s.to_multiset().remove(s[j]).count(s[j]) == s.to_multiset().count(s[j]) - 1);
}
pub proof fn lemma_two<T>(s: Seq<T>, x: T)
    requires s.to_multiset().count(x) >= 2,
    ensures exists|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == x && #[trigger] s[j] == x,
{
    broadcast use group_to_multiset_ensures;
    assert(s.contains(x));
    let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
    let t = s.remove(i);
    assert(t.to_multiset() =~= s.to_multiset().remove(x));
    assert(Multiset::singleton(x).count(x) == 1);
    assert(s.to_multiset().remove(x).count(x) == s.to_multiset().count(x) - 1);
    assert(t.contains(x));
    let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
    let k2 = if k < i { k } else { k + 1 };
    assert(s[k2] == x);
    if k2 < i { assert(s[k2] == x && s[i] == x); } else { assert(s[i] == x && s[k2] == x); }
}
#[verifier::external_body]
pub fn vp_sort_unstable_by_key<T, F: Fn(&T) -> usize>(v: &mut Vec<T>, f: F)
    requires
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] call_requires(f, (&old(v)@[i],)),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==>
            key_le(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ v.sort_unstable_by_key(f) }
