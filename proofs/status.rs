use vstd::prelude::*;
verus! {
//@include prelude/text.rs
/*@extract
file = "sds/src/match_validation/match_status.rs"
item = "MatchStatus"
kind = "enum"
derive_order = true
[[rewrite]]
from = "Error(String)"
to = "Error(VpText)"
@*/
// the order of the derived comparison: by variant; two errors by their text (an arbitrary strict total order)
pub uninterp spec fn text_lt(a: Seq<u8>, b: Seq<u8>) -> bool;
#[verifier::external_body]
pub proof fn axiom_text_lt()
    ensures
        forall|a: Seq<u8>, b: Seq<u8>| !(#[trigger] text_lt(a, b) && text_lt(b, a)),
        forall|a: Seq<u8>, b: Seq<u8>| #[trigger] text_lt(a, b) || text_lt(b, a) || a == b,
{}
pub open spec fn lt(a: MatchStatus, b: MatchStatus) -> bool {
    a.vp_rank() < b.vp_rank() || (a is Error && b is Error && text_lt(a->Error_0@, b->Error_0@))
}
impl MatchStatus {
    #[verifier::external_body]
    pub fn vp_gt(&self, o: &MatchStatus) -> (r: bool) ensures r == lt(*o, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_lt(&self, o: &MatchStatus) -> (r: bool) ensures r == lt(*self, *o) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_ge(&self, o: &MatchStatus) -> (r: bool) ensures r == !lt(*self, *o) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_le(&self, o: &MatchStatus) -> (r: bool) ensures r == !lt(*o, *self) { unimplemented!() }
}
// how conclusive a status is, from least to most (the documentation of match validation)
pub open spec fn strength(s: MatchStatus) -> int {
    match s {
        MatchStatus::NotChecked => 0,
        MatchStatus::NotAvailable => 1,
        MatchStatus::Invalid => 2,
        MatchStatus::Error(_) => 3,
        MatchStatus::Valid => 4,
    }
}
pub open spec fn same(a: MatchStatus, b: MatchStatus) -> bool {
    strength(a) == strength(b) && (a is Error ==> a->Error_0@ == b->Error_0@)
}
pub open spec fn weaker(a: MatchStatus, b: MatchStatus) -> bool {
    strength(a) < strength(b) || (a is Error && b is Error && text_lt(a->Error_0@, b->Error_0@))
}
impl MatchStatus {
/*@extract
file = "sds/src/match_validation/match_status.rs"
item = "MatchStatus::merge"
contract = '''
    ensures
        // the stronger of the two statuses is kept, the old one when neither is stronger
        weaker(*old(self), new_status) ==> *final(self) == new_status,
        !weaker(*old(self), new_status) ==> same(*final(self), *old(self)),
'''
start = "proof { axiom_text_lt(); }"
[[rewrite]]
from = "new_status > *self"
to = "new_status.vp_gt(self)"
optional = true
[[rewrite]]
from = "*self < new_status"
to = "self.vp_lt(&new_status)"
optional = true
[[rewrite]]
from = "new_status >= *self"
to = "new_status.vp_ge(self)"
optional = true
[[rewrite]]
from = "new_status < *self"
to = "new_status.vp_lt(self)"
optional = true
[[rewrite]]
from = "*self > new_status"
to = "self.vp_gt(&new_status)"
optional = true
[[rewrite]]
from = "*self >= new_status"
to = "self.vp_ge(&new_status)"
optional = true
[[rewrite]]
from = "*self <= new_status"
to = "self.vp_le(&new_status)"
optional = true
@*/
}
// ---- history: after any sequence of updates the status is a strongest one of those seen -------------
pub open spec fn merge_rel(a: MatchStatus, n: MatchStatus, b: MatchStatus) -> bool {
    if weaker(a, n) { b == n } else { same(b, a) }
}
pub proof fn theorem_history(trace: Seq<MatchStatus>, ups: Seq<MatchStatus>)
    requires
        trace.len() == ups.len() + 1,
        forall|i: int| 0 <= i < ups.len() ==> #[trigger] merge_rel(trace[i], ups[i], trace[i + 1]),
    ensures
        forall|i: int| 0 <= i < ups.len() ==> strength(#[trigger] ups[i]) <= strength(trace.last()),
        strength(trace[0]) <= strength(trace.last()),
        same(trace.last(), trace[0]) || exists|i: int| 0 <= i < ups.len() && same(trace.last(), #[trigger] ups[i]),
    decreases ups.len(),
{
    if ups.len() > 0 {
        let t = trace.drop_last(); let u = ups.drop_last();
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] merge_rel(t[i], u[i], t[i + 1]) by { assert(merge_rel(trace[i], ups[i], trace[i + 1])); }
        theorem_history(t, u);
        let k = ups.len() - 1;
        assert(merge_rel(trace[k], ups[k], trace[k + 1]));
        assert(strength(ups[k]) <= strength(trace.last()));
        assert forall|i: int| 0 <= i < ups.len() implies strength(#[trigger] ups[i]) <= strength(trace.last()) by { if i < k { assert(u[i] == ups[i]); } }
        if same(trace.last(), trace[k]) && !same(t.last(), t[0]) {
            let i = choose|i: int| 0 <= i < u.len() && same(t.last(), #[trigger] u[i]);
            assert(same(trace.last(), ups[i]));
        } else if !same(trace.last(), trace[k]) { assert(same(trace.last(), ups[k])); }
    }
}
} // verus!
fn main() {}
