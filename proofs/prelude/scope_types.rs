// strings inside path segments are opaque; their derived equality is identity of the value
#[verifier::external_body]
pub struct VpStr { s: String }
/*@extract
file = "sds/src/path.rs"
item = "PathSegment"
kind = "enum"
[[rewrite]]
from = "PathSegment<'a>"
to = "PathSegment"
[[rewrite]]
from = "Cow<'a, str>"
to = "VpStr"
@*/
/*@extract
file = "sds/src/path.rs"
item = "Path"
kind = "struct"
[[rewrite]]
from = "Path<'a>"
to = "Path"
[[rewrite]]
from = "PathSegment<'a>"
to = "PathSegment"
@*/
pub open spec fn seg_is_index(s: PathSegment) -> bool { s is Index }
impl PathSegment {
/*@extract
file = "sds/src/path.rs"
item = "PathSegment::is_index"
ret = "r"
contract = "ensures r == seg_is_index(*self),"
@*/
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathSegment) ensures r == *self { unimplemented!() }
}
impl Path {
/*@extract
file = "sds/src/path.rs"
item = "Path::root"
ret = "r"
contract = "ensures r.segments@ == Seq::<PathSegment>::empty(),"
@*/
}
pub type Q = Seq<PathSegment>;
pub open spec fn prefix(a: Q, b: Q) -> bool { a.len() <= b.len() && a =~= b.take(a.len() as int) }
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "RuleChange"
kind = "enum"
@*/
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "RuleTree"
kind = "struct"
[[rewrite]]
from = "AHashMap<PathSegment<'static>, RuleTree>"
to = "VpMap<PathSegment, RuleTree>"
[[rewrite]]
from = "rule_changes: Vec"
to = "pub rule_changes: Vec"
optional = true
[[rewrite]]
from = "children:"
to = "pub children:"
optional = true
@*/
// ---- what the tree says --------------------------------------------------------------------------
pub open spec fn node_at(t: RuleTree, q: Q) -> Option<RuleTree>
    decreases q.len(),
{
    if q.len() == 0 { Some(t) }
    else if t.children@.contains_key(q[0]) { node_at(t.children@[q[0]], q.skip(1)) }
    else { None }
}
pub open spec fn hasc(t: RuleTree, q: Q, c: RuleChange) -> bool {
    node_at(t, q) is Some && node_at(t, q)->0.rule_changes@.contains(c)
}
pub open spec fn covered(t: RuleTree, c: RuleChange, p: Q) -> bool {
    exists|q: Q| prefix(q, p) && #[trigger] hasc(t, q, c)
}
pub open spec fn nodup(t: RuleTree) -> bool {
    forall|q: Q| (#[trigger] node_at(t, q)) is Some ==> node_at(t, q)->0.rule_changes@.no_duplicates()
}
pub open spec fn antichain(t: RuleTree) -> bool {
    forall|a: Q, b: Q, c: RuleChange| #[trigger] hasc(t, a, c) && #[trigger] hasc(t, b, c) && prefix(a, b) ==> a == b
}
pub open spec fn wf_tree(t: RuleTree) -> bool { nodup(t) && antichain(t) }
