// ---- visiting an event: which tree nodes are active at a path --------------------------------
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ActiveRuleTree"
kind = "struct"
[[rewrite]]
from = "rule_tree: &'a RuleTree"
to = "pub rule_tree: &'a RuleTree"
[[rewrite]]
from = "index_wildcard_match: bool"
to = "pub index_wildcard_match: bool"
@*/
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "NodeCounter"
kind = "struct"
[[rewrite]]
from = "active_tree_count: usize"
to = "pub active_tree_count: usize"
[[rewrite]]
from = "true_positive_rules_count: usize"
to = "pub true_positive_rules_count: usize"
@*/
/*@extract
file = "sds/src/scoped_ruleset/bool_set.rs"
item = "BoolSet"
kind = "struct"
[[rewrite]]
from = "rule_used: Vec<bool>"
to = "pub rule_used: Vec<bool>"
@*/
#[verifier::external_body]
fn vp_fill(v: &mut Vec<bool>, x: bool) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> #[trigger] final(v)@[i] == x { unimplemented!() }
#[verifier::external_body]
fn vp_vec_of(x: bool, n: usize) -> (r: Vec<bool>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
impl BoolSet {
/*@extract
file = "sds/src/scoped_ruleset/bool_set.rs"
item = "BoolSet::new"
ret = "r"
contract = "ensures r.rule_used@.len() == num_rules, forall|i: int| 0 <= i < num_rules ==> !#[trigger] r.rule_used@[i],"
[[rewrite]]
from = "vec![false; num_rules]"
to = "vp_vec_of(false, num_rules)"
@*/
/*@extract
file = "sds/src/scoped_ruleset/bool_set.rs"
item = "BoolSet::get_and_set"
ret = "r"
contract = '''
    requires index < old(self).rule_used@.len(),
    ensures r == old(self).rule_used@[index as int], final(self).rule_used@ == old(self).rule_used@.update(index as int, true),
'''
@*/
/*@extract
file = "sds/src/scoped_ruleset/bool_set.rs"
item = "BoolSet::reset"
contract = "ensures final(self).rule_used@.len() == old(self).rule_used@.len(), forall|i: int| 0 <= i < final(self).rule_used@.len() ==> !#[trigger] final(self).rule_used@[i],"
[[rewrite]]
from = "self.rule_used.fill(false)"
to = "vp_fill(&mut self.rule_used, false)"
@*/
}
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ScopedRuledSetEventVisitor"
kind = "struct"
[[rewrite]]
from = "content_visitor: C"
to = "pub content_visitor: C"
[[rewrite]]
from = "tree_nodes: Vec<ActiveRuleTree<'a>>"
to = "pub tree_nodes: Vec<ActiveRuleTree<'a>>"
[[rewrite]]
from = "true_positive_rule_idx: Vec<usize>"
to = "pub true_positive_rule_idx: Vec<usize>"
[[rewrite]]
from = "sanitized_segments_until_node: Vec<Option<Cow<'a, str>>>"
to = "pub sanitized_segments_until_node: Vec<Option<VpStr>>"
[[rewrite]]
from = "active_node_counter: Vec<NodeCounter>"
to = "pub active_node_counter: Vec<NodeCounter>"
[[rewrite]]
from = "path: Path<'a>"
to = "pub path: Path"
[[rewrite]]
from = "bool_set: Option<BoolSet>"
to = "pub bool_set: Option<BoolSet>"
[[rewrite]]
from = "add_implicit_index_wildcards: bool"
to = "pub add_implicit_index_wildcards: bool"
@*/
pub type N = (RuleTree, bool);
pub open spec fn nv<'a>(s: Seq<ActiveRuleTree<'a>>) -> Seq<N> { Seq::new(s.len(), |i: int| (*s[i].rule_tree, s[i].index_wildcard_match)) }
// what one active node contributes to the next level
pub open spec fn step(n: N, seg: PathSegment, w: bool) -> Seq<N> {
    (if (!n.1 || !seg_is_index(seg)) && n.0.children@.contains_key(seg) { seq![(n.0.children@[seg], false)] } else { seq![] })
    + (if w && seg_is_index(seg) { seq![(n.0, true)] } else { seq![] })
}
pub open spec fn flat(s: Seq<N>, seg: PathSegment, w: bool) -> Seq<N>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { flat(s.drop_last(), seg, w) + step(s.last(), seg, w) } }
pub open spec fn lvl(t: RuleTree, w: bool, p: Q) -> Seq<N>
    decreases p.len(),
{ if p.len() == 0 { seq![(t, false)] } else { flat(lvl(t, w, p.drop_last()), p.last(), w) } }
pub open spec fn all_lvls(t: RuleTree, w: bool, p: Q) -> Seq<N>
    decreases p.len(),
{ if p.len() == 0 { lvl(t, w, p) } else { all_lvls(t, w, p.drop_last()) + lvl(t, w, p) } }
pub open spec fn vinv<'a, C>(v: ScopedRuledSetEventVisitor<'a, C>, t: RuleTree) -> bool {
    let p = v.path.segments@;
    let w = v.add_implicit_index_wildcards;
    &&& nv(v.tree_nodes@) == all_lvls(t, w, p)
    &&& v.active_node_counter@.len() == p.len() + 1
    &&& forall|k: int| 0 <= k <= p.len() ==> (#[trigger] v.active_node_counter@[k]).active_tree_count == lvl(t, w, p.take(k)).len() && v.active_node_counter@[k].true_positive_rules_count == 0
    &&& v.true_positive_rule_idx@.len() == 0
}
proof fn lemma_all_split(t: RuleTree, w: bool, p: Q)
    ensures
        all_lvls(t, w, p).len() >= lvl(t, w, p).len(),
        all_lvls(t, w, p).subrange(all_lvls(t, w, p).len() - lvl(t, w, p).len(), all_lvls(t, w, p).len() as int) == lvl(t, w, p),
{
    if p.len() > 0 {
        let a = all_lvls(t, w, p.drop_last());
        let l = lvl(t, w, p);
        assert((a + l).subrange(a.len() as int, (a + l).len() as int) =~= l);
    } else { let l = lvl(t, w, p); assert(l.subrange(0, l.len() as int) =~= l); }
}
impl<'path, C> ScopedRuledSetEventVisitor<'path, C> {
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ScopedRuledSetEventVisitor::push_segment"
nloops = 2
contract = '''
    requires exists|t: RuleTree| vinv(*old(self), t),
    ensures
        final(self).path.segments@ == old(self).path.segments@.push(segment),
        final(self).add_implicit_index_wildcards == old(self).add_implicit_index_wildcards,
        final(self).bool_set == old(self).bool_set, final(self).content_visitor == old(self).content_visitor,
        forall|t: RuleTree| vinv(*old(self), t) ==> vinv(*final(self), t),
'''
start = '''
let ghost v0 = *self;
let ghost t = choose|t: RuleTree| vinv(v0, t);
let ghost w = self.add_implicit_index_wildcards;
let ghost p = self.path.segments@;
let ghost L = lvl(t, w, p);
let ghost nv0 = nv(self.tree_nodes@);
proof { lemma_all_split(t, w, p); assert(p.take(p.len() as int) =~= p); assert(v0.active_node_counter@[p.len() as int].active_tree_count == L.len()); }
'''
[[rewrite]]
from = "PathSegment<'path>"
to = "PathSegment"
[[rewrite]]
from = "let active_trees_range = $a..$b;"
to = "let vp_a = $a; let vp_b = $b;"
[[rewrite]]
from = "for tree_index in active_trees_range"
to = "for tree_index in vp_a..vp_b"
[[rewrite]]
from = "if false $b else { 0 }"
to = "0"
[[loop]]
n = 0
kind = "for"
before = "proof { assert(L.take(0) =~= Seq::<N>::empty()); assert(nv(self.tree_nodes@) =~= nv0 + flat(L.take(0), segment, w)); }"
spec = '''
    invariant
        vp_a == nv0.len() - L.len(), vp_b == nv0.len(), L.len() <= nv0.len(),
        nv0.subrange(nv0.len() - L.len(), nv0.len() as int) == L,
        w == self.add_implicit_index_wildcards,
        self.path == v0.path, self.active_node_counter == v0.active_node_counter, self.content_visitor == v0.content_visitor, self.bool_set == v0.bool_set,
        self.add_implicit_index_wildcards == v0.add_implicit_index_wildcards,
        self.sanitized_segments_until_node == v0.sanitized_segments_until_node, self.true_positive_rule_idx == v0.true_positive_rule_idx,
        self.tree_nodes@.len() >= nv0.len(),
        nv(self.tree_nodes@) == nv0 + flat(L.take(tree_index - vp_a), segment, w),
'''
start = '''
let ghost k = tree_index - vp_a;
let ghost s0 = self.tree_nodes@;
proof {
    assert(nv(s0)[tree_index as int] == nv0[tree_index as int]);
    assert(L[k] == nv0[tree_index as int]);
    assert(L.take(k + 1).drop_last() =~= L.take(k));
    assert(L.take(k + 1).last() == L[k]);
}
'''
end = '''
proof {
    assert(nv(self.tree_nodes@) =~= nv(s0) + step(L[k], segment, w));
    assert(nv(self.tree_nodes@) =~= nv0 + flat(L.take(k + 1), segment, w));
}
'''
after = '''
proof {
    assert(L.take(L.len() as int) =~= L);
    assert(self.tree_nodes@.len() == nv0.len() + flat(L, segment, w).len()) by { assert(nv(self.tree_nodes@).len() == self.tree_nodes@.len()); }
    assert(v0.tree_nodes@.len() == nv0.len());
}
'''
[[after]]
pattern = "self.path.segments.push(segment);"
text = '''
proof {
    let p1 = self.path.segments@;
    assert(p1.drop_last() =~= p);
    assert(p1.last() == segment);
    assert(lvl(t, w, p1) == flat(L, segment, w));
    assert forall|u: RuleTree| vinv(v0, u) implies vinv(*self, u) by {
        lemma_all_split(u, w, p);
        assert(lvl(u, w, p).len() == L.len()) by { assert(v0.active_node_counter@[p.len() as int].active_tree_count == lvl(u, w, p.take(p.len() as int)).len()); }
        assert(lvl(u, w, p) == L);
        assert(lvl(u, w, p1) == flat(L, segment, w));
        assert forall|k: int| 0 <= k <= p1.len() implies (#[trigger] self.active_node_counter@[k]).active_tree_count == lvl(u, w, p1.take(k)).len() && self.active_node_counter@[k].true_positive_rules_count == 0 by {
            if k <= p.len() { assert(p1.take(k) =~= p.take(k)); assert(self.active_node_counter@[k] == v0.active_node_counter@[k]); }
            else { assert(p1.take(k) =~= p1); }
        }
    }
}
'''
@*/
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ScopedRuledSetEventVisitor::pop_segment"
contract = '''
    requires old(self).path.segments@.len() > 0, exists|t: RuleTree| vinv(*old(self), t),
    ensures
        final(self).path.segments@ == old(self).path.segments@.drop_last(),
        final(self).add_implicit_index_wildcards == old(self).add_implicit_index_wildcards,
        final(self).bool_set == old(self).bool_set, final(self).content_visitor == old(self).content_visitor,
        forall|t: RuleTree| vinv(*old(self), t) ==> vinv(*final(self), t),
'''
start = '''
let ghost v0 = *self;
let ghost t = choose|t: RuleTree| vinv(v0, t);
let ghost w = self.add_implicit_index_wildcards;
let ghost p = self.path.segments@;
proof { lemma_all_split(t, w, p); assert(p.take(p.len() as int) =~= p); assert(v0.active_node_counter@[p.len() as int].active_tree_count == lvl(t, w, p).len()); assert(nv(v0.tree_nodes@).len() == v0.tree_nodes@.len()); }
'''
end = '''
proof {
    let p1 = self.path.segments@;
    assert(p1 =~= p.drop_last());
    assert forall|u: RuleTree| vinv(v0, u) implies vinv(*self, u) by {
        lemma_all_split(u, w, p);
        assert(v0.active_node_counter@[p.len() as int].active_tree_count == lvl(u, w, p.take(p.len() as int)).len());
        let m = lvl(u, w, p).len() as int;
        let n = v0.tree_nodes@.len() as int;
        assert(all_lvls(u, w, p) == all_lvls(u, w, p1) + lvl(u, w, p));
        assert(node_counter.active_tree_count == m);
        assert(n == all_lvls(u, w, p).len());
        assert(self.tree_nodes@ =~= v0.tree_nodes@.take(n - m));
        assert forall|i: int| 0 <= i < n - m implies nv(self.tree_nodes@)[i] == all_lvls(u, w, p1)[i] by { assert(nv(v0.tree_nodes@)[i] == all_lvls(u, w, p)[i]); }
        assert(nv(self.tree_nodes@) =~= all_lvls(u, w, p1));
        assert forall|k: int| 0 <= k <= p1.len() implies (#[trigger] self.active_node_counter@[k]).active_tree_count == lvl(u, w, p1.take(k)).len() && self.active_node_counter@[k].true_positive_rules_count == 0 by {
            assert(p1.take(k) =~= p.take(k)); assert(self.active_node_counter@[k] == v0.active_node_counter@[k]);
        }
    }
}
'''
[[rewrite]]
from = "for _ in 0..node_counter.active_tree_count"
to = "for vp_i in 0..node_counter.active_tree_count"
[[rewrite]]
from = "for _ in 0..node_counter.true_positive_rules_count"
to = "for vp_i in 0..node_counter.true_positive_rules_count"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant
        node_counter.active_tree_count <= v0.tree_nodes@.len(),
        self.path == v0.path, self.content_visitor == v0.content_visitor, self.bool_set == v0.bool_set, self.active_node_counter@ == v0.active_node_counter@.drop_last(),
        self.add_implicit_index_wildcards == v0.add_implicit_index_wildcards,
        self.sanitized_segments_until_node == v0.sanitized_segments_until_node, self.true_positive_rule_idx == v0.true_positive_rule_idx,
        self.tree_nodes@ =~= v0.tree_nodes@.take(v0.tree_nodes@.len() - vp_i),
'''
[[loop]]
n = 1
dead = true
kind = "for"
spec = '''
    invariant
        node_counter.true_positive_rules_count == 0,
        self.path == v0.path, self.content_visitor == v0.content_visitor, self.bool_set == v0.bool_set, self.active_node_counter@ == v0.active_node_counter@.drop_last(),
        self.add_implicit_index_wildcards == v0.add_implicit_index_wildcards,
        self.sanitized_segments_until_node == v0.sanitized_segments_until_node, self.true_positive_rule_idx == v0.true_positive_rule_idx,
        self.tree_nodes@ =~= v0.tree_nodes@.take(v0.tree_nodes@.len() - node_counter.active_tree_count),
'''
@*/
}
// ---- asking which rules apply ---------------------------------------------------------------
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ExclusionCheck"
kind = "struct"
[[rewrite]]
from = "tree_nodes:"
to = "pub tree_nodes:"
@*/
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "RuleIndexVisitor"
kind = "struct"
[[rewrite]]
from = "tree_nodes:"
to = "pub tree_nodes:"
[[rewrite]]
from = "used_rule_set:"
to = "pub used_rule_set:"
@*/
pub open spec fn removed_in(s: Seq<N>, r: usize) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.rule_changes@.contains(RuleChange::Remove(r)) }
pub open spec fn added_in(s: Seq<N>, r: usize) -> bool { exists|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).1 && s[i].0.rule_changes@.contains(RuleChange::Add(r)) }
// the Add changes of a node, in order
pub open spec fn node_adds(s: Seq<RuleChange>) -> Seq<usize>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if s.last() is Add { node_adds(s.drop_last()).push(s.last()->Add_0) } else { node_adds(s.drop_last()) } }
pub open spec fn adds(s: Seq<N>) -> Seq<usize>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if s.last().1 { adds(s.drop_last()) } else { adds(s.drop_last()) + node_adds(s.last().0.rule_changes@) } }
impl<'a> ExclusionCheck<'a> {
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ExclusionCheck::is_excluded"
ret = "r"
contract = "ensures r == removed_in(nv(self.tree_nodes@), rule_index),"
start = "let ghost nodes = nv(self.tree_nodes@);"
[[rewrite]]
from = "for include_node in self.tree_nodes"
to = "for vp_i in 0..self.tree_nodes.len()"
[[rewrite]]
from = "for change in &include_node.rule_tree.rule_changes"
to = "for vp_j in 0..include_node.rule_tree.rule_changes.len()"
[[loop]]
n = 0
kind = "for"
spec = "invariant nodes == nv(self.tree_nodes@), forall|i: int| 0 <= i < vp_i ==> !(#[trigger] nodes[i]).0.rule_changes@.contains(RuleChange::Remove(rule_index)),"
start = "let include_node = &self.tree_nodes[vp_i]; proof { assert(nodes[vp_i as int].0 == *include_node.rule_tree); }"
[[loop]]
n = 1
kind = "for"
spec = '''
    invariant
        nodes == nv(self.tree_nodes@), vp_i < self.tree_nodes@.len(), *include_node == self.tree_nodes@[vp_i as int],
        forall|j: int| 0 <= j < vp_j ==> (#[trigger] include_node.rule_tree.rule_changes@[j]) != RuleChange::Remove(rule_index),
'''
start = '''
let change = &include_node.rule_tree.rule_changes[vp_j];
proof { if *change == RuleChange::Remove(rule_index) { assert(nodes[vp_i as int].0.rule_changes@[vp_j as int] == RuleChange::Remove(rule_index)); } }
'''
@*/
}
proof fn lemma_node_adds(s: Seq<RuleChange>, r: usize)
    ensures node_adds(s).contains(r) <==> s.contains(RuleChange::Add(r)), s.no_duplicates() ==> node_adds(s).no_duplicates(),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_node_adds(d, r);
        let a = node_adds(d);
        assert(s.contains(RuleChange::Add(r)) <==> d.contains(RuleChange::Add(r)) || s.last() == RuleChange::Add(r)) by {
            if s.contains(RuleChange::Add(r)) { let i = s.index_of(RuleChange::Add(r)); if i < d.len() { assert(d[i] == s[i]); } }
            if d.contains(RuleChange::Add(r)) { let i = d.index_of(RuleChange::Add(r)); assert(s[i] == d[i]); }
            assert(s[s.len() - 1] == s.last());
        }
        if s.last() is Add {
            let x = s.last()->Add_0;
            lemma_push_contains(a, x, r);
            if s.no_duplicates() {
                lemma_node_adds(d, x);
                assert(d.no_duplicates());
                assert(!d.contains(RuleChange::Add(x))) by { if d.contains(RuleChange::Add(x)) { let i = d.index_of(RuleChange::Add(x)); assert(s[i] == s[s.len() - 1]); } }
                assert forall|i: int, j: int| 0 <= i < j < a.len() + 1 implies a.push(x)[i] != a.push(x)[j] by { if j == a.len() { assert(a.contains(a[i])); } }
            }
        } else if s.no_duplicates() { assert(d.no_duplicates()); }
    }
}
proof fn lemma_push_contains<T>(a: Seq<T>, x: T, r: T)
    ensures a.push(x).contains(r) <==> a.contains(r) || x == r,
{
    if a.push(x).contains(r) { let i = a.push(x).index_of(r); if i < a.len() { assert(a[i] == r); } }
    if a.contains(r) { let i = a.index_of(r); assert(a.push(x)[i] == r); }
    assert(a.push(x)[a.len() as int] == x);
}
proof fn lemma_plus_contains<T>(a: Seq<T>, b: Seq<T>, r: T)
    ensures (a + b).contains(r) <==> a.contains(r) || b.contains(r),
{
    if (a + b).contains(r) { let i = (a + b).index_of(r); if i < a.len() { assert(a[i] == r); } else { assert(b[i - a.len()] == r); } }
    if a.contains(r) { let i = a.index_of(r); assert((a + b)[i] == r); }
    if b.contains(r) { let i = b.index_of(r); assert((a + b)[a.len() + i] == r); }
}
proof fn lemma_adds(s: Seq<N>, r: usize)
    ensures adds(s).contains(r) <==> added_in(s, r),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_adds(d, r);
        lemma_node_adds(s.last().0.rule_changes@, r);
        lemma_plus_contains(adds(d), node_adds(s.last().0.rule_changes@), r);
        if added_in(d, r) { let i = choose|i: int| 0 <= i < d.len() && !(#[trigger] d[i]).1 && d[i].0.rule_changes@.contains(RuleChange::Add(r)); assert(s[i] == d[i]); }
        if added_in(s, r) {
            let i = choose|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).1 && s[i].0.rule_changes@.contains(RuleChange::Add(r));
            if i < d.len() { assert(d[i] == s[i]); }
        }
        if !s.last().1 && s.last().0.rule_changes@.contains(RuleChange::Add(r)) { assert(s[s.len() - 1] == s.last()); }
    }
}
pub open spec fn set_fits(s: Seq<N>, n: int) -> bool { forall|r: usize| #[trigger] added_in(s, r) ==> r < n }
impl<'a> RuleIndexVisitor<'a> {
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "RuleIndexVisitor::visit_rule_indices"
contract = '''
    requires
        old(visit)@.len() == 0,
        old(self).used_rule_set is Some ==> {
            let u = (*old(self).used_rule_set->0).rule_used@;
            set_fits(nv(old(self).tree_nodes@), u.len() as int) && forall|i: int| 0 <= i < u.len() ==> !#[trigger] u[i]
        },
    ensures
        forall|r: usize| #[trigger] final(visit)@.contains(r) <==> added_in(nv(old(self).tree_nodes@), r),
        old(self).used_rule_set is None ==> final(visit)@ == adds(nv(old(self).tree_nodes@)),
        old(self).used_rule_set is Some ==> final(visit)@.no_duplicates(),
'''
start = "let ghost nodes = nv(self.tree_nodes@); let ghost nodup = self.used_rule_set is Some; let ghost rs0 = self.tree_nodes; let ghost ulen = if nodup { (*self.used_rule_set->0).rule_used@.len() as int } else { 0 };"
end = '''
proof {
    assert(nodes.take(nodes.len() as int) =~= nodes);
    assert forall|r: usize| #[trigger] visit@.contains(r) <==> added_in(nodes, r) by { lemma_adds(nodes, r); }
}
'''
[[rewrite]]
from = "mut visit: impl FnMut(usize)"
to = "visit: &mut Vec<usize>"
[[rewrite]]
from = "(visit)(*rule_index)"
to = "visit.push(*rule_index)"
all = true
[[rewrite]]
from = "for include_node in self.tree_nodes"
to = "while vp_i0 < vp_n"
[[rewrite]]
from = "for change in &include_node.rule_tree.rule_changes"
to = "for vp_j in 0..include_node.rule_tree.rule_changes.len()"
[[loop]]
n = 0
kind = "for"
before = "let mut vp_i0: usize = 0; let vp_n = self.tree_nodes.len(); proof { assert(nodes.take(0) =~= Seq::<N>::empty()); }"
spec = '''
    invariant
        vp_i0 <= vp_n == rs0@.len(),
        self.tree_nodes == rs0, nodes == nv(rs0@), nodup == (self.used_rule_set is Some),
        nodup ==> (*self.used_rule_set->0).rule_used@.len() == ulen && set_fits(nodes, ulen),
        nodup ==> forall|r: usize| r < ulen ==> (#[trigger] (*self.used_rule_set->0).rule_used@[r as int] <==> visit@.contains(r)),
        nodup ==> visit@.no_duplicates(),
        forall|r: usize| #[trigger] visit@.contains(r) <==> adds(nodes.take(vp_i0 as int)).contains(r),
        !nodup ==> visit@ == adds(nodes.take(vp_i0 as int)),
    decreases vp_n - vp_i0,
'''
start = '''
let vp_i = vp_i0;
vp_i0 = vp_i0 + 1;
let include_node = &self.tree_nodes[vp_i];
let ghost ch = include_node.rule_tree.rule_changes@;
let ghost base = adds(nodes.take(vp_i as int));
proof {
    assert(nodes[vp_i as int] == (*include_node.rule_tree, include_node.index_wildcard_match));
    assert(nodes.take(vp_i + 1).drop_last() =~= nodes.take(vp_i as int));
    assert(nodes.take(vp_i + 1).last() == nodes[vp_i as int]);
    assert(ch.take(0) =~= Seq::<RuleChange>::empty());
    assert(base + node_adds(ch.take(0)) =~= base);
}
'''
end = "proof { assert(ch.take(ch.len() as int) =~= ch); assert(base + node_adds(ch) == adds(nodes.take(vp_i + 1))); }"
[[loop]]
n = 1
kind = "for"
spec = '''
    invariant
        self.tree_nodes == rs0, nodes == nv(rs0@), nodup == (self.used_rule_set is Some),
        vp_i < nodes.len(), ch == include_node.rule_tree.rule_changes@, nodes[vp_i as int].0.rule_changes@ == ch, !nodes[vp_i as int].1,
        nodup ==> (*self.used_rule_set->0).rule_used@.len() == ulen && set_fits(nodes, ulen),
        nodup ==> forall|r: usize| r < ulen ==> (#[trigger] (*self.used_rule_set->0).rule_used@[r as int] <==> visit@.contains(r)),
        nodup ==> visit@.no_duplicates(),
        forall|r: usize| #[trigger] visit@.contains(r) <==> (base + node_adds(ch.take(vp_j as int))).contains(r),
        !nodup ==> visit@ == base + node_adds(ch.take(vp_j as int)),
'''
start = '''
proof { }
let change = &include_node.rule_tree.rule_changes[vp_j];
let ghost seen0 = visit@;
proof {
    let c0 = ch.take(vp_j as int);
    assert(ch.take(vp_j + 1).drop_last() =~= c0);
    assert(ch.take(vp_j + 1).last() == ch[vp_j as int]);
    if ch[vp_j as int] is Add {
        let x = ch[vp_j as int]->Add_0;
        assert(base + node_adds(c0).push(x) =~= (base + node_adds(c0)).push(x));
        assert(nodes[vp_i as int].0.rule_changes@.contains(ch[vp_j as int]));
        assert(added_in(nodes, x));
        assert forall|r: usize| (base + node_adds(ch.take(vp_j + 1))).contains(r) <==> (base + node_adds(c0)).contains(r) || r == x by { lemma_push_contains(base + node_adds(c0), x, r); }
        assert forall|r: usize| #[trigger] seen0.push(x).contains(r) <==> seen0.contains(r) || r == x by { lemma_push_contains(seen0, x, r); }
    }
}
'''
@*/
}
