// ---- the way in: which nodes a string of the event is presented with -----------------------------------
// one call of the content visitor: the path and text it was given, the nodes whose rules it may list, the nodes it
// checks for exclusion, whether each rule is listed once, and what it answered
pub struct Asked { pub path: Q, pub text: Seq<char>, pub nodes: Seq<N>, pub checked: Seq<N>, pub once: bool, pub hits: Seq<usize>, pub answer: bool }
pub open spec fn ready(b: BoolSet, s: Seq<N>) -> bool { set_fits(s, b.rule_used@.len() as int) && forall|i: int| 0 <= i < b.rule_used@.len() ==> !#[trigger] b.rule_used@[i] }
pub trait ContentVisitor: Sized {
    spec fn asked(&self) -> Seq<Asked>;
    fn visit_content(&mut self, path: &Path, content: &str, rules: RuleIndexVisitor, is_excluded: ExclusionCheck, true_positive_rule_idx: &Vec<usize>) -> (r: bool)
        requires rules.used_rule_set is Some ==> ready(*rules.used_rule_set->0, nv(rules.tree_nodes@)),
        ensures
            final(self).asked() == old(self).asked().push(Asked { path: path.segments@, text: content@, nodes: nv(rules.tree_nodes@), checked: nv(is_excluded.tree_nodes@), once: rules.used_rule_set is Some, hits: true_positive_rule_idx@, answer: r }),
            rules.used_rule_set is Some ==> (*final(rules.used_rule_set->0)).rule_used@.len() == (*rules.used_rule_set->0).rule_used@.len();
}
/*@extract
file = "sds/src/event.rs"
item = "VisitStringResult"
kind = "struct"
[[rewrite]]
from = "<'s, 'path>"
to = "<'s>"
[[rewrite]]
from = "Path<'path>"
to = "Path"
@*/
// a visitor of the tree t, between two events of the walk
pub open spec fn walking<'a, C>(v: ScopedRuledSetEventVisitor<'a, C>, t: RuleTree) -> bool {
    vinv(v, t) && (v.bool_set is Some <==> v.add_implicit_index_wildcards) && (v.bool_set is Some ==> forall|i: int| 0 <= i < v.bool_set->0.rule_used@.len() ==> !#[trigger] v.bool_set->0.rule_used@[i])
}
impl<'path, C: ContentVisitor> ScopedRuledSetEventVisitor<'path, C> {
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ScopedRuledSetEventVisitor::visit_string"
ret = "r"
contract = '''
    requires
        exists|t: RuleTree| walking(*old(self), t),
        old(self).bool_set is Some ==> set_fits(nv(old(self).tree_nodes@), old(self).bool_set->0.rule_used@.len() as int),
    ensures
        final(self).content_visitor.asked() == old(self).content_visitor.asked().push(Asked {
            path: old(self).path.segments@, text: value@, nodes: nv(old(self).tree_nodes@), checked: nv(old(self).tree_nodes@), once: old(self).add_implicit_index_wildcards, hits: seq![], answer: r.might_mutate }),
        r.path.segments@ == old(self).path.segments@,
        forall|t: RuleTree| walking(*old(self), t) ==> walking(*final(self), t),
        final(self).bool_set is Some ==> final(self).bool_set->0.rule_used@.len() == old(self).bool_set->0.rule_used@.len(),
        final(self).path == old(self).path, final(self).tree_nodes == old(self).tree_nodes,
        final(self).add_implicit_index_wildcards == old(self).add_implicit_index_wildcards,
'''
start = "proof { assert(self.true_positive_rule_idx@ =~= seq![]); }"
[[rewrite]]
from = "VisitStringResult<'s, 'path>"
to = "VisitStringResult<'s>"
@*/
}
// an event, as far as a walk over it is concerned: its strings and their paths (C17: presented one by one, with pushes and
// pops that lead to each of them, so that the contracts of push_segment, pop_segment and visit_string apply at each step)
pub open spec fn presented(s: Seq<(Q, Seq<char>)>, t: RuleTree, w: bool, a: Seq<Asked>) -> bool {
    a.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> {
        let x = #[trigger] a[k];
        x.path == s[k].0 && x.text == s[k].1 && x.nodes == all_lvls(t, w, s[k].0) && x.checked == x.nodes && x.once == w && x.hits.len() == 0
    }
}
pub trait Event: Sized {
    spec fn strings(&self) -> Seq<(Q, Seq<char>)>;
    fn visit_event<'a, C: ContentVisitor>(&mut self, visitor: &mut ScopedRuledSetEventVisitor<'a, C>)
        requires
            exists|t: RuleTree| walking(*old(visitor), t),
            old(visitor).path.segments@.len() == 0,
            old(visitor).bool_set is Some ==> forall|t: RuleTree, p: Q| walking(*old(visitor), t) ==> set_fits(#[trigger] all_lvls(t, old(visitor).add_implicit_index_wildcards, p), old(visitor).bool_set->0.rule_used@.len() as int),
        ensures
            forall|t: RuleTree| #[trigger] walking(*old(visitor), t) ==> exists|a: Seq<Asked>| final(visitor).content_visitor.asked() == old(visitor).content_visitor.asked() + a && #[trigger] presented(old(self).strings(), t, old(visitor).add_implicit_index_wildcards, a);
}
proof fn lemma_fits(t: RuleTree, scopes: Seq<Scope>, w: bool, p: Q)
    requires repr(t, named_fn(scopes, scopes.len() as int)),
    ensures set_fits(all_lvls(t, w, p), scopes.len() as int),
{
    let f = named_fn(scopes, scopes.len() as int);
    assert forall|r: usize| #[trigger] added_in(all_lvls(t, w, p), r) implies r < scopes.len() by {
        theorem_included(t, w, f, r, p);
        let q = choose|q: Q| #[trigger] f(q, RuleChange::Add(r)) && applies(w, q, p);
        assert(named(scopes, scopes.len() as int, q, RuleChange::Add(r)));
    }
}
impl ScopedRuleSet {
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ScopedRuleSet::with_implicit_index_wildcards"
contract = '''
    ensures r.add_implicit_index_wildcards == value, r.tree == old(self).tree, r.num_rules == old(self).num_rules, r.should_keywords_match_event_paths == old(self).should_keywords_match_event_paths,
'''
[[rewrite]]
from = "mut self"
to = "&mut self"
[[rewrite]]
from = "-> Self"
to = "-> (r: &mut Self)"
@*/
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ScopedRuleSet::with_keywords_should_match_event_paths"
contract = '''
    ensures r.should_keywords_match_event_paths == value, r.tree == old(self).tree, r.num_rules == old(self).num_rules, r.add_implicit_index_wildcards == old(self).add_implicit_index_wildcards,
'''
[[rewrite]]
from = "mut self"
to = "&mut self"
[[rewrite]]
from = "-> Self"
to = "-> (r: &mut Self)"
@*/
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ScopedRuleSet::visit_string_rule_combinations"
contract = '''
    requires exists|scopes: Seq<Scope>| #[trigger] scopes.len() == self.num_rules && repr(self.tree, named_fn(scopes, scopes.len() as int)),
    ensures exists|a: Seq<Asked>| final(vp_log)@ == content_visitor.asked() + a && #[trigger] presented(old(event).strings(), self.tree, self.add_implicit_index_wildcards, a),
'''
start = '''
let ghost scopes = choose|scopes: Seq<Scope>| #[trigger] scopes.len() == self.num_rules && repr(self.tree, named_fn(scopes, scopes.len() as int));
'''
[[rewrite]]
from = "<'path, 'c: 'path>"
to = "<C: ContentVisitor, E: Event>"
[[rewrite]]
from = "&'c self"
to = "&self"
[[rewrite]]
from = "event: &'path mut impl Event"
to = "event: &mut E"
[[rewrite]]
from = "content_visitor: impl ContentVisitor<'path>,"
to = "content_visitor: C, vp_log: &mut Ghost<Seq<Asked>>,"
[[rewrite]]
from = "event.visit_event(&mut visitor)"
to = '''proof {
            let p0 = Seq::<PathSegment>::empty();
            assert(p0.take(0) =~= p0);
            assert(nv(visitor.tree_nodes@) =~= all_lvls(self.tree, self.add_implicit_index_wildcards, p0));
            assert(visitor.path.segments@ =~= p0);
            assert(walking(visitor, self.tree));
            assert forall|t: RuleTree, p: Q| walking(visitor, t) implies set_fits(#[trigger] all_lvls(t, self.add_implicit_index_wildcards, p), self.num_rules as int) by {
                assert(all_lvls(t, self.add_implicit_index_wildcards, p0)[0] == (t, false));
                assert(all_lvls(self.tree, self.add_implicit_index_wildcards, p0)[0] == (self.tree, false));
                assert(t == self.tree);
                lemma_fits(t, scopes, self.add_implicit_index_wildcards, p);
            }
        }
        event.visit_event(&mut visitor);
        *vp_log = Ghost(visitor.content_visitor.asked());'''
@*/
}
