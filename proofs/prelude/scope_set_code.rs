// ---- ScopedRuleSet::new: the tree represents exactly the configured scopes ------------------
/*@extract
file = "sds/src/scanner/scope.rs"
item = "Scope"
kind = "enum"
[[rewrite]]
from = "Path<'static>"
to = "Path"
all = true
@*/
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ScopedRuleSet"
kind = "struct"
[[rewrite]]
from = "tree: RuleTree"
to = "pub tree: RuleTree"
[[rewrite]]
from = "num_rules: usize"
to = "pub num_rules: usize"
[[rewrite]]
from = "add_implicit_index_wildcards: bool"
to = "pub add_implicit_index_wildcards: bool"
[[rewrite]]
from = "should_keywords_match_event_paths: bool"
to = "pub should_keywords_match_event_paths: bool"
@*/
pub open spec fn listed(v: Seq<Path>, n: int, q: Q) -> bool { exists|i: int| 0 <= i < n && (#[trigger] v[i]).segments@ == q }
// the paths a scope names for inclusion (add) / exclusion (!add)
pub open spec fn want(s: Scope, add: bool, q: Q) -> bool {
    match s {
        Scope::Include { include, exclude } => if add { listed(include@, include@.len() as int, q) } else { listed(exclude@, exclude@.len() as int, q) },
        Scope::Exclude(paths) => if add { q == Seq::<PathSegment>::empty() } else { listed(paths@, paths@.len() as int, q) },
    }
}
pub open spec fn is_add(c: RuleChange) -> bool { c is Add }
pub open spec fn rule_of(c: RuleChange) -> int { match c { RuleChange::Add(i) => i as int, RuleChange::Remove(i) => i as int } }
pub open spec fn named(scopes: Seq<Scope>, n: int, q: Q, c: RuleChange) -> bool { 0 <= rule_of(c) < n && want(scopes[rule_of(c)], is_add(c), q) }
pub open spec fn repr(t: RuleTree, ins: spec_fn(Q, RuleChange) -> bool) -> bool {
    &&& wf_tree(t)
    &&& forall|q: Q, c: RuleChange| #[trigger] hasc(t, q, c) ==> ins(q, c)
    &&& forall|q: Q, c: RuleChange| #[trigger] ins(q, c) ==> covered(t, c, q)
}
pub proof fn lemma_prefix_trans(a: Q, b: Q, c: Q)
    requires prefix(a, b), prefix(b, c),
    ensures prefix(a, c),
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == c.take(a.len() as int)[i] by {
        assert(a[i] == b.take(a.len() as int)[i]);
        assert(b[i] == c.take(b.len() as int)[i]);
    }
    assert(a =~= c.take(a.len() as int));
}
pub proof fn lemma_prefix_eq(a: Q, b: Q)
    requires prefix(a, b), prefix(b, a),
    ensures a == b,
{ assert(a =~= b.take(a.len() as int)); assert(b.take(b.len() as int) =~= b); }
pub proof fn lemma_insert(t0: RuleTree, t1: RuleTree, path: Q, change: RuleChange, ins0: spec_fn(Q, RuleChange) -> bool, ins1: spec_fn(Q, RuleChange) -> bool)
    requires
        repr(t0, ins0), inserted(t0, t1, path, change),
        forall|q: Q, c: RuleChange| #[trigger] ins1(q, c) <==> ins0(q, c) || (q == path && c == change),
    ensures repr(t1, ins1),
{
    assert(forall|q: Q| prefix(q, q)) by { assert forall|q: Q| prefix(q, q) by { assert(q.take(q.len() as int) =~= q); } }
    assert forall|a: Q, b: Q, c: RuleChange| #[trigger] hasc(t1, a, c) && #[trigger] hasc(t1, b, c) && prefix(a, b) implies a == b by {
        if c == change && !covered(t0, change, path) {
            if b == path && a != path { assert(hasc(t0, a, c)); assert(covered(t0, change, path)); }
        } else { assert(hasc(t0, a, c) && hasc(t0, b, c)); }
    }
    assert forall|q: Q, c: RuleChange| #[trigger] hasc(t1, q, c) implies ins1(q, c) by { if q == path && c == change { } else { assert(hasc(t0, q, c)); } }
    assert forall|q: Q, c: RuleChange| #[trigger] ins1(q, c) implies covered(t1, c, q) by {
        let fresh = c == change && !covered(t0, change, path);
        if ins0(q, c) {
            assert(covered(t0, c, q));
            let z = choose|z: Q| prefix(z, q) && #[trigger] hasc(t0, z, c);
            if fresh && prefix(path, z) { lemma_prefix_trans(path, z, q); assert(hasc(t1, path, c)); } else { assert(hasc(t1, z, c)); }
        } else {
            if fresh { assert(hasc(t1, path, c)); }
            else { let z = choose|z: Q| prefix(z, q) && #[trigger] hasc(t0, z, c); assert(covered(t0, c, q)); assert(hasc(t1, z, c)); }
        }
    }
}
// bookkeeping for the loops of `new`: everything of earlier rules plus part of rule r
pub open spec fn part(scopes: Seq<Scope>, r: int, adds: spec_fn(Q) -> bool, rems: spec_fn(Q) -> bool) -> spec_fn(Q, RuleChange) -> bool {
    |q: Q, c: RuleChange| named(scopes, r, q, c) || (rule_of(c) == r && (if is_add(c) { adds(q) } else { rems(q) }))
}
pub open spec fn listed_fn(v: Seq<Path>, n: int) -> spec_fn(Q) -> bool { |q: Q| listed(v, n, q) }
pub open spec fn none_fn() -> spec_fn(Q) -> bool { |q: Q| false }
pub open spec fn root_fn() -> spec_fn(Q) -> bool { |q: Q| q == Seq::<PathSegment>::empty() }
pub open spec fn named_fn(scopes: Seq<Scope>, r: int) -> spec_fn(Q, RuleChange) -> bool { |q: Q, c: RuleChange| named(scopes, r, q, c) }
pub proof fn lemma_listed_step(v: Seq<Path>, n: int)
    requires 0 <= n < v.len(),
    ensures forall|q: Q| #[trigger] listed(v, n + 1, q) <==> listed(v, n, q) || q == v[n].segments@,
{
    assert forall|q: Q| #[trigger] listed(v, n + 1, q) <==> listed(v, n, q) || q == v[n].segments@ by {
        if listed(v, n, q) { let i = choose|i: int| 0 <= i < n && (#[trigger] v[i]).segments@ == q; assert(v[i].segments@ == q); }
        if q == v[n].segments@ { assert(v[n].segments@ == q); }
    }
}
pub proof fn lemma_same(t: RuleTree, f: spec_fn(Q, RuleChange) -> bool, g: spec_fn(Q, RuleChange) -> bool)
    requires repr(t, f), forall|q: Q, c: RuleChange| #[trigger] f(q, c) == g(q, c),
    ensures repr(t, g),
{
    assert forall|q: Q, c: RuleChange| #[trigger] hasc(t, q, c) implies g(q, c) by { assert(f(q, c) == g(q, c)); }
    assert forall|q: Q, c: RuleChange| #[trigger] g(q, c) implies covered(t, c, q) by { assert(f(q, c) == g(q, c)); }
}
impl ScopedRuleSet {
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "ScopedRuleSet::new"
ret = "r"
contract = '''
    requires rules_scopes@.len() <= usize::MAX,
    ensures
        repr(r.tree, named_fn(rules_scopes@, rules_scopes@.len() as int)),
        r.num_rules == rules_scopes@.len(), !r.add_implicit_index_wildcards, !r.should_keywords_match_event_paths,
'''
start = "let ghost scopes = rules_scopes@;"
[[rewrite]]
from = "for (rule_index, scope) in rules_scopes.iter().enumerate()"
to = "for rule_index in 0..rules_scopes.len()"
[[rewrite]]
from = "for path in exclude"
to = "for vp_j in 0..exclude.len()"
[[rewrite]]
from = "for path in include"
to = "for vp_j in 0..include.len()"
[[rewrite]]
from = "for path in paths"
to = "for vp_j in 0..paths.len()"
[[loop]]
n = 0
kind = "for"
before = '''
proof {
    lemma_new(tree);
    assert(repr(tree, named_fn(scopes, 0)));
}
'''
spec = '''
    invariant scopes == rules_scopes@, repr(tree, named_fn(scopes, rule_index as int)),
'''
start = '''
let scope = &rules_scopes[rule_index];
let ghost vp_r = rule_index as int;
'''
end = '''
proof {
    let done = match scope {
        Scope::Include { include, exclude } => part(scopes, vp_r, listed_fn(include@, include@.len() as int), listed_fn(exclude@, exclude@.len() as int)),
        Scope::Exclude(paths) => part(scopes, vp_r, root_fn(), listed_fn(paths@, paths@.len() as int)),
    };
    lemma_same(tree, done, named_fn(scopes, vp_r + 1));
}
'''
[[loop]]
n = 1
kind = "for"
before = "proof { lemma_same(tree, named_fn(scopes, vp_r), part(scopes, vp_r, none_fn(), listed_fn(exclude@, 0))); }"
spec = "invariant vp_r == rule_index, repr(tree, part(scopes, vp_r, none_fn(), listed_fn(exclude@, vp_j as int))),"
start = "let path = &exclude[vp_j]; let ghost vp_t0 = tree; proof { lemma_listed_step(exclude@, vp_j as int); }"
end = "proof { lemma_insert(vp_t0, tree, path.segments@, RuleChange::Remove(rule_index), part(scopes, vp_r, none_fn(), listed_fn(exclude@, vp_j as int)), part(scopes, vp_r, none_fn(), listed_fn(exclude@, vp_j + 1))); }"
[[loop]]
n = 2
kind = "for"
before = "proof { lemma_same(tree, part(scopes, vp_r, none_fn(), listed_fn(exclude@, exclude@.len() as int)), part(scopes, vp_r, listed_fn(include@, 0), listed_fn(exclude@, exclude@.len() as int))); }"
spec = "invariant vp_r == rule_index, repr(tree, part(scopes, vp_r, listed_fn(include@, vp_j as int), listed_fn(exclude@, exclude@.len() as int))),"
start = "let path = &include[vp_j]; let ghost vp_t0 = tree; proof { lemma_listed_step(include@, vp_j as int); }"
end = "proof { lemma_insert(vp_t0, tree, path.segments@, RuleChange::Add(rule_index), part(scopes, vp_r, listed_fn(include@, vp_j as int), listed_fn(exclude@, exclude@.len() as int)), part(scopes, vp_r, listed_fn(include@, vp_j + 1), listed_fn(exclude@, exclude@.len() as int))); }"
[[loop]]
n = 3
kind = "for"
before = '''
proof {
    lemma_insert(vp_t1, tree, Seq::<PathSegment>::empty(), RuleChange::Add(rule_index), named_fn(scopes, vp_r), part(scopes, vp_r, root_fn(), listed_fn(paths@, 0)));
}
'''
spec = "invariant vp_r == rule_index, repr(tree, part(scopes, vp_r, root_fn(), listed_fn(paths@, vp_j as int))),"
start = "let path = &paths[vp_j]; let ghost vp_t0 = tree; proof { lemma_listed_step(paths@, vp_j as int); }"
end = "proof { lemma_insert(vp_t0, tree, path.segments@, RuleChange::Remove(rule_index), part(scopes, vp_r, root_fn(), listed_fn(paths@, vp_j as int)), part(scopes, vp_r, root_fn(), listed_fn(paths@, vp_j + 1))); }"
[[before]]
pattern = "tree.insert_rule_add(&Path::root(), rule_index);"
text = "let ghost vp_t1 = tree;"
@*/
}
