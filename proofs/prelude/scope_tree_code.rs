#[verifier::external_body]
pub fn vp_contains(v: &Vec<RuleChange>, x: &RuleChange) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
// Vec::retain
#[verifier::external_body]
pub fn vp_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>)
    requires forall|x: T, r: bool| #[trigger] call_ensures(f, (&x,), r) ==> r == p(x), forall|x: T| #[trigger] call_requires(f, (&x,)),
    ensures final(v)@ == old(v)@.filter(p),
{ unimplemented!() }
// [T]::split_first
#[verifier::external_body]
pub fn vp_split_first<T>(v: &[T]) -> (r: Option<(&T, &[T])>)
    ensures
        v@.len() == 0 ==> r is None,
        v@.len() > 0 ==> r is Some && *(r->0).0 == v@[0] && (r->0).1@ == v@.skip(1),
{ unimplemented!() }

pub proof fn lemma_has_cons(t: RuleTree, q: Q, c: RuleChange)
    requires q.len() > 0,
    ensures
        hasc(t, q, c) == (t.children@.contains_key(q[0]) && hasc(t.children@[q[0]], q.skip(1), c)),
        node_at(t, q) == (if t.children@.contains_key(q[0]) { node_at(t.children@[q[0]], q.skip(1)) } else { None }),
{ }
pub proof fn lemma_filter_contains<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures
        forall|x: T| #[trigger] s.filter(p).contains(x) <==> s.contains(x) && p(x),
        s.no_duplicates() ==> s.filter(p).no_duplicates(),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter_contains(d, p);
        assert(s =~= d.push(s.last()));
        assert forall|x: T| #[trigger] s.filter(p).contains(x) <==> s.contains(x) && p(x) by {
            if p(s.last()) {
                let f = d.filter(p);
                assert(s.filter(p) == f.push(s.last()));
                if f.push(s.last()).contains(x) {
                    let i = choose|i: int| 0 <= i < f.len() + 1 && f.push(s.last())[i] == x;
                    if i < f.len() { assert(f[i] == x); assert(f.contains(x)); assert(d.contains(x)); let j = d.index_of(x); assert(s[j] == x); }
                    else { assert(s[s.len() - 1] == x); }
                }
                if s.contains(x) && p(x) {
                    let i = s.index_of(x);
                    if i < d.len() { assert(d[i] == x); assert(f.contains(x)); let j = f.index_of(x); assert(f.push(s.last())[j] == x); }
                    else { assert(f.push(s.last())[f.len() as int] == x); }
                }
            } else {
                if s.contains(x) && p(x) { let i = s.index_of(x); assert(i < d.len()); assert(d[i] == x); }
                if d.contains(x) { let i = d.index_of(x); assert(s[i] == x); }
            }
        }
        if s.no_duplicates() {
            assert(d.no_duplicates());
            if p(s.last()) {
                let f = d.filter(p);
                assert(!d.contains(s.last())) by { if d.contains(s.last()) { let i = d.index_of(s.last()); assert(s[i] == s[s.len() - 1]); } }
                assert(!f.contains(s.last()));
                assert forall|i: int, j: int| 0 <= i < j < f.len() + 1 implies f.push(s.last())[i] != f.push(s.last())[j] by {
                    if j == f.len() { assert(f[i] != s.last()) by { if f[i] == s.last() { assert(f.contains(s.last())); } } }
                }
            }
        }
    }
}
// effect of inserting `change` at `path`
pub open spec fn upd(t: RuleTree, path: Q, change: RuleChange, q: Q, c: RuleChange) -> bool {
    if c != change || covered(t, change, path) { hasc(t, q, c) }
    else { q == path || (hasc(t, q, c) && !prefix(path, q)) }
}
pub open spec fn inserted(t0: RuleTree, t1: RuleTree, path: Q, change: RuleChange) -> bool {
    &&& forall|q: Q, c: RuleChange| #[trigger] hasc(t1, q, c) == upd(t0, path, change, q, c)
    &&& nodup(t0) ==> nodup(t1)
}
pub open spec fn removed(t0: RuleTree, t1: RuleTree, change: RuleChange) -> bool {
    &&& forall|q: Q, c: RuleChange| #[trigger] hasc(t1, q, c) == (c != change && hasc(t0, q, c))
    &&& nodup(t0) ==> nodup(t1)
}
pub proof fn lemma_new(t: RuleTree)
    requires t.rule_changes@.len() == 0, t.children@ == Map::<PathSegment, RuleTree>::empty(),
    ensures nodup(t), forall|q: Q, c: RuleChange| !#[trigger] hasc(t, q, c),
{
    assert forall|q: Q| (#[trigger] node_at(t, q)) is Some implies node_at(t, q)->0.rule_changes@.no_duplicates() by { }
}
pub proof fn lemma_prefix_cons(a: Q, b: Q)
    requires a.len() > 0, b.len() > 0,
    ensures prefix(a, b) == (a[0] == b[0] && prefix(a.skip(1), b.skip(1))),
{
    if prefix(a, b) {
        assert(a[0] == b.take(a.len() as int)[0]);
        assert(a.skip(1) =~= b.skip(1).take(a.len() - 1)) by {
            assert forall|i: int| 0 <= i < a.len() - 1 implies a.skip(1)[i] == b.skip(1).take(a.len() - 1)[i] by { assert(a[i + 1] == b.take(a.len() as int)[i + 1]); }
        }
    }
    if a[0] == b[0] && prefix(a.skip(1), b.skip(1)) {
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b.take(a.len() as int)[i] by {
            if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1).take(a.len() - 1)[i - 1]); }
        }
        assert(a =~= b.take(a.len() as int));
    }
}
pub proof fn lemma_eq_cons(a: Q, b: Q)
    requires a.len() > 0, b.len() > 0,
    ensures (a == b) == (a[0] == b[0] && a.skip(1) == b.skip(1)),
{
    if a[0] == b[0] && a.skip(1) == b.skip(1) {
        assert(a.skip(1).len() == a.len() - 1 && b.skip(1).len() == b.len() - 1);
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } }
        assert(a =~= b);
    }
}
pub proof fn lemma_covered_cons(t: RuleTree, c: RuleChange, p: Q)
    requires p.len() > 0,
    ensures covered(t, c, p) == (t.rule_changes@.contains(c) || (t.children@.contains_key(p[0]) && covered(t.children@[p[0]], c, p.skip(1)))),
{
    let e = Seq::<PathSegment>::empty();
    assert(prefix(e, p));
    assert(hasc(t, e, c) == t.rule_changes@.contains(c));
    if covered(t, c, p) {
        let q = choose|q: Q| prefix(q, p) && #[trigger] hasc(t, q, c);
        if q.len() > 0 {
            lemma_has_cons(t, q, c);
            lemma_prefix_cons(q, p);
            assert(hasc(t.children@[p[0]], q.skip(1), c));
        } else { assert(q =~= e); }
    }
    if t.children@.contains_key(p[0]) && covered(t.children@[p[0]], c, p.skip(1)) {
        let k = t.children@[p[0]];
        let q = choose|q: Q| prefix(q, p.skip(1)) && #[trigger] hasc(k, q, c);
        let r = seq![p[0]] + q;
        assert(r.skip(1) =~= q);
        lemma_has_cons(t, r, c);
        lemma_prefix_cons(r, p);
        assert(hasc(t, r, c));
    }
}
// inserting into one child
pub proof fn lemma_child(t0: RuleTree, t1: RuleTree, path: Q, change: RuleChange, c0: RuleTree, c1: RuleTree)
    requires
        path.len() > 0, !t0.rule_changes@.contains(change),
        t1.rule_changes == t0.rule_changes,
        t1.children@ == t0.children@.insert(path[0], c1),
        t0.children@.contains_key(path[0]) ==> c0 == t0.children@[path[0]],
        !t0.children@.contains_key(path[0]) ==> (forall|q: Q, c: RuleChange| !#[trigger] hasc(c0, q, c)) && nodup(c0),
        inserted(c0, c1, path.skip(1), change),
    ensures inserted(t0, t1, path, change),
{
    lemma_covered_cons(t0, change, path);
    assert(covered(t0, change, path) == covered(c0, change, path.skip(1)));
    assert forall|q: Q, c: RuleChange| #[trigger] hasc(t1, q, c) == upd(t0, path, change, q, c) by {
        if q.len() == 0 {
            assert(hasc(t1, q, c) == hasc(t0, q, c));
            assert(q != path);
        } else {
            lemma_has_cons(t0, q, c);
            lemma_has_cons(t1, q, c);
            lemma_eq_cons(q, path);
            lemma_prefix_cons(path, q);
            if q[0] == path[0] {
                assert(hasc(t1, q, c) == hasc(c1, q.skip(1), c));
                assert(hasc(t0, q, c) == hasc(c0, q.skip(1), c));
                assert(hasc(c1, q.skip(1), c) == upd(c0, path.skip(1), change, q.skip(1), c));
            }
        }
    }
    if nodup(t0) {
        assert(nodup(c0)) by {
            if t0.children@.contains_key(path[0]) {
                assert forall|q: Q| (#[trigger] node_at(c0, q)) is Some implies node_at(c0, q)->0.rule_changes@.no_duplicates() by {
                    let r = seq![path[0]] + q;
                    assert(r.skip(1) =~= q);
                    assert(node_at(t0, r) == node_at(c0, q));
                }
            }
        }
        assert forall|q: Q| (#[trigger] node_at(t1, q)) is Some implies node_at(t1, q)->0.rule_changes@.no_duplicates() by {
            if q.len() == 0 { assert(node_at(t0, q) == Some(t0)); }
            else if q[0] == path[0] { assert(node_at(t1, q) == node_at(c1, q.skip(1))); }
            else { assert(node_at(t1, q) == node_at(t0, q)); }
        }
    }
}
impl RuleTree {
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "RuleTree::new"
ret = "r"
contract = "ensures r.rule_changes@.len() == 0, r.children@ == Map::<PathSegment, RuleTree>::empty(),"
[[rewrite]]
from = "AHashMap::new()"
to = "VpMap::new()"
@*/
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "RuleTree::insert_rule_add"
contract = "ensures inserted(*old(self), *final(self), path.segments@, RuleChange::Add(rule_index)),"
[[rewrite]]
from = "path: &Path<'static>"
to = "path: &Path"
[[rewrite]]
from = "&path.segments"
to = "path.segments.as_slice()"
@*/
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "RuleTree::insert_rule_removal"
contract = "ensures inserted(*old(self), *final(self), path.segments@, RuleChange::Remove(rule_index)),"
[[rewrite]]
from = "path: &Path<'static>"
to = "path: &Path"
[[rewrite]]
from = "&path.segments"
to = "path.segments.as_slice()"
@*/
#[verifier::exec_allows_no_decreases_clause]
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "RuleTree::insert_rule_inner"
contract = "ensures inserted(*old(self), *final(self), path@, rule_change),"
start = '''
let ghost t0 = *self;
proof { let e = Seq::<PathSegment>::empty(); assert(prefix(e, path@)); assert(hasc(*self, e, rule_change) == self.rule_changes@.contains(rule_change)); }
'''
[[rewrite]]
from = "PathSegment<'static>"
to = "PathSegment"
[[rewrite]]
from = "self.rule_changes.contains(&rule_change)"
to = "vp_contains(&self.rule_changes, &rule_change)"
[[rewrite]]
from = "path.split_first()"
to = "vp_split_first(path)"
[[rewrite]]
from = "self.children.entry(first.clone()).or_insert_with(RuleTree::new)"
to = "self.children.vp_entry_or_insert(first.clone(), RuleTree::new())"
[[before]]
pattern = "child_tree.insert_rule_inner"
text = "let ghost c0 = *child_tree;"
[[after]]
pattern = "child_tree.insert_rule_inner(remaining, rule_change);"
text = '''
proof {
    let c1 = self.children@[path@[0]];
    if !t0.children@.contains_key(path@[0]) { lemma_new(c0); }
    lemma_child(t0, *self, path@, rule_change, c0, c1);
}
'''
[[before]]
pattern = "self.rule_changes.push(rule_change);"
text = "let ghost t1 = *self;"
[[after]]
pattern = "self.rule_changes.push(rule_change);"
text = '''
proof {
    let e = Seq::<PathSegment>::empty();
    assert(path@ =~= e);
    assert(!covered(t0, rule_change, e)) by {
        if covered(t0, rule_change, e) { let q = choose|q: Q| prefix(q, e) && #[trigger] hasc(t0, q, rule_change); assert(q =~= e); }
    }
    assert forall|q: Q, c: RuleChange| #[trigger] hasc(*self, q, c) == upd(t0, path@, rule_change, q, c) by {
        assert(hasc(t1, q, c) == (c != rule_change && hasc(t0, q, c)));
        assert(prefix(path@, q));
        if q.len() == 0 {
            assert(q =~= e);
            let s = t1.rule_changes@;
            assert(self.rule_changes@ == s.push(rule_change));
            if c == rule_change { assert(self.rule_changes@[s.len() as int] == c); }
            else {
                if s.contains(c) { let i = s.index_of(c); assert(self.rule_changes@[i] == c); }
                if self.rule_changes@.contains(c) { let i = self.rule_changes@.index_of(c); assert(s[i] == c); }
            }
        } else {
            assert(node_at(*self, q) == node_at(t1, q));
            assert(q != path@);
        }
    }
    if nodup(t0) {
        assert forall|q: Q| (#[trigger] node_at(*self, q)) is Some implies node_at(*self, q)->0.rule_changes@.no_duplicates() by {
            if q.len() == 0 {
                assert(node_at(t1, q) == Some(t1));
                assert(!hasc(t1, q, rule_change));
                let s = t1.rule_changes@;
                assert(s.no_duplicates());
                assert forall|i: int, j: int| 0 <= i < j < s.len() + 1 implies s.push(rule_change)[i] != s.push(rule_change)[j] by { if j == s.len() { assert(s.contains(s[i])); } }
            } else { assert(node_at(*self, q) == node_at(t1, q)); }
        }
    }
}
'''
@*/
#[verifier::exec_allows_no_decreases_clause]
/*@extract
file = "sds/src/scoped_ruleset/mod.rs"
item = "RuleTree::recursively_remove"
contract = "ensures removed(*old(self), *final(self), rule_change),"
start = '''
let ghost t0 = *self;
let ghost vp_p = |x: RuleChange| x != rule_change;
'''
[[rewrite]]
from = "self.rule_changes.retain(|x| *x != rule_change)"
to = "vp_retain(&mut self.rule_changes, |x: &RuleChange| -> (vp_b: bool) ensures vp_b == (*x != rule_change) { *x != rule_change }, Ghost(vp_p))"
[[rewrite]]
from = "for child_tree in self.children.values_mut()"
to = "for vp_i in 0..vp_n"
[[loop]]
n = 0
kind = "for"
before = '''
proof { lemma_filter_contains(t0.rule_changes@, vp_p); }
let ghost ks = self.children.keys();
let vp_n = self.children.vp_len();
'''
spec = '''
    invariant
        self.children.keys() == ks, vp_n == ks.len(),
        ks.no_duplicates(),
        forall|k: PathSegment| #[trigger] self.children@.contains_key(k) <==> t0.children@.contains_key(k),
        forall|k: PathSegment| #[trigger] t0.children@.contains_key(k) <==> ks.contains(k),
        self.rule_changes@ == t0.rule_changes@.filter(vp_p),
        forall|j: int| 0 <= j < vp_i ==> removed(t0.children@[#[trigger] ks[j]], self.children@[ks[j]], rule_change),
        forall|j: int| vp_i <= j < ks.len() ==> self.children@[#[trigger] ks[j]] == t0.children@[ks[j]],
'''
start = '''
let ghost vp_m = self.children@;
proof { assert(ks.contains(ks[vp_i as int])); }
let child_tree = self.children.vp_value_mut(vp_i);
'''
end = '''
proof {
    assert forall|j: int| 0 <= j < ks.len() && j != vp_i implies self.children@[#[trigger] ks[j]] == vp_m[ks[j]] by { assert(ks[j] != ks[vp_i as int]); }
}
'''
after = '''
proof {
    assert forall|q: Q, c: RuleChange| #[trigger] hasc(*self, q, c) == (c != rule_change && hasc(t0, q, c)) by {
        if q.len() > 0 {
            lemma_has_cons(t0, q, c);
            lemma_has_cons(*self, q, c);
            if t0.children@.contains_key(q[0]) {
                let j = ks.index_of(q[0]);
                assert(removed(t0.children@[ks[j]], self.children@[ks[j]], rule_change));
                assert(hasc(self.children@[ks[j]], q.skip(1), c) == (c != rule_change && hasc(t0.children@[ks[j]], q.skip(1), c)));
            }
        }
    }
    if nodup(t0) {
        assert forall|q: Q| (#[trigger] node_at(*self, q)) is Some implies node_at(*self, q)->0.rule_changes@.no_duplicates() by {
            if q.len() == 0 { assert(node_at(t0, q) == Some(t0)); }
            else {
                let k0 = t0.children@[q[0]];
                let j = ks.index_of(q[0]);
                assert(self.children@.contains_key(q[0]));
                assert(removed(t0.children@[ks[j]], self.children@[ks[j]], rule_change));
                assert(nodup(k0)) by {
                    assert forall|r: Q| (#[trigger] node_at(k0, r)) is Some implies node_at(k0, r)->0.rule_changes@.no_duplicates() by {
                        let s = seq![q[0]] + r;
                        assert(s.skip(1) =~= r);
                        assert(node_at(t0, s) == node_at(k0, r));
                    }
                }
                assert(node_at(*self, q) == node_at(self.children@[q[0]], q.skip(1)));
            }
        }
    }
}
'''
@*/
}
