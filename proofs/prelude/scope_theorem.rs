// ---- the property: scopes decide by path prefix ----------------------------------------------
// A scope path q has been consumed when the event path is p. Without implicit wildcards this is
// p == q; with them an index segment of p may be skipped, after which further indices of the same
// run are skipped too. wm: the last step was a skip.
pub open spec fn reaches(w: bool, p: Q, q: Q, wm: bool) -> bool
    decreases p.len(),
{
    if p.len() == 0 { q.len() == 0 && !wm }
    else if wm { w && seg_is_index(p.last()) && (reaches(w, p.drop_last(), q, true) || reaches(w, p.drop_last(), q, false)) }
    else {
        q.len() > 0 && q.last() == p.last()
        && (reaches(w, p.drop_last(), q.drop_last(), false) || (!seg_is_index(p.last()) && reaches(w, p.drop_last(), q.drop_last(), true)))
    }
}
// the scope path q covers the event path p
pub open spec fn reached(w: bool, p: Q, k: int, q: Q) -> bool { 0 <= k <= p.len() && (reaches(w, p.take(k), q, false) || reaches(w, p.take(k), q, true)) }
pub open spec fn applies(w: bool, q: Q, p: Q) -> bool { exists|k: int| #[trigger] reached(w, p, k, q) }
proof fn lemma_node_push(t: RuleTree, q: Q, s: PathSegment)
    ensures node_at(t, q.push(s)) == (match node_at(t, q) { Some(n) => if n.children@.contains_key(s) { Some(n.children@[s]) } else { None }, None => None }),
    decreases q.len(),
{
    let r = q.push(s);
    if q.len() == 0 {
        assert(r[0] == s);
        assert(r.skip(1).len() == 0);
        if t.children@.contains_key(s) { assert(node_at(t, r) == node_at(t.children@[s], r.skip(1))); assert(node_at(t.children@[s], r.skip(1)) == Some(t.children@[s])); }
    } else {
        assert(r[0] == q[0]);
        assert(r.skip(1) =~= q.skip(1).push(s));
        if t.children@.contains_key(q[0]) { lemma_node_push(t.children@[q[0]], q.skip(1), s); }
    }
}
pub open spec fn inl(t: RuleTree, w: bool, p: Q, x: N) -> bool { lvl(t, w, p).contains(x) }
pub open spec fn via(t: RuleTree, w: bool, p: Q, x: N, q: Q) -> bool { reaches(w, p, q, x.1) && node_at(t, q) == Some(x.0) }
proof fn lemma_flat(s: Seq<N>, seg: PathSegment, w: bool, x: N)
    ensures flat(s, seg, w).contains(x) <==> exists|i: int| 0 <= i < s.len() && step(#[trigger] s[i], seg, w).contains(x),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_flat(d, seg, w, x);
        lemma_plus_contains(flat(d, seg, w), step(s.last(), seg, w), x);
        if flat(d, seg, w).contains(x) { let i = choose|i: int| 0 <= i < d.len() && step(#[trigger] d[i], seg, w).contains(x); assert(s[i] == d[i]); }
        if step(s.last(), seg, w).contains(x) { assert(s[s.len() - 1] == s.last()); }
        if exists|i: int| 0 <= i < s.len() && step(#[trigger] s[i], seg, w).contains(x) {
            let i = choose|i: int| 0 <= i < s.len() && step(#[trigger] s[i], seg, w).contains(x);
            if i < d.len() { assert(d[i] == s[i]); }
        }
    } else { assert(!flat(s, seg, w).contains(x)); }
}
proof fn lemma_step_contains(n: N, seg: PathSegment, w: bool, x: N)
    ensures step(n, seg, w).contains(x) <==>
        (!x.1 && (!n.1 || !seg_is_index(seg)) && n.0.children@.contains_key(seg) && x.0 == n.0.children@[seg]) || (x.1 && w && seg_is_index(seg) && x.0 == n.0),
{
    let a: Seq<N> = if (!n.1 || !seg_is_index(seg)) && n.0.children@.contains_key(seg) { seq![(n.0.children@[seg], false)] } else { seq![] };
    let b: Seq<N> = if w && seg_is_index(seg) { seq![(n.0, true)] } else { seq![] };
    lemma_plus_contains(a, b, x);
    if a.len() > 0 { assert(a.contains(a[0])); }
    if b.len() > 0 { assert(b.contains(b[0])); }
}
// the active nodes of a level are exactly the nodes of the scope paths consumed there
proof fn lemma_lvl(t: RuleTree, w: bool, p: Q, x: N)
    ensures inl(t, w, p, x) <==> exists|q: Q| #[trigger] via(t, w, p, x, q),
    decreases p.len(),
{
    let l = lvl(t, w, p);
    if p.len() == 0 {
        let e = Seq::<PathSegment>::empty();
        assert(l[0] == (t, false));
        assert(node_at(t, e) == Some(t));
        if x == (t, false) { assert(via(t, w, p, x, e)); assert(l.contains(x)); }
        if l.contains(x) { let i = l.index_of(x); assert(x == (t, false)); }
        if exists|q: Q| #[trigger] via(t, w, p, x, q) { let q = choose|q: Q| #[trigger] via(t, w, p, x, q); assert(q =~= e); }
    } else {
        let p0 = p.drop_last();
        let seg = p.last();
        let l0 = lvl(t, w, p0);
        lemma_flat(l0, seg, w, x);
        if l.contains(x) {
            let i = choose|i: int| 0 <= i < l0.len() && step(#[trigger] l0[i], seg, w).contains(x);
            let n = l0[i];
            assert(l0.contains(n));
            lemma_lvl(t, w, p0, n);
            let q = choose|q: Q| #[trigger] via(t, w, p0, n, q);
            lemma_step_contains(n, seg, w, x);
            if x.1 { assert(via(t, w, p, x, q)); }
            else {
                lemma_node_push(t, q, seg);
                assert(q.push(seg).drop_last() =~= q);
                assert(via(t, w, p, x, q.push(seg)));
            }
        }
        if exists|q: Q| #[trigger] via(t, w, p, x, q) {
            let q = choose|q: Q| #[trigger] via(t, w, p, x, q);
            if x.1 {
                let wm = reaches(w, p0, q, true);
                let n = (x.0, wm);
                assert(via(t, w, p0, n, q));
                lemma_lvl(t, w, p0, n);
                let i = l0.index_of(n);
                lemma_step_contains(l0[i], seg, w, x);
                assert(step(l0[i], seg, w).contains(x));
            } else {
                let q0 = q.drop_last();
                assert(q0.push(seg) =~= q);
                lemma_node_push(t, q0, seg);
                let wm = !reaches(w, p0, q0, false);
                let n = (node_at(t, q0)->0, wm);
                assert(via(t, w, p0, n, q0));
                lemma_lvl(t, w, p0, n);
                let i = l0.index_of(n);
                lemma_step_contains(l0[i], seg, w, x);
                assert(step(l0[i], seg, w).contains(x));
            }
        }
    }
}
// a skip can only follow an earlier ordinary arrival at the same scope path
proof fn lemma_skip_source(w: bool, p: Q, q: Q)
    requires reaches(w, p, q, true),
    ensures exists|k: int| 0 <= k < p.len() && #[trigger] reaches(w, p.take(k), q, false),
    decreases p.len(),
{
    let p0 = p.drop_last();
    if reaches(w, p0, q, false) { assert(p.take(p.len() - 1) =~= p0); assert(reaches(w, p.take(p.len() - 1), q, false)); }
    else {
        lemma_skip_source(w, p0, q);
        let k = choose|k: int| 0 <= k < p0.len() && #[trigger] reaches(w, p0.take(k), q, false);
        assert(p.take(k) =~= p0.take(k));
        assert(reaches(w, p.take(k), q, false));
    }
}
proof fn lemma_applies_take(w: bool, q: Q, p: Q, n: int)
    requires 0 <= n <= p.len(), applies(w, q, p.take(n)),
    ensures applies(w, q, p),
{
    let k = choose|k: int| #[trigger] reached(w, p.take(n), k, q);
    assert(p.take(n).take(k) =~= p.take(k));
    assert(reached(w, p, k, q));
}
// consuming q means every prefix of q was consumed on the way
proof fn lemma_prefix_applies(w: bool, p: Q, q: Q, wm: bool, z: Q)
    requires reaches(w, p, q, wm), prefix(z, q),
    ensures applies(w, z, p),
    decreases p.len(),
{
    if z.len() == q.len() {
        assert(z =~= q);
        assert(p.take(p.len() as int) =~= p);
        assert(z == q);
        assert(reached(w, p, p.len() as int, z)) by { if wm { assert(reaches(w, p.take(p.len() as int), z, true)); } else { assert(reaches(w, p.take(p.len() as int), z, false)); } }
    } else {
        let p0 = p.drop_last();
        assert(p0 =~= p.take(p.len() - 1));
        if wm {
            if reaches(w, p0, q, true) { lemma_prefix_applies(w, p0, q, true, z); } else { lemma_prefix_applies(w, p0, q, false, z); }
        } else {
            let q0 = q.drop_last();
            assert(prefix(z, q0)) by { assert(q0.take(z.len() as int) =~= q.take(z.len() as int)); }
            if reaches(w, p0, q0, false) { lemma_prefix_applies(w, p0, q0, false, z); } else { lemma_prefix_applies(w, p0, q0, true, z); }
        }
        lemma_applies_take(w, z, p, p.len() - 1);
    }
}
proof fn lemma_all(t: RuleTree, w: bool, p: Q, x: N)
    ensures all_lvls(t, w, p).contains(x) <==> exists|k: int| 0 <= k <= p.len() && #[trigger] inl(t, w, p.take(k), x),
    decreases p.len(),
{
    assert(p.take(p.len() as int) =~= p);
    if p.len() > 0 {
        let p0 = p.drop_last();
        lemma_all(t, w, p0, x);
        lemma_plus_contains(all_lvls(t, w, p0), lvl(t, w, p), x);
        if all_lvls(t, w, p0).contains(x) { let k = choose|k: int| 0 <= k <= p0.len() && #[trigger] inl(t, w, p0.take(k), x); assert(p.take(k) =~= p0.take(k)); assert(inl(t, w, p.take(k), x)); }
        if lvl(t, w, p).contains(x) { assert(inl(t, w, p.take(p.len() as int), x)); }
        if exists|k: int| 0 <= k <= p.len() && #[trigger] inl(t, w, p.take(k), x) {
            let k = choose|k: int| 0 <= k <= p.len() && #[trigger] inl(t, w, p.take(k), x);
            if k < p.len() { assert(p.take(k) =~= p0.take(k)); assert(inl(t, w, p0.take(k), x)); }
        }
    } else {
        if lvl(t, w, p).contains(x) { assert(inl(t, w, p.take(0), x)); }
        if exists|k: int| 0 <= k <= p.len() && #[trigger] inl(t, w, p.take(k), x) { let k = choose|k: int| 0 <= k <= p.len() && #[trigger] inl(t, w, p.take(k), x); assert(p.take(k) =~= p); }
    }
}
// some named path of this change covers p
pub open spec fn any_applies(w: bool, f: spec_fn(Q, RuleChange) -> bool, c: RuleChange, p: Q) -> bool { exists|q: Q| #[trigger] f(q, c) && applies(w, q, p) }
proof fn lemma_tree_applies(t: RuleTree, w: bool, f: spec_fn(Q, RuleChange) -> bool, c: RuleChange, p: Q)
    requires repr(t, f),
    ensures any_applies(w, f, c, p) <==> exists|q: Q| #[trigger] hasc(t, q, c) && applies(w, q, p),
{
    if any_applies(w, f, c, p) {
        let q = choose|q: Q| #[trigger] f(q, c) && applies(w, q, p);
        assert(covered(t, c, q));
        let z = choose|z: Q| prefix(z, q) && #[trigger] hasc(t, z, c);
        let k = choose|k: int| #[trigger] reached(w, p, k, q);
        if reaches(w, p.take(k), q, false) { lemma_prefix_applies(w, p.take(k), q, false, z); } else { lemma_prefix_applies(w, p.take(k), q, true, z); }
        lemma_applies_take(w, z, p, k);
        assert(hasc(t, z, c));
    }
    if exists|q: Q| #[trigger] hasc(t, q, c) && applies(w, q, p) { let q = choose|q: Q| #[trigger] hasc(t, q, c) && applies(w, q, p); assert(f(q, c)); }
}
// THEOREM: a rule is excluded at p exactly when one of its exclude paths covers p
proof fn theorem_excluded(t: RuleTree, w: bool, f: spec_fn(Q, RuleChange) -> bool, r: usize, p: Q)
    requires repr(t, f),
    ensures removed_in(all_lvls(t, w, p), r) <==> any_applies(w, f, RuleChange::Remove(r), p),
{
    let c = RuleChange::Remove(r);
    let s = all_lvls(t, w, p);
    lemma_tree_applies(t, w, f, c, p);
    if removed_in(s, r) {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.rule_changes@.contains(c);
        let x = s[i];
        assert(s.contains(x));
        lemma_all(t, w, p, x);
        let k = choose|k: int| 0 <= k <= p.len() && #[trigger] inl(t, w, p.take(k), x);
        lemma_lvl(t, w, p.take(k), x);
        let q = choose|q: Q| #[trigger] via(t, w, p.take(k), x, q);
        assert(reached(w, p, k, q));
        assert(hasc(t, q, c) && applies(w, q, p));
    }
    if exists|q: Q| #[trigger] hasc(t, q, c) && applies(w, q, p) {
        let q = choose|q: Q| #[trigger] hasc(t, q, c) && applies(w, q, p);
        let k = choose|k: int| #[trigger] reached(w, p, k, q);
        let x = (node_at(t, q)->0, !reaches(w, p.take(k), q, false));
        assert(via(t, w, p.take(k), x, q));
        lemma_lvl(t, w, p.take(k), x);
        assert(inl(t, w, p.take(k), x));
        lemma_all(t, w, p, x);
        let i = s.index_of(x);
        assert(s[i].0.rule_changes@.contains(c));
    }
}
// THEOREM: a rule is offered at p exactly when one of its include paths covers p
proof fn theorem_included(t: RuleTree, w: bool, f: spec_fn(Q, RuleChange) -> bool, r: usize, p: Q)
    requires repr(t, f),
    ensures added_in(all_lvls(t, w, p), r) <==> any_applies(w, f, RuleChange::Add(r), p),
{
    let c = RuleChange::Add(r);
    let s = all_lvls(t, w, p);
    lemma_tree_applies(t, w, f, c, p);
    if added_in(s, r) {
        let i = choose|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).1 && s[i].0.rule_changes@.contains(c);
        let x = s[i];
        assert(s.contains(x));
        lemma_all(t, w, p, x);
        let k = choose|k: int| 0 <= k <= p.len() && #[trigger] inl(t, w, p.take(k), x);
        lemma_lvl(t, w, p.take(k), x);
        let q = choose|q: Q| #[trigger] via(t, w, p.take(k), x, q);
        assert(reached(w, p, k, q));
        assert(hasc(t, q, c) && applies(w, q, p));
    }
    if exists|q: Q| #[trigger] hasc(t, q, c) && applies(w, q, p) {
        let q = choose|q: Q| #[trigger] hasc(t, q, c) && applies(w, q, p);
        let k0 = choose|k: int| #[trigger] reached(w, p, k, q);
        let k = if reaches(w, p.take(k0), q, false) { k0 } else {
            lemma_skip_source(w, p.take(k0), q);
            let j = choose|j: int| 0 <= j < k0 && #[trigger] reaches(w, p.take(k0).take(j), q, false);
            assert(p.take(k0).take(j) =~= p.take(j));
            j
        };
        let x = (node_at(t, q)->0, false);
        assert(via(t, w, p.take(k), x, q));
        lemma_lvl(t, w, p.take(k), x);
        assert(inl(t, w, p.take(k), x));
        lemma_all(t, w, p, x);
        let i = s.index_of(x);
        assert(!s[i].1 && s[i].0.rule_changes@.contains(c));
    }
}
// THEOREM: without implicit wildcards "covers" is "is a prefix of"
proof fn lemma_plain_reaches(p: Q, q: Q, wm: bool)
    ensures reaches(false, p, q, wm) <==> !wm && q == p,
    decreases p.len(),
{
    if p.len() == 0 { if q.len() == 0 { assert(q =~= p); } }
    else if !wm {
        let p0 = p.drop_last();
        if q.len() > 0 {
            lemma_plain_reaches(p0, q.drop_last(), false);
            lemma_plain_reaches(p0, q.drop_last(), true);
            if q.drop_last() == p0 && q.last() == p.last() { assert(q =~= q.drop_last().push(q.last())); assert(p =~= p0.push(p.last())); }
        }
    }
}
proof fn theorem_plain(q: Q, p: Q)
    ensures applies(false, q, p) <==> prefix(q, p),
{
    if applies(false, q, p) {
        let k = choose|k: int| #[trigger] reached(false, p, k, q);
        lemma_plain_reaches(p.take(k), q, false);
        lemma_plain_reaches(p.take(k), q, true);
        assert(q == p.take(k));
    }
    if prefix(q, p) { lemma_plain_reaches(p.take(q.len() as int), q, false); assert(reached(false, p, q.len() as int, q)); }
}
// THEOREM: without implicit wildcards no rule is offered twice
proof fn lemma_adds_append(a: Seq<N>, b: Seq<N>)
    ensures adds(a + b) == adds(a) + adds(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(adds(a) + adds(b) =~= adds(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_adds_append(a, b.drop_last());
        if !b.last().1 { assert(adds(a) + adds(b.drop_last()) + node_adds(b.last().0.rule_changes@) =~= adds(a) + adds(b)); }
    }
}
proof fn lemma_plain_lvl(t: RuleTree, p: Q)
    ensures lvl(t, false, p) == (match node_at(t, p) { Some(n) => seq![(n, false)], None => Seq::<N>::empty() }),
    decreases p.len(),
{
    if p.len() > 0 {
        let p0 = p.drop_last();
        lemma_plain_lvl(t, p0);
        assert(p0.push(p.last()) =~= p);
        lemma_node_push(t, p0, p.last());
        let l0 = lvl(t, false, p0);
        if l0.len() > 0 { assert(l0.len() == 1); assert(l0.drop_last().len() == 0); assert(flat(l0.drop_last(), p.last(), false) =~= Seq::<N>::empty()); assert(flat(l0, p.last(), false) =~= step(l0.last(), p.last(), false)); assert(lvl(t, false, p) =~= (match node_at(t, p) { Some(n) => seq![(n, false)], None => Seq::<N>::empty() })); }
        else { assert(lvl(t, false, p) =~= Seq::<N>::empty()); }
    }
}
proof fn theorem_offered_once(t: RuleTree, p: Q)
    requires wf_tree(t),
    ensures
        adds(all_lvls(t, false, p)).no_duplicates(),
        forall|r: usize| #[trigger] adds(all_lvls(t, false, p)).contains(r) ==> exists|k: int| 0 <= k <= p.len() && #[trigger] hasc(t, p.take(k), RuleChange::Add(r)),
    decreases p.len(),
{
    let l = lvl(t, false, p);
    lemma_plain_lvl(t, p);
    assert(p.take(p.len() as int) =~= p);
    let own = adds(l);
    if node_at(t, p) is Some {
        let n = node_at(t, p)->0;
        assert(l.len() == 1 && l.last() == (n, false));
        assert(l.drop_last().len() == 0);
        assert(adds(l.drop_last()) =~= Seq::<usize>::empty());
        assert(own =~= node_adds(n.rule_changes@));
        lemma_node_adds(n.rule_changes@, 0);
        assert forall|r: usize| #[trigger] own.contains(r) implies hasc(t, p, RuleChange::Add(r)) by { lemma_node_adds(n.rule_changes@, r); }
    }
    assert(own.no_duplicates());
    if p.len() > 0 {
        let p0 = p.drop_last();
        theorem_offered_once(t, p0);
        let a = adds(all_lvls(t, false, p0));
        lemma_adds_append(all_lvls(t, false, p0), l);
        assert forall|i: int, j: int| 0 <= i < j < (a + own).len() implies (a + own)[i] != (a + own)[j] by {
            if i < a.len() && j >= a.len() && a[i] == own[j - a.len()] {
                let r = a[i];
                assert(a.contains(r)); assert(own.contains(r));
                let k = choose|k: int| 0 <= k <= p0.len() && #[trigger] hasc(t, p0.take(k), RuleChange::Add(r));
                assert(prefix(p0.take(k), p)) by { assert(p.take(k) =~= p0.take(k)); }
                assert(hasc(t, p, RuleChange::Add(r)));
                assert(p0.take(k).len() < p.len());
            }
        }
        assert forall|r: usize| #[trigger] adds(all_lvls(t, false, p)).contains(r) implies exists|k: int| 0 <= k <= p.len() && #[trigger] hasc(t, p.take(k), RuleChange::Add(r)) by {
            lemma_plus_contains(a, own, r);
            if a.contains(r) { let k = choose|k: int| 0 <= k <= p0.len() && #[trigger] hasc(t, p0.take(k), RuleChange::Add(r)); assert(p.take(k) =~= p0.take(k)); assert(hasc(t, p.take(k), RuleChange::Add(r))); }
            else { assert(hasc(t, p.take(p.len() as int), RuleChange::Add(r))); }
        }
    } else {
        assert forall|r: usize| #[trigger] adds(all_lvls(t, false, p)).contains(r) implies exists|k: int| 0 <= k <= p.len() && #[trigger] hasc(t, p.take(k), RuleChange::Add(r)) by { assert(hasc(t, p.take(0), RuleChange::Add(r))); }
    }
}
