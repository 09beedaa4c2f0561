/*@extract
file = "sds/src/path.rs"
item = "PathSegment"
kind = "enum"
[[rewrite]]
from = "PathSegment<'a>"
to = "PathSegment"
[[rewrite]]
from = "Cow<'a, str>"
to = "String"
@*/
/*@extract
file = "sds/src/path.rs"
item = "Path"
kind = "struct"
[[rewrite]]
from = "Path<'a>"
to = "Path"
[[rewrite]]
from = "PathSegment<'a>"
to = "PathSegment"
@*/
// ---- specification: what an event is ---------------------------------------------------------------
// A tree whose inner nodes have named or numbered children, in the order in which they are visited.
pub enum SegV { Field(Seq<char>), Index(int) }
pub enum Tree { Leaf(Seq<char>), Nil, Node(Seq<(SegV, Tree)>) }
pub enum Op { Push(SegV), Pop, Visit(Seq<char>) }
// the calls visit_event has to make
pub open spec fn ops(t: Tree) -> Seq<Op> decreases t
{ match t { Tree::Leaf(s) => seq![Op::Visit(s)], Tree::Nil => seq![], Tree::Node(k) => kid_ops(k, k.len() as int) } }
pub open spec fn kid_ops(k: Seq<(SegV, Tree)>, n: int) -> Seq<Op> decreases k, n
{ if n <= 0 || n > k.len() { seq![] } else { kid_ops(k, n - 1) + one_kid(k[n - 1].0, ops(k[n - 1].1)) } }
pub open spec fn one_kid(s: SegV, o: Seq<Op>) -> Seq<Op> { seq![Op::Push(s)] + o + seq![Op::Pop] }
// the value a path leads to
pub open spec fn idx(k: Seq<(SegV, Tree)>, s: SegV) -> int { choose|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0 == s }
pub open spec fn has(k: Seq<(SegV, Tree)>, s: SegV) -> bool { exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0 == s }
pub open spec fn at(t: Tree, p: Seq<SegV>) -> Option<Tree> decreases p.len()
{
    if p.len() == 0 { Some(t) } else { match t {
        Tree::Node(k) => if has(k, p[0]) { at(k[idx(k, p[0])].1, p.skip(1)) } else { None },
        _ => None,
    } }
}
// the tree with the value at p replaced
pub open spec fn set(t: Tree, p: Seq<SegV>, v: Tree) -> Tree decreases p.len()
{
    if p.len() == 0 { v } else { match t {
        Tree::Node(k) => if has(k, p[0]) { Tree::Node(k.update(idx(k, p[0]), (p[0], set(k[idx(k, p[0])].1, p.skip(1), v)))) } else { t },
        _ => t,
    } }
}
// no two children of a node have the same name
pub open spec fn distinct(t: Tree) -> bool decreases t
{ match t { Tree::Node(k) => distinct_kids(k) && forall|i: int| 0 <= i < k.len() ==> distinct((#[trigger] k[i]).1), _ => true } }
pub open spec fn distinct_kids(k: Seq<(SegV, Tree)>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> (#[trigger] k[i]).0 != (#[trigger] k[j]).0 }

pub proof fn lemma_idx(k: Seq<(SegV, Tree)>, i: int)
    requires distinct_kids(k), 0 <= i < k.len(),
    ensures has(k, k[i].0), idx(k, k[i].0) == i,
{ let j = idx(k, k[i].0); assert(k[i].0 == k[i].0); assert(0 <= j < k.len() && k[j].0 == k[i].0); if j < i { assert(k[j].0 != k[i].0); } if i < j { assert(k[i].0 != k[j].0); } }
pub proof fn lemma_at_distinct(t: Tree, p: Seq<SegV>)
    requires distinct(t), at(t, p) is Some,
    ensures distinct(at(t, p)->0),
    decreases p.len(),
{ if p.len() > 0 { let k = t->Node_0; lemma_at_distinct(k[idx(k, p[0])].1, p.skip(1)); } }
pub proof fn lemma_at_snoc(t: Tree, p: Seq<SegV>, s: SegV)
    ensures at(t, p.push(s)) == match at(t, p) { None => None, Some(m) => at(m, seq![s]) },
    decreases p.len(),
{
    if p.len() == 0 { assert(p.push(s) =~= seq![s]); }
    else { assert(p.push(s).skip(1) =~= p.skip(1).push(s)); assert(p.push(s)[0] == p[0]); match t { Tree::Node(k) => { if has(k, p[0]) { lemma_at_snoc(k[idx(k, p[0])].1, p.skip(1), s); } }, _ => {} } }
}
pub proof fn lemma_set_snoc(t: Tree, p: Seq<SegV>, s: SegV, v: Tree)
    requires at(t, p) is Some,
    ensures set(t, p.push(s), v) == set(t, p, set(at(t, p)->0, seq![s], v)),
    decreases p.len(),
{
    if p.len() == 0 { assert(p.push(s) =~= seq![s]); }
    else { assert(p.push(s).skip(1) =~= p.skip(1).push(s)); assert(p.push(s)[0] == p[0]); let k = t->Node_0; lemma_set_snoc(k[idx(k, p[0])].1, p.skip(1), s, v); }
}
pub proof fn lemma_prefix(t: Tree, p: Seq<SegV>, n: int)
    requires at(t, p) is Some, 0 <= n <= p.len(),
    ensures at(t, p.take(n)) is Some,
    decreases p.len() - n,
{ if n < p.len() { lemma_prefix(t, p, n + 1); assert(p.take(n + 1) =~= p.take(n).push(p[n])); lemma_at_snoc(t, p.take(n), p[n]); } else { assert(p.take(n) =~= p); } }

// ---- what a visitor sees ----------------------------------------------------------------------------
// the strings presented by a sequence of calls, each with the path that is current at that time
pub open spec fn seen(o: Seq<Op>, stack: Seq<SegV>) -> Seq<(Seq<SegV>, Seq<char>)> decreases o.len()
{
    if o.len() == 0 { seq![] } else { match o[0] {
        Op::Push(s) => seen(o.skip(1), stack.push(s)),
        Op::Pop => seen(o.skip(1), stack.drop_last()),
        Op::Visit(t) => seq![(stack, t)] + seen(o.skip(1), stack),
    } }
}
// where the calls leave the path
pub open spec fn ends(o: Seq<Op>, stack: Seq<SegV>) -> Seq<SegV> decreases o.len()
{
    if o.len() == 0 { stack } else { match o[0] {
        Op::Push(s) => ends(o.skip(1), stack.push(s)),
        Op::Pop => ends(o.skip(1), stack.drop_last()),
        Op::Visit(t) => ends(o.skip(1), stack),
    } }
}
pub proof fn lemma_seen_app(a: Seq<Op>, b: Seq<Op>, st: Seq<SegV>)
    ensures seen(a + b, st) == seen(a, st) + seen(b, ends(a, st)), ends(a + b, st) == ends(b, ends(a, st)),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(seen(a, st) + seen(b, st) =~= seen(b, st)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b); assert((a + b)[0] == a[0]);
        match a[0] {
            Op::Push(s) => { lemma_seen_app(a.skip(1), b, st.push(s)); },
            Op::Pop => { lemma_seen_app(a.skip(1), b, st.drop_last()); },
            Op::Visit(t) => { lemma_seen_app(a.skip(1), b, st); assert(seen(a + b, st) =~= seen(a, st) + seen(b, ends(a, st))); },
        }
    }
}
pub open spec fn kid_seen(k: Seq<(SegV, Tree)>, n: int, st: Seq<SegV>) -> Seq<(Seq<SegV>, Seq<char>)> decreases n
{ if n <= 0 { seq![] } else { kid_seen(k, n - 1, st) + seen(ops(k[n - 1].1), st.push(k[n - 1].0)) } }
pub proof fn lemma_balanced(t: Tree, st: Seq<SegV>)
    ensures ends(ops(t), st) == st, t is Node ==> seen(ops(t), st) == kid_seen(t->Node_0, t->Node_0.len() as int, st),
    decreases t,
{ reveal_with_fuel(ends, 3); match t { Tree::Leaf(s) => { assert(ops(t).skip(1) =~= seq![]); }, Tree::Nil => {}, Tree::Node(k) => { lemma_kids_balanced(k, k.len() as int, st); } } }
pub proof fn lemma_kids_balanced(k: Seq<(SegV, Tree)>, n: int, st: Seq<SegV>)
    requires 0 <= n <= k.len(),
    ensures ends(kid_ops(k, n), st) == st, seen(kid_ops(k, n), st) == kid_seen(k, n, st),
    decreases k, n,
{
    reveal_with_fuel(ends, 3); reveal_with_fuel(seen, 3);
    if n > 0 {
        lemma_kids_balanced(k, n - 1, st);
        let c = k[n - 1]; let a = seq![Op::Push(c.0)]; let o = ops(c.1); let z = seq![Op::Pop];
        lemma_balanced(c.1, st.push(c.0));
        assert(a.skip(1) =~= seq![]); assert(z.skip(1) =~= seq![]);
        assert(ends(a, st) == st.push(c.0)); assert(seen(a, st) =~= seq![]);
        assert(st.push(c.0).drop_last() =~= st);
        assert(ends(z, st.push(c.0)) == st); assert(seen(z, st.push(c.0)) =~= seq![]);
        lemma_seen_app(a, o, st); lemma_seen_app(a + o, z, st); lemma_seen_app(kid_ops(k, n - 1), one_kid(c.0, o), st);
        assert(seen(one_kid(c.0, o), st) =~= seen(o, st.push(c.0)));
    }
}
pub proof fn lemma_kid_seen_member(k: Seq<(SegV, Tree)>, n: int, st: Seq<SegV>, x: (Seq<SegV>, Seq<char>))
    requires 0 <= n <= k.len(),
    ensures kid_seen(k, n, st).contains(x) <==> exists|i: int| 0 <= i < n && seen(ops((#[trigger] k[i]).1), st.push(k[i].0)).contains(x),
    decreases n,
{
    if n > 0 {
        lemma_kid_seen_member(k, n - 1, st, x);
        let a = kid_seen(k, n - 1, st); let b = seen(ops(k[n - 1].1), st.push(k[n - 1].0));
        if (a + b).contains(x) { let j = choose|j: int| 0 <= j < (a + b).len() && (a + b)[j] == x; if j < a.len() { assert(a[j] == x); assert(a.contains(x)); } else { assert(b[j - a.len()] == x); assert(b.contains(x)); assert(0 <= n - 1 < n); } }
        if a.contains(x) { let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert((a + b)[j] == x); }
        if b.contains(x) { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert((a + b)[a.len() + j] == x); }
        if exists|i: int| 0 <= i < n && seen(ops((#[trigger] k[i]).1), st.push(k[i].0)).contains(x) {
            let i = choose|i: int| 0 <= i < n && seen(ops((#[trigger] k[i]).1), st.push(k[i].0)).contains(x);
            if i < n - 1 { assert(a.contains(x)); } else { assert(b.contains(x)); }
        }
    } else { assert(!kid_seen(k, n, st).contains(x)); }
}
/// Every string is presented with the path that leads to it, and nothing else is presented.
pub proof fn theorem_visits(t: Tree, st: Seq<SegV>, p: Seq<SegV>, s: Seq<char>)
    requires distinct(t),
    ensures seen(ops(t), st).contains((st + p, s)) <==> at(t, p) == Some(Tree::Leaf(s)),
    decreases t,
{
    lemma_balanced(t, st);
    match t {
        Tree::Leaf(x) => {
            reveal_with_fuel(seen, 3); assert(ops(t).skip(1) =~= seq![]); assert(seen(ops(t), st) =~= seq![(st, x)]);
            if p.len() == 0 { assert(st + p =~= st); if x == s { assert(seen(ops(t), st)[0] == (st + p, s)); } } else { assert((st + p).len() != st.len()); }
        },
        Tree::Nil => { assert(seen(ops(t), st).len() == 0); },
        Tree::Node(k) => {
            lemma_kid_seen_member(k, k.len() as int, st, (st + p, s));
            if p.len() == 0 {
                if seen(ops(t), st).contains((st + p, s)) {
                    let i = choose|i: int| 0 <= i < k.len() && seen(ops((#[trigger] k[i]).1), st.push(k[i].0)).contains((st + p, s));
                    lemma_longer(k[i].1, st.push(k[i].0), (st + p, s)); assert(false);
                }
            } else {
                assert(st + p =~= st.push(p[0]) + p.skip(1));
                if has(k, p[0]) { let j = idx(k, p[0]); assert(k[j].0 == p[0]); theorem_visits(k[j].1, st.push(p[0]), p.skip(1), s); }
                if seen(ops(t), st).contains((st + p, s)) {
                    let i = choose|i: int| 0 <= i < k.len() && seen(ops((#[trigger] k[i]).1), st.push(k[i].0)).contains((st + p, s));
                    lemma_longer(k[i].1, st.push(k[i].0), (st + p, s));
                    assert(st.push(k[i].0)[st.len() as int] == k[i].0); assert((st + p)[st.len() as int] == k[i].0); assert(k[i].0 == p[0]); lemma_idx(k, i);
                }
            }
        },
    }
}
// all paths presented inside a subtree start with its path
pub proof fn lemma_longer(t: Tree, st: Seq<SegV>, x: (Seq<SegV>, Seq<char>))
    requires seen(ops(t), st).contains(x),
    ensures x.0.len() >= st.len(), x.0.take(st.len() as int) == st, forall|i: int| 0 <= i < st.len() ==> #[trigger] x.0[i] == st[i],
    decreases t,
{
    lemma_balanced(t, st);
    match t {
        Tree::Leaf(s) => { reveal_with_fuel(seen, 3); assert(ops(t).skip(1) =~= seq![]); assert(seen(ops(t), st) =~= seq![(st, s)]); assert(x.0 == st); assert(st.take(st.len() as int) =~= st); },
        Tree::Nil => { assert(seen(ops(t), st).len() == 0); },
        Tree::Node(k) => {
            lemma_kid_seen_member(k, k.len() as int, st, x);
            let i = choose|i: int| 0 <= i < k.len() && seen(ops((#[trigger] k[i]).1), st.push(k[i].0)).contains(x);
            lemma_longer(k[i].1, st.push(k[i].0), x);
            assert forall|j: int| 0 <= j < st.len() implies #[trigger] x.0[j] == st[j] by { assert(st.push(k[i].0)[j] == st[j]); }
            assert(x.0.take(st.len() as int) =~= st);
        },
    }
}
/// No string is presented twice.
pub proof fn theorem_visits_once(t: Tree, st: Seq<SegV>, i: int, j: int)
    requires distinct(t), 0 <= i < j < seen(ops(t), st).len(),
    ensures seen(ops(t), st)[i].0 != seen(ops(t), st)[j].0,
    decreases t,
{
    lemma_balanced(t, st);
    match t {
        Tree::Leaf(s) => { reveal_with_fuel(seen, 3); assert(ops(t).skip(1) =~= seq![]); assert(seen(ops(t), st) =~= seq![(st, s)]); },
        Tree::Nil => {},
        Tree::Node(k) => { lemma_kids_once(k, k.len() as int, st, i, j); },
    }
}
pub proof fn lemma_kids_once(k: Seq<(SegV, Tree)>, n: int, st: Seq<SegV>, i: int, j: int)
    requires distinct(Tree::Node(k)), 0 <= n <= k.len(), 0 <= i < j < kid_seen(k, n, st).len(),
    ensures kid_seen(k, n, st)[i].0 != kid_seen(k, n, st)[j].0,
    decreases k, n,
{
    let a = kid_seen(k, n - 1, st); let c = k[n - 1]; let b = seen(ops(c.1), st.push(c.0));
    if n > 0 {
        if j < a.len() { lemma_kids_once(k, n - 1, st, i, j); }
        else if i >= a.len() { theorem_visits_once(c.1, st.push(c.0), i - a.len(), j - a.len()); }
        else {
            let x = a[i]; let y = b[j - a.len()]; assert(a.contains(x)); assert(b.contains(y));
            lemma_kid_seen_member(k, n - 1, st, x);
            let m = choose|m: int| 0 <= m < n - 1 && seen(ops((#[trigger] k[m]).1), st.push(k[m].0)).contains(x);
            lemma_longer(k[m].1, st.push(k[m].0), x); lemma_longer(c.1, st.push(c.0), y);
            assert(st.push(k[m].0)[st.len() as int] == k[m].0); assert(st.push(c.0)[st.len() as int] == c.0);
            assert(x.0[st.len() as int] == k[m].0); assert(y.0[st.len() as int] == c.0);
        }
    }
}
/// Replacing the value at a visited path changes what that path leads to, and nothing else.
pub proof fn theorem_set(t: Tree, p: Seq<SegV>, v: Tree, q: Seq<SegV>)
    requires distinct(t), at(t, p) is Some, at(t, p)->0 is Leaf, v is Leaf,
    ensures at(set(t, p, v), p) == Some(v), q != p && at(t, q) is Some && at(t, q)->0 is Leaf ==> at(set(t, p, v), q) == at(t, q), distinct(set(t, p, v)),
    decreases t,
{
    if p.len() > 0 {
        let k = t->Node_0; let i = idx(k, p[0]); assert(0 <= i < k.len() && k[i].0 == p[0]); let c = k[i].1;
        let k2 = k.update(i, (p[0], set(c, p.skip(1), v)));
        assert forall|x: int, y: int| 0 <= x < y < k2.len() implies (#[trigger] k2[x]).0 != (#[trigger] k2[y]).0 by { assert(k2[x].0 == k[x].0 && k2[y].0 == k[y].0); }
        theorem_set(c, p.skip(1), v, if q.len() > 0 { q.skip(1) } else { q });
        lemma_idx(k2, i);
        if q.len() > 0 && q != p && at(t, q) is Some && at(t, q)->0 is Leaf {
            let j = idx(k, q[0]); assert(0 <= j < k.len() && k[j].0 == q[0]);
            if j == i { assert(q[0] == p[0]); if q.skip(1) == p.skip(1) { assert(q =~= seq![q[0]] + q.skip(1)); assert(p =~= seq![p[0]] + p.skip(1)); assert(false); }
                assert(at(t, q) == at(c, q.skip(1))); assert(k2[j].1 == set(c, p.skip(1), v)); }
            else { assert(k2[j] == k[j]); }
            lemma_idx(k2, j); assert(k2[j].0 == q[0]); assert(at(Tree::Node(k2), q) == at(k2[j].1, q.skip(1)));
        }
    } else if q.len() > 0 { assert(at(t, q) is None); } else { assert(q =~= p); }
}
// ---- the visitor and the closure passed in ----------------------------------------------------------
pub struct VpVisitor { pub log: Ghost<Seq<Op>> }
impl VpVisitor {
    pub open spec fn view(&self) -> Seq<Op> { self.log@ }
    pub fn push_segment(&mut self, s: PathSegment) ensures final(self)@ == old(self)@.push(Op::Push(seg(s))) { self.log = Ghost(self.log@.push(Op::Push(seg(s)))); }
    pub fn pop_segment(&mut self) ensures final(self)@ == old(self)@.push(Op::Pop) { self.log = Ghost(self.log@.push(Op::Pop)); }
    pub fn visit_string(&mut self, s: &str) -> (r: bool) ensures final(self)@ == old(self)@.push(Op::Visit(s@)) { self.log = Ghost(self.log@.push(Op::Visit(s@))); true }
}
pub open spec fn seg(s: PathSegment) -> SegV { match s { PathSegment::Field(f) => SegV::Field(f@), PathSegment::Index(i) => SegV::Index(i as int) } }
pub open spec fn segs(p: Path) -> Seq<SegV> { p.segments@.map_values(|s: PathSegment| seg(s)) }
// the closure given to visit_string_mut: what it makes of a text; it says true if it changed it
pub uninterp spec fn edited(v: VpVisit, s: Seq<char>) -> Seq<char>;
pub struct VpVisit { pub calls: Ghost<Seq<Seq<char>>> }
impl VpVisit {
    #[verifier::external_body]
    pub fn vp_call(&mut self, s: &mut String) -> (r: bool)
        ensures final(s)@ == edited(*old(self), old(s)@), !r ==> final(s)@ == old(s)@, final(self).calls@ == old(self).calls@.push(old(s)@),
    { unimplemented!() }
}
// BTreeMap<String, T>: its entries in key order, keys distinct
pub struct VpBMap<T> { pub e: Vec<(String, T)> }
pub open spec fn keyed<T>(e: Seq<(String, T)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0@ == k }
pub open spec fn key_at<T>(e: Seq<(String, T)>, k: Seq<char>) -> int { choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0@ == k }
impl<T> VpBMap<T> {
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &String) -> (r: Option<&mut T>)
        ensures
            r is Some <==> keyed(old(self).e@, k@),
            r is Some ==> *(r->0) == old(self).e@[key_at(old(self).e@, k@)].1 && final(self).e@ == old(self).e@.update(key_at(old(self).e@, k@), (old(self).e@[key_at(old(self).e@, k@)].0, *final(r->0))),
            r is None ==> *final(self) == *old(self),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_get_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: Option<&'a mut T>)
    ensures r is Some <==> i < old(v)@.len(), r is Some ==> *(r->0) == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(r->0)), r is None ==> *final(v) == *old(v),
{ v.get_mut(i) }
#[verifier::external_body]
pub fn vp_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vp_field(a: &String) -> (r: PathSegment) ensures seg(r) == SegV::Field(a@) { unimplemented!() }
pub proof fn lemma_kid_ops_app(a: Seq<(SegV, Tree)>, b: Seq<(SegV, Tree)>, n: int)
    requires 0 <= n <= b.len(),
    ensures kid_ops(a + b, a.len() + n) == kid_ops(a, a.len() as int) + kid_ops(b, n),
    decreases n,
{
    if n > 0 { lemma_kid_ops_app(a, b, n - 1); assert((a + b)[a.len() + n - 1] == b[n - 1]); assert(kid_ops(a + b, a.len() + n) =~= kid_ops(a, a.len() as int) + kid_ops(b, n)); }
    else { lemma_kid_ops_same(a, a + b, a.len() as int); assert(kid_ops(a, a.len() as int) + kid_ops(b, 0) =~= kid_ops(a, a.len() as int)); }
}
pub proof fn lemma_kid_ops_same(a: Seq<(SegV, Tree)>, b: Seq<(SegV, Tree)>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i],
    ensures kid_ops(a, n) == kid_ops(b, n),
    decreases n,
{ if n > 0 { lemma_kid_ops_same(a, b, n - 1); assert(a[n - 1] == b[n - 1]); } }
