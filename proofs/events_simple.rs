use vstd::prelude::*;
verus! {
broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
//@include prelude/event_tree.rs
/*@extract
file = "sds/src/simple_event.rs"
item = "FIRST_VISIT_KEY"
kind = "static"
[[rewrite]]
from = "static FIRST_VISIT_KEY: &str = $x;"
to = "const FIRST_VISIT_KEY: &'static str = $x;"
@*/
/*@extract
file = "sds/src/simple_event.rs"
item = "SimpleEvent"
kind = "enum"
[[rewrite]]
from = "BTreeMap<String, SimpleEvent>"
to = "VpBMap<SimpleEvent>"
@*/
pub open spec fn first_key() -> Seq<char> { FIRST_VISIT_KEY@ }
pub open spec fn tree(e: SimpleEvent) -> Tree decreases e
{
    match e {
        SimpleEvent::String(s) => Tree::Leaf(s@),
        SimpleEvent::List(l) => Tree::Node(items(l, l@.len() as int)),
        SimpleEvent::Map(m) => Tree::Node(fields(m.e, m.e@.len() as int, true) + fields(m.e, m.e@.len() as int, false)),
    }
}
pub open spec fn items(l: Vec<SimpleEvent>, n: int) -> Seq<(SegV, Tree)> decreases l, n
{ if n <= 0 || n > l@.len() { seq![] } else { items(l, n - 1).push((SegV::Index(n - 1), tree(l@[n - 1]))) } }
// the "message" entry (first == true) or the other ones
pub open spec fn fields(m: Vec<(String, SimpleEvent)>, n: int, first: bool) -> Seq<(SegV, Tree)> decreases m, n
{
    if n <= 0 || n > m@.len() { seq![] }
    else if (m@[n - 1].0@ == first_key()) == first { fields(m, n - 1, first).push((SegV::Field(m@[n - 1].0@), tree(m@[n - 1].1))) }
    else { fields(m, n - 1, first) }
}

pub proof fn lemma_items(l: Vec<SimpleEvent>, n: int, i: int)
    requires 0 <= n <= l@.len(),
    ensures items(l, n).len() == n, 0 <= i < n ==> items(l, n)[i] == (SegV::Index(i), tree(l@[i])),
    decreases n,
{ if n > 0 { lemma_items(l, n - 1, i); } }
pub proof fn lemma_items_same(l: Vec<SimpleEvent>, k: Vec<SimpleEvent>, n: int)
    requires 0 <= n <= l@.len(), l@.len() == k@.len(), forall|i: int| 0 <= i < n ==> tree(#[trigger] l@[i]) == tree(k@[i]),
    ensures items(l, n) == items(k, n),
    decreases n,
{ if n > 0 { lemma_items_same(l, k, n - 1); assert(tree(l@[n - 1]) == tree(k@[n - 1])); } }
// entry i is found among the children
pub proof fn lemma_field(m: Vec<(String, SimpleEvent)>, n: int, i: int, first: bool)
    requires 0 <= i < n <= m@.len(), (m@[i].0@ == first_key()) == first,
    ensures ({ let j = fields(m, i, first).len() as int; 0 <= j < fields(m, n, first).len() && fields(m, n, first)[j] == (SegV::Field(m@[i].0@), tree(m@[i].1)) }),
    decreases n,
{ if i < n - 1 { lemma_field(m, n - 1, i, first); } }
// each child is an entry
pub proof fn lemma_from(m: Vec<(String, SimpleEvent)>, n: int, first: bool, j: int) -> (i: int)
    requires 0 <= n <= m@.len(), 0 <= j < fields(m, n, first).len(),
    ensures 0 <= i < n, fields(m, n, first)[j] == (SegV::Field(m@[i].0@), tree(m@[i].1)),
    decreases n,
{
    if n <= 0 { 0 }
    else if (m@[n - 1].0@ == first_key()) == first && j == fields(m, n - 1, first).len() { n - 1 }
    else { lemma_from(m, n - 1, first, j) }
}
pub proof fn lemma_fields_update(m: Vec<(String, SimpleEvent)>, w: Vec<(String, SimpleEvent)>, n: int, i: int, first: bool)
    requires
        0 <= n <= m@.len(), 0 <= i < m@.len(), w@.len() == m@.len(), w@ == m@.update(i, w@[i]), w@[i].0@ == m@[i].0@,
    ensures
        (m@[i].0@ == first_key()) != first || i >= n ==> fields(w, n, first) == fields(m, n, first),
        (m@[i].0@ == first_key()) == first && i < n ==> fields(w, n, first) == fields(m, n, first).update(fields(m, i, first).len() as int, (SegV::Field(m@[i].0@), tree(w@[i].1))),
        fields(w, n, first).len() == fields(m, n, first).len(),
    decreases n,
{
    if n > 0 {
        lemma_fields_update(m, w, n - 1, i, first);
        if i != n - 1 { assert(w@[n - 1] == m@[n - 1]); }
        if (m@[i].0@ == first_key()) == first && i < n {
            let j = fields(m, i, first).len() as int;
            lemma_field(m, n, i, first);
            if i < n - 1 { lemma_field(m, n - 1, i, first); }
            assert(fields(w, n, first) =~= fields(m, n, first).update(j, (SegV::Field(m@[i].0@), tree(w@[i].1))));
        }
    }
}
pub open spec fn both(m: Vec<(String, SimpleEvent)>) -> Seq<(SegV, Tree)> { fields(m, m@.len() as int, true) + fields(m, m@.len() as int, false) }
// what get_mut on the map does, in terms of the tree
pub proof fn lemma_map_child(e: SimpleEvent, k: Seq<char>)
    requires e is Map, distinct(tree(e)), has(both(e->Map_0.e), SegV::Field(k)),
    ensures
        keyed(e->Map_0.e@, k),
        both(e->Map_0.e)[idx(both(e->Map_0.e), SegV::Field(k))].1 == tree(e->Map_0.e@[key_at(e->Map_0.e@, k)].1),
        forall|e2: SimpleEvent| e2 is Map && #[trigger] e2->Map_0.e@ == e->Map_0.e@.update(key_at(e->Map_0.e@, k), (e->Map_0.e@[key_at(e->Map_0.e@, k)].0, e2->Map_0.e@[key_at(e->Map_0.e@, k)].1))
            ==> tree(e2) == set(tree(e), seq![SegV::Field(k)], tree(e2->Map_0.e@[key_at(e->Map_0.e@, k)].1)),
{
    let m = e->Map_0.e; let l = m@.len() as int; let b = both(m); let j0 = idx(b, SegV::Field(k)); let nf = fields(m, l, true).len() as int;
    assert(0 <= j0 < b.len() && b[j0].0 == SegV::Field(k));
    let i0 = if j0 < nf { lemma_from(m, l, true, j0) } else { lemma_from(m, l, false, j0 - nf) };
    assert(m@[i0].0@ == k);
    let i = key_at(m@, k); assert(0 <= i < l && m@[i].0@ == k);
    let first = (k == first_key());
    lemma_field(m, l, i, first);
    let j = fields(m, i, first).len() as int + (if first { 0 } else { nf });
    assert(b[j] == (SegV::Field(k), tree(m@[i].1)));
    lemma_idx(b, j); assert(j == j0);
    assert forall|e2: SimpleEvent| e2 is Map && #[trigger] e2->Map_0.e@ == m@.update(i, (m@[i].0, e2->Map_0.e@[i].1))
            implies tree(e2) == set(tree(e), seq![SegV::Field(k)], tree(e2->Map_0.e@[i].1)) by {
        let w = e2->Map_0.e;
        assert(w@[i].0 == m@[i].0); assert(w@ =~= m@.update(i, w@[i]));
        lemma_fields_update(m, w, l, i, true); lemma_fields_update(m, w, l, i, false);
        let c = tree(w@[i].1);
        assert(both(w) =~= b.update(j, (SegV::Field(k), c)));
        let p = seq![SegV::Field(k)]; assert(p[0] == SegV::Field(k)); assert(p.skip(1).len() == 0);
        reveal_with_fuel(set, 2);
        assert(set(b[j].1, p.skip(1), c) == c);
        assert(set(tree(e), p, c) == Tree::Node(b.update(j, (SegV::Field(k), c))));
        assert(tree(e2) == Tree::Node(both(w)));
    }
}
pub proof fn lemma_list_child(e: SimpleEvent, i: int)
    requires e is List, distinct(tree(e)), has(items(e->List_0, e->List_0@.len() as int), SegV::Index(i)),
    ensures
        0 <= i < e->List_0@.len(),
        items(e->List_0, e->List_0@.len() as int)[idx(items(e->List_0, e->List_0@.len() as int), SegV::Index(i))].1 == tree(e->List_0@[i]),
        forall|e2: SimpleEvent| e2 is List && #[trigger] e2->List_0@ == e->List_0@.update(i, e2->List_0@[i]) ==> tree(e2) == set(tree(e), seq![SegV::Index(i)], tree(e2->List_0@[i])),
{
    let l = e->List_0; let n = l@.len() as int; let b = items(l, n); let j = idx(b, SegV::Index(i));
    assert(0 <= j < b.len() && b[j].0 == SegV::Index(i)) by { lemma_items(l, n, 0); }
    lemma_items(l, n, j); assert(i == j);
    assert forall|e2: SimpleEvent| e2 is List && #[trigger] e2->List_0@ == l@.update(i, e2->List_0@[i]) implies tree(e2) == set(tree(e), seq![SegV::Index(i)], tree(e2->List_0@[i])) by {
        let w = e2->List_0; let c = tree(w@[i]);
        assert forall|x: int| 0 <= x < n implies #[trigger] items(w, n)[x] == b.update(i, (SegV::Index(i), c))[x] by { lemma_items(w, n, x); lemma_items(l, n, x); if x != i { assert(w@[x] == l@[x]); } }
        lemma_items(w, n, 0); lemma_items(l, n, 0);
        assert(items(w, n) =~= b.update(i, (SegV::Index(i), c)));
        let p = seq![SegV::Index(i)]; assert(p[0] == SegV::Index(i)); assert(p.skip(1).len() == 0);
        reveal_with_fuel(set, 2);
        assert(set(b[j].1, p.skip(1), c) == c);
        assert(set(tree(e), p, c) == Tree::Node(b.update(j, (SegV::Index(i), c))));
    }
}
impl SimpleEvent {
/*@extract
file = "sds/src/simple_event.rs"
item = "SimpleEvent::as_list_mut"
ret = "r"
contract = '''
    ensures r is Some <==> (*old(self)) is List, r is Some ==> *(r->0) == (*old(self))->List_0 && *final(self) == SimpleEvent::List(*final(r->0)), r is None ==> *final(self) == *old(self),
'''
@*/
/*@extract
file = "sds/src/simple_event.rs"
item = "SimpleEvent::as_map_mut"
contract = '''
    ensures r is Some <==> (*old(self)) is Map, r is Some ==> *(r->0) == (*old(self))->Map_0 && *final(self) == SimpleEvent::Map(*final(r->0)), r is None ==> *final(self) == *old(self),
'''
[[rewrite]]
from = "-> Option<&mut BTreeMap<String, SimpleEvent>>"
to = "-> (r: Option<&mut VpBMap<SimpleEvent>>)"
@*/
/*@extract
file = "sds/src/simple_event.rs"
item = "SimpleEvent::as_string_mut"
ret = "r"
contract = '''
    ensures r is Some <==> (*old(self)) is String, r is Some ==> *(r->0) == (*old(self))->String_0 && *final(self) == SimpleEvent::String(*final(r->0)), r is None ==> *final(self) == *old(self),
'''
@*/
/*@extract
file = "sds/src/simple_event.rs"
item = "SimpleEvent::visit_string_mut"
contract = '''
    requires distinct(tree(*old(self))), at(tree(*old(self)), segs(*path)) is Some, at(tree(*old(self)), segs(*path))->0 is Leaf,
    ensures
        final(visit).calls@ == old(visit).calls@.push(at(tree(*old(self)), segs(*path))->0->Leaf_0),
        tree(*final(self)) == set(tree(*old(self)), segs(*path), Tree::Leaf(edited(*old(visit), at(tree(*old(self)), segs(*path))->0->Leaf_0))),
'''
start = "let ghost t0 = tree(*self); let ghost p = segs(*path);"
[[rewrite]]
from = "mut visit: impl FnMut(&mut String) -> bool"
to = "visit: &mut VpVisit"
[[rewrite]]
from = "for segment in &path.segments"
to = "let mut vp_i: usize = 0; while vp_i < path.segments.len()"
[[rewrite]]
from = "get_mut(key.as_ref())"
to = "get_mut(key)"
[[rewrite]]
from = "value.as_list_mut().unwrap().get_mut(*i)"
to = "vp_get_mut(value.as_list_mut().unwrap(), *i)"
[[rewrite]]
from = "(visit)($x)"
to = "visit.vp_call($x)"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant
        vp_i <= path.segments@.len(), p == segs(*path), distinct(t0), at(t0, p) is Some,
        at(t0, p.take(vp_i as int)) == Some(tree(*value)),
        tree(*final(self)) == set(t0, p.take(vp_i as int), tree(*final(value))),
    decreases path.segments@.len() - vp_i,
'''
before = "proof { assert(p.take(0).len() == 0); }"
after = "proof { assert(p.take(vp_i as int) =~= p); }"
start = '''let segment = &path.segments[vp_i]; let ghost m = *value; let ghost m2 = *final(value); let ghost s = p[vp_i as int];
proof {
    assert(s == seg(*segment)); assert(p.take(vp_i + 1) =~= p.take(vp_i as int).push(s));
    lemma_at_snoc(t0, p.take(vp_i as int), s); lemma_prefix(t0, p, vp_i + 1); lemma_at_distinct(t0, p.take(vp_i as int));
    assert(seq![s].skip(1).len() == 0); assert(seq![s][0] == s); reveal_with_fuel(at, 2);
    assert(at(tree(m), seq![s]) is Some); assert(tree(m) is Node); assert(has(tree(m)->Node_0, s));
    match segment { PathSegment::Field(k) => {
        if m is List { let l = m->List_0; let b = items(l, l@.len() as int); let j = idx(b, s); lemma_items(l, l@.len() as int, 0); lemma_items(l, l@.len() as int, j); assert(false); }
        lemma_map_child(m, k@); }, PathSegment::Index(i) => {
        if m is Map { let w = m->Map_0.e; let l = w@.len() as int; let b = both(w); let j = idx(b, s); let nf = fields(w, l, true).len(); assert(0 <= j < b.len() && b[j].0 == s); if j < nf { let x = lemma_from(w, l, true, j); } else { let x = lemma_from(w, l, false, j - nf); } assert(false); }
        lemma_list_child(m, *i as int); } }
}'''
end = '''proof {
    assert(tree(m2) == set(tree(m), seq![s], tree(*final(value))));
    lemma_set_snoc(t0, p.take(vp_i as int), s, tree(*final(value)));
}
vp_i += 1;'''
@*/
/*@extract
file = "sds/src/simple_event.rs"
item = "SimpleEvent::visit_event"
contract = '''
    ensures final(visitor)@ == old(visitor)@ + ops(tree(*self)),
    decreases self,
'''
start = "let ghost log0 = visitor@;"
[[rewrite]]
from = "visit_event<'path>(&'path mut self, visitor: &mut impl EventVisitor<'path>)"
to = "visit_event(&self, visitor: &mut VpVisitor)"
[[rewrite]]
from = "for (i, child) in list.iter_mut().enumerate()"
to = "let mut vp_i: usize = 0; while vp_i < list.len()"
[[rewrite]]
from = "for (key, child) in map.iter_mut()"
to = "let mut vp_i: usize = 0; while vp_i < map.e.len()"
[[rewrite]]
from = "for (key, child) in key_to_post_process"
to = "let mut vp_i: usize = 0; while vp_i < key_to_post_process.len()"
[[rewrite]]
from = "Vec<(&String, &mut SimpleEvent)>"
to = "Vec<(&String, &SimpleEvent)>"
optional = true
[[rewrite]]
from = "key == FIRST_VISIT_KEY"
to = "vp_eq(key, FIRST_VISIT_KEY)"
[[rewrite]]
from = "key.as_str().into()"
to = "vp_field(key)"
all = true
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant *self == SimpleEvent::List(*list), vp_i <= list@.len(), visitor@ == log0 + kid_ops(items(*list, vp_i as int), vp_i as int),
    decreases list@.len() - vp_i,
'''
before = "proof { assert(log0 + kid_ops(items(*list, 0), 0) =~= log0); }"
start = "let i = vp_i; let child = &list[vp_i]; proof { assert(decreases_to!(*self => (*self)->List_0)); assert((*self)->List_0 == *list); assert(decreases_to!(*list => list[vp_i as int])); } vp_i += 1;"
end = '''proof {
    let k = items(*list, vp_i as int); let j = items(*list, vp_i - 1);
    lemma_items(*list, vp_i as int, i as int); lemma_items(*list, vp_i - 1, 0); lemma_kid_ops_same(j, k, i as int);
    assert(kid_ops(k, vp_i as int) == kid_ops(k, vp_i - 1) + one_kid(SegV::Index(i as int), ops(tree(*child))));
    assert(visitor@ =~= log0 + kid_ops(k, vp_i as int));
}'''
after = "proof { lemma_items(*list, list@.len() as int, 0); }"
[[loop]]
n = 1
kind = "for"
spec = '''
    invariant
        *self == SimpleEvent::Map(*map), vp_i <= map.e@.len(), visitor@ == log0 + kid_ops(fields(map.e, vp_i as int, true), fields(map.e, vp_i as int, true).len() as int),
        key_to_post_process@.len() == fields(map.e, vp_i as int, false).len(),
        forall|j: int| 0 <= j < key_to_post_process@.len() ==> fields(map.e, vp_i as int, false)[j] == (SegV::Field((#[trigger] key_to_post_process@[j]).0@), tree(*key_to_post_process@[j].1)),
        forall|j: int| 0 <= j < key_to_post_process@.len() ==> decreases_to!(*self => *(#[trigger] key_to_post_process@[j]).1),
    decreases map.e@.len() - vp_i,
'''
before = "proof { assert(log0 + kid_ops(fields(map.e, 0, true), 0) =~= log0); }"
start = "let vp_e = &map.e[vp_i]; let key = &vp_e.0; let child = &vp_e.1; let ghost f0 = fields(map.e, vp_i as int, true); proof { assert(decreases_to!(*self => (*self)->Map_0)); assert((*self)->Map_0 == *map); assert(decreases_to!(*map => map.e)); assert(decreases_to!(map.e => map.e[vp_i as int])); assert(decreases_to!(map.e[vp_i as int] => map.e[vp_i as int].1)); assert(decreases_to!(*self => *child)); } vp_i += 1;"
end = '''proof {
    let f = fields(map.e, vp_i as int, true);
    if key@ == first_key() {
        lemma_kid_ops_same(f0, f, f0.len() as int);
        assert(kid_ops(f, f.len() as int) == kid_ops(f, f0.len() as int) + one_kid(SegV::Field(key@), ops(tree(*child))));
        assert(visitor@ =~= log0 + kid_ops(f, f.len() as int));
    }
}'''
after = "let ghost fa = fields(map.e, map.e@.len() as int, true); let ghost fb = fields(map.e, map.e@.len() as int, false);"
[[loop]]
n = 2
kind = "for"
spec = '''
    invariant
        vp_i <= key_to_post_process@.len(), visitor@ == log0 + kid_ops(fa, fa.len() as int) + kid_ops(fb, vp_i as int),
        key_to_post_process@.len() == fb.len(),
        forall|j: int| 0 <= j < key_to_post_process@.len() ==> fb[j] == (SegV::Field((#[trigger] key_to_post_process@[j]).0@), tree(*key_to_post_process@[j].1)),
        forall|j: int| 0 <= j < key_to_post_process@.len() ==> decreases_to!(*self => *(#[trigger] key_to_post_process@[j]).1),
    decreases key_to_post_process@.len() - vp_i,
'''
before = "proof { assert(log0 + kid_ops(fa, fa.len() as int) + kid_ops(fb, 0) =~= log0 + kid_ops(fa, fa.len() as int)); }"
start = "let vp_e = &key_to_post_process[vp_i]; let key = vp_e.0; let child = vp_e.1; vp_i += 1; proof { assert(fb[vp_i - 1] == (SegV::Field(key@), tree(*child))); }"
end = '''proof {
    assert(kid_ops(fb, vp_i as int) == kid_ops(fb, vp_i - 1) + one_kid(SegV::Field(key@), ops(tree(*child))));
    assert(visitor@ =~= log0 + kid_ops(fa, fa.len() as int) + kid_ops(fb, vp_i as int));
}'''
after = "proof { lemma_kid_ops_app(fa, fb, fb.len() as int); assert(visitor@ =~= log0 + kid_ops(fa + fb, (fa + fb).len() as int)); }"
@*/
}
}
fn main() {}
