use vstd::prelude::*;
verus! {
broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
//@include prelude/event_tree.rs
// serde_json
#[verifier::external_body]
pub struct Number { x: u8 }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(VpBMap<Value>) }
pub uninterp spec fn num_text(n: Number) -> Seq<char>;
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
impl Number {
    #[verifier::external_body]
    pub fn vp_text(&self) -> (r: String) ensures r@ == num_text(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_bool_text(b: &bool) -> (r: String) ensures r@ == bool_text(*b) { b.to_string() }
pub fn vp_panic() requires false { }
impl Value {
    // Display of a boolean or number value
    #[verifier::external_body]
    pub fn vp_text(&self) -> (r: String) requires self is Bool || self is Number ensures r@ == tree(*self)->Leaf_0 { unimplemented!() }
    pub fn as_object_mut(&mut self) -> (r: Option<&mut VpBMap<Value>>)
        ensures r is Some <==> (*old(self)) is Object, r is Some ==> *(r->0) == (*old(self))->Object_0 && *final(self) == Value::Object(*final(r->0)), r is None ==> *final(self) == *old(self),
    { match self { Self::Object(x) => Some(x), _ => None } }
    pub fn as_array_mut(&mut self) -> (r: Option<&mut Vec<Value>>)
        ensures r is Some <==> (*old(self)) is Array, r is Some ==> *(r->0) == (*old(self))->Array_0 && *final(self) == Value::Array(*final(r->0)), r is None ==> *final(self) == *old(self),
    { match self { Self::Array(x) => Some(x), _ => None } }
}
pub open spec fn tree(e: Value) -> Tree decreases e
{
    match e {
        Value::Null => Tree::Nil,
        Value::Bool(b) => Tree::Leaf(bool_text(b)),
        Value::Number(n) => Tree::Leaf(num_text(n)),
        Value::String(s) => Tree::Leaf(s@),
        Value::Array(l) => Tree::Node(items(l, l@.len() as int)),
        Value::Object(m) => Tree::Node(fields(m.e, m.e@.len() as int)),
    }
}
pub open spec fn items(l: Vec<Value>, n: int) -> Seq<(SegV, Tree)> decreases l, n
{ if n <= 0 || n > l@.len() { seq![] } else { items(l, n - 1).push((SegV::Index(n - 1), tree(l@[n - 1]))) } }
pub open spec fn fields(m: Vec<(String, Value)>, n: int) -> Seq<(SegV, Tree)> decreases m, n
{ if n <= 0 || n > m@.len() { seq![] } else { fields(m, n - 1).push((SegV::Field(m@[n - 1].0@), tree(m@[n - 1].1))) } }
pub proof fn lemma_items(l: Vec<Value>, n: int, i: int)
    requires 0 <= n <= l@.len(),
    ensures items(l, n).len() == n, 0 <= i < n ==> items(l, n)[i] == (SegV::Index(i), tree(l@[i])),
    decreases n,
{ if n > 0 { lemma_items(l, n - 1, i); } }
pub proof fn lemma_fields(m: Vec<(String, Value)>, n: int, i: int)
    requires 0 <= n <= m@.len(),
    ensures fields(m, n).len() == n, 0 <= i < n ==> fields(m, n)[i] == (SegV::Field(m@[i].0@), tree(m@[i].1)),
    decreases n,
{ if n > 0 { lemma_fields(m, n - 1, i); } }
pub open spec fn htree(m: VpBMap<Value>) -> Tree { Tree::Node(fields(m.e, m.e@.len() as int)) }
pub proof fn lemma_map_child(m: VpBMap<Value>, k: Seq<char>)
    requires distinct(htree(m)), has(htree(m)->Node_0, SegV::Field(k)),
    ensures
        keyed(m.e@, k),
        htree(m)->Node_0[idx(htree(m)->Node_0, SegV::Field(k))].1 == tree(m.e@[key_at(m.e@, k)].1),
        forall|w: VpBMap<Value>| #[trigger] w.e@ == m.e@.update(key_at(m.e@, k), (m.e@[key_at(m.e@, k)].0, w.e@[key_at(m.e@, k)].1))
            ==> htree(w) == set(htree(m), seq![SegV::Field(k)], tree(w.e@[key_at(m.e@, k)].1)),
{
    let n = m.e@.len() as int; let b = fields(m.e, n); let j = idx(b, SegV::Field(k));
    lemma_fields(m.e, n, j); assert(0 <= j < b.len() && b[j].0 == SegV::Field(k)); assert(m.e@[j].0@ == k);
    let i = key_at(m.e@, k); assert(0 <= i < n && m.e@[i].0@ == k);
    lemma_fields(m.e, n, i); lemma_idx(b, i); assert(i == j);
    assert forall|w: VpBMap<Value>| #[trigger] w.e@ == m.e@.update(i, (m.e@[i].0, w.e@[i].1)) implies htree(w) == set(htree(m), seq![SegV::Field(k)], tree(w.e@[i].1)) by {
        let c = tree(w.e@[i].1); let b2 = b.update(i, (SegV::Field(k), c));
        assert(w.e@.len() == n); assert(w.e@[i].0 == m.e@[i].0);
        assert forall|x: int| 0 <= x < n implies #[trigger] fields(w.e, n)[x] == b2[x] by { lemma_fields(w.e, n, x); lemma_fields(m.e, n, x); if x != i { assert(w.e@[x] == m.e@[x]); } }
        lemma_fields(w.e, n, 0); assert(fields(w.e, n) =~= b2);
        let p = seq![SegV::Field(k)]; assert(p[0] == SegV::Field(k)); assert(p.skip(1).len() == 0);
        reveal_with_fuel(set, 2);
        assert(set(b[j].1, p.skip(1), c) == c);
        assert(set(htree(m), p, c) == Tree::Node(b2));
    }
}
pub proof fn lemma_array_child(l: Vec<Value>, i: int)
    requires has(items(l, l@.len() as int), SegV::Index(i)),
    ensures
        0 <= i < l@.len(),
        items(l, l@.len() as int)[idx(items(l, l@.len() as int), SegV::Index(i))].1 == tree(l@[i]),
        forall|w: Vec<Value>| #[trigger] w@ == l@.update(i, w@[i]) ==> tree(Value::Array(w)) == set(tree(Value::Array(l)), seq![SegV::Index(i)], tree(w@[i])),
{
    let n = l@.len() as int; let b = items(l, n); let j = idx(b, SegV::Index(i));
    assert(0 <= j < b.len() && b[j].0 == SegV::Index(i)) by { lemma_items(l, n, 0); }
    lemma_items(l, n, j); assert(i == j);
    assert forall|w: Vec<Value>| #[trigger] w@ == l@.update(i, w@[i]) implies tree(Value::Array(w)) == set(tree(Value::Array(l)), seq![SegV::Index(i)], tree(w@[i])) by {
        let c = tree(w@[i]); let b2 = b.update(i, (SegV::Index(i), c));
        assert(w@.len() == n);
        assert forall|x: int| 0 <= x < n implies #[trigger] items(w, n)[x] == b2[x] by { lemma_items(w, n, x); lemma_items(l, n, x); if x != i { assert(w@[x] == l@[x]); } }
        lemma_items(w, n, 0); assert(items(w, n) =~= b2);
        let p = seq![SegV::Index(i)]; assert(p[0] == SegV::Index(i)); assert(p.skip(1).len() == 0);
        reveal_with_fuel(set, 2);
        assert(set(b[j].1, p.skip(1), c) == c);
        assert(set(tree(Value::Array(l)), p, c) == Tree::Node(b2));
    }
}
impl Value {
/*@extract
file = "sds/src/event_json.rs"
item = "Value::visit_event"
contract = '''
    ensures final(visitor)@ == old(visitor)@ + ops(tree(*self)),
    decreases self,
'''
start = "let ghost log0 = visitor@;"
[[rewrite]]
from = "visit_event<'a>(&'a mut self, visitor: &mut impl EventVisitor<'a>)"
to = "visit_event(&self, visitor: &mut VpVisitor)"
[[rewrite]]
from = "serde_json::Value"
to = "Value"
all = true
[[rewrite]]
from = "value.to_string().as_str()"
to = "vp_bool_text(value).as_str()"
[[rewrite]]
from = "number.to_string().as_str()"
to = "number.vp_text().as_str()"
[[rewrite]]
from = "for (k, child) in map.iter_mut()"
to = "let mut vp_i: usize = 0; while vp_i < map.e.len()"
[[rewrite]]
from = "for (i, value) in values.iter_mut().enumerate()"
to = "let mut vp_i: usize = 0; while vp_i < values.len()"
[[rewrite]]
from = "k.as_str().into()"
to = "vp_field(k)"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant *self == Value::Object(*map), vp_i <= map.e@.len(), visitor@ == log0 + kid_ops(fields(map.e, vp_i as int), vp_i as int),
    decreases map.e@.len() - vp_i,
'''
before = "proof { assert(log0 + kid_ops(fields(map.e, 0), 0) =~= log0); }"
start = "let vp_e = &map.e[vp_i]; let k = &vp_e.0; let child = &vp_e.1; proof { assert(decreases_to!(*self => (*self)->Object_0)); assert((*self)->Object_0 == *map); assert(decreases_to!(*map => map.e)); assert(decreases_to!(map.e => map.e[vp_i as int])); assert(decreases_to!(map.e[vp_i as int] => map.e[vp_i as int].1)); } vp_i += 1;"
end = '''proof {
    let f = fields(map.e, vp_i as int); let f0 = fields(map.e, vp_i - 1);
    lemma_fields(map.e, vp_i as int, vp_i - 1); lemma_fields(map.e, vp_i - 1, 0); lemma_kid_ops_same(f0, f, vp_i - 1);
    assert(kid_ops(f, vp_i as int) == kid_ops(f, vp_i - 1) + one_kid(SegV::Field(k@), ops(tree(*child))));
    assert(visitor@ =~= log0 + kid_ops(f, vp_i as int));
}'''
after = "proof { lemma_fields(map.e, map.e@.len() as int, 0); }"
[[loop]]
n = 1
kind = "for"
spec = '''
    invariant *self == Value::Array(*values), vp_i <= values@.len(), visitor@ == log0 + kid_ops(items(*values, vp_i as int), vp_i as int),
    decreases values@.len() - vp_i,
'''
before = "proof { assert(log0 + kid_ops(items(*values, 0), 0) =~= log0); }"
start = "let i = vp_i; let value = &values[vp_i]; proof { assert(decreases_to!(*self => (*self)->Array_0)); assert((*self)->Array_0 == *values); assert(decreases_to!(*values => values[vp_i as int])); } vp_i += 1;"
end = '''proof {
    let f = items(*values, vp_i as int); let f0 = items(*values, vp_i - 1);
    lemma_items(*values, vp_i as int, i as int); lemma_items(*values, vp_i - 1, 0); lemma_kid_ops_same(f0, f, i as int);
    assert(kid_ops(f, vp_i as int) == kid_ops(f, vp_i - 1) + one_kid(SegV::Index(i as int), ops(tree(*value))));
    assert(visitor@ =~= log0 + kid_ops(f, vp_i as int));
}'''
after = "proof { lemma_items(*values, values@.len() as int, 0); }"
@*/
/*@extract
file = "sds/src/event_json.rs"
item = "Value::visit_string_mut"
contract = '''
    requires distinct(tree(*old(self))), at(tree(*old(self)), segs(*path)) is Some, at(tree(*old(self)), segs(*path))->0 is Leaf,
    ensures
        final(visit).calls@ == old(visit).calls@.push(at(tree(*old(self)), segs(*path))->0->Leaf_0),
        tree(*final(self)) == set(tree(*old(self)), segs(*path), Tree::Leaf(edited(*old(visit), at(tree(*old(self)), segs(*path))->0->Leaf_0))),
'''
start = "let ghost t0 = tree(*self); let ghost p = segs(*path);"
[[rewrite]]
from = "mut visit: impl FnMut(&mut String) -> bool"
to = "visit: &mut VpVisit"
[[rewrite]]
from = "serde_json::Value"
to = "Value"
all = true
[[rewrite]]
from = "for segment in &path.segments"
to = "let mut vp_i: usize = 0; while vp_i < path.segments.len()"
[[rewrite]]
from = "get_mut(key.as_ref())"
to = "get_mut(key)"
[[rewrite]]
from = "value.as_array_mut().unwrap().get_mut(*i)"
to = "vp_get_mut(value.as_array_mut().unwrap(), *i)"
[[rewrite]]
from = "(visit)($x)"
to = "visit.vp_call($x)"
all = true
[[rewrite]]
from = "value.to_string()"
to = "value.vp_text()"
[[rewrite]]
from = "panic!($m)"
to = "vp_panic()"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant
        vp_i <= path.segments@.len(), p == segs(*path), distinct(t0), at(t0, p) is Some,
        at(t0, p.take(vp_i as int)) == Some(tree(*value)),
        tree(*final(self)) == set(t0, p.take(vp_i as int), tree(*final(value))),
    decreases path.segments@.len() - vp_i,
'''
before = "proof { assert(p.take(0).len() == 0); }"
start = '''let segment = &path.segments[vp_i]; let ghost m = *value; let ghost m2 = *final(value); let ghost s = p[vp_i as int];
proof {
    assert(s == seg(*segment)); assert(p.take(vp_i + 1) =~= p.take(vp_i as int).push(s));
    lemma_at_snoc(t0, p.take(vp_i as int), s); lemma_prefix(t0, p, vp_i + 1); lemma_at_distinct(t0, p.take(vp_i as int));
    assert(seq![s].skip(1).len() == 0); assert(seq![s][0] == s); reveal_with_fuel(at, 2);
    assert(at(tree(m), seq![s]) is Some); assert(tree(m) is Node); assert(has(tree(m)->Node_0, s));
    match segment { PathSegment::Field(k) => {
        if m is Array { let l = m->Array_0; let b = items(l, l@.len() as int); let j = idx(b, s); lemma_items(l, l@.len() as int, 0); lemma_items(l, l@.len() as int, j); assert(false); }
        assert(tree(m) == htree(m->Object_0)); lemma_map_child(m->Object_0, k@); }, PathSegment::Index(i) => {
        if m is Object { let w = m->Object_0.e; let l = w@.len() as int; let b = fields(w, l); let j = idx(b, s); assert(0 <= j < b.len() && b[j].0 == s); lemma_fields(w, l, j); assert(false); }
        lemma_array_child(m->Array_0, *i as int); } }
}'''
end = '''proof {
    if m2 is Object { assert(tree(m2) == htree(m2->Object_0)); }
    assert(tree(m2) == set(tree(m), seq![s], tree(*final(value))));
    lemma_set_snoc(t0, p.take(vp_i as int), s, tree(*final(value)));
}
vp_i += 1;'''
after = "proof { assert(p.take(vp_i as int) =~= p); }"
@*/
}

// HashMap<String, Value>: its entries in iteration order, keys distinct
impl Path {
    pub fn from(segments: Vec<PathSegment>) -> (r: Path) ensures r.segments == segments { Path { segments } }
}
#[verifier::external_body]
pub fn vp_clone(v: &Vec<PathSegment>) -> (r: Vec<PathSegment>) ensures r@.map_values(|s: PathSegment| seg(s)) == v@.map_values(|s: PathSegment| seg(s)), r@.len() == v@.len() { unimplemented!() }
impl VpBMap<Value> {
/*@extract
file = "sds/src/event_json.rs"
item = "HashMap::visit_event"
contract = '''
    ensures final(visitor)@ == old(visitor)@ + ops(htree(*self)),
'''
start = "let ghost log0 = visitor@;"
[[rewrite]]
from = "visit_event<'a>(&'a mut self, visitor: &mut impl EventVisitor<'a>)"
to = "visit_event(&self, visitor: &mut VpVisitor)"
[[rewrite]]
from = "for (k, v) in self.iter_mut()"
to = "let mut vp_i: usize = 0; while vp_i < self.e.len()"
[[rewrite]]
from = "PathSegment::Field(k.as_str().into())"
to = "vp_field(k)"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant vp_i <= self.e@.len(), visitor@ == log0 + kid_ops(fields(self.e, vp_i as int), vp_i as int),
    decreases self.e@.len() - vp_i,
'''
before = "proof { assert(log0 + kid_ops(fields(self.e, 0), 0) =~= log0); }"
start = "let vp_e = &self.e[vp_i]; let k = &vp_e.0; let v = &vp_e.1; vp_i += 1;"
end = '''proof {
    let f = fields(self.e, vp_i as int); let f0 = fields(self.e, vp_i - 1);
    lemma_fields(self.e, vp_i as int, vp_i - 1); lemma_fields(self.e, vp_i - 1, 0); lemma_kid_ops_same(f0, f, vp_i - 1);
    assert(kid_ops(f, vp_i as int) == kid_ops(f, vp_i - 1) + one_kid(SegV::Field(k@), ops(tree(*v))));
    assert(visitor@ =~= log0 + kid_ops(f, vp_i as int));
}'''
after = "proof { lemma_fields(self.e, self.e@.len() as int, 0); }"
@*/
/*@extract
file = "sds/src/event_json.rs"
item = "HashMap::visit_string_mut"
contract = '''
    requires distinct(htree(*old(self))), at(htree(*old(self)), segs(*path)) is Some, at(htree(*old(self)), segs(*path))->0 is Leaf,
    ensures
        final(visit).calls@ == old(visit).calls@.push(at(htree(*old(self)), segs(*path))->0->Leaf_0),
        htree(*final(self)) == set(htree(*old(self)), segs(*path), Tree::Leaf(edited(*old(visit), at(htree(*old(self)), segs(*path))->0->Leaf_0))),
'''
start = '''let ghost m0 = *self; let ghost p = segs(*path); let ghost k0 = htree(m0)->Node_0; let ghost s0 = p[0];
proof {
    assert(p.len() > 0); assert(p[0] == seg(path.segments@[0])); assert(has(k0, p[0])); let j = idx(k0, p[0]); lemma_fields(m0.e, m0.e@.len() as int, j); assert(p[0] is Field);
    lemma_map_child(m0, p[0]->Field_0); assert(distinct(k0[j].1));
}'''
[[rewrite]]
from = "mut visit: impl FnMut(&mut String) -> bool"
to = "visit: &mut VpVisit"
[[rewrite]]
from = "path.segments.first().unwrap()"
to = "&path.segments[0]"
optional = true
[[rewrite]]
from = "path.segments.clone()"
to = "vp_clone(&path.segments)"
optional = true
[[rewrite]]
from = "remaining_segments.remove(0);"
to = "{ let ghost r0 = remaining_segments@; remaining_segments.remove(0); proof { let f = |s: PathSegment| seg(s); assert(remaining_segments@ =~= r0.skip(1)); assert(r0.map_values(f) == p); assert forall|i: int| 0 <= i < remaining_segments@.len() implies #[trigger] remaining_segments@.map_values(f)[i] == p.skip(1)[i] by { assert(r0.map_values(f)[i + 1] == p[i + 1]); } assert(remaining_segments@.map_values(f) =~= p.skip(1)); } }"
[[rewrite]]
from = "self.get_mut(&field.to_string())"
to = "self.get_mut(field)"
[[rewrite]]
from = "&mut visit"
to = "visit"
[[after]]
pattern = "value.visit_string_mut($x);"
text = '''proof {
    let q = seq![p[0]]; assert(q[0] == p[0]); assert(q.skip(1).len() == 0);
    let j = idx(k0, p[0]); let c = tree(*final(value));
    reveal_with_fuel(set, 2); assert(set(k0[j].1, q.skip(1), c) == c);
}'''
@*/
}
// String
/*@extract
file = "sds/src/event.rs"
item = "String::visit_event"
contract = '''
    ensures final(visitor)@ == old(visitor)@ + ops(Tree::Leaf(this@)),
'''
[[rewrite]]
from = "visit_event<'path>(&'path mut self, visitor: &mut impl EventVisitor<'path>)"
to = "string_visit_event(this: &String, visitor: &mut VpVisitor)"
[[rewrite]]
from = "visit_string(self)"
to = "visit_string(this)"
[[after]]
pattern = "visitor.visit_string(self);"
text = "proof { assert(visitor@ =~= old(visitor)@ + ops(Tree::Leaf(this@))); }"
@*/
/*@extract
file = "sds/src/event.rs"
item = "String::visit_string_mut"
contract = '''
    requires at(Tree::Leaf(old(this)@), segs(*path)) is Some,
    ensures final(visit).calls@ == old(visit).calls@.push(old(this)@), Tree::Leaf(final(this)@) == set(Tree::Leaf(old(this)@), segs(*path), Tree::Leaf(edited(*old(visit), old(this)@))),
'''
[[rewrite]]
from = "visit_string_mut(&mut self, _path: &Path, mut visit: impl FnMut(&mut String) -> bool)"
to = "string_visit_string_mut(this: &mut String, path: &Path, visit: &mut VpVisit)"
[[rewrite]]
from = "(visit)(self)"
to = "visit.vp_call(this)"
@*/
}
fn main() {}
