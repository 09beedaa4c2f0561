use vstd::prelude::*;
verus! {
// strings and labels are opaque; a label is a key and a value
#[verifier::external_body]
pub struct VpStr { x: u8 }
impl View for VpStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VpStr {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: VpStr) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Label { x: u8 }
impl View for Label { type V = (Seq<char>, Seq<char>); uninterp spec fn view(&self) -> (Seq<char>, Seq<char>); }
impl Label {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Label) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &VpStr) ensures r@ == self@.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn value(&self) -> (r: &VpStr) ensures r@ == self@.1 { unimplemented!() }
}
pub open spec fn lv(s: Seq<Label>) -> Seq<(Seq<char>, Seq<char>)> { s.map_values(|l: Label| l@) }
pub open spec fn pv(s: Seq<(VpStr, VpStr)>) -> Seq<(Seq<char>, Seq<char>)> { s.map_values(|p: (VpStr, VpStr)| (p.0@, p.1@)) }
pub open spec fn sv(s: Seq<VpStr>) -> Seq<Seq<char>> { s.map_values(|x: VpStr| x@) }
pub open spec fn rv(s: Seq<&VpStr>) -> Seq<Seq<char>> { s.map_values(|x: &VpStr| x@) }
#[verifier::external_body]
pub fn vp_vec_clone(v: &Vec<Label>) -> (r: Vec<Label>) ensures lv(r@) == lv(v@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_extend(v: &mut Vec<Label>, w: Vec<Label>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
// `.into_iter().map(Label::from).collect()`: one label per pair, in order
#[verifier::external_body]
pub fn vp_from_pairs(v: &Vec<(VpStr, VpStr)>) -> (r: Vec<Label>) ensures lv(r@) == pv(v@) { unimplemented!() }
pub struct Labels(pub Vec<Label>);
impl Labels {
    pub open spec fn list(&self) -> Seq<(Seq<char>, Seq<char>)> { lv(self.0@) }
/*@extract
file = "sds/src/observability/labels.rs"
item = "Labels::clone_with_labels"
ret = "r"
contract = "ensures r.list() == self.list() + additional_labels.list(),"
start = "let ghost a = additional_labels.0@;"
[[rewrite]]
from = "self.0.clone()"
to = "vp_vec_clone(&self.0)"
[[rewrite]]
from = "tags.extend($x);"
to = "let ghost t0 = tags@; vp_extend(&mut tags, $x); proof { assert(lv(t0 + a) =~= lv(t0) + lv(a)); }"
@*/
/*@extract
file = "sds/src/observability/labels.rs"
item = "Labels::new"
contract = "ensures r.list() == pv(labels@),"
[[rewrite]]
from = "new<'a, T: 'a>(labels: impl IntoIterator<Item = &'a T>) -> Self where Label: From<&'a T>,"
to = "new(labels: &Vec<(VpStr, VpStr)>) -> (r: Self)"
[[rewrite]]
from = "labels.into_iter().map(Label::from).collect()"
to = "vp_from_pairs(labels)"
@*/
/*@extract
file = "sds/src/observability/labels.rs"
item = "Labels::empty"
ret = "r"
contract = "ensures r.list() == Seq::<(Seq<char>, Seq<char>)>::empty(),"
[[rewrite]]
from = "Labels(vec![])"
to = "{ let r = Labels(Vec::new()); proof { assert(r.list() =~= Seq::<(Seq<char>, Seq<char>)>::empty()); } r }"
@*/
/*@extract
file = "sds/src/observability/labels.rs"
item = "IntoLabels for Labels::into_labels"
ret = "r"
contract = "ensures r@ == self.0@,"
@*/
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Labels) ensures r.list() == self.list() { unimplemented!() }
}
// ---- the serde data model: a list of lists of strings
pub struct VpError { pub k: u8 }
pub fn vp_custom() -> VpError { VpError { k: 1 } }
#[verifier::external_body]
pub struct VpSeqAccess { x: u8 }
impl VpSeqAccess {
    // what is left to be read: elements, or a malformed element (None)
    pub uninterp spec fn rest(&self) -> Seq<Option<Seq<Seq<char>>>>;
    #[verifier::external_body]
    pub fn vp_size_hint(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_next_element(&mut self) -> (r: Result<Option<Vec<VpStr>>, VpError>)
        ensures
            old(self).rest().len() == 0 ==> r is Ok && r->Ok_0 is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> final(self).rest() == old(self).rest().drop_first() && (match old(self).rest()[0] {
                None => r is Err,
                Some(e) => r is Ok && r->Ok_0 is Some && sv(r->Ok_0->0@) == e,
            }),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_with_capacity(n: usize) -> (r: Vec<(VpStr, VpStr)>) ensures r@.len() == 0 { Vec::with_capacity(n) }
pub open spec fn pair_of(e: Option<Seq<Seq<char>>>) -> bool { e is Some && e->0.len() == 2 }
pub open spec fn read(l: Seq<Option<Seq<Seq<char>>>>) -> Option<Seq<(Seq<char>, Seq<char>)>> {
    if forall|i: int| 0 <= i < l.len() ==> pair_of(#[trigger] l[i]) { Some(l.map_values(|e: Option<Seq<Seq<char>>>| (e->0[0], e->0[1]))) } else { None }
}
/*@extract
file = "sds/src/observability/labels.rs"
item = "LabelsVisitor::visit_seq"
contract = '''
    ensures
        r is Ok <==> read(seq0.rest()) is Some,
        r is Ok ==> r->Ok_0.list() == read(seq0.rest())->0,
'''
start = "let mut seq = seq0; let ghost all = seq.rest(); let ghost mut n: int = 0;"
[[rewrite]]
from = "fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error> where A: SeqAccess<'de>,"
to = "fn visit_seq(seq0: VpSeqAccess) -> (r: Result<Labels, VpError>)"
[[rewrite]]
from = "let mut label_list: Vec<(String, String)> = Vec::with_capacity($x);"
to = "let mut label_list: Vec<(VpStr, VpStr)> = vp_with_capacity(0);"
[[rewrite]]
from = "seq.next_element::<Vec<String>>()?"
to = "{ let vp_r = seq.vp_next_element(); proof { assert(n < all.len() ==> all.skip(n)[0] == all[n] && all.skip(n).drop_first() =~= all.skip(n + 1)); assert(n < all.len() && vp_r is Err ==> !pair_of(all[n])); } vp_r? }"
[[rewrite]]
from = "Error::custom(format!($x))"
to = "vp_custom()"
all = true
[[rewrite]]
from = "element.first().unwrap()"
to = "vp_first(&element)"
[[rewrite]]
from = "element.last().unwrap()"
to = "vp_last(&element)"
[[loop]]
n = 0
kind = "while"
before = "proof { assert(all.skip(0) =~= all); }"
spec = '''
    invariant
        all == seq0.rest(), 0 <= n <= all.len(), seq.rest() == all.skip(n), label_list@.len() == n,
        forall|i: int| 0 <= i < n ==> pair_of(#[trigger] all[i]) && label_list@[i].0@ == all[i]->0[0] && label_list@[i].1@ == all[i]->0[1],
    ensures n == all.len(),
    decreases all.len() - n,
'''
start = "proof { assert(all[n] == Some(sv(element@))); assert(sv(element@).len() == element@.len()); assert(pair_of(all[n]) <==> element@.len() == 2); assert(element@.len() == 2 ==> sv(element@)[0] == element@[0]@ && sv(element@)[1] == element@[1]@); n = n + 1; }"
after = "proof { assert(read(all) is Some); assert(pv(label_list@) =~= read(all)->0); }"
@*/
pub fn vp_first(v: &Vec<VpStr>) -> (r: &VpStr) requires v@.len() > 0, ensures *r == v@[0] { &v[0] }
pub fn vp_last(v: &Vec<VpStr>) -> (r: &VpStr) requires v@.len() > 0, ensures *r == v@[v@.len() - 1] { &v[v.len() - 1] }
#[verifier::external_body]
pub struct VpSer { x: u8 }
impl VpSer {
    pub uninterp spec fn log(&self) -> Seq<Seq<Seq<char>>>;
    pub uninterp spec fn failed(&self) -> bool;
    #[verifier::external_body]
    pub fn vp_begin(self, n: Option<usize>) -> (r: Result<VpSer, VpError>) ensures r is Ok ==> r->Ok_0.log() == Seq::<Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_element(&mut self, e: &Vec<&VpStr>) -> (r: Result<(), VpError>) ensures r is Ok ==> final(self).log() == old(self).log().push(rv(e@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<VpDone, VpError>) ensures r is Ok ==> r->Ok_0.out() == self.log() { unimplemented!() }
}
#[verifier::external_body]
pub struct VpDone { x: u8 }
impl VpDone { pub uninterp spec fn out(&self) -> Seq<Seq<Seq<char>>>; }
pub fn vp_two<'a>(a: &'a VpStr, b: &'a VpStr) -> (r: Vec<&'a VpStr>) ensures r@.len() == 2, r@[0] == a, r@[1] == b, rv(r@) == seq![a@, b@] {
    let mut v: Vec<&'a VpStr> = Vec::new(); v.push(a); v.push(b); proof { assert(rv(v@) =~= seq![a@, b@]); } v
}
pub open spec fn written(l: Seq<(Seq<char>, Seq<char>)>) -> Seq<Seq<Seq<char>>> { l.map_values(|p: (Seq<char>, Seq<char>)| seq![p.0, p.1]) }
impl Labels {
/*@extract
file = "sds/src/observability/labels.rs"
item = "Serialize for Labels::serialize"
contract = "ensures r is Ok ==> r->Ok_0.out() == written(self.list()),"
start = "let ghost l = self.list();"
[[rewrite]]
from = "fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer,"
to = "fn serialize(&self, serializer: VpSer) -> (r: Result<VpDone, VpError>)"
[[rewrite]]
from = "serializer.serialize_seq($x)?"
to = "serializer.vp_begin($x)?"
[[rewrite]]
from = "for label in self.clone().into_labels()"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = "&vec![$a, $b]"
to = "&vp_two($a, $b)"
[[loop]]
n = 0
kind = "for"
before = "let vp_labels = self.clone().into_labels(); let vp_n = vp_labels.len(); proof { assert(lv(vp_labels@) == l); assert(written(l).take(0) =~= Seq::<Seq<Seq<char>>>::empty()); }"
spec = '''
    invariant vp_n == vp_labels@.len(), lv(vp_labels@) == l, seq.log() == written(l).take(vp_i as int),
'''
start = "let label = &vp_labels[vp_i];"
end = "proof { assert(l.len() == vp_labels@.len()); assert(l[vp_i as int] == vp_labels@[vp_i as int]@); assert(written(l).take(vp_i as int + 1) =~= written(l).take(vp_i as int).push(written(l)[vp_i as int])); }"
after = "proof { assert(lv(vp_labels@).len() == vp_labels@.len()); assert(written(l).take(vp_n as int) =~= written(l)); }"
@*/
}
// reading what was written gives the labels back, in order, duplicates included
pub proof fn theorem_round_trip(l: Seq<(Seq<char>, Seq<char>)>)
    ensures ({ let w = written(l).map_values(|e: Seq<Seq<char>>| Some(e)); read(w) == Some(l) }),
{
    let w = written(l).map_values(|e: Seq<Seq<char>>| Some(e));
    assert forall|i: int| 0 <= i < w.len() implies pair_of(#[trigger] w[i]) by { assert(w[i] == Some(seq![l[i].0, l[i].1])); }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]->0[0], w[i]->0[1]) == l[i] by { assert(w[i] == Some(seq![l[i].0, l[i].1])); }
    assert(read(w)->0 =~= l);
}
} // verus!
fn main() {}
