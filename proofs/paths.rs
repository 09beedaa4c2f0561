use vstd::prelude::*;
verus! {
//@include prelude/standard_code.rs
// ---- paths -----------------------------------------------------------------------------------------
/*@extract
file = "sds/src/path.rs"
item = "PathSegment"
kind = "enum"
[[rewrite]]
from = "Cow<'a, str>"
to = "&'a str"
@*/
/*@extract
file = "sds/src/path.rs"
item = "Path"
kind = "struct"
@*/
pub enum Seg { F(Seq<char>), I(usize) }
pub open spec fn seg(p: PathSegment<'_>) -> Seg { match p { PathSegment::Field(f) => Seg::F(f@), PathSegment::Index(i) => Seg::I(i) } }
pub open spec fn segs(p: Path<'_>) -> Seq<Seg> { p.segments@.map_values(|x: PathSegment<'_>| seg(x)) }
#[verifier::external_body]
pub fn vp_ne(a: &PathSegment<'_>, b: &PathSegment<'_>) -> (r: bool) ensures r == (seg(*a) != seg(*b)) { unimplemented!() }
// the standardised path: fields joined with dots (also after a leading index), indices skipped
pub open spec fn seg_text(s: Seg, first: bool) -> Seq<char> { match s { Seg::F(f) => (if first { seq![] } else { seq!['.'] }) + low(std(f)), Seg::I(_) => seq![] } }
pub open spec fn path_text(p: Seq<Seg>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else { path_text(p, n - 1) + seg_text(p[n - 1], n == 1) } }
impl<'a> PathSegment<'a> {
/*@extract
file = "sds/src/path.rs"
item = "PathSegment::into_static"
ret = "r"
contract = "ensures seg(r) == seg(*self),"
[[rewrite]]
from = "Cow::Owned(cow.as_ref().to_owned())"
to = "vp_static(cow)"
optional = true
@*/
/*@extract
file = "sds/src/path.rs"
item = "PathSegment::is_index"
ret = "r"
contract = "ensures r == (seg(*self) is I),"
@*/
/*@extract
file = "sds/src/path.rs"
item = "PathSegment::length"
contract = '''
'''
[[rewrite]]
from = "field.len()"
to = "vp_len(field)"
@*/
/*@extract
file = "sds/src/path.rs"
item = "PathSegment::sanitize"
ret = "r"
contract = '''
    ensures match seg(*self) { Seg::F(f) => r is Some && (r->0)@ == low(std(f)), Seg::I(_) => r is None },
'''
[[rewrite]]
from = "Cow<'a, str>"
to = "VpString"
[[rewrite]]
from = "match should_bypass_standardize_path(field) {"
to = "proof { if is_lowers(field@) { lemma_bypass(field@, field@.len() as int); lemma_low_lower(field@); } if is_uppers(field@) { lemma_bypass(field@, field@.len() as int); } } match should_bypass_standardize_path(field) {"
[[rewrite]]
from = "Some(field.clone())"
to = "Some(vp_owned(field))"
optional = true
[[rewrite]]
from = "Cow::Owned(field.to_ascii_lowercase())"
to = "vp_lowercase(field)"
optional = true
[[rewrite]]
from = "self.length() + 1"
to = "vp_capacity()"
optional = true
[[rewrite]]
from = "String::with_capacity"
to = "VpString::with_capacity"
optional = true
[[rewrite]]
from = "String::new()"
to = "VpString::with_capacity(0)"
optional = true
[[rewrite]]
from = "standardize_path_chars(field, |c| { $b; });"
to = '''let mut vp_calls = VpCalls { v: Vec::new() }; standardize_path_chars(field, &mut vp_calls); let mut vp_k: usize = 0;
        proof { assert(vp_calls.v@ =~= std(field@)); assert(low(std(field@).take(0)) =~= seq![]); }
        while vp_k < vp_calls.v.len()
            invariant vp_k <= vp_calls.v@.len(), vp_calls.v@ == std(field@), sanitized_segment@ == low(std(field@).take(vp_k as int)),
            decreases vp_calls.v@.len() - vp_k,
        { let c = &vp_calls.v[vp_k]; proof { lemma_low_push(std(field@), vp_k as int); } $b; vp_k += 1; }
        proof { assert(std(field@).take(vp_k as int) =~= std(field@)); }'''
[[rewrite]]
from = "Some(Cow::Owned(sanitized_segment))"
to = "Some(sanitized_segment)"
@*/
}
#[verifier::external_body]
pub fn vp_len(s: &str) -> usize { s.len() }
#[verifier::external_body]
pub fn vp_capacity() -> usize { 0 }
// `.to_owned()`: the same text, owned
#[verifier::external_body]
pub fn vp_static(s: &str) -> (r: &'static str) ensures r@ == s@ { unimplemented!() }
// `.iter().map(PathSegment::into_static).collect()`
pub fn vp_all_static(v: &Vec<PathSegment<'_>>) -> (r: Vec<PathSegment<'static>>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> seg(#[trigger] r@[i]) == seg(v@[i]),
{
    let mut r = Vec::new(); let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> seg(#[trigger] r@[j]) == seg(v@[j]),
        decreases v@.len() - i,
    { let x = v[i].into_static(); r.push(x); i += 1; }
    r
}
impl<'a> Path<'a> {
/*@extract
file = "sds/src/path.rs"
item = "Path::into_static"
ret = "r"
contract = "ensures segs(r) == segs(*self),"
[[rewrite]]
from = "Path { segments: self.segments.iter().map(PathSegment::into_static).collect(), }"
to = "{ let r = Path { segments: vp_all_static(&self.segments) }; proof { assert(segs(r) =~= segs(*self)); } r }"
@*/
/*@extract
file = "sds/src/path.rs"
item = "From for Path::from"
ret = "r"
contract = "ensures r.segments == segments,"
@*/
/*@extract
file = "sds/src/path.rs"
item = "Path::root"
ret = "r"
contract = "ensures segs(r).len() == 0,"
@*/
/*@extract
file = "sds/src/path.rs"
item = "Path::len"
ret = "r"
contract = '''
    ensures r == segs(*self).len(),
'''
@*/
/*@extract
file = "sds/src/path.rs"
item = "Path::is_empty"
ret = "r"
contract = '''
    ensures r == (segs(*self).len() == 0),
'''
@*/
/*@extract
file = "sds/src/path.rs"
item = "Path::starts_with"
ret = "r"
contract = '''
    ensures r == segs(*prefix).is_prefix_of(segs(*self)),
'''
start = '''let ghost a0 = segs(*prefix); let ghost b0 = segs(*self);
proof { assert(a0.is_prefix_of(b0) <==> a0.len() <= b0.len() && forall|i: int| 0 <= i < a0.len() ==> #[trigger] a0[i] == b0[i]) by {
    if a0.len() <= b0.len() && (forall|i: int| 0 <= i < a0.len() ==> #[trigger] a0[i] == b0[i]) { assert(b0.subrange(0, a0.len() as int) =~= a0); }
    if a0.is_prefix_of(b0) { assert forall|i: int| 0 <= i < a0.len() implies #[trigger] a0[i] == b0[i] by { assert(b0.subrange(0, a0.len() as int)[i] == b0[i]); } }
} }'''
[[rewrite]]
from = "for (a, b) in prefix.segments.iter().zip(self.segments.iter())"
to = "let mut vp_i: usize = 0; while vp_i < prefix.segments.len() && vp_i < self.segments.len()"
[[rewrite]]
from = "a != b"
to = "vp_ne(a, b)"
optional = true
all = true
[[rewrite]]
from = "a == b"
to = "!vp_ne(a, b)"
optional = true
all = true
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant
        vp_i <= prefix.segments@.len(), prefix.segments@.len() <= self.segments@.len(), a0 == segs(*prefix), b0 == segs(*self), a0.len() <= b0.len(),
        a0.is_prefix_of(b0) <==> a0.len() <= b0.len() && forall|i: int| 0 <= i < a0.len() ==> #[trigger] a0[i] == b0[i],
        forall|i: int| 0 <= i < vp_i ==> #[trigger] a0[i] == b0[i],
    decreases prefix.segments@.len() - vp_i,
'''
start = "let a = &prefix.segments[vp_i]; let b = &self.segments[vp_i]; proof { assert(a0[vp_i as int] == seg(*a)); assert(b0[vp_i as int] == seg(*b)); } vp_i += 1;"
@*/
/*@extract
file = "sds/src/path.rs"
item = "Path::sanitize"
contract = '''
    ensures r@ == path_text(segs(*self), segs(*self).len() as int),
'''
[[rewrite]]
from = "-> String"
to = "-> (r: VpString)"
[[rewrite]]
from = "let size_segments = self.size_segments_only();"
to = ""
optional = true
[[rewrite]]
from = "size_segments + size_segments / 2"
to = "vp_capacity()"
optional = true
[[rewrite]]
from = "String::with_capacity"
to = "VpString::with_capacity"
optional = true
[[rewrite]]
from = "String::new()"
to = "VpString::with_capacity(0)"
optional = true
[[rewrite]]
from = "self.segments.iter().enumerate().for_each(|(i, segment)| {"
to = '''let mut vp_i: usize = 0; while vp_i < self.segments.len()
        invariant vp_i <= self.segments@.len(), sanitized_path@ == path_text(segs(*self), vp_i as int),
        decreases self.segments@.len() - vp_i,
    { let i = vp_i; let segment = &self.segments[vp_i]; vp_i += 1;
      let ghost vp_0 = sanitized_path@;
      proof { assert(segs(*self)[i as int] == seg(*segment)); assert(vp_0 + seq![] =~= vp_0);
        if segment is Field { let f = segment->Field_0@; let l = low(std(f));
            if is_lowers(f) || is_uppers(f) { lemma_bypass(f, f.len() as int); }
            assert(vp_0 + (Seq::<char>::empty() + l) =~= vp_0 + l); assert(vp_0 + (seq!['.'] + l) =~= vp_0.push('.') + l); } }'''
[[rewrite]]
from = "should_bypass_standardize_path(field) != BypassStandardizePathResult::NoBypass"
to = "vp_bypass(should_bypass_standardize_path(field))"
[[rewrite]]
from = "field.to_ascii_lowercase().as_str()"
to = "vp_lowercase(field).as_str()"
[[rewrite]]
from = "standardize_path_chars(field, |c| { $b; });"
to = '''let mut vp_calls = VpCalls { v: Vec::new() }; standardize_path_chars(field, &mut vp_calls); let mut vp_k: usize = 0;
        let ghost vp_1 = sanitized_path@;
        proof { assert(vp_calls.v@ =~= std(field@)); assert(vp_1 + low(std(field@).take(0)) =~= vp_1); }
        while vp_k < vp_calls.v.len()
            invariant vp_k <= vp_calls.v@.len(), vp_calls.v@ == std(field@), sanitized_path@ == vp_1 + low(std(field@).take(vp_k as int)),
            decreases vp_calls.v@.len() - vp_k,
        { let c = &vp_calls.v[vp_k]; proof { lemma_low_push(std(field@), vp_k as int); assert((vp_1 + low(std(field@).take(vp_k as int))).push(lc(*c)) =~= vp_1 + low(std(field@).take(vp_k + 1))); } $b; vp_k += 1; }
        proof { assert(std(field@).take(vp_k as int) =~= std(field@)); }'''
[[rewrite]]
from = "} } });"
to = "} } }"
@*/
}
pub fn vp_bypass(r: BypassStandardizePathResult) -> (b: bool) ensures b == !(r is NoBypass) { match r { BypassStandardizePathResult::NoBypass => false, _ => true } }
}
fn main() {}
