use vstd::prelude::*;
verus! {
global size_of usize == 8;
broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
//@include prelude/event_tree.rs
// ---- specification of the byte format ---------------------------------------------------------------
pub open spec fn be32(n: u32) -> Seq<u8> { seq![(n / 0x100_0000) as u8, ((n / 0x1_0000) % 0x100) as u8, ((n / 0x100) % 0x100) as u8, (n % 0x100) as u8] }
pub open spec fn num(b: Seq<u8>) -> int { b[0] * 0x100_0000 + b[1] * 0x1_0000 + b[2] * 0x100 + b[3] }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;             // encoding of a text
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;            // decoding, replacing invalid bytes
pub uninterp spec fn valid_utf8(b: Seq<u8>) -> bool;
#[verifier::external_body]
pub proof fn axiom_utf8(s: Seq<char>) ensures valid_utf8(utf8(s)), lossy(utf8(s)) == s { }
pub open spec fn block(b: Seq<u8>) -> Seq<u8> { be32(b.len() as u32) + b }
pub open spec fn seg_bytes(s: SegV) -> Seq<u8> { match s { SegV::Field(f) => seq![0u8] + block(utf8(f)), SegV::Index(i) => seq![1u8] + be32(i as u32) } }
pub open spec fn path_bytes(p: Seq<SegV>) -> Seq<u8> decreases p.len() { if p.len() == 0 { seq![] } else { path_bytes(p.drop_last()) + seg_bytes(p.last()) } }
pub open spec fn mutation_bytes(p: Seq<SegV>, s: Seq<char>) -> Seq<u8> { seq![4u8] + path_bytes(p) + seq![3u8] + block(utf8(s)) }

// what an encoded event says: the calls to be made, from byte i on; None if it is malformed
pub open spec fn decoded(b: Seq<u8>, i: int, strict: bool) -> Option<Seq<Op>> decreases b.len() - i
{
    if i < 0 || i > b.len() { None }
    else if i == b.len() { Some(seq![]) }
    else if b[i] == 2 { match decoded(b, i + 1, strict) { None => None, Some(r) => Some(seq![Op::Pop] + r) } }
    else if i + 5 > b.len() { None }
    else {
        let n = num(b.subrange(i + 1, i + 5));
        if b[i] == 1 { match decoded(b, i + 5, strict) { None => None, Some(r) => Some(seq![Op::Push(SegV::Index(n))] + r) } }
        else if n < 0 || i + 5 + n > b.len() { None }
        else {
            let t = b.subrange(i + 5, i + 5 + n);
            if strict && !valid_utf8(t) { None }
            else if b[i] == 0 { match decoded(b, i + 5 + n, strict) { None => None, Some(r) => Some(seq![Op::Push(SegV::Field(lossy(t)))] + r) } }
            else if b[i] == 3 { match decoded(b, i + 5 + n, strict) { None => None, Some(r) => Some(seq![Op::Visit(lossy(t))] + r) } }
            else { None }
        }
    }
}
pub proof fn lemma_be32(n: u32) ensures num(be32(n)) == n, be32(n).len() == 4
{
    let b = be32(n);
    assert(n / 0x100_0000 < 256) by (nonlinear_arith);
    assert(n == (n / 0x100_0000) * 0x100_0000 + ((n / 0x1_0000) % 0x100) * 0x1_0000 + ((n / 0x100) % 0x100) * 0x100 + n % 0x100);
    assert(b[0] == n / 0x100_0000 && b[1] == (n / 0x1_0000) % 0x100 && b[2] == (n / 0x100) % 0x100 && b[3] == n % 0x100);
}
// ---- a correctly encoded event ----------------------------------------------------------------------
pub open spec fn op_bytes(o: Op) -> Seq<u8> { match o { Op::Push(s) => seg_bytes(s), Op::Pop => seq![2u8], Op::Visit(s) => seq![3u8] + block(utf8(s)) } }
pub open spec fn all_bytes(o: Seq<Op>) -> Seq<u8> decreases o.len() { if o.len() == 0 { seq![] } else { op_bytes(o[0]) + all_bytes(o.skip(1)) } }
pub open spec fn op_fits(o: Op) -> bool { match o { Op::Push(SegV::Field(f)) => utf8(f).len() <= u32::MAX, Op::Push(SegV::Index(i)) => 0 <= i <= u32::MAX, Op::Pop => true, Op::Visit(s) => utf8(s).len() <= u32::MAX } }
/// An event encoded as documented is decoded to exactly the calls it was encoded from.
pub proof fn theorem_decode(pre: Seq<u8>, o: Seq<Op>, strict: bool)
    requires forall|i: int| 0 <= i < o.len() ==> op_fits(#[trigger] o[i]),
    ensures decoded(pre + all_bytes(o), pre.len() as int, strict) == Some(o),
    decreases o.len(),
{
    let b = pre + all_bytes(o);
    if o.len() == 0 { assert(o =~= seq![]); }
    else {
        let h = op_bytes(o[0]); let rest = all_bytes(o.skip(1)); let i = pre.len() as int;
        assert(pre + (h + rest) =~= (pre + h) + rest);
        assert(op_fits(o[0]));
        assert forall|k: int| 0 <= k < o.skip(1).len() implies op_fits(#[trigger] o.skip(1)[k]) by { assert(op_fits(o[k + 1])); }
        theorem_decode(pre + h, o.skip(1), strict);
        assert(b[i] == h[0]);
        match o[0] {
            Op::Pop => { assert(o =~= seq![Op::Pop] + o.skip(1)); },
            Op::Push(SegV::Index(n)) => {
                lemma_be32(n as u32); assert(b.subrange(i + 1, i + 5) =~= be32(n as u32)); assert((pre + h).len() == i + 5);
                assert(o =~= seq![o[0]] + o.skip(1));
            },
            Op::Push(SegV::Field(s)) => { lemma_text(pre, 0, s, rest); assert(b =~= pre + (seq![0u8] + block(utf8(s))) + rest); assert((pre + h).len() == i + 5 + utf8(s).len()); assert(o =~= seq![o[0]] + o.skip(1)); },
            Op::Visit(s) => { lemma_text(pre, 3, s, rest); assert(b =~= pre + (seq![3u8] + block(utf8(s))) + rest); assert((pre + h).len() == i + 5 + utf8(s).len()); assert(o =~= seq![o[0]] + o.skip(1)); },
        }
    }
}
pub proof fn lemma_text(pre: Seq<u8>, tag: u8, s: Seq<char>, rest: Seq<u8>)
    requires utf8(s).len() <= u32::MAX,
    ensures ({ let b = pre + (seq![tag] + block(utf8(s))) + rest; let i = pre.len() as int; let n = utf8(s).len();
        i + 5 + n <= b.len() && b[i] == tag && num(b.subrange(i + 1, i + 5)) == n && b.subrange(i + 5, i + 5 + n) == utf8(s) && valid_utf8(utf8(s)) && lossy(utf8(s)) == s }),
{
    let b = pre + (seq![tag] + block(utf8(s))) + rest; let i = pre.len() as int; let n = utf8(s).len();
    lemma_be32(n as u32); axiom_utf8(s);
    assert(b.subrange(i + 1, i + 5) =~= be32(n as u32)); assert(b.subrange(i + 5, i + 5 + n) =~= utf8(s));
}
// ---- strings kept for mutation ----------------------------------------------------------------------
// the visitor: `visit_string` says whether the string might be changed later, and what the current path is
pub uninterp spec fn might(log: Seq<Op>) -> bool;
pub open spec fn keep(m: Map<Seq<SegV>, (bool, Seq<char>)>, log: Seq<Op>, s: Seq<char>) -> Map<Seq<SegV>, (bool, Seq<char>)> {
    if might(log) && !m.dom().contains(ends(log, seq![])) { m.insert(ends(log, seq![]), (false, s)) } else { m }
}
pub open spec fn kept(m: Map<Seq<SegV>, (bool, Seq<char>)>, log: Seq<Op>, o: Seq<Op>) -> Map<Seq<SegV>, (bool, Seq<char>)> decreases o.len()
{
    if o.len() == 0 { m } else { kept(match o[0] { Op::Visit(s) => keep(m, log, s), _ => m }, log.push(o[0]), o.skip(1)) }
}
pub struct VisitStringResult { pub might_mutate: bool, pub path: Path }
pub struct BinVisitor { pub log: Ghost<Seq<Op>> }
impl BinVisitor {
    pub open spec fn view(&self) -> Seq<Op> { self.log@ }
    #[verifier::external_body]
    pub fn push_segment(&mut self, s: PathSegment) ensures final(self)@ == old(self)@.push(Op::Push(seg(s))) { }
    #[verifier::external_body]
    pub fn pop_segment(&mut self) ensures final(self)@ == old(self)@.push(Op::Pop) { }
    #[verifier::external_body]
    pub fn visit_string(&mut self, s: &String) -> (r: VisitStringResult)
        ensures final(self)@ == old(self)@.push(Op::Visit(s@)), r.might_mutate == might(old(self)@), segs(r.path) == ends(old(self)@, seq![]),
    { unimplemented!() }
}
// BTreeMap<Path, (bool, String)>
#[verifier::external_body]
pub struct Storage { x: u8 }
impl Storage {
    pub uninterp spec fn view(&self) -> Map<Seq<SegV>, (bool, Seq<char>)>;
    #[verifier::external_body]
    pub fn new() -> (r: Storage) ensures r@ == Map::<Seq<SegV>, (bool, Seq<char>)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, p: &Path) -> (r: bool) ensures r == self@.dom().contains(segs(*p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, p: Path, v: (bool, String)) ensures final(self)@ == old(self)@.insert(segs(p), (v.0, v.1@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, p: &Path) -> (r: Option<&mut (bool, String)>)
        ensures
            r is Some <==> old(self)@.dom().contains(segs(*p)), r is None ==> final(self)@ == old(self)@,
            r is Some ==> (r->0).0 == old(self)@[segs(*p)].0 && (r->0).1@ == old(self)@[segs(*p)].1
                && final(self)@ == old(self)@.insert(segs(*p), ((*final(r->0)).0, (*final(r->0)).1@)),
    { unimplemented!() }
    // its entries, in order
    #[verifier::external_body]
    pub fn vp_entries(&self) -> (r: Vec<(Path, (bool, String))>) ensures entries(r@) == self.listed(), r@.len() == self.listed().len() { unimplemented!() }
    pub uninterp spec fn listed(&self) -> Seq<(Seq<SegV>, (bool, Seq<char>))>;
}
pub open spec fn entries(v: Seq<(Path, (bool, String))>) -> Seq<(Seq<SegV>, (bool, Seq<char>))> { v.map_values(|e: (Path, (bool, String))| (segs(e.0), (e.1.0, e.1.1@))) }
// ---- std --------------------------------------------------------------------------------------------
#[verifier::external_body]
pub fn vp_from_be(b: &Vec<u8>, i: usize, j: usize) -> (r: u32) requires j == i + 4, j <= b@.len(), ensures r == num(b@.subrange(i as int, j as int)) { unimplemented!() }
#[verifier::external_body]
pub fn vp_unchecked(b: &Vec<u8>, i: usize, j: usize) -> (r: String) requires i <= j <= b@.len(), valid_utf8(b@.subrange(i as int, j as int)), ensures r@ == lossy(b@.subrange(i as int, j as int)) { unimplemented!() }
#[verifier::external_body]
pub fn vp_lossy(b: &Vec<u8>, i: usize, j: usize) -> (r: String) requires i <= j <= b@.len(), ensures r@ == lossy(b@.subrange(i as int, j as int)) { unimplemented!() }
#[verifier::external_body]
pub fn vp_same(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body]
pub fn vp_extend_be(v: &mut Vec<u8>, n: u32) ensures final(v)@ == old(v)@ + be32(n) { v.extend(n.to_be_bytes()) }
#[verifier::external_body]
pub fn vp_extend(v: &mut Vec<u8>, b: &Bytes) ensures final(v)@ == old(v)@ + b@ { unimplemented!() }
#[verifier::external_body]
pub struct Bytes { x: u8 }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_bytes(s: &str) -> (r: &Bytes) ensures r@ == utf8(s@) { unimplemented!() }
pub fn vp_panic() requires false { }
impl Path {
    #[verifier::external_body]
    pub fn into_static(&self) -> (r: Path) ensures segs(r) == segs(*self) { unimplemented!() }
}
/*@extract
file = "sds-bindings-utils/src/binary_encoding.rs"
item = "BinaryEvent"
kind = "struct"
[[rewrite]]
from = "BinaryEvent<E: Encoding>"
to = "BinaryEvent"
[[rewrite]]
from = "BTreeMap<Path<'static>, (bool, String)>"
to = "Storage"
[[rewrite]]
from = "_phantom: PhantomData<E>,"
to = ""
[[rewrite]]
from = "bytes: Vec<u8>"
to = "pub bytes: Vec<u8>"
[[rewrite]]
from = "strings_are_valid_utf8: bool"
to = "pub strings_are_valid_utf8: bool"
@*/
impl BinaryEvent {
/*@extract
file = "sds-bindings-utils/src/binary_encoding.rs"
item = "BinaryEvent::new"
ret = "r"
contract = '''
    ensures r.bytes == bytes, r.strings_are_valid_utf8 == strings_are_valid_utf8, r.storage@ == Map::<Seq<SegV>, (bool, Seq<char>)>::empty(),
'''
[[rewrite]]
from = "BTreeMap::new()"
to = "Storage::new()"
[[rewrite]]
from = "_phantom: PhantomData::default(),"
to = ""
@*/
/*@extract
file = "sds-bindings-utils/src/binary_encoding.rs"
item = "BinaryEvent::visit_event"
contract = '''
    requires decoded(old(self).bytes@, 0, old(self).strings_are_valid_utf8) is Some,
    ensures
        final(visitor)@ == old(visitor)@ + decoded(old(self).bytes@, 0, old(self).strings_are_valid_utf8)->0,
        final(self).storage@ == kept(old(self).storage@, old(visitor)@, decoded(old(self).bytes@, 0, old(self).strings_are_valid_utf8)->0),
        final(self).bytes == old(self).bytes,
'''
start = '''let ghost b = self.bytes@; let ghost strict = self.strings_are_valid_utf8; let ghost all = decoded(b, 0, strict)->0; let ghost log0 = visitor@; let ghost m0 = self.storage@;'''
[[rewrite]]
from = "visit_event<'a>(&'a mut self, visitor: &mut impl EventVisitor<'a>)"
to = "visit_event(&mut self, visitor: &mut BinVisitor)"
[[rewrite]]
from = "u32::from_be_bytes(self.bytes[$a..$b].try_into().unwrap())"
to = "vp_from_be(&self.bytes, $a, $b)"
all = true
[[rewrite]]
from = "Cow::from(unsafe { std::str::from_utf8_unchecked(&self.bytes[$a..$b]) })"
to = "vp_unchecked(&self.bytes, $a, $b)"
all = true
[[rewrite]]
from = "String::from_utf8_lossy(&self.bytes[$a..$b])"
to = "vp_lossy(&self.bytes, $a, $b)"
all = true
[[rewrite]]
from = "(false, content.to_string())"
to = "(false, vp_same(&content))"
[[rewrite]]
from = "panic!($m)"
to = "vp_panic()"
[[loop]]
n = 0
kind = "while"
spec = '''
    invariant
        index <= b.len(), b == self.bytes@, self.bytes == old(self).bytes, strict == self.strings_are_valid_utf8, decoded(b, index as int, strict) is Some,
        log0 + all == visitor@ + decoded(b, index as int, strict)->0,
        kept(m0, log0, all) == kept(self.storage@, visitor@, decoded(b, index as int, strict)->0),
    decreases b.len() - index,
'''
start = '''let ghost i0 = index; let ghost rest = decoded(b, index as int, strict)->0; let ghost log1 = visitor@; let ghost m1 = self.storage@;
proof { assert(b.len() <= usize::MAX); }'''
end = '''proof {
    let r2 = decoded(b, index as int, strict)->0;
    assert(visitor@ == log1.push(rest[0])); assert(rest =~= seq![rest[0]] + r2); assert(rest.skip(1) =~= r2);
    assert(log1 + rest =~= visitor@ + r2);
}'''
after = "proof { assert(decoded(b, index as int, strict)->0 =~= seq![]); assert(visitor@ + seq![] =~= visitor@); }"
@*/
/*@extract
file = "sds-bindings-utils/src/binary_encoding.rs"
item = "BinaryEvent::visit_string_mut"
contract = '''
    requires old(self).storage@.dom().contains(segs(*path)),
    ensures
        final(visit).calls@ == old(visit).calls@.push(old(self).storage@[segs(*path)].1),
        exists|m: bool| #![auto] final(self).storage@ == old(self).storage@.insert(segs(*path), (m, edited(*old(visit), old(self).storage@[segs(*path)].1)))
            && (!m ==> edited(*old(visit), old(self).storage@[segs(*path)].1) == old(self).storage@[segs(*path)].1) && m == reported(*old(visit), old(self).storage@[segs(*path)].1),
'''
[[rewrite]]
from = "mut visit: impl FnMut(&mut String) -> bool"
to = "visit: &mut VpVisit"
[[rewrite]]
from = "visit(&mut content.1)"
to = "vp_call2(visit, &mut content.1)"
@*/
}
pub uninterp spec fn reported(v: VpVisit, s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vp_call2(v: &mut VpVisit, s: &mut String) -> (r: bool)
    ensures final(s)@ == edited(*old(v), old(s)@), !r ==> final(s)@ == old(s)@, final(v).calls@ == old(v).calls@.push(old(s)@), r == reported(*old(v), old(s)@),
{ unimplemented!() }

// ---- the response -----------------------------------------------------------------------------------
pub enum MatchStatus { Any }
/*@extract
file = "sds/src/rule_match.rs"
item = "ReplacementType"
kind = "enum"
@*/
/*@extract
file = "sds/src/rule_match.rs"
item = "RuleMatch"
kind = "struct"
[[rewrite]]
from = "Path<'static>"
to = "Path"
@*/
pub open spec fn type_text(t: ReplacementType) -> Seq<char> {
    match t { ReplacementType::None => "none"@, ReplacementType::Placeholder => "placeholder"@, ReplacementType::Hash => "hash"@, ReplacementType::PartialStart => "partial_beginning"@, ReplacementType::PartialEnd => "partial_end"@ }
}
pub uninterp spec fn digits(n: int) -> Seq<char>;              // decimal text of a number
// fields joined by dots, indices in brackets
pub open spec fn seg_text(s: SegV, first: bool) -> Seq<char> {
    match s { SegV::Field(f) => (if first { seq![] } else { "."@ }) + f, SegV::Index(i) => "["@ + digits(i) + "]"@ }
}
pub open spec fn path_text(p: Seq<SegV>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else { path_text(p, n - 1) + seg_text(p[n - 1], n == 1) } }
pub open spec fn match_bytes(m: RuleMatch) -> Seq<u8> {
    seq![5u8] + be32(m.rule_index as u32) + block(utf8(path_text(segs(m.path), segs(m.path).len() as int))) + block(utf8(type_text(m.replacement_type)))
        + be32(m.start_index as u32) + be32(m.end_index_exclusive as u32) + be32(m.shift_offset as u32)
}
pub open spec fn mutations(e: Seq<(Seq<SegV>, (bool, Seq<char>))>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { seq![] } else { mutations(e, n - 1) + (if e[n - 1].1.0 { mutation_bytes(e[n - 1].0, e[n - 1].1.1) } else { seq![] }) } }
pub open spec fn all_matches(m: Seq<RuleMatch>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { all_matches(m, n - 1) + match_bytes(m[n - 1]) } }
// fmt::Formatter
pub struct Formatter { pub t: Ghost<Seq<char>> }
impl Formatter {
    pub fn vp_str(&mut self, s: &str) -> (r: Result<(), ()>) ensures r is Ok, final(self).t@ == old(self).t@ + s@ { self.t = Ghost(self.t@ + s@); Ok(()) }
    #[verifier::external_body]
    pub fn vp_num(&mut self, n: usize) -> (r: Result<(), ()>) ensures r is Ok, final(self).t@ == old(self).t@ + ("["@ + digits(n as int) + "]"@) { Ok(()) }
}
#[verifier::external_body]
pub fn vp_path_string(p: &Path) -> (r: String) ensures r@ == path_text(segs(*p), segs(*p).len() as int) { unimplemented!() }      // to_string: what fmt writes
#[verifier::external_body]
pub fn vp_type_string(t: &ReplacementType) -> (r: String) ensures r@ == type_text(*t) { unimplemented!() }
impl Path {
/*@extract
file = "sds/src/path.rs"
item = "Display for Path::fmt"
ret = "r"
contract = '''
    ensures r is Ok, final(f).t@ == old(f).t@ + path_text(segs(*self), segs(*self).len() as int),
'''
start = "let ghost t0 = f.t@;"
[[rewrite]]
from = "f: &mut Formatter<'_>"
to = "f: &mut Formatter"
[[rewrite]]
from = "std::fmt::Result"
to = "Result<(), ()>"
[[rewrite]]
from = 'write!(f, ".")?'
to = 'let _ = f.vp_str(".")'
[[rewrite]]
from = 'write!(f, "{}", field)?'
to = "let _ = f.vp_str(field.as_str())"
[[rewrite]]
from = 'write!(f, "[{}]", i)?'
to = "let _ = f.vp_num(*i)"
[[rewrite]]
from = "for (i, segment) in self.segments.iter().enumerate()"
to = "let mut vp_i: usize = 0; while vp_i < self.segments.len()"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant vp_i <= self.segments@.len(), f.t@ == t0 + path_text(segs(*self), vp_i as int),
    decreases self.segments@.len() - vp_i,
'''
before = "proof { assert(t0 + path_text(segs(*self), 0) =~= t0); }"
start = "let i = vp_i; let segment = &self.segments[vp_i]; vp_i += 1; let ghost t1 = f.t@;"
end = "proof { assert(segs(*self)[vp_i - 1] == seg(*segment)); assert(f.t@ =~= t1 + seg_text(seg(*segment), vp_i == 1)); assert(f.t@ =~= t0 + path_text(segs(*self), vp_i as int)); }"
@*/
}
impl ReplacementType {
/*@extract
file = "sds/src/rule_match.rs"
item = "ReplacementType::fmt"
ret = "r"
contract = '''
    ensures r is Ok, final(f).t@ == old(f).t@ + type_text(*self),
'''
[[rewrite]]
from = "f: &mut Formatter<'_>"
to = "f: &mut Formatter"
[[rewrite]]
from = "std::fmt::Result"
to = "Result<(), ()>"
[[rewrite]]
from = "write!(f, $s)"
to = "f.vp_str($s)"
all = true
@*/
}
/*@extract
file = "sds-bindings-utils/src/binary_encoding.rs"
item = "encode_bytes"
contract = '''
    ensures final(out)@ == old(out)@ + block(bytes@),
'''
[[rewrite]]
from = "bytes: &[u8]"
to = "bytes: &Bytes"
[[rewrite]]
from = "out.extend(($x).to_be_bytes())"
to = "vp_extend_be(out, ($x))"
all = true
[[rewrite]]
from = "out.extend(bytes)"
to = "vp_extend(out, bytes); proof { assert(out@ =~= old(out)@ + block(bytes@)); }"
@*/
/*@extract
file = "sds-bindings-utils/src/binary_encoding.rs"
item = "encode_path"
contract = '''
    ensures final(out)@ == old(out)@ + path_bytes(segs(*path)),
'''
start = "let ghost p = segs(*path); let ghost o0 = out@;"
[[rewrite]]
from = "for segment in &path.segments"
to = "let mut vp_i: usize = 0; while vp_i < path.segments.len()"
[[rewrite]]
from = "field.as_bytes()"
to = "vp_bytes(field)"
[[rewrite]]
from = "out.extend(($x).to_be_bytes())"
to = "vp_extend_be(out, ($x))"
all = true
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant p == segs(*path), vp_i <= p.len(), out@ == o0 + path_bytes(p.take(vp_i as int)),
    decreases p.len() - vp_i,
'''
before = "proof { assert(p.take(0) =~= seq![]); assert(o0 + path_bytes(p.take(0)) =~= o0); }"
start = "let segment = &path.segments[vp_i]; let ghost o1 = out@; vp_i += 1;"
end = "proof { assert(p[vp_i - 1] == seg(*segment)); assert(p.take(vp_i as int).drop_last() =~= p.take(vp_i - 1)); assert(out@ =~= o1 + seg_bytes(seg(*segment))); assert(out@ =~= o0 + path_bytes(p.take(vp_i as int))); }"
after = "proof { assert(p.take(vp_i as int) =~= p); }"
@*/
/*@extract
file = "sds-bindings-utils/src/binary_encoding.rs"
item = "encode_mutation"
contract = '''
    ensures final(out)@ == old(out)@ + mutation_bytes(segs(*path), content@),
'''
[[rewrite]]
from = "content.as_bytes()"
to = "vp_bytes(content)"
[[after]]
pattern = "encode_bytes(out, content.as_bytes());"
text = "proof { assert(out@ =~= old(out)@ + mutation_bytes(segs(*path), content@)); }"
@*/
/*@extract
file = "sds-bindings-utils/src/binary_encoding.rs"
item = "encode_match"
contract = '''
    ensures final(out)@ == old(out)@ + match_bytes(*rule_match),
'''
tail = "proof { assert(out@ =~= old(out)@ + match_bytes(*rule_match)); }"
[[rewrite]]
from = "out.extend(($x).to_be_bytes())"
to = "vp_extend_be(out, ($x))"
all = true
[[rewrite]]
from = "rule_match.path.to_string()"
to = "vp_path_string(&rule_match.path)"
[[rewrite]]
from = "rule_match.replacement_type.to_string()"
to = "vp_type_string(&rule_match.replacement_type)"
[[rewrite]]
from = "path_str.as_bytes()"
to = "vp_bytes(path_str.as_str())"
[[rewrite]]
from = "replacement_type_str.as_bytes()"
to = "vp_bytes(replacement_type_str.as_str())"
@*/
/*@extract
file = "sds-bindings-utils/src/binary_encoding.rs"
item = "encode_response"
contract = '''
    ensures
        r is None <==> matches@.len() == 0,
        r is Some ==> (r->0)@ == mutations(storage.listed(), storage.listed().len() as int) + all_matches(matches@, matches@.len() as int),
'''
start = "let ghost e = storage.listed();"
[[rewrite]]
from = "storage: &BTreeMap<Path, (bool, String)>, matches: &[RuleMatch],) -> Option<Vec<u8>>"
to = "storage: &Storage, matches: &Vec<RuleMatch>,) -> (r: Option<Vec<u8>>)"
[[rewrite]]
from = "let mut out = vec![]"
to = "let mut out: Vec<u8> = Vec::new()"
[[rewrite]]
from = "for (path, (mutated, content)) in storage"
to = "let vp_e = storage.vp_entries(); let mut vp_i: usize = 0; while vp_i < vp_e.len()"
[[rewrite]]
from = "for rule_match in matches"
to = "let mut vp_j: usize = 0; while vp_j < matches.len()"
[[rewrite]]
from = "*mutated"
to = "mutated"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant entries(vp_e@) == e, vp_e@.len() == e.len(), vp_i <= e.len(), out@ == mutations(e, vp_i as int),
    decreases e.len() - vp_i,
'''
start = "let path = &vp_e[vp_i].0; let mutated = vp_e[vp_i].1.0; let content = &vp_e[vp_i].1.1; proof { assert(entries(vp_e@)[vp_i as int] == e[vp_i as int]); assert(out@ + Seq::<u8>::empty() =~= out@); } vp_i += 1;"
after = "let ghost o1 = out@;"
[[loop]]
n = 1
kind = "for"
spec = '''
    invariant vp_j <= matches@.len(), out@ == o1 + all_matches(matches@, vp_j as int),
    decreases matches@.len() - vp_j,
'''
before = "proof { assert(o1 + all_matches(matches@, 0) =~= o1); }"
start = "let rule_match = &matches[vp_j]; vp_j += 1;"
end = "proof { assert(out@ =~= o1 + all_matches(matches@, vp_j as int)); }"
@*/
}
fn main() {}
