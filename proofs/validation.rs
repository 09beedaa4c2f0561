use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- dependencies: regex-automata ----------------------------------------------------------------------
#[verifier::external_body]
pub struct MetaRegex { x: u8 }
pub uninterp spec fn well_formed(p: Seq<char>) -> bool;     // regex-syntax accepts the converted pattern
pub uninterp spec fn nfa_size(p: Seq<char>) -> nat;         // bytes its NFA needs
pub uninterp spec fn built_from(r: MetaRegex) -> Seq<char>;
pub uninterp spec fn matches_empty_text(r: MetaRegex) -> bool;
pub open spec fn fits(p: Seq<char>, limit: int) -> bool { well_formed(p) && nfa_size(p) <= limit }
#[verifier::external_body]
pub struct BuildError { x: u8 }
pub uninterp spec fn too_big(e: BuildError) -> bool;
impl BuildError {
    #[verifier::external_body]
    pub fn size_limit(&self) -> (r: Option<usize>) ensures r is Some <==> too_big(*self) { unimplemented!() }
}
// meta::Builder with the configuration of build_regex
#[verifier::external_body]
pub fn vp_build_meta(limit: Option<usize>, p: &str) -> (r: Result<MetaRegex, BuildError>)
    ensures
        r is Ok <==> well_formed(p@) && (limit is Some ==> nfa_size(p@) <= limit->0),
        r is Ok ==> built_from(r->Ok_0) == p@,
        r is Err ==> too_big(r->Err_0) == well_formed(p@),
{ unimplemented!() }
impl MetaRegex {
    #[verifier::external_body]
    pub fn is_match(&self, t: &str) -> (r: bool) ensures t@.len() == 0 ==> r == matches_empty_text(*self) { unimplemented!() }
}
// the NFA of a pattern
#[derive(Clone, Copy)]
pub struct StateID { pub i: usize }
impl StateID { pub fn as_usize(&self) -> (r: usize) ensures r == self.i { self.i } }
pub enum State {
    Match { pattern_id: usize },
    Look { look: u8, next: StateID },
    Capture { next: StateID, slot: usize },
    Union { alternates: Vec<StateID> },
    BinaryUnion { alt1: StateID, alt2: StateID },
    ByteRange { trans: u8 },
    Sparse(u8),
    Dense(u8),
    Fail,
}
#[verifier::external_body]
pub struct Nfa { x: Vec<State> }
pub uninterp spec fn nfa_of(p: Seq<char>) -> Nfa;
impl Nfa {
    pub uninterp spec fn view(&self) -> Seq<State>;
    pub uninterp spec fn start(&self) -> StateID;
    pub open spec fn ok(&self) -> bool {
        &&& self.start().i < self@.len()
        &&& forall|s: int, t: StateID| 0 <= s < self@.len() && #[trigger] eps(self@[s], t) ==> t.i < self@.len()
        &&& self@.len() < 0x8000_0000
        &&& forall|s: int| 0 <= s < self@.len() ==> ((#[trigger] self@[s]) matches State::Union { alternates } ==> alternates@.len() < 0x8000_0000)
    }
    #[verifier::external_body]
    pub fn vp_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn start_anchored(&self) -> (r: StateID) ensures r == self.start() { unimplemented!() }
    #[verifier::external_body]
    pub fn state(&self, id: StateID) -> (r: &State) requires id.i < self@.len() ensures *r == self@[id.i as int] { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_build_nfa(p: &str) -> (r: Result<Nfa, BuildError>)
    ensures r is Ok <==> well_formed(p@), r is Ok ==> r->Ok_0 == nfa_of(p@) && (r->Ok_0).ok(),
{ unimplemented!() }
// ---- specification: transitions that consume no input, and what they reach ------------------------------
pub open spec fn eps(s: State, t: StateID) -> bool {
    match s {
        State::Look { look, next } => next == t,
        State::Capture { next, slot } => next == t,
        State::Union { alternates } => alternates@.contains(t),
        State::BinaryUnion { alt1, alt2 } => alt1 == t || alt2 == t,
        _ => false,
    }
}
pub open spec fn path(n: Nfa, p: Seq<StateID>) -> bool {
    &&& p.len() > 0 && p[0] == n.start()
    &&& forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).i < n@.len()
    &&& forall|k: int| 0 <= k < p.len() - 1 ==> eps(n@[(#[trigger] p[k]).i as int], p[k + 1])
}
pub open spec fn reaches(n: Nfa, t: StateID) -> bool { exists|p: Seq<StateID>| #[trigger] path(n, p) && p.last() == t }
// some text contains an empty match (up to the conditions of look-arounds, which are taken as satisfiable)
pub open spec fn may_match_empty(n: Nfa) -> bool { exists|t: StateID| #[trigger] reaches(n, t) && n@[t.i as int] is Match }
proof fn lemma_step(n: Nfa, s: StateID, t: StateID)
    requires n.ok(), reaches(n, s), s.i < n@.len(), eps(n@[s.i as int], t),
    ensures reaches(n, t), t.i < n@.len(),
{
    let p = choose|p: Seq<StateID>| #[trigger] path(n, p) && p.last() == s;
    let q = p.push(t);
    assert forall|k: int| 0 <= k < q.len() - 1 implies eps(n@[(#[trigger] q[k]).i as int], q[k + 1]) by { if k < p.len() - 1 { assert(q[k] == p[k]); } }
    assert(path(n, q));
    assert(q.last() == t);
}
proof fn lemma_closed(n: Nfa, v: Seq<bool>, p: Seq<StateID>, k: int)
    requires
        path(n, p), v.len() == n@.len(), v[n.start().i as int], 0 <= k < p.len(),
        forall|s: int, t: StateID| 0 <= s < n@.len() && v[s] && #[trigger] eps(n@[s], t) ==> v[t.i as int],
    ensures v[p[k].i as int],
    decreases k,
{
    if k > 0 { lemma_closed(n, v, p, k - 1); assert(eps(n@[p[k - 1].i as int], p[k - 1 + 1])); }
}
pub open spec fn unseen(v: Seq<bool>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { unseen(v.drop_last()) + if v.last() { 0nat } else { 1nat } } }
proof fn lemma_unseen(v: Seq<bool>, i: int)
    requires 0 <= i < v.len(), !v[i],
    ensures unseen(v.update(i, true)) + 1 == unseen(v),
    decreases v.len(),
{
    let w = v.update(i, true);
    if i == v.len() - 1 { assert(w.drop_last() =~= v.drop_last()); }
    else { lemma_unseen(v.drop_last(), i); assert(w.drop_last() =~= v.drop_last().update(i, true)); assert(w.last() == v.last()); }
}
/*@extract
file = "sds/src/validation.rs"
item = "RegexValidationError"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/error.rs"
item = "ParseError"
kind = "enum"
@*/
// convert_to_rust_regex: parser and adapter
pub uninterp spec fn converted(p: Seq<char>) -> Result<Seq<char>, ParseError>;
#[verifier::external_body]
pub fn vp_convert(p: &str) -> (r: Result<String, ParseError>)
    ensures r is Ok ==> converted(p@) == Ok::<Seq<char>, ParseError>((r->Ok_0)@), r is Err ==> converted(p@) == Err::<Seq<char>, ParseError>(r->Err_0)
{ unimplemented!() }
pub open spec fn as_error(e: ParseError) -> RegexValidationError {
    match e {
        ParseError::InvalidSyntax => RegexValidationError::InvalidSyntax,
        ParseError::ExceededDepthLimit => RegexValidationError::ExceededDepthLimit,
        ParseError::ExceededQuantifierLimit => RegexValidationError::ExceededQuantifierLimit,
    }
}
/*@extract
file = "sds/src/validation.rs"
item = "From for RegexValidationError::from"
rename = "vp_from"
contract = '''
    ensures r == as_error(err),
'''
[[rewrite]]
from = "Self::"
to = "RegexValidationError::"
all = true
[[rewrite]]
from = "-> Self"
to = "-> (r: RegexValidationError)"
@*/
/*@extract
file = "sds/src/validation.rs"
item = "REGEX_COMPLEXITY_LIMIT"
kind = "const"
@*/
// the documented limit
proof fn theorem_limit() ensures REGEX_COMPLEXITY_LIMIT == 1_000_000 { }
/*@extract
file = "sds/src/validation.rs"
item = "build_regex"
ret = "r"
contract = '''
    ensures
        r is Ok <==> fits(converted_pattern@, complexity_limit as int),
        r is Ok ==> built_from(r->Ok_0) == converted_pattern@,
        r is Err ==> r->Err_0 == (if well_formed(converted_pattern@) { RegexValidationError::TooComplex } else { RegexValidationError::InvalidSyntax }),
'''
[[rewrite]]
from = "meta::Regex"
to = "MetaRegex"
[[rewrite]]
from = "meta::Builder::new().configure(meta::Config::new().nfa_size_limit($lim).hybrid_cache_capacity(2 * (1 << 20)),).syntax(syntax_config()).build(converted_pattern).map_err(|regex_err| $body)"
to = "match vp_build_meta($lim, converted_pattern) { Ok(vp_ok) => Ok(vp_ok), Err(regex_err) => Err($body) }"
@*/
/*@extract
file = "sds/src/validation.rs"
item = "is_regex_within_complexity_limit"
ret = "r"
contract = '''
    ensures
        r is Ok <==> well_formed(converted_pattern@),
        r is Ok ==> r->Ok_0 == fits(converted_pattern@, complexity_limit as int),
        r is Err ==> r->Err_0 == RegexValidationError::InvalidSyntax,
'''
@*/
/*@extract
file = "sds/src/validation.rs"
item = "get_regex_complexity_estimate_very_slow"
ret = "r"
contract = '''
    ensures
        converted(input@) is Err ==> r == Err::<usize, _>(as_error(converted(input@)->Err_0)),
        converted(input@) is Ok ==> (r is Ok <==> well_formed(converted(input@)->Ok_0)),
        // the least limit (up to ten times the limit of scanners) under which the pattern is accepted
        r is Ok ==> {
            &&& 1 <= r->Ok_0 <= 10 * REGEX_COMPLEXITY_LIMIT
            &&& (fits(converted(input@)->Ok_0, r->Ok_0 as int) || r->Ok_0 == 10 * REGEX_COMPLEXITY_LIMIT)
            &&& forall|l: int| 1 <= l < r->Ok_0 ==> !#[trigger] fits(converted(input@)->Ok_0, l)
        },
'''
[[rewrite]]
from = "convert_to_rust_regex(input)?"
to = "(match vp_convert(input) { Ok(vp_c) => vp_c, Err(vp_e) => return Err(vp_from(vp_e)) })"
[[rewrite]]
from = "let mut low = 1;"
to = "let mut low: usize = 1;"
[[loop]]
n = 0
kind = "while"
before = "#[verifier::loop_isolation(false)]"
spec = '''
    invariant
        1 <= low <= high <= 10 * REGEX_COMPLEXITY_LIMIT,
        converted(input@) == Ok::<Seq<char>, ParseError>(converted_pattern@),
        forall|l: int| 1 <= l < low ==> !#[trigger] fits(converted_pattern@, l),
        fits(converted_pattern@, high as int) || high == 10 * REGEX_COMPLEXITY_LIMIT,
        low < 10 * REGEX_COMPLEXITY_LIMIT || low == high,
        low > 1 || high < 10 * REGEX_COMPLEXITY_LIMIT ==> well_formed(converted_pattern@),
    decreases high - low,
'''
@*/
/*@extract
file = "sds/src/validation.rs"
item = "can_match_empty_string"
ret = "r"
contract = '''
    ensures
        r is Ok <==> well_formed(converted_pattern@),
        r is Ok ==> r->Ok_0 == may_match_empty(nfa_of(converted_pattern@)),
        r is Err ==> r->Err_0 == RegexValidationError::InvalidSyntax,
'''
[[rewrite]]
from = "thompson::Compiler::new().syntax(syntax_config()).build(converted_pattern).map_err(|_| $e)?"
to = "(match vp_build_nfa(converted_pattern) { Ok(vp_n) => vp_n, Err(_) => return Err($e) })"
[[rewrite]]
from = "vec![false; nfa.states().len()]"
to = "vp_falses(nfa.vp_len())"
[[rewrite]]
from = "thompson::State::"
to = "State::"
all = true
[[rewrite]]
from = "pending.extend(alternates.iter())"
to = "vp_extend(&mut pending, alternates)"
[[rewrite]]
from = "pending.extend([alt1, alt2])"
to = "{ pending.push(*alt1); pending.push(*alt2); }"
[[loop]]
n = 0
kind = "while"
before = '''#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]'''
spec = '''
    invariant
        nfa.ok(), visited@.len() == nfa@.len(), pend == pending@,
        well_formed(converted_pattern@), nfa == nfa_of(converted_pattern@),
        // everything pending or visited can be reached
        forall|k: int| 0 <= k < pending@.len() ==> (#[trigger] pending@[k]).i < nfa@.len() && reaches(nfa, pending@[k]),
        // what was visited is no match and what follows it is visited or pending
        forall|s: int| 0 <= s < nfa@.len() && #[trigger] visited@[s] ==> !(nfa@[s] is Match),
        forall|s: int, t: StateID| 0 <= s < nfa@.len() && visited@[s] && #[trigger] eps(nfa@[s], t) ==> visited@[t.i as int] || pending@.contains(t),
        visited@[nfa.start().i as int] || pending@.contains(nfa.start()),
    ensures pending@.len() == 0,
    decreases unseen(visited@), pending@.len(),
'''
start = '''
let ghost p0 = pending@; let ghost v0 = visited@; let ghost p00 = pend;
proof { assert(p00 =~= p0.push(id)); assert(p00[p00.len() - 1] == id); assert(reaches(nfa, id)); assert(id.i < nfa@.len());
    assert forall|t: StateID| p00.contains(t) && t != id implies p0.contains(t) by { let k = choose|k: int| 0 <= k < p00.len() && p00[k] == t; assert(p0[k] == t); }
    pend = p0;
    if !v0[id.i as int] { lemma_unseen(v0, id.i as int); } }
'''
end = '''
proof {
    let st = nfa@[id.i as int];
    // everything that was pending still is, and so is whatever follows the state
    assert forall|t: StateID| #[trigger] p0.contains(t) implies pending@.contains(t) by { let k = choose|k: int| 0 <= k < p0.len() && p0[k] == t; assert(pending@[k] == t); }
    assert forall|t: StateID| #[trigger] eps(st, t) implies pending@.contains(t) by {
        match st {
            State::Look { look, next } => { assert(pending@.last() == t); }
            State::Capture { next, slot } => { assert(pending@.last() == t); }
            State::Union { alternates } => { let k = choose|k: int| 0 <= k < alternates@.len() && alternates@[k] == t; assert(pending@[p0.len() as int + k] == t); }
            State::BinaryUnion { alt1, alt2 } => { if t == alt1 { assert(pending@[p0.len() as int] == t); } else { assert(pending@[p0.len() as int + 1] == t); } }
            _ => {}
        }
    }
    assert forall|k: int| 0 <= k < pending@.len() implies (#[trigger] pending@[k]).i < nfa@.len() && reaches(nfa, pending@[k]) by {
        if k < p0.len() { assert(p00[k] == p0[k]); assert(pending@[k] == p0[k]); }
        else {
            assert(eps(st, pending@[k])) by { match st { State::Union { alternates } => { assert(alternates@[k - p0.len()] == pending@[k]); } _ => {} } }
            assert(reaches(nfa, pending@[k]));
        }
    }
    pend = pending@;
}
'''
after = '''
proof {
    if may_match_empty(nfa) {
        let t = choose|t: StateID| #[trigger] reaches(nfa, t) && nfa@[t.i as int] is Match;
        let p = choose|p: Seq<StateID>| #[trigger] path(nfa, p) && p.last() == t;
        lemma_closed(nfa, visited@, p, p.len() - 1);
        assert(visited@[t.i as int]);
    }
}
'''
[[after]]
pattern = "visited[id.as_usize()] = true;"
text = '''proof { assert(visited@ == v0.update(id.i as int, true));
    assert forall|t: StateID| eps(nfa@[id.i as int], t) implies #[trigger] reaches(nfa, t) && t.i < nfa@.len() by { lemma_step(nfa, id, t); } }'''
[[before]]
pattern = "while let Some(id) = pending.pop()"
text = '''let ghost mut pend = pending@;
proof { let q = seq![nfa.start()]; assert(path(nfa, q)); assert(q.last() == nfa.start()); assert(reaches(nfa, nfa.start())); assert(pending@[0] == nfa.start()); assert(pending@ =~= q); }
'''
@*/
#[verifier::external_body]
pub fn vp_falses(n: usize) -> (r: Vec<bool>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> !#[trigger] r@[i] { vec![false; n] }
#[verifier::external_body]
pub fn vp_extend(v: &mut Vec<StateID>, w: &Vec<StateID>) ensures final(v)@ == old(v)@ + w@ { v.extend(w.iter()) }
pub open spec fn acceptable(p: Seq<char>) -> bool {
    &&& converted(p) is Ok
    &&& fits(converted(p)->Ok_0, 1_000_000)
    &&& !may_match_empty(nfa_of(converted(p)->Ok_0))
}
/*@extract
file = "sds/src/validation.rs"
item = "validate_and_create_regex"
ret = "r"
contract = '''
    ensures
        // a regex is returned only for patterns that never match an empty string, and it is the converted pattern
        r is Ok ==> acceptable(input@) && built_from(r->Ok_0) == converted(input@)->Ok_0 && !matches_empty_text(r->Ok_0),
        // each error names its reason
        converted(input@) is Err ==> r == Err::<MetaRegex, _>(as_error(converted(input@)->Err_0)),
        converted(input@) is Ok && !well_formed(converted(input@)->Ok_0) ==> r == Err::<MetaRegex, _>(RegexValidationError::InvalidSyntax),
        converted(input@) is Ok && well_formed(converted(input@)->Ok_0) && !fits(converted(input@)->Ok_0, 1_000_000) ==> r == Err::<MetaRegex, _>(RegexValidationError::TooComplex),
        r is Err && converted(input@) is Ok && fits(converted(input@)->Ok_0, 1_000_000) ==> r->Err_0 == RegexValidationError::MatchesEmptyString,
        // and nothing acceptable is refused
        acceptable(input@) && (forall|x: MetaRegex| #[trigger] built_from(x) == converted(input@)->Ok_0 ==> !matches_empty_text(x)) ==> r is Ok,
'''
[[rewrite]]
from = "meta::Regex"
to = "MetaRegex"
[[rewrite]]
from = "convert_to_rust_regex(input)?"
to = "(match vp_convert(input) { Ok(vp_c) => vp_c, Err(vp_e) => return Err(vp_from(vp_e)) })"
[[rewrite]]
from = 'regex.is_match("")'
to = '{ proof { reveal_strlit(""); } regex.is_match("") }'
@*/
/*@extract
file = "sds/src/validation.rs"
item = "validate_regex"
ret = "r"
contract = '''
    ensures r is Ok ==> acceptable(input@), r is Err && acceptable(input@) ==> exists|x: MetaRegex| #[trigger] built_from(x) == converted(input@)->Ok_0 && matches_empty_text(x),
'''
[[rewrite]]
from = "validate_and_create_regex(input).map(|_| ())"
to = "match validate_and_create_regex(input) { Ok(_) => Ok(()), Err(vp_e) => Err(vp_e) }"
@*/
}
fn main() {}
