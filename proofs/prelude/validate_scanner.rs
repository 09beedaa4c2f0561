// ======== Scanner::validate_matches =====================================================================
#[verifier::external_body]
pub struct InternalMatchValidationType { x: u8 }
pub enum MatchValidationError { NoMatchValidationType }
impl VpRule {
    pub uninterp spec fn kind(&self) -> Option<InternalMatchValidationType>;
    #[verifier::external_body]
    pub fn get_internal_match_validation_type(&self) -> (r: Option<&InternalMatchValidationType>) ensures r is Some <==> self.kind() is Some, r is Some ==> *r->0 == self.kind()->0 { unimplemented!() }
}
// `Box<dyn MatchValidator>`
pub enum VpValidator { Aws(AwsValidator), Http(HttpValidator) }
pub open spec fn validated(v: VpValidator, rules: Seq<VpRule>, a: Seq<RuleMatch>, b: Seq<RuleMatch>) -> bool { match v { VpValidator::Aws(x) => aws_validated(x.config, rules, a, b), VpValidator::Http(x) => http_validated(x.config, a, b) } }
pub open spec fn valued(m: Seq<RuleMatch>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).match_value is Some }
impl VpValidator {
    pub fn validate(&self, matches: &mut Vec<RuleMatch>, rules: &Vec<VpRule>)
        requires valued(old(matches)@), in_rules(rules@, old(matches)@),
        ensures validated(*self, rules@, old(matches)@, final(matches)@),
    { match self { VpValidator::Aws(x) => x.validate(matches, rules.as_slice()), VpValidator::Http(x) => x.validate(matches) } }
}
#[verifier::external_body]
pub struct VpValidators { x: u8 }
impl View for VpValidators { type V = Map<InternalMatchValidationType, VpValidator>; uninterp spec fn view(&self) -> Map<InternalMatchValidationType, VpValidator>; }
impl VpValidators {
    #[verifier::external_body] pub fn get(&self, k: &InternalMatchValidationType) -> (r: Option<&VpValidator>)
        ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
}
pub struct ScannerFeatures { pub return_matches: bool }
pub struct Scanner { pub rules: Vec<VpRule>, pub scanner_features: ScannerFeatures, pub match_validators_per_type: VpValidators }
pub type Kind = Option<InternalMatchValidationType>;
// `AHashMap<&InternalMatchValidationType, Vec<RuleMatch>>`
#[verifier::external_body]
pub struct VpGroups { x: u8 }
impl View for VpGroups { type V = Map<InternalMatchValidationType, Seq<RuleMatch>>; uninterp spec fn view(&self) -> Map<InternalMatchValidationType, Seq<RuleMatch>>; }
pub struct VpEntries { pub v: Vec<(InternalMatchValidationType, Vec<RuleMatch>)> }
impl VpGroups {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<InternalMatchValidationType, Seq<RuleMatch>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &InternalMatchValidationType) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &InternalMatchValidationType, v: Vec<RuleMatch>) ensures final(self)@ == old(self)@.insert(*k, v@) { unimplemented!() }
    // `get_mut(k).unwrap().push(m)`
    #[verifier::external_body] pub fn vp_push(&mut self, k: &InternalMatchValidationType, m: RuleMatch) requires old(self)@.contains_key(*k), ensures final(self)@ == old(self)@.insert(*k, old(self)@[*k].push(m)) { unimplemented!() }
    // iteration by value: every entry once, in any order
    #[verifier::external_body] pub fn vp_entries(self) -> (r: VpEntries)
        ensures
            forall|i: int| 0 <= i < r.v@.len() ==> self@.contains_key((#[trigger] r.v@[i]).0) && self@[r.v@[i].0] == r.v@[i].1@,
            forall|i: int, j: int| 0 <= i < j < r.v@.len() ==> (#[trigger] r.v@[i]).0 != (#[trigger] r.v@[j]).0,
            forall|k: InternalMatchValidationType| #[trigger] self@.contains_key(k) ==> entry_for(r.v@, r.v@.len() as int, k),
    { unimplemented!() }
}
pub open spec fn entry_for(e: Seq<(InternalMatchValidationType, Vec<RuleMatch>)>, n: int, k: InternalMatchValidationType) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e[i]).0 == k }
#[verifier::external_body]
pub fn vp_drain(v: &mut Vec<RuleMatch>) -> (r: Vec<RuleMatch>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vp_move(v: &Vec<RuleMatch>, i: usize) -> (r: RuleMatch) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vp_take(e: &VpEntries, i: usize) -> (r: Vec<RuleMatch>) requires i < e.v@.len(), ensures r@ == e.v@[i as int].1@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_sort(v: &mut Vec<RuleMatch>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> vp_key(&#[trigger] final(v)@[i]) <= vp_key(&#[trigger] final(v)@[j]) { unimplemented!() }
pub open spec fn vp_key(m: &RuleMatch) -> usize { m.start_index }
// the matches of a kind, in order
pub open spec fn of_kind(rules: Seq<VpRule>, s: Seq<RuleMatch>, n: int, k: Kind) -> Seq<RuleMatch> decreases n { if n <= 0 { Seq::empty() } else if rules[s[n - 1].rule_index as int].kind() == k { of_kind(rules, s, n - 1, k).push(s[n - 1]) } else { of_kind(rules, s, n - 1, k) } }
pub proof fn lemma_of_kind(rules: Seq<VpRule>, s: Seq<RuleMatch>, n: int, k: Kind)
    requires 0 <= n <= s.len(), valued(s), in_rules(rules, s),
    ensures valued(of_kind(rules, s, n, k)), in_rules(rules, of_kind(rules, s, n, k)), forall|i: int| 0 <= i < of_kind(rules, s, n, k).len() ==> rules[(#[trigger] of_kind(rules, s, n, k)[i]).rule_index as int].kind() == k,
        n > 0 && of_kind(rules, s, n, k).len() == 0 ==> of_kind(rules, s, n - 1, k).len() == 0,
    decreases n,
{ if n > 0 { lemma_of_kind(rules, s, n - 1, k); } }
// a group is validated by the validator of its kind, or left alone when there is none
pub open spec fn group_done(s: Scanner, k: InternalMatchValidationType, a: Seq<RuleMatch>, b: Seq<RuleMatch>) -> bool { if s.match_validators_per_type@.contains_key(k) { validated(s.match_validators_per_type@[k], s.rules@, a, b) } else { b == a } }
// after validation: the matches without a kind as they were, those of each kind validated together, nothing else
pub open spec fn all_done(s: Scanner, a: Seq<RuleMatch>, b: Seq<RuleMatch>, g: Map<InternalMatchValidationType, Seq<RuleMatch>>) -> bool {
    &&& forall|k: InternalMatchValidationType| #[trigger] g.contains_key(k) <==> of_kind(s.rules@, a, a.len() as int, Some(k)).len() > 0
    &&& forall|k: InternalMatchValidationType| #[trigger] g.contains_key(k) ==> group_done(s, k, of_kind(s.rules@, a, a.len() as int, Some(k)), g[k])
    &&& forall|m: RuleMatch| #[trigger] b.to_multiset().count(m) == due(s, a, g, m)
}
pub open spec fn due(s: Scanner, a: Seq<RuleMatch>, g: Map<InternalMatchValidationType, Seq<RuleMatch>>, m: RuleMatch) -> nat {
    match s.rules@[m.rule_index as int].kind() { None => of_kind(s.rules@, a, a.len() as int, None).to_multiset().count(m), Some(k) => if g.contains_key(k) { g[k].to_multiset().count(m) } else { 0 } }
}
impl Scanner {
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::validate_matches"
kind = "closure"
closure = "for_each(|(match_validation_type, matches_per_type)| $body,)"
sig = "fn vp_group(&self, match_validation_type: &InternalMatchValidationType, matches_per_type: &mut Vec<RuleMatch>)"
contract = '''
    requires valued(old(matches_per_type)@), in_rules(self.rules@, old(matches_per_type)@),
    ensures group_done(*self, *match_validation_type, old(matches_per_type)@, final(matches_per_type)@),
'''
[[rewrite]]
from = "match_validator.as_ref().validate($a)"
to = "match_validator.validate($a)"
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::validate_matches"
kind = "closure"
closure = "sort_by_key(|rule_match| $body)"
sig = "fn vp_start(rule_match: &RuleMatch) -> (r: usize)"
contract = "ensures r == rule_match.start_index,"
@*/
    // `par_iter_mut().for_each(vp_group)`: every entry once
    #[verifier::external_body]
    fn vp_groups(&self, g: &mut VpGroups)
        requires forall|k: InternalMatchValidationType| #[trigger] old(g)@.contains_key(k) ==> valued(old(g)@[k]) && in_rules(self.rules@, old(g)@[k]),
        ensures final(g)@.dom() == old(g)@.dom(), forall|k: InternalMatchValidationType| #[trigger] final(g)@.contains_key(k) ==> group_done(*self, k, old(g)@[k], final(g)@[k]),
    { unimplemented!() }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::validate_matches"
nloops = 2
contract = '''
    requires valued(old(rule_matches)@), in_rules(self.rules@, old(rule_matches)@),
    ensures
        r is Ok <==> self.scanner_features.return_matches,
        r is Err ==> final(rule_matches)@ == old(rule_matches)@,
        r is Ok ==> (exists|g: Map<InternalMatchValidationType, Seq<RuleMatch>>| #[trigger] all_done(*self, old(rule_matches)@, final(rule_matches)@, g)),
        r is Ok ==> forall|i: int, j: int| 0 <= i < j < final(rule_matches)@.len() ==> vp_key(&#[trigger] final(rule_matches)@[i]) <= vp_key(&#[trigger] final(rule_matches)@[j]),
'''
start = "let ghost a = old(rule_matches)@; let ghost rs = self.rules@;"
[[rewrite]]
from = "-> Result<(), MatchValidationError>"
to = "-> (r: Result<(), MatchValidationError>)"
[[rewrite]]
from = "let mut match_validator_rule_match_per_type = AHashMap::new();"
to = "let mut match_validator_rule_match_per_type = VpGroups::new();"
[[rewrite]]
from = "let mut unchecked_rule_matches = vec![];"
to = "let mut unchecked_rule_matches: Vec<RuleMatch> = Vec::new();"
[[rewrite]]
from = "for rule_match in rule_matches.drain(..)"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = "match_validator_rule_match_per_type.get_mut(match_validation_type).unwrap().push(rule_match);"
to = "match_validator_rule_match_per_type.vp_push(match_validation_type, rule_match);"
[[rewrite]]
from = "match_validator_rule_match_per_type.par_iter_mut().for_each($f);"
to = "let ghost g0 = match_validator_rule_match_per_type@; proof { assert forall|k: InternalMatchValidationType| #[trigger] g0.contains_key(k) implies valued(g0[k]) && in_rules(rs, g0[k]) by { lemma_of_kind(rs, a, a.len() as int, Some(k)); } } self.vp_groups(&mut match_validator_rule_match_per_type);"
[[rewrite]]
from = "for (_, mut matches) in match_validator_rule_match_per_type"
to = "for vp_j in 0..vp_m"
[[rewrite]]
from = "rule_matches.sort_by_key($f);"
to = "vp_sort(rule_matches);"
[[loop]]
n = 0
kind = "for"
before = "let vp_all = vp_drain(rule_matches); let vp_n = vp_all.len();"
spec = '''
    invariant
        vp_n == a.len(), vp_all@ == a, valued(a), in_rules(rs, a), rs == self.rules@, rule_matches@.len() == 0,
        unchecked_rule_matches@ == of_kind(rs, a, vp_i as int, None),
        grouped(rs, a, vp_i as int, match_validator_rule_match_per_type@),
'''
start = "let rule_match = vp_move(&vp_all, vp_i); let ghost g1 = match_validator_rule_match_per_type@;"
end = "proof { lemma_grouped(rs, a, vp_i as int, g1, match_validator_rule_match_per_type@); }"
[[loop]]
n = 1
kind = "for"
before = '''let ghost g = match_validator_rule_match_per_type@; let vp_e = match_validator_rule_match_per_type.vp_entries(); let vp_m = vp_e.v.len(); let ghost e = vp_e.v@;
    proof {
        assert forall|k: InternalMatchValidationType, i: int| g.contains_key(k) && 0 <= i < g[k].len() implies rs[(#[trigger] g[k][i]).rule_index as int].kind() == Some(k) by { lemma_of_kind(rs, a, a.len() as int, Some(k)); assert(group_done(*self, k, g0[k], g[k])); lemma_kept_kind(*self, k, g0[k], g[k], i); }
        assert forall|m: RuleMatch| #[trigger] rule_matches@.to_multiset().count(m) == partly(rs, a, e, 0, m) by { lemma_none(rs, a, m); assert(rule_matches@ =~= of_kind(rs, a, a.len() as int, None)); }
    }'''
spec = '''
    invariant
        vp_m == e.len(), e == vp_e.v@, rs == self.rules@,
        forall|i: int| 0 <= i < e.len() ==> g.contains_key((#[trigger] e[i]).0) && g[e[i].0] == e[i].1@,
        forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0,
        forall|k: InternalMatchValidationType, i: int| g.contains_key(k) && 0 <= i < g[k].len() ==> rs[(#[trigger] g[k][i]).rule_index as int].kind() == Some(k),
        forall|m: RuleMatch| #[trigger] rule_matches@.to_multiset().count(m) == partly(rs, a, e, vp_j as int, m),
'''
start = "let mut matches = vp_take(&vp_e, vp_j); let ghost b0 = rule_matches@; let ghost add = matches@;"
end = "proof { assert forall|m: RuleMatch| #[trigger] rule_matches@.to_multiset().count(m) == partly(rs, a, e, vp_j + 1, m) by { vstd::seq_lib::lemma_multiset_commutative(b0, add); assert(rule_matches@ =~= b0 + add); lemma_partly(rs, a, e, vp_j as int, g, m); assert(b0.to_multiset().count(m) == partly(rs, a, e, vp_j as int, m)); } }"
after = "let ghost b1 = rule_matches@; proof { assert forall|m: RuleMatch| #[trigger] b1.to_multiset().count(m) == due(*self, a, g, m) by { lemma_due(*self, a, e, g, m); } }"
[[after]]
pattern = "rule_matches.sort_by_key($f);"
text = "proof { assert forall|k: InternalMatchValidationType| #[trigger] g.contains_key(k) <==> of_kind(self.rules@, a, a.len() as int, Some(k)).len() > 0 by { assert(g.dom() == g0.dom()); assert(g0.contains_key(k) <==> g0.dom().contains(k)); assert(g.contains_key(k) <==> g.dom().contains(k)); } assert(all_done(*self, a, rule_matches@, g)); }"
@*/
}
pub open spec fn grouped(rs: Seq<VpRule>, a: Seq<RuleMatch>, n: int, g: Map<InternalMatchValidationType, Seq<RuleMatch>>) -> bool {
    &&& forall|k: InternalMatchValidationType| #[trigger] g.contains_key(k) <==> of_kind(rs, a, n, Some(k)).len() > 0
    &&& forall|k: InternalMatchValidationType| #[trigger] g.contains_key(k) ==> g[k] == of_kind(rs, a, n, Some(k))
}
proof fn lemma_grouped(rs: Seq<VpRule>, a: Seq<RuleMatch>, n: int, g: Map<InternalMatchValidationType, Seq<RuleMatch>>, h: Map<InternalMatchValidationType, Seq<RuleMatch>>)
    requires 0 <= n < a.len(), grouped(rs, a, n, g), ({ let k = rs[a[n].rule_index as int].kind();
        if k is None { h == g } else if g.contains_key(k->0) { h == g.insert(k->0, g[k->0].push(a[n])) } else { h == g.insert(k->0, Seq::<RuleMatch>::empty()).insert(k->0, Seq::<RuleMatch>::empty().push(a[n])) } }),
    ensures grouped(rs, a, n + 1, h),
{
    let q = rs[a[n].rule_index as int].kind();
    assert forall|k: InternalMatchValidationType| (#[trigger] h.contains_key(k) <==> of_kind(rs, a, n + 1, Some(k)).len() > 0) && (h.contains_key(k) ==> h[k] == of_kind(rs, a, n + 1, Some(k))) by {
        assert(g.contains_key(k) <==> of_kind(rs, a, n, Some(k)).len() > 0);
        if q == Some(k) { if !g.contains_key(k) { assert(of_kind(rs, a, n, Some(k)) =~= Seq::<RuleMatch>::empty()); } }
    }
}
proof fn lemma_kept_kind(s: Scanner, k: InternalMatchValidationType, a: Seq<RuleMatch>, b: Seq<RuleMatch>, i: int)
    requires group_done(s, k, a, b), 0 <= i < b.len(),
    ensures a.len() == b.len(), b[i].rule_index == a[i].rule_index,
{ if s.match_validators_per_type@.contains_key(k) { assert(kins(b, a)); assert(kin(b[i], a[i])); } }
// what is in the list after the unchecked matches and the first n groups
pub open spec fn partly(rs: Seq<VpRule>, a: Seq<RuleMatch>, e: Seq<(InternalMatchValidationType, Vec<RuleMatch>)>, n: int, m: RuleMatch) -> nat {
    match rs[m.rule_index as int].kind() { None => of_kind(rs, a, a.len() as int, None).to_multiset().count(m), Some(k) => if entry_for(e, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0 == k; e[i].1@.to_multiset().count(m) } else { 0 } }
}
proof fn lemma_absent(s: Seq<RuleMatch>, m: RuleMatch)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != m,
    ensures s.to_multiset().count(m) == 0,
{ s.to_multiset_ensures(); if s.to_multiset().count(m) > 0 { assert(s.contains(m)); } }
proof fn lemma_none(rs: Seq<VpRule>, a: Seq<RuleMatch>, m: RuleMatch)
    requires valued(a), in_rules(rs, a),
    ensures rs[m.rule_index as int].kind() is Some ==> of_kind(rs, a, a.len() as int, None).to_multiset().count(m) == 0,
{ lemma_of_kind(rs, a, a.len() as int, None); if rs[m.rule_index as int].kind() is Some { lemma_absent(of_kind(rs, a, a.len() as int, None), m); } }
proof fn lemma_partly(rs: Seq<VpRule>, a: Seq<RuleMatch>, e: Seq<(InternalMatchValidationType, Vec<RuleMatch>)>, n: int, g: Map<InternalMatchValidationType, Seq<RuleMatch>>, m: RuleMatch)
    requires 0 <= n < e.len(),
        forall|i: int| 0 <= i < e.len() ==> g.contains_key((#[trigger] e[i]).0) && g[e[i].0] == e[i].1@,
        forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0,
        forall|k: InternalMatchValidationType, i: int| g.contains_key(k) && 0 <= i < g[k].len() ==> rs[(#[trigger] g[k][i]).rule_index as int].kind() == Some(k),
    ensures partly(rs, a, e, n + 1, m) == partly(rs, a, e, n, m) + e[n].1@.to_multiset().count(m),
{
    let q = rs[m.rule_index as int].kind();
    if q == Some(e[n].0) {
        assert(entry_for(e, n + 1, e[n].0));
        let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0 == e[n].0;
        assert(i == n) by { if i < n { assert(e[i].0 != e[n].0); } }
        assert(!entry_for(e, n, e[n].0)) by { if entry_for(e, n, e[n].0) { let j = choose|j: int| 0 <= j < n && (#[trigger] e[j]).0 == e[n].0; assert(e[j].0 != e[n].0); } }
    } else {
        assert forall|i: int| 0 <= i < e[n].1@.len() implies #[trigger] e[n].1@[i] != m by { assert(rs[g[e[n].0][i].rule_index as int].kind() == Some(e[n].0)); }
        lemma_absent(e[n].1@, m);
        if q is Some {
            let k = q->0;
            if entry_for(e, n + 1, k) {
                let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0 == k;
                assert(i < n); assert(entry_for(e, n, k));
                let j = choose|j: int| 0 <= j < n && (#[trigger] e[j]).0 == k;
                assert(i == j) by { if i < j { assert(e[i].0 != e[j].0); } if j < i { assert(e[j].0 != e[i].0); } }
            } else if entry_for(e, n, k) { let j = choose|j: int| 0 <= j < n && (#[trigger] e[j]).0 == k; assert(e[j].0 == k && 0 <= j < n + 1); }
        }
    }
}
proof fn lemma_due(s: Scanner, a: Seq<RuleMatch>, e: Seq<(InternalMatchValidationType, Vec<RuleMatch>)>, g: Map<InternalMatchValidationType, Seq<RuleMatch>>, m: RuleMatch)
    requires
        forall|i: int| 0 <= i < e.len() ==> g.contains_key((#[trigger] e[i]).0) && g[e[i].0] == e[i].1@,
        forall|k: InternalMatchValidationType| #[trigger] g.contains_key(k) ==> entry_for(e, e.len() as int, k),
    ensures partly(s.rules@, a, e, e.len() as int, m) == due(s, a, g, m),
{
    let q = s.rules@[m.rule_index as int].kind();
    if q is Some { let k = q->0; if entry_for(e, e.len() as int, k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; assert(g.contains_key(e[i].0)); } }
}
