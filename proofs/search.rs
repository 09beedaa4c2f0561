use vstd::prelude::*;
verus! {
//@include prelude/text.rs
//@include prelude/prefix_code.rs
//@include prelude/excluded_code.rs
//@include prelude/search_code.rs
//@include prelude/tp_code.rs
// ---- what the list of true positives is ------------------------------------------------------------
pub open spec fn covered(e: Seq<(int, int)>, s: int) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 <= s < e[i].1 }
pub open spec fn ascending(e: Seq<(int, int)>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).1 <= (#[trigger] e[j]).0 }
pub proof fn lemma_tp_end(rule: RegexCompiledRule, t: Seq<u8>, chk: bool, p: int) requires tp(rule, t, chk, p), ensures 0 <= p < tp_end(rule, t, p) <= t.len() {}
pub proof fn lemma_tp_cons(rule: RegexCompiledRule, t: Seq<u8>, chk: bool, a: int)
    requires 0 <= a < t.len(),
    ensures
        tp(rule, t, chk, a) ==> tp_list(rule, t, chk, a) == seq![(a, tp_end(rule, t, a))] + tp_list(rule, t, chk, tp_end(rule, t, a)),
        !tp(rule, t, chk, a) ==> tp_list(rule, t, chk, a) == tp_list(rule, t, chk, a + 1),
{}
pub proof fn lemma_tp_nil(rule: RegexCompiledRule, t: Seq<u8>, chk: bool, a: int) requires a >= t.len(), ensures tp_list(rule, t, chk, a).len() == 0 {}
/// Only true positives are listed, they do not overlap and are in order, and every true positive is
/// listed or overlapped by a listed one that starts earlier.
pub proof fn theorem_list(rule: RegexCompiledRule, t: Seq<u8>, chk: bool, a: int)
    requires 0 <= a,
    ensures ({
        let l = tp_list(rule, t, chk, a);
        &&& forall|i: int| 0 <= i < l.len() ==> a <= (#[trigger] l[i]).0 && tp(rule, t, chk, l[i].0) && l[i].1 == tp_end(rule, t, l[i].0) && l[i].0 < l[i].1 <= t.len()
        &&& ascending(l)
        &&& forall|s: int| a <= s && tp(rule, t, chk, s) ==> #[trigger] covered(l, s)
    }),
    decreases t.len() - a,
{
    hide(tp); hide(tp_end); hide(tp_list);
    let l = tp_list(rule, t, chk, a);
    if a < t.len() {
        lemma_tp_cons(rule, t, chk, a);
        if tp(rule, t, chk, a) {
            let e = tp_end(rule, t, a); let r = tp_list(rule, t, chk, e);
            lemma_tp_end(rule, t, chk, a);
            theorem_list(rule, t, chk, e);
            assert(l == seq![(a, e)] + r);
            assert forall|i: int| 0 <= i < l.len() implies a <= (#[trigger] l[i]).0 && tp(rule, t, chk, l[i].0) && l[i].1 == tp_end(rule, t, l[i].0) && l[i].0 < l[i].1 <= t.len() by { if i > 0 { assert(l[i] == r[i - 1]); } }
            assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).1 <= (#[trigger] l[j]).0 by { assert(l[j] == r[j - 1]); if i > 0 { assert(l[i] == r[i - 1]); } }
            assert forall|s: int| a <= s && tp(rule, t, chk, s) implies #[trigger] covered(l, s) by {
                if s < e { assert(l[0] == (a, e)); }
                else { assert(tp(rule, t, chk, s)); assert(covered(r, s)); let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 <= s < r[i].1; assert(l[i + 1] == r[i]); }
            }
        } else { theorem_list(rule, t, chk, a + 1); }
    } else {
        lemma_tp_nil(rule, t, chk, a);
        assert forall|s: int| a <= s && tp(rule, t, chk, s) implies #[trigger] covered(l, s) by { lemma_tp_end(rule, t, chk, s); }
    }
}
// ---- what one rule finds in one string --------------------------------------------------------------
pub struct VpEmitter { pub v: Vec<StringMatch> }
impl VpEmitter {
    pub open spec fn view(&self) -> Seq<(int, int)> { self.v@.map_values(|m: StringMatch| (m.start as int, m.end as int)) }
    // what the scanner's emitter does: record the match
    pub fn emit(&mut self, m: StringMatch) ensures final(self)@ == old(self)@.push((m.start as int, m.end as int)) {
        let ghost o = self.v@;
        self.v.push(m);
        proof { assert(self.v@.map_values(|m: StringMatch| (m.start as int, m.end as int)) =~= o.map_values(|m: StringMatch| (m.start as int, m.end as int)).push((m.start as int, m.end as int))); }
    }
}
#[verifier::external_body]
pub struct VpPath { x: u8 }
// the matches near an included keyword: the contract proved of the callee in unit `keywords` (property C10)
pub uninterp spec fn near_keyword(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, path: VpPath, on: bool, tpr: Seq<usize>, out: Seq<(int, int)>) -> bool;
impl RegexCompiledRule {
    #[verifier::external_body]
    fn get_string_matches_with_included_keywords(&self, content: &VpText, path: &VpPath, exclusion_check: &ExclusionCheck<'_>, excluded_matches: &mut VpSet, match_emitter: &mut VpEmitter,
        true_positive_rule_idx: &[usize], included_keywords: &CompiledIncludedProximityKeywords, should_kws_match_event_paths: bool)
        requires self.ok(), self.included_keywords == Some(*included_keywords),
        ensures
            path_excluded(*exclusion_check, self.rule_index as int) ==> final(match_emitter)@ == old(match_emitter)@,
            !path_excluded(*exclusion_check, self.rule_index as int) ==> *final(excluded_matches) == *old(excluded_matches)
                && exists|out: Seq<(int, int)>| final(match_emitter)@ == old(match_emitter)@ + out
                    && #[trigger] near_keyword(*self, *included_keywords, content@, *path, should_kws_match_event_paths, true_positive_rule_idx@, out),
    { unimplemented!() }
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::true_positive_matches"
ret = "r"
contract = '''
    ensures
        *r.rule == *self, *r.content == *content, r.start == start, r.check_excluded_keywords == check_excluded_keywords,
        *r.exclusion_check == *exclusion_check, *r.excluded_matches == *old(excluded_matches), *final(r.excluded_matches) == *final(excluded_matches),
'''
[[rewrite]]
from = "content: &'a str"
to = "content: &'a VpText"
[[rewrite]]
from = "cache: &'a mut Cache,"
to = ""
[[rewrite]]
from = "cache, check_excluded_keywords,"
to = "check_excluded_keywords,"
[[rewrite]]
from = "excluded_matches: &'a mut AHashSet<String>"
to = "excluded_matches: &'a mut VpSet"
@*/
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::get_string_matches"
contract = '''
    requires self.ok(),
    ensures
        path_excluded(*exclusion_check, self.rule_index as int) ==> final(match_emitter)@ == old(match_emitter)@,
        !path_excluded(*exclusion_check, self.rule_index as int) ==> *final(excluded_matches) == *old(excluded_matches),
        // without included keywords: the true positives, excluded keywords considered, in order
        self.included_keywords is None && !path_excluded(*exclusion_check, self.rule_index as int) ==> final(match_emitter)@ == old(match_emitter)@ + tp_list(*self, content@, true, 0),
        // on an excluded path their texts are remembered instead
        self.included_keywords is None && path_excluded(*exclusion_check, self.rule_index as int) ==> final(excluded_matches)@ == old(excluded_matches)@.union(texts(content@, tp_list(*self, content@, true, 0))),
        self.included_keywords is Some && !path_excluded(*exclusion_check, self.rule_index as int) ==> exists|out: Seq<(int, int)>| final(match_emitter)@ == old(match_emitter)@ + out
            && #[trigger] near_keyword(*self, self.included_keywords->0, content@, *path, should_kws_match_event_paths, true_positive_rule_idx@, out),
'''
start = '''
let ghost rule = *self; let ghost t = content@; let ghost all = tp_list(rule, t, true, 0); let ghost exc = path_excluded(*exclusion_check, self.rule_index as int);
let ghost em0 = match_emitter@; let ghost set0 = *excluded_matches; let ghost mut e: Seq<(int, int)> = seq![];
proof { axiom_text(content); assert(em0 + e =~= em0); assert(seq![] + all =~= all); }
'''
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "path: &Path"
to = "path: &VpPath"
[[rewrite]]
from = "regex_caches: &mut RegexCaches, _group_data: &mut (), _group_config: &(), _rule_scan_cache: &mut (),"
to = ""
[[rewrite]]
from = "content, path, regex_caches, exclusion_check,"
to = "content, path, exclusion_check,"
[[rewrite]]
from = "excluded_matches: &mut AHashSet<String>"
to = "excluded_matches: &mut VpSet"
[[rewrite]]
from = "match_emitter: &mut dyn MatchEmitter"
to = "match_emitter: &mut VpEmitter"
[[rewrite]]
from = "self.true_positive_matches(content, $x, regex_caches.get(&self.regex), $c, exclusion_check, excluded_matches,)"
to = "self.true_positive_matches(content, $x, $c, exclusion_check, excluded_matches)"
[[rewrite]]
from = "for string_match in true_positive_search"
to = "let mut vp_it = true_positive_search; while let Some(string_match) = vp_it.next()"
[[loop]]
n = 0
kind = "for"
before = "let ghost fin = *final(true_positive_search.excluded_matches);"
spec = '''
    invariant
        vp_it.inv(), *vp_it.rule == rule, *vp_it.content == *content, vp_it.check_excluded_keywords, *vp_it.exclusion_check == *exclusion_check,
        *final(vp_it.excluded_matches) == fin,
        exc ==> match_emitter@ == em0 && vp_it.excluded_matches@.union(texts(t, vp_it.list())) == set0@.union(texts(t, all)),
        !exc ==> *vp_it.excluded_matches == set0 && e + vp_it.list() == all && match_emitter@ == em0 + e,
    ensures
        !exc ==> vp_it.list().len() == 0,
        exc ==> vp_it.excluded_matches@ == set0@.union(texts(t, all)),
    decreases t.len() - vp_it.start,
'''
start = '''proof {
    let m = (string_match.start as int, string_match.end as int);
    assert(e + (seq![m] + vp_it.list()) =~= e.push(m) + vp_it.list());
    assert((em0 + e).push(m) =~= em0 + e.push(m));
    e = e.push(m);
}'''
after = "proof { if !exc { assert(e + seq![] =~= e); assert(vp_it.list() =~= seq![]); } }"
@*/
}
} // verus!
fn main() {}
