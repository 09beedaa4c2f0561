// ---- matches of a rule with included keywords ------------------------------------------------------------
pub struct VpEmitter { pub v: Vec<StringMatch> }
impl VpEmitter {
    pub open spec fn view(&self) -> Seq<(int, int)> { self.v@.map_values(|m: StringMatch| (m.start as int, m.end as int)) }
    // what the scanner's emitter does: record the match
    pub fn emit(&mut self, m: StringMatch) ensures final(self)@ == old(self)@.push((m.start as int, m.end as int)) {
        let ghost o = self.v@;
        self.v.push(m);
        proof { assert(self.v@.map_values(|m: StringMatch| (m.start as int, m.end as int)) =~= o.map_values(|m: StringMatch| (m.start as int, m.end as int)).push((m.start as int, m.end as int))); }
    }
}
#[verifier::external_body]
pub struct VpPath { x: u8 }
pub uninterp spec fn sanitized(p: VpPath) -> Seq<u8>;                     // contract of C11
impl VpPath {
    #[verifier::external_body]
    pub fn sanitize(&self) -> (r: VpText) ensures r@ == sanitized(*self) { unimplemented!() }
}
impl VpRegex {
    #[verifier::external_body]
    pub fn vp_found_path(&self, path: &VpText) -> (r: bool) ensures r == kw_in_path(*self, path@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_contains(v: &[usize], x: &usize) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
pub fn vp_some_false(o: Option<bool>) -> (r: bool) ensures r == (o == Some(false)) { match o { Some(x) => !x, None => false } }
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "contains_keyword_in_path"
ret = "r"
contract = '''
    ensures r == kw_in_path(regex.path_regex, path@),
'''
[[rewrite]]
from = "path: &str"
to = "path: &VpText"
[[rewrite]]
from = "let input = Input::new(path).earliest(true);"
to = ""
[[rewrite]]
from = "regex.path_regex.search_half(&input).is_some()"
to = "regex.path_regex.vp_found_path(path)"
@*/
// a keyword starts at byte k, at most n characters before byte s
pub open spec fn near(kw: CompiledIncludedProximityKeywords, t: Seq<u8>, k: int, s: int) -> bool {
    0 <= k <= s && kw_at(kw, t, k) && nchars(t, s) - nchars(t, k) <= kw.look_ahead_character_count
}
pub open spec fn kw_near(kw: CompiledIncludedProximityKeywords, t: Seq<u8>, s: int) -> bool { exists|k: int| #[trigger] near(kw, t, k, s) }
pub open spec fn covered(e: Seq<(int, int)>, s: int) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 <= s < e[i].1 }
pub open spec fn ascending(e: Seq<(int, int)>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).1 <= (#[trigger] e[j]).0 }
pub open spec fn sound(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, e: Seq<(int, int)>) -> bool {
    forall|i: int| 0 <= i < e.len() ==> tp(rule, t, false, (#[trigger] e[i]).0) && e[i].1 == tp_end(rule, t, e[i].0) && e[i].0 < e[i].1 && kw_near(kw, t, e[i].0)
}
// Every reported match is a true positive close enough after a keyword, reported matches do not
// overlap, and every true positive close enough after a keyword is reported or overlapped by one that is.
#[verifier::opaque]
pub open spec fn content_matches(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, e: Seq<(int, int)>) -> bool {
    &&& sound(rule, kw, t, e)
    &&& ascending(e)
    &&& forall|s: int| #[trigger] tp(rule, t, false, s) && kw_near(kw, t, s) ==> covered(e, s)
}
pub proof fn lemma_covered_push(e: Seq<(int, int)>, m: (int, int))
    ensures
        forall|s: int| #[trigger] covered(e, s) ==> covered(e.push(m), s),
        forall|s: int| m.0 <= s < m.1 ==> #[trigger] covered(e.push(m), s),
{
    assert forall|s: int| #[trigger] covered(e, s) implies covered(e.push(m), s) by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 <= s < e[i].1; assert(e.push(m)[i] == e[i]); }
    assert forall|s: int| m.0 <= s < m.1 implies #[trigger] covered(e.push(m), s) by { assert(e.push(m)[e.len() as int] == m); }
}
pub open spec fn occurs_somewhere(r: VpRegex, t: Seq<u8>) -> bool { exists|p: int| #[trigger] occurs(r, t, p) }
pub open spec fn path_matches(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, path: VpPath, on: bool) -> Seq<(int, int)> {
    if on && kw_in_path(kw.keywords_pattern.path_regex, sanitized(path)) { tp_list(rule, t, false, 0) } else { seq![] }
}
pub proof fn lemma_no_occurrence(rule: RegexCompiledRule, t: Seq<u8>, chk: bool)
    requires forall|p: int| 0 <= p ==> !#[trigger] occurs(rule.regex, t, p),
    ensures tp_list(rule, t, chk, 0) == Seq::<(int, int)>::empty(),
{
    assert forall|p: int| 0 <= p < t.len() implies !#[trigger] tp(rule, t, chk, p) by { assert(!occurs(rule.regex, t, p)); }
    lemma_tp_skip(rule, t, chk, 0, t.len() as int);
}
// the matches reported for one string, in the order of emission
pub open spec fn reported(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, path: VpPath, on: bool, tpr: Seq<usize>, out: Seq<(int, int)>) -> bool {
    if tpr.contains(rule.rule_index) { out == tp_list(rule, t, false, 0) }
    else { exists|e: Seq<(int, int)>| #[trigger] content_matches(rule, kw, t, e) && out == e + path_matches(rule, kw, t, path, on) }
}
pub proof fn lemma_tp_none(rule: RegexCompiledRule, t: Seq<u8>, chk: bool, a: int)
    requires tp_list(rule, t, chk, a).len() == 0, 0 <= a,
    ensures forall|p: int| a <= p ==> !#[trigger] tp(rule, t, chk, p),
    decreases t.len() - a,
{
    if a < t.len() { if tp(rule, t, chk, a) { } else { lemma_tp_none(rule, t, chk, a + 1); } }
}
// invariant of the keyword loop: e = matches so far, last = end of the last one, cur = the keyword looked at
// last, from = where the keyword search goes on
#[verifier::opaque]
pub open spec fn outer_inv(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, e: Seq<(int, int)>, last: int, cur: int, from: int) -> bool {
    &&& sound(rule, kw, t, e) && ascending(e) && (forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1 <= last)
    &&& forall|k: int, s: int| #![trigger near(kw, t, k, s), tp(rule, t, false, s)] k < from && near(kw, t, k, s) && tp(rule, t, false, s) ==> covered(e, s)
    &&& forall|s: int| cur <= s < last && #[trigger] tp(rule, t, false, s) ==> covered(e, s)
}
// invariant of the match loop for the keyword at kk: q = where the match search goes on
#[verifier::opaque]
pub open spec fn inner_inv(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, e: Seq<(int, int)>, last: int, kk: int, nk: int, q: int) -> bool {
    &&& sound(rule, kw, t, e) && ascending(e) && (forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1 <= last)
    &&& kw_at(kw, t, kk) && kk < nk && kk <= q && last <= q
    &&& forall|s: int| kk <= s < q && #[trigger] tp(rule, t, false, s) ==> covered(e, s)
    &&& forall|k: int, s: int| #![trigger near(kw, t, k, s), tp(rule, t, false, s)] k < nk && k != kk && near(kw, t, k, s) && tp(rule, t, false, s) ==> covered(e, s)
}
pub proof fn lemma_outer_start(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>)
    ensures outer_inv(rule, kw, t, seq![], 0, 0, 0),
{ reveal(outer_inv); }
pub proof fn lemma_keyword(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, e: Seq<(int, int)>, last: int, cur: int, from: int, kk: int, nk: int)
    requires
        outer_inv(rule, kw, t, e, last, cur, from), cur <= from <= kk < nk, kw_at(kw, t, kk),
        forall|p: int| from <= p < nk && p != kk ==> !#[trigger] kw_at(kw, t, p),
    ensures inner_inv(rule, kw, t, e, last, kk, nk, if kk >= last { kk } else { last }),
{ reveal(outer_inv); reveal(inner_inv); }
pub proof fn lemma_no_keyword(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, e: Seq<(int, int)>, last: int, cur: int, from: int)
    requires outer_inv(rule, kw, t, e, last, cur, from), forall|p: int| from <= p ==> !#[trigger] kw_at(kw, t, p),
    ensures content_matches(rule, kw, t, e),
{
    reveal(outer_inv); reveal(content_matches);
    assert forall|s: int| #[trigger] tp(rule, t, false, s) && kw_near(kw, t, s) implies covered(e, s) by { let k = choose|k: int| #[trigger] near(kw, t, k, s); assert(kw_at(kw, t, k)); }
}
pub open spec fn next_tp(rule: RegexCompiledRule, t: Seq<u8>, q: int, m: (int, int)) -> bool {
    &&& q <= m.0 < m.1 <= t.len() && tp(rule, t, false, m.0) && m.1 == tp_end(rule, t, m.0)
    &&& forall|p: int| q <= p < m.0 ==> !#[trigger] tp(rule, t, false, p)
}
pub proof fn lemma_emit(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, e: Seq<(int, int)>, last: int, kk: int, nk: int, q: int, m: (int, int))
    requires inner_inv(rule, kw, t, e, last, kk, nk, q), next_tp(rule, t, q, m), nchars(t, m.0) - nchars(t, kk) <= kw.look_ahead_character_count,
    ensures inner_inv(rule, kw, t, e.push(m), m.1, kk, nk, m.1),
{
    reveal(inner_inv);
    lemma_covered_push(e, m);
    assert(near(kw, t, kk, m.0)); assert(kw_near(kw, t, m.0));
    assert forall|k: int, s: int| #![trigger near(kw, t, k, s), tp(rule, t, false, s)] k < nk && k != kk && near(kw, t, k, s) && tp(rule, t, false, s) implies covered(e.push(m), s) by { assert(covered(e, s)); }
    assert forall|s: int| kk <= s < m.1 && #[trigger] tp(rule, t, false, s) implies covered(e.push(m), s) by { if s < m.0 { assert(covered(e, s)); } else { assert(covered(e.push(m), s)); } }
}
pub proof fn lemma_skip(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, e: Seq<(int, int)>, last: int, kk: int, nk: int, q: int, m: (int, int), ps: PrefixStart, from: int)
    requires
        inner_inv(rule, kw, t, e, last, kk, nk, q), next_tp(rule, t, q, m), nchars(t, m.0) - nchars(t, kk) > kw.look_ahead_character_count, text_ok(t), last <= q,
        ps.used_all_chars ==> char_at(t, ps.start as int, nchars(t, m.0) - kw.look_ahead_character_count),
        !ps.used_all_chars ==> ps.start == 0,
        from == (if ps.start > nk { ps.start as int } else { nk }),
    ensures outer_inv(rule, kw, t, e, last, kk, from),
{
    reveal(inner_inv); reveal(outer_inv);
    assert forall|k: int, s: int| #![trigger near(kw, t, k, s), tp(rule, t, false, s)] k < from && near(kw, t, k, s) && tp(rule, t, false, s) implies covered(e, s) by {
        if k < nk && k != kk { }
        else {
            if s >= m.0 { lemma_nchars_mono(t, m.0, s); if k != kk { assert(!cont(t[k])); lemma_nchars_mono(t, k, ps.start as int); } }
            assert(s < m.0);
        }
    }
}
pub proof fn lemma_done(rule: RegexCompiledRule, kw: CompiledIncludedProximityKeywords, t: Seq<u8>, e: Seq<(int, int)>, last: int, kk: int, nk: int, q: int)
    requires inner_inv(rule, kw, t, e, last, kk, nk, q), tp_list(rule, t, false, q).len() == 0, 0 <= q,
    ensures content_matches(rule, kw, t, e),
{
    reveal(inner_inv); reveal(content_matches);
    lemma_tp_none(rule, t, false, q);
    assert forall|s: int| #[trigger] tp(rule, t, false, s) && kw_near(kw, t, s) implies covered(e, s) by {
        let k = choose|k: int| #[trigger] near(kw, t, k, s);
        if k < nk && k != kk { } else { assert(s < q); }
    }
}
pub proof fn lemma_kw_bdry(kw: CompiledIncludedProximityKeywords, t: Seq<u8>)
    requires text_ok(t),
    ensures forall|k: int| #[trigger] kw_at(kw, t, k) ==> 0 <= k < t.len() && !cont(t[k]),
{}
impl RegexCompiledRule {
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::true_positive_matches"
ret = "r"
contract = '''
    ensures
        *r.rule == *self, *r.content == *content, r.start == start, r.check_excluded_keywords == check_excluded_keywords,
        *r.exclusion_check == *exclusion_check, *r.excluded_matches == *old(excluded_matches), *final(r.excluded_matches) == *final(excluded_matches),
'''
[[rewrite]]
from = "content: &'a str"
to = "content: &'a VpText"
[[rewrite]]
from = "cache: &'a mut Cache,"
to = ""
[[rewrite]]
from = "cache, check_excluded_keywords,"
to = "check_excluded_keywords,"
[[rewrite]]
from = "excluded_matches: &'a mut AHashSet<String>"
to = "excluded_matches: &'a mut VpSet"
@*/
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::rlimit(400)]
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::get_string_matches_with_included_keywords"
contract = '''
    requires self.ok(), self.included_keywords == Some(*included_keywords),
    ensures
        // nothing is reported on an excluded path
        path_excluded(*exclusion_check, self.rule_index as int) ==> final(match_emitter)@ == old(match_emitter)@,
        !path_excluded(*exclusion_check, self.rule_index as int) ==> *final(excluded_matches) == *old(excluded_matches)
            && exists|out: Seq<(int, int)>| final(match_emitter)@ == old(match_emitter)@ + out
                && #[trigger] reported(*self, *included_keywords, content@, *path, should_kws_match_event_paths, true_positive_rule_idx@, out),
'''
start = '''
let ghost t = content@; let ghost rule = *self; let ghost kw = *included_keywords; let ghost n = kw.look_ahead_character_count as int;
let ghost exc = path_excluded(*exclusion_check, self.rule_index as int);
let ghost em0 = match_emitter@; let ghost set0 = *excluded_matches;
let ghost mut e: Seq<(int, int)> = seq![];
let ghost all = tp_list(rule, t, false, 0);
proof { axiom_text(content); assert(em0 + e =~= em0); assert(nchars(t, 0) == 0); lemma_outer_start(rule, kw, t); assert(seq![] + all =~= all); }
'''
end = "proof { if !exc && !should_kws_match_event_paths { assert(e + seq![] =~= e); assert(reported(rule, kw, t, *path, should_kws_match_event_paths, true_positive_rule_idx@, e)); } }"
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "path: &Path"
to = "path: &VpPath"
[[rewrite]]
from = "regex_caches: &mut RegexCaches,"
to = ""
[[rewrite]]
from = "excluded_matches: &mut AHashSet<String>"
to = "excluded_matches: &mut VpSet"
[[rewrite]]
from = "match_emitter: &mut dyn MatchEmitter"
to = "match_emitter: &mut VpEmitter"
[[rewrite]]
from = "true_positive_rule_idx.contains(&self.rule_index)"
to = "vp_contains(true_positive_rule_idx, &self.rule_index)"
[[rewrite]]
from = "self.true_positive_matches(content, $x, regex_caches.get(&self.regex), $c, exclusion_check, excluded_matches,)"
to = "self.true_positive_matches(content, $x, $c, exclusion_check, excluded_matches)"
all = true
[[rewrite]]
from = "for string_match in true_positive_search"
to = "let mut vp_it = true_positive_search; while let Some(string_match) = vp_it.next()"
all = true
[[rewrite]]
from = "for true_positive_match in true_positive_search"
to = "let mut vp_it = true_positive_search; while let Some(true_positive_match) = vp_it.next()"
[[rewrite]]
from = "included_keyword_matches.next(regex_caches)"
to = "included_keyword_matches.next()"
[[rewrite]]
from = "included_keyword_match_start.max(last_match_end)"
to = "(if included_keyword_match_start >= last_match_end { included_keyword_match_start } else { last_match_end })"
[[rewrite]]
from = "let input = Input::new(content);"
to = ""
[[rewrite]]
from = "self.regex.search_with(regex_caches.get(&self.regex), &input)"
to = "self.regex.vp_search(content, 0)"
[[after]]
pattern = "let mut has_verified_kws_in_path: Option<bool> = None;"
text = "proof { if forall|p: int| 0 <= p ==> !#[trigger] occurs(rule.regex, t, p) { lemma_no_occurrence(rule, t, false); } }"
[[rewrite]]
from = "has_verified_kws_in_path.is_some_and(|x| !x)"
to = "vp_some_false(has_verified_kws_in_path)"
[[before]]
pattern = "last_match_end = true_positive_match.end;"
text = '''proof {
    lemma_emit(rule, kw, t, e, last_match_end as int, kk, nk, q, m);
    assert((em0 + e).push(m) =~= em0 + e.push(m));
    e = e.push(m);
}'''
[[rewrite]]
from = "get_prefix_start(true_positive_match.start, included_keywords.look_ahead_character_count, content,).start;"
to = "{ let vp_ps = get_prefix_start(true_positive_match.start, included_keywords.look_ahead_character_count, content); proof { if !exc { lemma_skip(rule, kw, t, e, last_match_end as int, kk, nk, q, m, vp_ps, if vp_ps.start > nk { vp_ps.start as int } else { nk }); } } vp_ps.start };"
[[before]]
pattern = "continue 'included_keyword_search;"
text = "proof { from = included_keyword_matches.start as int; }"
[[before]]
pattern = "break;"
text = "proof { if !exc { lemma_done(rule, kw, t, e, last_match_end as int, kk, nk, q); } }"
[[before]]
pattern = "return;"
text = "proof { if !exc { assert(e + seq![] =~= e); assert(e == all); assert(reported(rule, kw, t, *path, should_kws_match_event_paths, true_positive_rule_idx@, e)); } }"
[[before]]
pattern = "return;"
nth = 1
text = "proof { if !exc { assert(e + seq![] =~= e); assert(path_matches(rule, kw, t, *path, should_kws_match_event_paths) =~= seq![]); assert(content_matches(rule, kw, t, e)); assert(e =~= e + path_matches(rule, kw, t, *path, should_kws_match_event_paths)); assert(reported(rule, kw, t, *path, should_kws_match_event_paths, true_positive_rule_idx@, e)); } }"
[[loop]]
n = 0
kind = "for"
before = "let ghost fin = *final(true_positive_search.excluded_matches); let ghost mut q = true_positive_search.start as int;"
spec = '''
    invariant
        vp_it.inv(), *vp_it.rule == rule, *vp_it.content == *content, !vp_it.check_excluded_keywords, *vp_it.exclusion_check == *exclusion_check,
        *final(vp_it.excluded_matches) == fin,
        exc ==> match_emitter@ == em0,
        !exc ==> *vp_it.excluded_matches == set0 && e + vp_it.list() == all && match_emitter@ == em0 + e,
    ensures !exc ==> vp_it.list().len() == 0,
    decreases t.len() - vp_it.start,
'''
start = '''proof {
    let m = (string_match.start as int, string_match.end as int);
    assert(e + (seq![m] + vp_it.list()) =~= e.push(m) + vp_it.list());
    assert((em0 + e).push(m) =~= em0 + e.push(m));
    e = e.push(m);
}'''
[[loop]]
n = 1
kind = "while"
spec = '''
    invariant
        included_keyword_matches.inv(), *included_keyword_matches.content == *content, *included_keyword_matches.keywords == kw,
        last_match_end <= t.len(), bdry(t, last_match_end as int),
        exc ==> match_emitter@ == em0 && last_match_end == 0,
        !exc ==> *excluded_matches == set0 && match_emitter@ == em0 + e
            && outer_inv(rule, kw, t, e, last_match_end as int, cur, included_keyword_matches.start as int),
        cur <= included_keyword_matches.start, from == included_keyword_matches.start,
    ensures
        exc ==> match_emitter@ == em0,
        !exc ==> *excluded_matches == set0 && match_emitter@ == em0 + e,
        !exc ==> content_matches(rule, kw, t, e) || (outer_inv(rule, kw, t, e, last_match_end as int, cur, from) && forall|p: int| from <= p ==> !#[trigger] kw_at(kw, t, p)),
    decreases t.len() - included_keyword_matches.start,
'''
before = "let ghost mut cur: int = 0; let ghost mut from: int = 0;"
start = '''let ghost kk = included_keyword_match_start as int;
let ghost nk = included_keyword_matches.start as int;
proof {
    lemma_kw_bdry(kw, t);
    if !exc { lemma_keyword(rule, kw, t, e, last_match_end as int, cur, from, kk, nk); }
    cur = kk;
}'''
after = "proof { if !exc && !content_matches(rule, kw, t, e) { lemma_no_keyword(rule, kw, t, e, last_match_end as int, cur, from); } }"
[[loop]]
n = 2
kind = "for"
before = "let ghost fin = *final(true_positive_search.excluded_matches); let ghost mut q = true_positive_search.start as int;"
spec = '''
    invariant
        vp_it.inv(), *vp_it.rule == rule, *vp_it.content == *content, !vp_it.check_excluded_keywords, *vp_it.exclusion_check == *exclusion_check,
        *final(vp_it.excluded_matches) == fin,
        last_match_end <= t.len(), bdry(t, last_match_end as int),
        exc ==> match_emitter@ == em0 && last_match_end == 0,
        kk <= vp_it.start, last_match_end <= vp_it.start, q == vp_it.start,
        included_keyword_matches.inv(), *included_keyword_matches.content == *content, *included_keyword_matches.keywords == kw, included_keyword_matches.start == nk,
        !exc ==> *vp_it.excluded_matches == set0 && match_emitter@ == em0 + e
            && inner_inv(rule, kw, t, e, last_match_end as int, kk, nk, vp_it.start as int),
    ensures !exc ==> tp_list(rule, t, false, q).len() == 0 && inner_inv(rule, kw, t, e, last_match_end as int, kk, nk, q),
        kk <= q,
    decreases t.len() - vp_it.start,
'''
start = "let ghost m = (true_positive_match.start as int, true_positive_match.end as int);"
end = "proof { q = vp_it.start as int; }"
[[loop]]
n = 3
kind = "for"
after = "proof { if !exc { e = e; assert(done =~= all); assert(content_matches(rule, kw, t, e)); assert(path_matches(rule, kw, t, *path, should_kws_match_event_paths) == all); assert(reported(rule, kw, t, *path, should_kws_match_event_paths, true_positive_rule_idx@, e + all)); } }"
spec = '''
    invariant
        vp_it.inv(), *vp_it.rule == rule, *vp_it.content == *content, !vp_it.check_excluded_keywords, *vp_it.exclusion_check == *exclusion_check,
        *final(vp_it.excluded_matches) == fin,
        exc ==> match_emitter@ == em0,
        !exc ==> *vp_it.excluded_matches == set0 && done + vp_it.list() == all && match_emitter@ == em0 + (e + done),
    ensures !exc ==> vp_it.list().len() == 0,
    decreases t.len() - vp_it.start,
'''
before = "let ghost fin = *final(true_positive_search.excluded_matches); let ghost mut done: Seq<(int, int)> = seq![]; proof { assert(done + all =~= all); assert(e + done =~= e); }"
start = '''proof {
    let m = (string_match.start as int, string_match.end as int);
    assert(done + (seq![m] + vp_it.list()) =~= done.push(m) + vp_it.list());
    assert((em0 + (e + done)).push(m) =~= em0 + (e + done.push(m)));
    done = done.push(m);
}'''
@*/
}
