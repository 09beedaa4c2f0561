use vstd::prelude::*;
verus! {
global size_of usize == 8;
use vstd::multiset::*;
use vstd::seq_lib::*;
//@include prelude/text.rs
//@include prelude/match_action_types.rs
impl MatchAction {
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::is_mutating"
ret = "r"
contract = "ensures r == mutating(*self),"
@*/
}
// paths are opaque here
#[verifier::external_body]
pub struct VpPath { x: u8 }
impl VpPath {
    #[verifier::external_body]
    pub fn into_static(&self) -> (r: VpPath) ensures r == *self { unimplemented!() }
}
// AHashSet<String>
#[verifier::external_body]
pub struct VpSet { x: u8 }
impl View for VpSet { type V = Set<Seq<u8>>; uninterp spec fn view(&self) -> Set<Seq<u8>>; }
impl VpSet {
    #[verifier::external_body]
    pub fn new() -> (r: VpSet) ensures r@ == Set::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, s: &VpText) -> (r: bool) ensures r == self@.contains(s@) { unimplemented!() }
}
pub trait Encoding: Sized {
    type Index: Sized;
    type IndexShift: Sized;
    spec fn width(t: Seq<u8>) -> int;
    spec fn s_index(v: Self::Index, utf8: int) -> int;
    fn zero_index() -> Self::Index;
}
/*@extract
file = "sds/src/rule_match.rs"
item = "InternalRuleMatch"
kind = "struct"
@*/
/*@extract
file = "sds/src/encoding.rs"
item = "EncodeIndices"
kind = "struct"
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerFeatures"
kind = "struct"
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "StringMatch"
kind = "struct"
@*/
#[verifier::external_body]
pub struct RuleMatch { x: u8 }
#[verifier::external_body]
pub struct ExclusionCheck<'a> { x: &'a u8 }
// `Box<dyn CompiledRuleDyn>`
#[verifier::external_body]
pub struct VpRule { x: usize }
// what a rule finds in one string (units search and keywords: C10, C19): out = byte ranges in order of emission
pub uninterp spec fn hits(rule: VpRule, t: Seq<u8>, path: VpPath, ex: ExclusionCheck<'_>, tpr: Seq<usize>, kp: bool, set0: Set<Seq<u8>>, set1: Set<Seq<u8>>, out: Seq<(int, int)>) -> bool;
impl VpRule {
    pub uninterp spec fn action(&self) -> MatchAction;
    pub uninterp spec fn multipass(&self) -> bool;
    #[verifier::external_body]
    pub fn get_match_action(&self) -> (r: &MatchAction) ensures *r == self.action() { unimplemented!() }
    #[verifier::external_body]
    pub fn should_exclude_multipass_v0(&self) -> (r: bool) ensures r == self.multipass() { unimplemented!() }
    #[verifier::external_body]
    pub fn on_excluded_match_multipass_v0(&self) { unimplemented!() }
    // the emitter is called once for each match found, in order: `vp_emit` below
    pub fn get_string_matches<E: Encoding>(&self, content: &VpText, path: &VpPath, ex: &ExclusionCheck<'_>, excluded_matches: &mut VpSet, out: &mut Vec<InternalRuleMatch<E>>, rule_index: usize, tpr: &[usize], kp: bool)
        ensures exists|o: Seq<(int, int)>| #[trigger] hits(*self, content@, *path, *ex, tpr@, kp, old(excluded_matches)@, final(excluded_matches)@, o)
            && (forall|i: int| 0 <= i < o.len() ==> range_ok(content@, #[trigger] o[i]))
            && cores(final(out)@) == cores(old(out)@) + o.map_values(|x: (int, int)| (rule_index as int, x.0, x.1)),
    {
        let l = self.vp_matches(content, path, ex, excluded_matches, tpr, kp);
        let ghost o = l@.map_values(|m: StringMatch| (m.start as int, m.end as int));
        let ghost f = |x: (int, int)| (rule_index as int, x.0, x.1);
        let ghost c0 = cores(out@);
        let mut i: usize = 0;
        proof { assert(o.take(0).map_values(f) =~= seq![]); assert(c0 + seq![] =~= c0); }
        while i < l.len()
            invariant i <= l@.len(), o == l@.map_values(|m: StringMatch| (m.start as int, m.end as int)), cores(out@) == c0 + o.take(i as int).map_values(f),
                f == (|x: (int, int)| (rule_index as int, x.0, x.1)),
            decreases l@.len() - i,
        {
            proof { assert(o.take(i as int + 1).map_values(f) =~= o.take(i as int).map_values(f).push(f(o[i as int]))); assert((c0 + o.take(i as int).map_values(f)).push(f(o[i as int])) =~= c0 + o.take(i as int + 1).map_values(f)); }
            vp_emit::<E>(StringMatch { start: l[i].start, end: l[i].end }, rule_index, out);
            i += 1;
        }
        proof { assert(o.take(o.len() as int) =~= o); }
    }
    #[verifier::external_body]
    pub fn vp_matches(&self, content: &VpText, path: &VpPath, ex: &ExclusionCheck<'_>, excluded_matches: &mut VpSet, tpr: &[usize], kp: bool) -> (l: Vec<StringMatch>)
        ensures ({ let o = l@.map_values(|m: StringMatch| (m.start as int, m.end as int));
            hits(*self, content@, *path, *ex, tpr@, kp, old(excluded_matches)@, final(excluded_matches)@, o) && (forall|i: int| 0 <= i < o.len() ==> range_ok(content@, #[trigger] o[i])) }),
    { unimplemented!() }
}
pub open spec fn range_ok(t: Seq<u8>, m: (int, int)) -> bool { 0 <= m.0 < m.1 <= t.len() && bdry(t, m.0) && bdry(t, m.1) }
pub open spec fn core<E: Encoding>(m: InternalRuleMatch<E>) -> (int, int, int) { (m.rule_index as int, m.utf8_start as int, m.utf8_end as int) }
pub open spec fn cores<E: Encoding>(s: Seq<InternalRuleMatch<E>>) -> Seq<(int, int, int)> { s.map_values(|m: InternalRuleMatch<E>| core(m)) }
pub open spec fn by_start<E: Encoding>(s: Seq<InternalRuleMatch<E>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).utf8_start <= (#[trigger] s[j]).utf8_start }
pub open spec fn indexed<E: Encoding>(t: Seq<u8>, m: InternalRuleMatch<E>) -> bool {
    E::s_index(m.custom_start, m.utf8_start as int) == E::width(t.subrange(0, m.utf8_start as int)) && E::s_index(m.custom_end, m.utf8_end as int) == E::width(t.subrange(0, m.utf8_end as int))
}
pub struct Scanner { pub rules: Vec<VpRule>, pub scanner_features: ScannerFeatures }

// ======== visiting one string ===========================================================================
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerContentVisitor::visit_content"
kind = "closure"
closure = "|rule_match: StringMatch| $body;"
sig = "fn vp_emit<E: Encoding>(rule_match: StringMatch, rule_index: usize, path_rules_matches: &mut Vec<InternalRuleMatch<E>>)"
contract = '''
    ensures cores(final(path_rules_matches)@) == cores(old(path_rules_matches)@).push((rule_index as int, rule_match.start as int, rule_match.end as int)),
'''
start = "let ghost o = path_rules_matches@;"
[[after]]
pattern = "custom_end: E::zero_index(), });"
text = "proof { assert(cores(path_rules_matches@) =~= cores(o).push((rule_index as int, rule_match.start as int, rule_match.end as int))); }"
@*/
// the indices handed to the encoding are those of the match, and it writes to the match
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerContentVisitor::visit_content"
kind = "closure"
closure = "|rule_match: &mut InternalRuleMatch<E>| $body),"
sig = "fn vp_indices<'a, E: Encoding>(rule_match: &'a mut InternalRuleMatch<E>) -> (r: EncodeIndices<'a, E>)"
contract = '''
    ensures
        r.utf8_start == old(rule_match).utf8_start, r.utf8_end == old(rule_match).utf8_end,
        final(rule_match).custom_start == *final(r.custom_start), final(rule_match).custom_end == *final(r.custom_end),
        core(*final(rule_match)) == core(*old(rule_match)),
'''
@*/
// Encoding::calculate_indices over the matches, each presented as by `vp_indices`; it may rely on their being sorted by start
#[verifier::external_body]
pub fn vp_calculate<E: Encoding>(content: &VpText, v: &mut Vec<InternalRuleMatch<E>>)
    requires by_start(old(v)@), forall|i: int| 0 <= i < old(v)@.len() ==> range_ok(content@, ((#[trigger] old(v)@[i]).utf8_start as int, old(v)@[i].utf8_end as int)),
    ensures cores(final(v)@) == cores(old(v)@), forall|i: int| 0 <= i < final(v)@.len() ==> indexed(content@, #[trigger] final(v)@[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_sort_by_key<E: Encoding, F: Fn(&InternalRuleMatch<E>) -> usize>(v: &mut Vec<InternalRuleMatch<E>>, f: F)
    requires forall|m: &InternalRuleMatch<E>| call_requires(f, (m,)),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
        (forall|m: &InternalRuleMatch<E>, o: usize| #[trigger] call_ensures(f, (m,), o) ==> o == m.utf8_start) ==> by_start(final(v)@),
{ unimplemented!() }
// what a string's rules find: those that are not blocked, one after the other
pub open spec fn tag(r: int, o: Seq<(int, int)>) -> Seq<(int, int, int)> { o.map_values(|x: (int, int)| (r, x.0, x.1)) }
pub open spec fn step(s: Scanner, blocked: Seq<usize>, r: usize, t: Seq<u8>, path: VpPath, ex: ExclusionCheck<'_>, tpr: Seq<usize>, setm: Set<Seq<u8>>, set1: Set<Seq<u8>>, m1: Seq<(int, int, int)>, ms: Seq<(int, int, int)>) -> bool {
    if blocked.contains(r) { ms == m1 && set1 == setm }
    else { exists|o: Seq<(int, int)>| #[trigger] hits(s.rules@[r as int], t, path, ex, tpr, s.scanner_features.should_keywords_match_event_paths, setm, set1, o) && ms == m1 + tag(r as int, o) }
}
pub open spec fn scanned(s: Scanner, blocked: Seq<usize>, l: Seq<usize>, t: Seq<u8>, path: VpPath, ex: ExclusionCheck<'_>, tpr: Seq<usize>, set0: Set<Seq<u8>>, set1: Set<Seq<u8>>, ms: Seq<(int, int, int)>) -> bool
    decreases l.len(),
{
    if l.len() == 0 { ms =~= seq![] && set0 == set1 }
    else {
        exists|m1: Seq<(int, int, int)>, setm: Set<Seq<u8>>| scanned(s, blocked, l.drop_last(), t, path, ex, tpr, set0, setm, m1) && #[trigger] step(s, blocked, l.last(), t, path, ex, tpr, setm, set1, m1, ms)
    }
}
#[verifier::external_body]
pub struct VpIndexVisitor { x: u8 }
impl VpIndexVisitor {
    pub uninterp spec fn list(&self) -> Seq<usize>;
    // the rules visit_rule_indices visits, each once (C04)
    #[verifier::external_body]
    pub fn vp_list(&mut self) -> (r: Vec<usize>) ensures r@ == old(self).list() { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_contains(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerContentVisitor"
kind = "struct"
[[rewrite]]
from = "scanner:"
to = "pub scanner:"
[[rewrite]]
from = "regex_caches: &'a mut RegexCaches,"
to = ""
[[rewrite]]
from = "rule_matches: &'a mut Vec<(crate::Path<'static>, Vec<InternalRuleMatch<E>>)>"
to = "pub rule_matches: &'a mut Vec<(VpPath, Vec<InternalRuleMatch<E>>)>"
[[rewrite]]
from = "blocked_rules:"
to = "pub blocked_rules:"
[[rewrite]]
from = "excluded_matches: &'a mut AHashSet<String>"
to = "pub excluded_matches: &'a mut VpSet"
[[rewrite]]
from = "rule_scan_caches: AHashMap<TypeId, Box<dyn Any>>,"
to = ""
@*/
pub open spec fn good<E: Encoding>(s: Scanner, t: Seq<u8>, m: InternalRuleMatch<E>) -> bool { m.rule_index < s.rules@.len() && range_ok(t, (m.utf8_start as int, m.utf8_end as int)) }
pub open spec fn all_good<E: Encoding>(s: Scanner, t: Seq<u8>, v: Seq<InternalRuleMatch<E>>) -> bool { forall|i: int| 0 <= i < v.len() ==> good(s, t, #[trigger] v[i]) }
pub open spec fn core_good(s: Scanner, t: Seq<u8>, m: (int, int, int)) -> bool { 0 <= m.0 < s.rules@.len() && range_ok(t, (m.1, m.2)) }
// what is reported for the string: the matches found, in order of their start, positions converted
pub open spec fn reported<E: Encoding>(s: Scanner, blocked: Seq<usize>, t: Seq<u8>, path: VpPath, ex: ExclusionCheck<'_>, tpr: Seq<usize>, l: Seq<usize>, set0: Set<Seq<u8>>, set1: Set<Seq<u8>>, v: Seq<InternalRuleMatch<E>>) -> bool {
    exists|ms: Seq<(int, int, int)>| #[trigger] scanned(s, blocked, l, t, path, ex, tpr, set0, set1, ms) && cores(v).to_multiset() == ms.to_multiset()
        && by_start(v) && forall|i: int| 0 <= i < v.len() ==> good(s, t, #[trigger] v[i]) && indexed(t, v[i])
}
impl<'a, E: Encoding> ScannerContentVisitor<'a, E> {
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerContentVisitor::visit_content"
kind = "closure"
closure = "rule_visitor.visit_rule_indices(|rule_index| $body);"
sig = "fn vp_rule(&mut self, rule_index: usize, path: &VpPath, content: &VpText, exclusion_check: &ExclusionCheck<'_>, true_positive_rule_idx: &[usize], path_rules_matches: &mut Vec<InternalRuleMatch<E>>)"
contract = '''
    requires rule_index < old(self).scanner.rules@.len(),
    ensures
        *final(self).scanner == *old(self).scanner, *final(self).blocked_rules == *old(self).blocked_rules, *final(self).rule_matches == *old(self).rule_matches, *final(final(self).rule_matches) == *final(old(self).rule_matches),
        *final(final(self).excluded_matches) == *final(old(self).excluded_matches),
        if old(self).blocked_rules@.contains(rule_index) { cores(final(path_rules_matches)@) == cores(old(path_rules_matches)@) && final(self).excluded_matches@ == old(self).excluded_matches@ }
        else { exists|o: Seq<(int, int)>| #[trigger] hits(old(self).scanner.rules@[rule_index as int], content@, *path, *exclusion_check, true_positive_rule_idx@, old(self).scanner.scanner_features.should_keywords_match_event_paths, old(self).excluded_matches@, final(self).excluded_matches@, o)
            && (forall|i: int| 0 <= i < o.len() ==> range_ok(content@, #[trigger] o[i])) && cores(final(path_rules_matches)@) == cores(old(path_rules_matches)@) + tag(rule_index as int, o) },
'''
[[rewrite]]
from = "self.blocked_rules.contains(&rule_index)"
to = "vp_contains(self.blocked_rules, &rule_index)"
[[rewrite]]
from = "let mut emitter = |rule_match: StringMatch| $b;"
to = ""
[[rewrite]]
from = "rule.get_string_matches(content, path, self.regex_caches, &mut group_data, &self.scanner.group_configs, &mut self.rule_scan_caches, &exclusion_check, self.excluded_matches, &mut emitter, true_positive_rule_idx, &self.scanner.labels, $kp);"
to = "rule.get_string_matches(content, path, exclusion_check, self.excluded_matches, path_rules_matches, rule_index, true_positive_rule_idx, $kp);"
@*/
    // visit_rule_indices calls the closure for each rule of the list, in order
    fn vp_rules(&mut self, rule_visitor: &mut VpIndexVisitor, path: &VpPath, content: &VpText, exclusion_check: &ExclusionCheck<'_>, true_positive_rule_idx: &[usize], v: &mut Vec<InternalRuleMatch<E>>)
        requires old(v)@.len() == 0, forall|i: int| 0 <= i < old(rule_visitor).list().len() ==> (#[trigger] old(rule_visitor).list()[i]) < old(self).scanner.rules@.len(),
        ensures
            *final(self).scanner == *old(self).scanner, *final(self).blocked_rules == *old(self).blocked_rules, *final(self).rule_matches == *old(self).rule_matches, *final(final(self).rule_matches) == *final(old(self).rule_matches),
            *final(final(self).excluded_matches) == *final(old(self).excluded_matches),
            scanned(*old(self).scanner, old(self).blocked_rules@, old(rule_visitor).list(), content@, *path, *exclusion_check, true_positive_rule_idx@, old(self).excluded_matches@, final(self).excluded_matches@, cores(final(v)@)),
            forall|i: int| 0 <= i < cores(final(v)@).len() ==> core_good(*old(self).scanner, content@, #[trigger] cores(final(v)@)[i]),
    {
        let l = rule_visitor.vp_list();
        let ghost s = *self.scanner; let ghost b = self.blocked_rules@; let ghost set0 = self.excluded_matches@; let ghost t = content@; let ghost tpr = true_positive_rule_idx@;
        let mut i: usize = 0;
        proof { assert(l@.take(0) =~= seq![]); assert(cores(v@) =~= seq![]); }
        while i < l.len()
            invariant
                i <= l@.len(), *self.scanner == s, self.blocked_rules@ == b, *self.blocked_rules == *old(self).blocked_rules, *self.rule_matches == *old(self).rule_matches, *final(self.rule_matches) == *final(old(self).rule_matches),
                *final(self.excluded_matches) == *final(old(self).excluded_matches), t == content@, tpr == true_positive_rule_idx@,
                forall|k: int| 0 <= k < l@.len() ==> (#[trigger] l@[k]) < s.rules@.len(),
                scanned(s, b, l@.take(i as int), t, *path, *exclusion_check, tpr, set0, self.excluded_matches@, cores(v@)),
                forall|k: int| 0 <= k < cores(v@).len() ==> core_good(s, t, #[trigger] cores(v@)[k]),
            decreases l@.len() - i,
        {
            let ghost m1 = cores(v@); let ghost setm = self.excluded_matches@;
            self.vp_rule(l[i], path, content, exclusion_check, true_positive_rule_idx, v);
            proof {
                let l1 = l@.take(i as int + 1);
                assert(l1.drop_last() =~= l@.take(i as int)); assert(l1.last() == l@[i as int]);
                assert(scanned(s, b, l1.drop_last(), t, *path, *exclusion_check, tpr, set0, setm, m1));
                if b.contains(l1.last()) { }
                else {
                    let o = choose|o: Seq<(int, int)>| #[trigger] hits(s.rules@[l1.last() as int], t, *path, *exclusion_check, tpr, s.scanner_features.should_keywords_match_event_paths, setm, self.excluded_matches@, o)
                        && (forall|i: int| 0 <= i < o.len() ==> range_ok(t, #[trigger] o[i])) && cores(v@) == m1 + tag(l1.last() as int, o);
                    assert forall|k: int| 0 <= k < cores(v@).len() implies core_good(s, t, #[trigger] cores(v@)[k]) by { if k >= m1.len() { assert(range_ok(t, o[k - m1.len()])); } }
                    assert(cores(v@) == m1 + tag(l1.last() as int, o)); 
                }
                assert(step(s, b, l1.last(), t, *path, *exclusion_check, tpr, setm, self.excluded_matches@, m1, cores(v@)));
                assert(scanned(s, b, l1, t, *path, *exclusion_check, tpr, set0, self.excluded_matches@, cores(v@)));
            }
            i += 1;
        }
        proof { assert(l@.take(l@.len() as int) =~= l@); }
    }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerContentVisitor::visit_content"
ret = "r"
contract = '''
    requires forall|i: int| 0 <= i < rule_visitor.list().len() ==> (#[trigger] rule_visitor.list()[i]) < old(self).scanner.rules@.len(),
    ensures
        *final(self).scanner == *old(self).scanner, *final(self).blocked_rules == *old(self).blocked_rules, *final(final(self).rule_matches) == *final(old(self).rule_matches),
        *final(final(self).excluded_matches) == *final(old(self).excluded_matches),
        // the string is listed, with its path, exactly if something was found in it; the answer says so
        exists|v: Vec<InternalRuleMatch<E>>| #[trigger] reported(*old(self).scanner, old(self).blocked_rules@, content@, *path, exclusion_check, true_positive_rule_idx@, rule_visitor.list(), old(self).excluded_matches@, final(self).excluded_matches@, v@)
            && r == (v@.len() > 0) && final(self).rule_matches@ == (if v@.len() > 0 { old(self).rule_matches@.push((*path, v)) } else { old(self).rule_matches@ }),
'''
start = "let ghost me = *self; let ghost l = rule_visitor.list(); let ghost set0 = self.excluded_matches@;"
[[rewrite]]
from = "visit_content<'b>(&'b mut self, path: &Path<'a>, content: &str, mut rule_visitor: crate::scoped_ruleset::RuleIndexVisitor, exclusion_check: ExclusionCheck<'b>,"
to = "visit_content(&mut self, path: &VpPath, content: &VpText, rule_visitor: VpIndexVisitor, exclusion_check: ExclusionCheck<'_>,"
[[rewrite]]
from = "let mut path_rules_matches = vec![];"
to = "let mut path_rules_matches: Vec<InternalRuleMatch<E>> = Vec::new();"
[[rewrite]]
from = "let mut group_data: AHashMap<TypeId, Box<dyn Any>> = AHashMap::new();"
to = ""
[[rewrite]]
from = "rule_visitor.visit_rule_indices($c);"
to = "let mut rule_visitor = rule_visitor; self.vp_rules(&mut rule_visitor, path, content, &exclusion_check, true_positive_rule_idx, &mut path_rules_matches); let ghost v0 = path_rules_matches@;"
[[rewrite]]
from = "path_rules_matches.sort_unstable_by_key(|rule_match| $k);"
to = "vp_sort_by_key(&mut path_rules_matches, |rule_match: &InternalRuleMatch<E>| -> (o: usize) ensures o == rule_match.utf8_start { $k }); let ghost v1 = path_rules_matches@;"
[[rewrite]]
from = "E::calculate_indices(content, path_rules_matches.iter_mut().map($c),);"
to = "proof { lemma_perm_good(*me.scanner, content@, v0, v1); } vp_calculate::<E>(content, &mut path_rules_matches); proof { lemma_core_good(*me.scanner, content@, v1, path_rules_matches@); assert(reported(*me.scanner, me.blocked_rules@, content@, *path, exclusion_check, true_positive_rule_idx@, l, set0, self.excluded_matches@, path_rules_matches@)); }"
[[rewrite]]
from = "!path_rules_matches.is_empty()"
to = "path_rules_matches.len() != 0"
@*/
}
pub proof fn lemma_map_multiset<E: Encoding>(a: Seq<InternalRuleMatch<E>>, b: Seq<InternalRuleMatch<E>>)
    requires a.to_multiset() == b.to_multiset(), a.len() == b.len(),
    ensures cores(a).to_multiset() == cores(b).to_multiset(),
    decreases a.len(),
{
    broadcast use group_to_multiset_ensures;
    if a.len() == 0 { assert(cores(a) =~= cores(b)); }
    else {
        let x = a.last();
        assert(a.contains(x)); assert(a.to_multiset().count(x) > 0); assert(b.to_multiset().count(x) > 0); assert(b.contains(x));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        let a1 = a.drop_last(); let b1 = b.remove(j);
        assert(a =~= a1.push(x));
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        assert(b1.to_multiset() =~= b.to_multiset().remove(x));
        lemma_map_multiset(a1, b1);
        assert(cores(a) =~= cores(a1).push(core(x)));
        assert(cores(b1) =~= cores(b).remove(j));
        assert(cores(b)[j] == core(x));
        assert(cores(b1).to_multiset() =~= cores(b).to_multiset().remove(core(x)));
        assert(cores(b).contains(core(x)));
        assert(cores(a).to_multiset() =~= cores(b).to_multiset());
    }
}
pub proof fn lemma_perm_good<E: Encoding>(s: Scanner, t: Seq<u8>, a: Seq<InternalRuleMatch<E>>, b: Seq<InternalRuleMatch<E>>)
    requires a.to_multiset() == b.to_multiset(), a.len() == b.len(), forall|i: int| 0 <= i < cores(a).len() ==> core_good(s, t, #[trigger] cores(a)[i]),
    ensures all_good(s, t, b), cores(a).to_multiset() == cores(b).to_multiset(),
{
    broadcast use group_to_multiset_ensures;
    lemma_map_multiset(a, b);
    assert forall|i: int| 0 <= i < b.len() implies good(s, t, #[trigger] b[i]) by {
        assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.to_multiset().count(b[i]) > 0); assert(a.contains(b[i]));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
        assert(cores(a)[j] == core(a[j])); assert(core_good(s, t, cores(a)[j]));
    }
}
pub proof fn lemma_core_good<E: Encoding>(s: Scanner, t: Seq<u8>, a: Seq<InternalRuleMatch<E>>, b: Seq<InternalRuleMatch<E>>)
    requires cores(a) == cores(b), all_good(s, t, a), by_start(a),
    ensures all_good(s, t, b), by_start(b), a.len() == b.len(),
{
    assert(a.len() == cores(a).len() && b.len() == cores(b).len());
    assert forall|i: int| 0 <= i < b.len() implies good(s, t, #[trigger] b[i]) by { assert(good(s, t, a[i])); assert(cores(a)[i] == core(a[i])); assert(cores(b)[i] == core(b[i])); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).utf8_start <= (#[trigger] b[j]).utf8_start by {
        assert(a[i].utf8_start <= a[j].utf8_start); assert(cores(a)[i] == core(a[i])); assert(cores(b)[i] == core(b[i])); assert(cores(a)[j] == core(a[j])); assert(cores(b)[j] == core(b[j]));
    }
}

// ======== the whole event ===============================================================================
// The scope walk (C04, C17) visits each string of the event once, in a fixed order, with the rules that apply to it.
#[verifier::external_body]
pub struct VpEvent { x: u8 }
impl View for VpEvent { type V = Map<VpPath, Seq<u8>>; uninterp spec fn view(&self) -> Map<VpPath, Seq<u8>>; }
pub struct VpVisit { pub path: VpPath, pub text: VpText, pub visitor: VpIndexVisitor, pub check: ExclusionCheck<'static>, pub tpr: Vec<usize> }
pub open spec fn visits_ok(s: Scanner, ev: Map<VpPath, Seq<u8>>, l: Seq<VpVisit>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).path != (#[trigger] l[j]).path
    &&& forall|i: int| 0 <= i < l.len() ==> ev.dom().contains((#[trigger] l[i]).path) && ev[l[i].path] == l[i].text@
    &&& forall|i: int| 0 <= i < l.len() ==> fits(s, (#[trigger] l[i]).visitor.list())
}
pub open spec fn fits(s: Scanner, l: Seq<usize>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) < s.rules@.len() }
// the strings the scope walk hands over for this event
pub uninterp spec fn walk(s: Scanner, ev: VpEvent, l: Seq<VpVisit>) -> bool;
// `list`: the strings with something found in them, in order, with what was found
pub open spec fn visited<E: Encoding>(s: Scanner, blocked: Seq<usize>, l: Seq<VpVisit>, n: int, set: Set<Seq<u8>>, list: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>) -> bool
    decreases n,
{
    if n <= 0 { set == Set::<Seq<u8>>::empty() && list =~= seq![] }
    else { exists|set1: Set<Seq<u8>>, list1: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>| visited(s, blocked, l, n - 1, set1, list1) && #[trigger] vstep(s, blocked, l[n - 1], set1, list1, set, list) }
}
pub open spec fn vstep<E: Encoding>(s: Scanner, blocked: Seq<usize>, v: VpVisit, set1: Set<Seq<u8>>, list1: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>, set: Set<Seq<u8>>, list: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>) -> bool {
    exists|m: Vec<InternalRuleMatch<E>>| #[trigger] reported(s, blocked, v.text@, v.path, v.check, v.tpr@, v.visitor.list(), set1, set, m@) && list == (if m@.len() > 0 { list1.push((v.path, m)) } else { list1 })
}
pub open spec fn entry_ok<E: Encoding>(s: Scanner, ev: Map<VpPath, Seq<u8>>, e: (VpPath, Vec<InternalRuleMatch<E>>)) -> bool {
    ev.dom().contains(e.0) && ready(s, ev[e.0], e.1@)
}
pub open spec fn ready<E: Encoding>(s: Scanner, t: Seq<u8>, v: Seq<InternalRuleMatch<E>>) -> bool { forall|i: int| 0 <= i < v.len() ==> good(s, t, #[trigger] v[i]) && indexed(t, v[i]) }
pub open spec fn of_visit(l: Seq<VpVisit>, n: int, p: VpPath) -> bool { exists|k: int| 0 <= k < n && (#[trigger] l[k]).path == p }
pub open spec fn from_visits<E: Encoding>(l: Seq<VpVisit>, n: int, list: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>) -> bool {
    &&& forall|i: int| 0 <= i < list.len() ==> of_visit(l, n, (#[trigger] list[i]).0)
    &&& forall|i: int, j: int| 0 <= i < j < list.len() ==> (#[trigger] list[i]).0 != (#[trigger] list[j]).0
}
impl VpEvent {
    #[verifier::external_body]
    pub fn vp_walk(&mut self, s: &Scanner) -> (r: Vec<VpVisit>) ensures *final(self) == *old(self), walk(*s, *old(self), r@), visits_ok(*s, old(self)@, r@) { unimplemented!() }
    // Event::visit_string_mut, first half: the string at the path (C17)
    #[verifier::external_body]
    pub fn vp_get(&self, path: &VpPath) -> (r: VpText) requires self@.dom().contains(*path), ensures r@ == self@[*path] { unimplemented!() }
    // second half: the string is the one the visitor left; an event may skip this if the answer is `false`
    #[verifier::external_body]
    pub fn vp_put(&mut self, path: &VpPath, c: VpText, changed: bool) requires old(self)@.dom().contains(*path),
        ensures changed ==> final(self)@ == old(self)@.insert(*path, c@), !changed ==> final(self)@ == old(self)@ || final(self)@ == old(self)@.insert(*path, c@) { unimplemented!() }
}
impl VpVisit {
    #[verifier::external_body]
    pub fn vp_take(v: &VpVisit) -> (r: (VpIndexVisitor, ExclusionCheck<'static>)) ensures r.0 == v.visitor, r.1 == v.check { unimplemented!() }
}
// ---- one string of the second pass
pub open spec fn keep<E: Encoding>(s: Scanner, t: Seq<u8>, set: Set<Seq<u8>>, m: InternalRuleMatch<E>) -> bool {
    !(s.rules@[m.rule_index as int].multipass() && set.contains(t.subrange(m.utf8_start as int, m.utf8_end as int)))
}
pub open spec fn survivors<E: Encoding>(s: Scanner, t: Seq<u8>, set: Set<Seq<u8>>, v: Seq<InternalRuleMatch<E>>) -> Seq<InternalRuleMatch<E>> {
    if s.scanner_features.multipass_v0_enabled { v.filter(|m: InternalRuleMatch<E>| keep(s, t, set, m)) } else { v }
}
pub uninterp spec fn resolved<E: Encoding>(s: Scanner, input: Seq<InternalRuleMatch<E>>, kept: Seq<InternalRuleMatch<E>>) -> bool;   // C02: unit overlap
pub uninterp spec fn redacted<E: Encoding>(s: Scanner, t: Seq<u8>, kept: Seq<InternalRuleMatch<E>>) -> Seq<u8>;                    // C01: unit redact, `partial(.., len)`
pub uninterp spec fn outputs<E: Encoding>(s: Scanner, t: Seq<u8>, kept: Seq<InternalRuleMatch<E>>, path: VpPath, o: Seq<RuleMatch>) -> bool; // C01: unit redact, `good_output`
pub open spec fn edited<E: Encoding>(s: Scanner, t: Seq<u8>, set: Set<Seq<u8>>, path: VpPath, found: Seq<InternalRuleMatch<E>>, t1: Seq<u8>, o: Seq<RuleMatch>) -> bool {
    exists|kept: Seq<InternalRuleMatch<E>>| #[trigger] resolved(s, survivors(s, t, set, found), kept) && t1 == redacted(s, t, kept) && outputs(s, t, kept, path, o)
}
pub open spec fn any_mutating<E: Encoding>(s: Scanner, v: Seq<InternalRuleMatch<E>>) -> bool { exists|i: int| 0 <= i < v.len() && mutating(s.rules@[(#[trigger] v[i]).rule_index as int].action()) }
pub open spec fn in_order<E: Encoding>(v: Seq<InternalRuleMatch<E>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).utf8_end <= (#[trigger] v[j]).utf8_start }
// `done`: the strings listed so far have been edited and reported, nothing else has changed
pub open spec fn done<E: Encoding>(s: Scanner, ev0: Map<VpPath, Seq<u8>>, set: Set<Seq<u8>>, list: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>, n: int, ev: Map<VpPath, Seq<u8>>, o: Seq<RuleMatch>) -> bool
    decreases n,
{
    if n <= 0 { ev == ev0 && o =~= seq![] }
    else { exists|ev1: Map<VpPath, Seq<u8>>, o1: Seq<RuleMatch>| done(s, ev0, set, list, n - 1, ev1, o1) && #[trigger] dstep(s, ev0, set, list[n - 1], ev1, o1, ev, o) }
}
pub open spec fn dstep<E: Encoding>(s: Scanner, ev0: Map<VpPath, Seq<u8>>, set: Set<Seq<u8>>, e: (VpPath, Vec<InternalRuleMatch<E>>), ev1: Map<VpPath, Seq<u8>>, o1: Seq<RuleMatch>, ev: Map<VpPath, Seq<u8>>, o: Seq<RuleMatch>) -> bool {
    exists|t1: Seq<u8>, o2: Seq<RuleMatch>| #[trigger] edited(s, ev0[e.0], set, e.0, e.1@, t1, o2) && ev == ev1.insert(e.0, t1) && o == o1 + o2
}
impl Scanner {
    // contract of C02
    #[verifier::external_body]
    fn sort_and_remove_overlapping_rules<E: Encoding>(&self, v: &mut Vec<InternalRuleMatch<E>>)
        requires forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i]).utf8_start < old(v)@[i].utf8_end && old(v)@[i].rule_index < self.rules@.len(),
        ensures resolved(*self, old(v)@, final(v)@), in_order(final(v)@), forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
    { unimplemented!() }
    // contract of C01
    #[verifier::external_body]
    fn apply_match_actions<E: Encoding>(&self, content: &mut VpText, path: &VpPath, v: &mut Vec<InternalRuleMatch<E>>, out: &mut Vec<RuleMatch>)
        requires ready(*self, old(content)@, old(v)@), in_order(old(v)@),
        ensures final(v)@ == old(v)@, final(content)@ == redacted(*self, old(content)@, old(v)@), !any_mutating(*self, old(v)@) ==> final(content)@ == old(content)@,
            exists|o: Seq<RuleMatch>| #[trigger] outputs(*self, old(content)@, old(v)@, *path, o) && final(out)@ == old(out)@ + o,
    { unimplemented!() }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::scan"
kind = "closure"
closure = "rule_matches.retain(|rule_match| $body);"
sig = "fn vp_keep<E: Encoding>(&self, rule_match: &InternalRuleMatch<E>, content: &VpText, excluded_matches: &VpSet) -> (r: bool)"
contract = '''
    requires good(*self, content@, *rule_match), self.scanner_features.multipass_v0_enabled,
    ensures r == keep(*self, content@, excluded_matches@, *rule_match),
'''
[[rewrite]]
from = "&content[$a..$b]"
to = "content.vp_slice($a, $b)"
@*/
    // Vec::retain keeps the elements `vp_keep` says to keep, in order
    #[verifier::external_body]
    fn vp_retain<E: Encoding>(&self, v: &mut Vec<InternalRuleMatch<E>>, content: &VpText, set: &VpSet)
        requires forall|i: int| 0 <= i < old(v)@.len() ==> good(*self, content@, #[trigger] old(v)@[i]),
        ensures final(v)@ == old(v)@.filter(|m: InternalRuleMatch<E>| keep(*self, content@, set@, m)),
    { unimplemented!() }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::scan"
kind = "closure"
closure = "rule_matches.iter().any(|rule_match| $body);"
sig = "fn vp_mutates<E: Encoding>(&self, rule_match: &InternalRuleMatch<E>) -> (r: bool)"
contract = '''
    requires rule_match.rule_index < self.rules@.len(),
    ensures r == mutating(self.rules@[rule_match.rule_index as int].action()),
'''
@*/
    fn vp_any<E: Encoding>(&self, v: &Vec<InternalRuleMatch<E>>) -> (r: bool)
        requires forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).rule_index < self.rules@.len(),
        ensures r == any_mutating(*self, v@),
    {
        let mut i: usize = 0;
        while i < v.len()
            invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> !mutating(self.rules@[(#[trigger] v@[k]).rule_index as int].action()), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).rule_index < self.rules@.len(),
            decreases v@.len() - i,
        { if self.vp_mutates(&v[i]) { return true; } i += 1; }
        false
    }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::scan"
kind = "closure"
closure = "event.visit_string_mut(path, |content| $body);"
sig = "fn vp_edit<E: Encoding>(&self, content: &mut VpText, path: &VpPath, rule_matches: &mut Vec<InternalRuleMatch<E>>, excluded_matches: &VpSet, output_rule_matches: &mut Vec<RuleMatch>) -> (r: bool)"
contract = '''
    requires ready(*self, old(content)@, old(rule_matches)@),
    ensures
        exists|o: Seq<RuleMatch>| #[trigger] edited(*self, old(content)@, excluded_matches@, *path, old(rule_matches)@, final(content)@, o) && final(output_rule_matches)@ == old(output_rule_matches)@ + o,
        // the answer may be `false` only if the text is as it was
        !r ==> final(content)@ == old(content)@,
'''
start = "let ghost t = content@; let ghost v0 = rule_matches@; let ghost out0 = output_rule_matches@;"
[[rewrite]]
from = "rule_matches.retain($c);"
to = "self.vp_retain::<E>(rule_matches, content, excluded_matches);"
[[rewrite]]
from = "self.sort_and_remove_overlapping_rules::<E::Encoding>(rule_matches);"
to = '''
let ghost sv = rule_matches@;
proof {
    let p = |m: InternalRuleMatch<E>| keep(*self, t, excluded_matches@, m);
    assert(sv == survivors(*self, t, excluded_matches@, v0));
    assert forall|i: int| 0 <= i < sv.len() implies v0.contains(#[trigger] sv[i]) by { if self.scanner_features.multipass_v0_enabled { lemma_filter_in(v0, p, i); } else { assert(sv[i] == v0[i]); } }
    assert forall|i: int| 0 <= i < sv.len() implies good(*self, t, #[trigger] sv[i]) && indexed(t, sv[i]) by { let j = choose|j: int| 0 <= j < v0.len() && v0[j] == sv[i]; assert(good(*self, t, v0[j])); }
}
self.sort_and_remove_overlapping_rules::<E>(rule_matches);
let ghost kept = rule_matches@;
proof { assert forall|i: int| 0 <= i < kept.len() implies good(*self, t, #[trigger] kept[i]) && indexed(t, kept[i]) by { let j = choose|j: int| 0 <= j < sv.len() && sv[j] == kept[i]; assert(good(*self, t, sv[j])); } }
'''
[[rewrite]]
from = "rule_matches.iter().any($c)"
to = "self.vp_any::<E>(rule_matches)"
[[rewrite]]
from = "self.apply_match_actions(content, path, rule_matches, &mut output_rule_matches);"
to = '''
self.apply_match_actions::<E>(content, path, rule_matches, output_rule_matches);
proof {
    let o = choose|o: Seq<RuleMatch>| #[trigger] outputs(*self, t, kept, *path, o) && output_rule_matches@ == out0 + o;
    assert(resolved(*self, survivors(*self, t, excluded_matches@, v0), kept));
    assert(edited(*self, t, excluded_matches@, *path, v0, content@, o));
}
'''
@*/
    // Event::visit_string_mut: the visitor gets the string at the path; what it leaves is the string then (C17)
    fn vp_visit_string_mut<E: Encoding>(&self, event: &mut VpEvent, e: &mut (VpPath, Vec<InternalRuleMatch<E>>), set: &VpSet, out: &mut Vec<RuleMatch>)
        requires entry_ok(*self, old(event)@, *old(e)),
        ensures final(e).0 == old(e).0, exists|t1: Seq<u8>, o: Seq<RuleMatch>| #[trigger] edited(*self, old(event)@[old(e).0], set@, old(e).0, old(e).1@, t1, o) && final(event)@ == old(event)@.insert(old(e).0, t1) && final(out)@ == old(out)@ + o,
    {
        let ghost ev1 = event@; let ghost t = event@[e.0];
        let mut c = event.vp_get(&e.0);
        let r = self.vp_edit::<E>(&mut c, &e.0, &mut e.1, set, out);
        let ghost t1 = c@;
        event.vp_put(&e.0, c, r);
        proof { if t1 == t { assert(ev1.insert(old(e).0, t1) =~= ev1); } }
    }
    fn vp_visit<E: Encoding>(&self, event: &mut VpEvent, v: ScannerContentVisitor<'_, E>)
        requires v.rule_matches@.len() == 0, v.excluded_matches@ == Set::<Seq<u8>>::empty(), *v.scanner == *self,
        ensures *final(event) == *old(event), 
            exists|l: Seq<VpVisit>| #[trigger] walk(*self, *old(event), l) && visited(*self, v.blocked_rules@, l, l.len() as int, final(v.excluded_matches)@, final(v.rule_matches)@),
            forall|i: int, j: int| 0 <= i < j < final(v.rule_matches)@.len() ==> (#[trigger] final(v.rule_matches)@[i]).0 != (#[trigger] final(v.rule_matches)@[j]).0,
            forall|i: int| 0 <= i < final(v.rule_matches)@.len() ==> entry_ok(*self, old(event)@, #[trigger] final(v.rule_matches)@[i]),
    {
        let ghost ev = event@; let ghost b = v.blocked_rules@; let ghost v0 = v;
        let l = event.vp_walk(self);
        let mut v = v;
        let mut i: usize = 0;
        while i < l.len()
            invariant
                i <= l@.len(), visits_ok(*self, ev, l@), *v.scanner == *self, v.blocked_rules@ == b,
                *final(v.rule_matches) == *final(v0.rule_matches), *final(v.excluded_matches) == *final(v0.excluded_matches),
                visited(*self, b, l@, i as int, v.excluded_matches@, v.rule_matches@), from_visits(l@, i as int, v.rule_matches@),
                forall|k: int| 0 <= k < v.rule_matches@.len() ==> entry_ok(*self, ev, #[trigger] v.rule_matches@[k]),
            decreases l@.len() - i,
        {
            let ghost set1 = v.excluded_matches@; let ghost list1 = v.rule_matches@;
            let (iv, ck) = VpVisit::vp_take(&l[i]);
            proof { assert(fits(*self, l@[i as int].visitor.list())); }
            v.visit_content(&l[i].path, &l[i].text, iv, ck, l[i].tpr.as_slice());
            proof {
                let x = l@[i as int]; let set = v.excluded_matches@; let list = v.rule_matches@;
                let m = choose|m: Vec<InternalRuleMatch<E>>| #[trigger] reported(*self, b, x.text@, x.path, x.check, x.tpr@, x.visitor.list(), set1, set, m@) && list == (if m@.len() > 0 { list1.push((x.path, m)) } else { list1 });
                assert(vstep(*self, b, x, set1, list1, set, list));
                lemma_visited(*self, b, l@, i as int, set1, list1, set, list);
                assert forall|k: int| 0 <= k < list.len() implies of_visit(l@, i as int + 1, (#[trigger] list[k]).0) && entry_ok(*self, ev, list[k]) by {
                    if k < list1.len() { assert(list[k] == list1[k]); assert(of_visit(l@, i as int, list1[k].0)); } else { assert(l@[i as int].path == list[k].0); }
                }
                assert forall|k: int, j: int| 0 <= k < j < list.len() implies (#[trigger] list[k]).0 != (#[trigger] list[j]).0 by {
                    assert(list[k] == list1[k]); assert(of_visit(l@, i as int, list1[k].0));
                    if j < list1.len() { assert(list[j] == list1[j]); }
                }
            }
            i += 1;
        }
    }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::scan"
ret = "r"
contract = '''
    ensures
        exists|l: Seq<VpVisit>, set: Set<Seq<u8>>, list: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>| #[trigger] visited(*self, blocked_rules_idx@, l, l.len() as int, set, list) && walk(*self, *old(event), l)
            && done(*self, old(event)@, set, list, list.len() as int, final(event)@, r@),
'''
start = "let ghost ev0 = event@; let ghost event0 = *event;"
[[rewrite]]
from = "scan<E: Event>(&self, event: &mut E,"
to = "scan<E: Encoding>(&self, event: &mut VpEvent,"
[[rewrite]]
from = "let mut rule_matches_list = vec![];"
to = "let mut rule_matches_list: Vec<(VpPath, Vec<InternalRuleMatch<E>>)> = Vec::new();"
[[rewrite]]
from = "AHashSet::new()"
to = "VpSet::new()"
[[rewrite]]
from = "let start = std::time::Instant::now();"
to = ""
[[rewrite]]
from = "access_regex_caches(|regex_caches| { self.scoped_ruleset.visit_string_rule_combinations(event, ScannerContentVisitor { scanner: self, regex_caches, rule_matches: $a, blocked_rules: $b, excluded_matches: $c, rule_scan_caches: AHashMap::new(), }, ); });"
to = "self.vp_visit::<E>(event, ScannerContentVisitor { scanner: self, rule_matches: $a, blocked_rules: $b, excluded_matches: $c }); let ghost list = rule_matches_list@; let ghost set = excluded_matches@;"
[[rewrite]]
from = "let mut output_rule_matches = vec![];"
to = "let mut output_rule_matches: Vec<RuleMatch> = Vec::new();"
[[rewrite]]
from = "for (path, rule_matches) in &mut rule_matches_list"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = "event.visit_string_mut(path, $c);"
to = "self.vp_visit_string_mut::<E>(event, &mut rule_matches_list[vp_i], &excluded_matches, &mut output_rule_matches);"
[[rewrite]]
from = "self.metrics.duration_ns.increment(start.elapsed().as_nanos() as u64);"
to = ""
[[rewrite]]
from = "self.metrics.num_scanned_events.increment($x);"
to = ""
[[rewrite]]
from = "self.metrics.match_count.increment($x);"
to = ""
[[loop]]
n = 0
kind = "for"
before = "let vp_n = rule_matches_list.len();"
spec = '''
    invariant
        vp_n == list.len(), rule_matches_list@.len() == list.len(), excluded_matches@ == set,
        forall|k: int| vp_i <= k < list.len() ==> #[trigger] rule_matches_list@[k] == list[k],
        forall|i: int, j: int| 0 <= i < j < list.len() ==> (#[trigger] list[i]).0 != (#[trigger] list[j]).0,
        forall|i: int| 0 <= i < list.len() ==> entry_ok(*self, ev0, #[trigger] list[i]),
        event@.dom() == ev0.dom(), forall|k: int| vp_i <= k < list.len() ==> event@[(#[trigger] list[k]).0] == ev0[list[k].0],
        done(*self, ev0, set, list, vp_i as int, event@, output_rule_matches@),
'''
start = "let ghost ev1 = event@; let ghost o1 = output_rule_matches@; proof { assert(rule_matches_list@[vp_i as int] == list[vp_i as int]); assert(entry_ok(*self, ev0, list[vp_i as int])); }"
end = '''
proof {
    let e = list[vp_i as int];
    let (t1, o2) = choose|t1: Seq<u8>, o2: Seq<RuleMatch>| #[trigger] edited(*self, ev1[e.0], set, e.0, e.1@, t1, o2) && event@ == ev1.insert(e.0, t1) && output_rule_matches@ == o1 + o2;
    assert(dstep(*self, ev0, set, e, ev1, o1, event@, output_rule_matches@));
    lemma_done(*self, ev0, set, list, vp_i as int, ev1, o1, event@, output_rule_matches@);
    assert(event@.dom() =~= ev0.dom());
}
'''
@*/
}
proof fn lemma_visited<E: Encoding>(s: Scanner, b: Seq<usize>, l: Seq<VpVisit>, n: int, set1: Set<Seq<u8>>, list1: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>, set: Set<Seq<u8>>, list: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>)
    requires 0 <= n < l.len(), visited(s, b, l, n, set1, list1), vstep(s, b, l[n], set1, list1, set, list),
    ensures visited(s, b, l, n + 1, set, list),
{ let m = n + 1; assert(visited(s, b, l, m - 1, set1, list1)); assert(vstep(s, b, l[m - 1], set1, list1, set, list)); assert(visited(s, b, l, m, set, list)); }
proof fn lemma_done<E: Encoding>(s: Scanner, ev0: Map<VpPath, Seq<u8>>, set: Set<Seq<u8>>, list: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>, n: int, ev1: Map<VpPath, Seq<u8>>, o1: Seq<RuleMatch>, ev: Map<VpPath, Seq<u8>>, o: Seq<RuleMatch>)
    requires 0 <= n < list.len(), done(s, ev0, set, list, n, ev1, o1), dstep(s, ev0, set, list[n], ev1, o1, ev, o),
    ensures done(s, ev0, set, list, n + 1, ev, o),
{ let m = n + 1; assert(done(s, ev0, set, list, m - 1, ev1, o1)); assert(dstep(s, ev0, set, list[m - 1], ev1, o1, ev, o)); assert(done(s, ev0, set, list, m, ev, o)); }
pub proof fn lemma_filter_in<E: Encoding>(v: Seq<InternalRuleMatch<E>>, p: spec_fn(InternalRuleMatch<E>) -> bool, i: int)
    requires 0 <= i < v.filter(p).len(),
    ensures v.contains(v.filter(p)[i]),
    decreases v.len(),
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let w = v.drop_last(); let f = w.filter(p);
        if i < f.len() { lemma_filter_in(w, p, i); let j = choose|j: int| 0 <= j < w.len() && w[j] == f[i]; assert(v[j] == f[i]); }
        else { assert(v[v.len() - 1] == v.filter(p)[i]); }
    }
}
// theorem: a string in which nothing was found is as it was; what is reported names only listed strings
pub proof fn theorem_untouched<E: Encoding>(s: Scanner, ev0: Map<VpPath, Seq<u8>>, set: Set<Seq<u8>>, list: Seq<(VpPath, Vec<InternalRuleMatch<E>>)>, n: int, ev: Map<VpPath, Seq<u8>>, o: Seq<RuleMatch>, p: VpPath)
    requires done(s, ev0, set, list, n, ev, o), 0 <= n <= list.len(), forall|i: int| 0 <= i < n ==> (#[trigger] list[i]).0 != p,
    ensures ev0.dom().contains(p) <==> ev.dom().contains(p), ev[p] == ev0[p],
    decreases n,
{
    if n > 0 {
        let (ev1, o1) = choose|ev1: Map<VpPath, Seq<u8>>, o1: Seq<RuleMatch>| done(s, ev0, set, list, n - 1, ev1, o1) && #[trigger] dstep(s, ev0, set, list[n - 1], ev1, o1, ev, o);
        theorem_untouched(s, ev0, set, list, n - 1, ev1, o1, p);
        assert(list[n - 1].0 != p);
    }
}
} // verus!
fn main() {}
