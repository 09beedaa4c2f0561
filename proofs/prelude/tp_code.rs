// ---- true positive matches of one rule in one string ---------------------------------------------------
#[verifier::external_body]
pub struct VpValidator { x: u8 }
pub uninterp spec fn valid(v: VpValidator, m: Seq<u8>) -> bool;
impl VpValidator {
    #[verifier::external_body]
    pub fn is_valid_match(&self, m: &VpText) -> (r: bool) ensures r == valid(*self, m@) { unimplemented!() }
}
#[verifier::external_body]
pub struct ExclusionCheck<'a> { x: &'a u8 }
pub uninterp spec fn path_excluded(x: ExclusionCheck<'_>, rule: int) -> bool;        // contract of C04
impl<'a> ExclusionCheck<'a> {
    #[verifier::external_body]
    pub fn is_excluded(&self, rule_index: usize) -> (r: bool) ensures r == path_excluded(*self, rule_index as int) { unimplemented!() }
}
// AHashSet<String>, as the set of byte sequences it contains
#[verifier::external_body]
pub struct VpSet { x: u8 }
impl View for VpSet { type V = Set<Seq<u8>>; uninterp spec fn view(&self) -> Set<Seq<u8>>; }
impl VpSet {
    #[verifier::external_body]
    pub fn insert(&mut self, s: VpText) -> (r: bool) ensures final(self)@ == old(self)@.insert(s@) { unimplemented!() }
}
/*@extract
file = "sds/src/scanner/mod.rs"
item = "StringMatch"
kind = "struct"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule"
kind = "struct"
[[rewrite]]
from = "regex: SharedRegex"
to = "regex: VpRegex"
[[rewrite]]
from = "pub match_action: MatchAction,"
to = ""
[[rewrite]]
from = "pub scope: Scope,"
to = ""
[[rewrite]]
from = "Option<Arc<dyn Validator>>"
to = "Option<VpValidator>"
[[rewrite]]
from = "pub metrics: RuleMetrics,"
to = ""
[[rewrite]]
from = "pub match_validation_type: Option<MatchValidationType>,"
to = ""
[[rewrite]]
from = "pub internal_match_validation_type: Option<InternalMatchValidationType>,"
to = ""
@*/
impl RegexCompiledRule {
    pub open spec fn ok(&self) -> bool {
        &&& self.excluded_keywords is Some ==> 1 <= (self.excluded_keywords->0).look_ahead_character_count <= MAX_LOOK_AHEAD_CHARACTER_COUNT
        &&& self.included_keywords is Some ==> 1 <= (self.included_keywords->0).look_ahead_character_count <= MAX_LOOK_AHEAD_CHARACTER_COUNT
    }
}
// a regex match is a false positive if an excluded keyword precedes it (when those are checked) or the validator rejects it
pub open spec fn kw_excluded(rule: RegexCompiledRule, t: Seq<u8>, s: int) -> bool {
    rule.excluded_keywords is Some && excluded_before((rule.excluded_keywords->0).keywords_pattern.content_regex, t, s, (rule.excluded_keywords->0).look_ahead_character_count as int)
}
pub open spec fn rejected(rule: RegexCompiledRule, t: Seq<u8>, s: int, e: int) -> bool { rule.validator is Some && !valid(rule.validator->0, t.subrange(s, e)) }
pub open spec fn false_positive(rule: RegexCompiledRule, t: Seq<u8>, s: int, e: int, chk: bool) -> bool { (chk && kw_excluded(rule, t, s)) || rejected(rule, t, s, e) }
// a true positive starts at byte p
pub open spec fn tp(rule: RegexCompiledRule, t: Seq<u8>, chk: bool, p: int) -> bool {
    occurs(rule.regex, t, p) && p < rx_end(rule.regex, t, p)->0 <= t.len() && !false_positive(rule, t, p, rx_end(rule.regex, t, p)->0, chk)
}
pub open spec fn tp_end(rule: RegexCompiledRule, t: Seq<u8>, p: int) -> int { rx_end(rule.regex, t, p)->0 }
// the true positives from byte a on, left to right, each search starting where the last match ended
pub open spec fn tp_list(rule: RegexCompiledRule, t: Seq<u8>, chk: bool, a: int) -> Seq<(int, int)>
    decreases t.len() - a,
{
    if a >= t.len() { seq![] }
    else if tp(rule, t, chk, a) { seq![(a, tp_end(rule, t, a))] + tp_list(rule, t, chk, tp_end(rule, t, a)) }
    else { tp_list(rule, t, chk, a + 1) }
}
pub proof fn lemma_tp_skip(rule: RegexCompiledRule, t: Seq<u8>, chk: bool, a: int, b: int)
    requires a <= b <= t.len(), forall|p: int| a <= p < b ==> !#[trigger] tp(rule, t, chk, p),
    ensures tp_list(rule, t, chk, a) == tp_list(rule, t, chk, b),
    decreases b - a,
{ if a < b { assert(!tp(rule, t, chk, a)); lemma_tp_skip(rule, t, chk, a + 1, b); } }
pub open spec fn texts(t: Seq<u8>, l: Seq<(int, int)>) -> Set<Seq<u8>> { l.map_values(|m: (int, int)| t.subrange(m.0, m.1)).to_set() }
pub proof fn lemma_texts_cons(t: Seq<u8>, m: (int, int), l: Seq<(int, int)>)
    ensures texts(t, seq![m] + l) == texts(t, l).insert(t.subrange(m.0, m.1)), texts(t, Seq::<(int, int)>::empty()) =~= Set::<Seq<u8>>::empty(),
{
    let f = |m: (int, int)| t.subrange(m.0, m.1);
    let a = (seq![m] + l).map_values(f); let b = l.map_values(f);
    assert(a =~= seq![f(m)] + b);
    assert forall|x: Seq<u8>| texts(t, seq![m] + l).contains(x) <==> texts(t, l).insert(f(m)).contains(x) by {
        if a.contains(x) { let i = a.index_of(x); if i > 0 { assert(b[i - 1] == x); assert(b.contains(x)); } }
        if b.contains(x) { let i = b.index_of(x); assert(a[i + 1] == x); }
        if x == f(m) { assert(a[0] == x); }
    }
    assert(texts(t, seq![m] + l) =~= texts(t, l).insert(f(m)));
}
impl CompiledExcludedProximityKeywords {
/*@extract
file = "sds/src/proximity_keywords/excluded_keywords.rs"
item = "CompiledExcludedProximityKeywords::is_false_positive_match"
ret = "r"
contract = '''
    requires
        match_start < content@.len(), bdry(content@, match_start as int),
        1 <= self.look_ahead_character_count <= MAX_LOOK_AHEAD_CHARACTER_COUNT,
    ensures r == excluded_before(self.keywords_pattern.content_regex, content@, match_start as int, self.look_ahead_character_count as int),
'''
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "self.false_positive_counter.increment(1);"
to = ""
optional = true
@*/
}
/*@extract
file = "sds/src/scanner/mod.rs"
item = "get_next_regex_start"
ret = "r"
contract = '''
    requires regex_match.s < content@.len(), bdry(content@, regex_match.s as int),
    ensures
        r is Some ==> one_char(content@, regex_match.s as int, r->0 as int) && r->0 < content@.len(),
        r is None ==> one_char(content@, regex_match.s as int, content@.len() as int),
'''
start = '''proof {
    axiom_text(content);
    lemma_nchars_all(content@);
    let t = content@; let start = regex_match.s as int;
    assert forall|p: int| #[trigger] char_at(t, p, nchars(t, start) + 1) implies one_char(t, start, p) by {
        if p <= start { lemma_nchars_mono(t, p, start); }
        lemma_one_char(t, start, p);
    }
    if nchars(t, start) + 1 >= nchars(t, t.len() as int) { lemma_one_char(t, start, t.len() as int); }
}'''
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "content[regex_match.start()..].char_indices().nth($n)"
to = "content.vp_nth_from(regex_match.start(), $n)"
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "is_false_positive_match"
ret = "r"
contract = '''
    requires match_ok(content@, regex_match.s as int, regex_match.e as int), rule.ok(),
    ensures r == false_positive(*rule, content@, regex_match.s as int, regex_match.e as int, check_excluded_keywords),
'''
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "&content[regex_match.range()]"
to = "content.vp_slice(regex_match.start(), regex_match.end())"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "TruePositiveSearch"
kind = "struct"
[[rewrite]]
from = "rule: &'a RegexCompiledRule"
to = "pub rule: &'a RegexCompiledRule"
[[rewrite]]
from = "content: &'a str"
to = "pub content: &'a VpText"
[[rewrite]]
from = "start: usize"
to = "pub start: usize"
[[rewrite]]
from = "cache: &'a mut Cache,"
to = ""
[[rewrite]]
from = "check_excluded_keywords: bool"
to = "pub check_excluded_keywords: bool"
[[rewrite]]
from = "exclusion_check: &'a ExclusionCheck<'a>"
to = "pub exclusion_check: &'a ExclusionCheck<'a>"
[[rewrite]]
from = "excluded_matches: &'a mut AHashSet<String>"
to = "pub excluded_matches: &'a mut VpSet"
@*/
impl<'a> TruePositiveSearch<'a> {
    pub open spec fn inv(&self) -> bool { self.rule.ok() && self.start <= self.content@.len() && bdry(self.content@, self.start as int) }
    pub open spec fn list(&self) -> Seq<(int, int)> { tp_list(*self.rule, self.content@, self.check_excluded_keywords, self.start as int) }
    pub open spec fn excluded(&self) -> bool { path_excluded(*self.exclusion_check, self.rule.rule_index as int) }
    pub open spec fn same(&self, o: &Self) -> bool {
        *self.rule == *o.rule && *self.content == *o.content && self.check_excluded_keywords == o.check_excluded_keywords && *self.exclusion_check == *o.exclusion_check
    }
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "TruePositiveSearch::next"
ret = "r"
contract = '''
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same(old(self)),
        *final(final(self).excluded_matches) == *final(old(self).excluded_matches),
        // on an excluded path nothing is reported, the texts of the matches are remembered
        old(self).excluded() ==> r is None && final(self).excluded_matches@ == old(self).excluded_matches@.union(texts(old(self).content@, old(self).list())),
        // otherwise the true positives are reported one by one
        !old(self).excluded() ==> *final(self).excluded_matches == *old(self).excluded_matches && match r {
            None => old(self).list().len() == 0 && final(self).list().len() == 0,
            Some(m) => old(self).start <= m.start && tp(*old(self).rule, old(self).content@, old(self).check_excluded_keywords, m.start as int)
                && m.end == tp_end(*old(self).rule, old(self).content@, m.start as int) && m.start < m.end <= old(self).content@.len() && bdry(old(self).content@, m.start as int)
                && (forall|p: int| old(self).start <= p < m.start ==> !#[trigger] tp(*old(self).rule, old(self).content@, old(self).check_excluded_keywords, p))
                && final(self).start == m.end
                && old(self).list() == seq![(m.start as int, m.end as int)] + final(self).list(),
        },
'''
start = '''let ghost t = self.content@; let ghost rule = *self.rule; let ghost chk = self.check_excluded_keywords; let ghost from = self.start as int;
let ghost set0 = self.excluded_matches@;
proof {
    axiom_text(self.content);
    lemma_texts_cons(t, (0, 0), seq![]);
    assert(set0.union(Set::empty()) =~= set0);
    assert forall|a: int, b: int, p: int| #![trigger one_char(t, a, b), tp(rule, t, chk, p)] one_char(t, a, b) && a < p < b implies !tp(rule, t, chk, p) by { assert(cont(t[p])); }
}'''
[[rewrite]]
from = "let input = Input::new(self.content).range(self.start..);"
to = ""
[[rewrite]]
from = "Option<Self::Item>"
to = "Option<StringMatch>"
[[rewrite]]
from = "self.rule.regex.search_with(self.cache, &input)"
to = "self.rule.regex.vp_search(self.content, self.start)"
[[rewrite]]
from = "self.content[regex_match.range()].to_string()"
to = "self.content.vp_slice(regex_match.start(), regex_match.end()).to_string()"
[[loop]]
n = 0
kind = "loop"
spec = '''
    invariant
        self.inv(), self.same(old(self)), t == self.content@, rule == *self.rule, chk == self.check_excluded_keywords, text_ok(t),
        *final(self.excluded_matches) == *final(old(self).excluded_matches),
        from == old(self).start, from <= self.start,
        set0 == old(self).excluded_matches@,
        set0.union(Set::empty()) =~= set0,
        texts(t, Seq::<(int, int)>::empty()) =~= Set::<Seq<u8>>::empty(),
        forall|a: int, b: int, p: int| #![trigger one_char(t, a, b), tp(rule, t, chk, p)] one_char(t, a, b) && a < p < b ==> !tp(rule, t, chk, p),
        !self.excluded() ==> *self.excluded_matches == *old(self).excluded_matches && self.list() == old(self).list()
            && (forall|p: int| from <= p < self.start ==> !#[trigger] tp(rule, t, chk, p)),
        self.excluded() ==> self.excluded_matches@.union(texts(t, self.list())) == set0.union(texts(t, old(self).list())),
    decreases t.len() - self.start,
'''
start = '''let ghost a = self.start as int; let ghost list_a = self.list(); let ghost set_a = self.excluded_matches@;
proof { if forall|p: int| a <= p ==> !#[trigger] occurs(rule.regex, t, p) { lemma_tp_skip(rule, t, chk, a, t.len() as int); assert(set_a.union(Set::empty()) =~= set_a); } }'''
[[after]]
pattern = "if let Some(regex_match) = self.rule.regex.search_with(self.cache, &input) {"
text = '''let ghost s = regex_match.s as int;
proof {
    assert forall|p: int| a <= p < s implies !#[trigger] tp(rule, t, chk, p) by { assert(!occurs(rule.regex, t, p)); }
    lemma_tp_skip(rule, t, chk, a, s);
    if !tp(rule, t, chk, s) { let b = vp_end(t, s); lemma_end(t, s); assert(one_char(t, s, b)); 
        assert forall|p: int| a <= p < b implies !#[trigger] tp(rule, t, chk, p) by {}
        lemma_tp_skip(rule, t, chk, a, b); }
}'''
[[after]]
pattern = "self.start = next;"
text = "proof { let b = vp_end(t, s); if next < b { assert(cont(t[next as int])); } else if b < next { assert(cont(t[b])); } }"
[[before]]
pattern = "return None;"
text = "proof { let b = vp_end(t, s); if b < t.len() { assert(cont(t[b])); } assert(b == t.len()); assert(self.list().len() == 0); assert(set_a.union(Set::empty()) =~= set_a); }"
[[after]]
pattern = "self.start = regex_match.end();"
text = '''proof {
    let m = (s, regex_match.e as int);
    assert(list_a == seq![m] + self.list());
    lemma_texts_cons(t, m, self.list());
    assert(set_a.insert(t.subrange(m.0, m.1)).union(texts(t, self.list())) =~= set_a.union(texts(t, list_a)));
}'''
@*/
}
