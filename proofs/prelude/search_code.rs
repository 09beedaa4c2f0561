// ---- regex search, assumed: leftmost match at or after a position ------------------------------------
// end of the match that starts at byte p, if there is one (it does not depend on where the search began)
pub uninterp spec fn rx_end(r: VpRegex, t: Seq<u8>, p: int) -> Option<int>;
pub open spec fn occurs(r: VpRegex, t: Seq<u8>, p: int) -> bool { 0 <= p < t.len() && bdry(t, p) && rx_end(r, t, p) is Some }
#[derive(Clone, Copy)]
pub struct Match { pub s: usize, pub e: usize }
impl Match {
    #[verifier::when_used_as_spec(spec_start)]
    pub fn start(&self) -> (r: usize) ensures r == self.s { self.s }
    pub open spec fn spec_start(&self) -> usize { self.s }
    #[verifier::when_used_as_spec(spec_end)]
    pub fn end(&self) -> (r: usize) ensures r == self.e { self.e }
    pub open spec fn spec_end(&self) -> usize { self.e }
}
pub open spec fn match_ok(t: Seq<u8>, s: int, e: int) -> bool { 0 <= s < e <= t.len() && bdry(t, s) && bdry(t, e) }
impl VpRegex {
    // search_with(cache, &Input::new(text).range(from..)); no pattern matches the empty string (property C16)
    #[verifier::external_body]
    pub fn vp_search(&self, text: &VpText, from: usize) -> (r: Option<Match>)
        requires from <= text@.len(), bdry(text@, from as int),
        ensures
            r is Some ==> from <= (r->0).s && match_ok(text@, (r->0).s as int, (r->0).e as int)
                && rx_end(*self, text@, (r->0).s as int) == Some((r->0).e as int)
                && (forall|p: int| from <= p < (r->0).s ==> !#[trigger] occurs(*self, text@, p)),
            r is None ==> forall|p: int| from <= p ==> !#[trigger] occurs(*self, text@, p),
    { unimplemented!() }
}
/*@extract
file = "sds/src/proximity_keywords/included_keywords.rs"
item = "CompiledIncludedProximityKeywords"
kind = "struct"
[[rewrite]]
from = "super::ProximityKeywordsRegex"
to = "ProximityKeywordsRegex"
@*/
/*@extract
file = "sds/src/proximity_keywords/excluded_keywords.rs"
item = "CompiledExcludedProximityKeywords"
kind = "struct"
[[rewrite]]
from = "pub false_positive_counter: Counter,"
to = ""
@*/
/*@extract
file = "sds/src/proximity_keywords/included_keywords.rs"
item = "IncludedKeywordSearch"
kind = "struct"
[[rewrite]]
from = "&'a str"
to = "&'a VpText"
[[rewrite]]
from = "keywords:"
to = "pub keywords:"
[[rewrite]]
from = "content:"
to = "pub content:"
[[rewrite]]
from = "start:"
to = "pub start:"
@*/
// ---- included keywords: one after the other, none skipped ----------------------------------------------
pub open spec fn kw_at(k: CompiledIncludedProximityKeywords, t: Seq<u8>, p: int) -> bool { occurs(k.keywords_pattern.content_regex, t, p) }
impl CompiledIncludedProximityKeywords {
/*@extract
file = "sds/src/proximity_keywords/included_keywords.rs"
item = "CompiledIncludedProximityKeywords::keyword_matches"
ret = "r"
contract = '''
    ensures r.start == 0, *r.content == *content, *r.keywords == *self,
'''
[[rewrite]]
from = "&'a str"
to = "&'a VpText"
@*/
}
impl<'a> IncludedKeywordSearch<'a> {
    pub open spec fn inv(&self) -> bool { self.start <= self.content@.len() && bdry(self.content@, self.start as int) }
/*@extract
file = "sds/src/proximity_keywords/included_keywords.rs"
item = "IncludedKeywordSearch::skip_to"
contract = '''
    ensures
        *final(self).content == *old(self).content, *final(self).keywords == *old(self).keywords,
        final(self).start == (if start > old(self).start { start } else { old(self).start }),
'''
@*/
/*@extract
file = "sds/src/proximity_keywords/included_keywords.rs"
item = "IncludedKeywordSearch::next"
ret = "r"
contract = '''
    requires old(self).inv(),
    ensures
        final(self).inv(), *final(self).content == *old(self).content, *final(self).keywords == *old(self).keywords,
        // the first keyword that starts at or after the cursor; the cursor moves past its first character
        r is Some ==> ({
            let k = r->0;
            &&& old(self).start <= k < final(self).start
            &&& kw_at(*old(self).keywords, old(self).content@, k as int)
            &&& forall|p: int| old(self).start <= p < final(self).start && p != k ==> !#[trigger] kw_at(*old(self).keywords, old(self).content@, p)
        }),
        r is None ==> forall|p: int| old(self).start <= p ==> !#[trigger] kw_at(*old(self).keywords, old(self).content@, p),
'''
start = '''proof {
    let t = self.content@;
    axiom_text(self.content);
    assert forall|a: int, b: int, p: int| #![trigger one_char(t, a, b), kw_at(*old(self).keywords, t, p)] one_char(t, a, b) && a < p < b implies !kw_at(*old(self).keywords, t, p) by { assert(cont(t[p])); }
}'''
[[rewrite]]
from = "regex_caches: &mut RegexCaches"
to = ""
[[rewrite]]
from = "let input = Input::new(self.content).range(self.start..);"
to = ""
[[rewrite]]
from = "self.keywords.keywords_pattern.content_regex.search_with(regex_caches.get(&self.keywords.keywords_pattern.content_regex), &input,)"
to = "self.keywords.keywords_pattern.content_regex.vp_search(self.content, self.start)"
@*/
}
