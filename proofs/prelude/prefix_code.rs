// ---- positions counted in characters ---------------------------------------------------------------
pub proof fn lemma_nchars_mono(t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= t.len(),
    ensures 0 <= nchars(t, b) - nchars(t, a) <= b - a, a < b && !cont(t[a]) ==> nchars(t, b) > nchars(t, a),
    decreases b - a,
{ if a < b { lemma_nchars_mono(t, a, b - 1); } }
pub proof fn lemma_nchars_all(t: Seq<u8>)
    ensures forall|a: int, b: int| 0 <= a <= b <= t.len() ==> 0 <= #[trigger] nchars(t, b) - #[trigger] nchars(t, a) <= b - a
        && (a < b && !cont(t[a]) ==> nchars(t, b) > nchars(t, a)),
{
    assert forall|a: int, b: int| 0 <= a <= b <= t.len() implies 0 <= #[trigger] nchars(t, b) - #[trigger] nchars(t, a) <= b - a
        && (a < b && !cont(t[a]) ==> nchars(t, b) > nchars(t, a)) by { lemma_nchars_mono(t, a, b); }
}
pub proof fn lemma_nchars_prefix(t: Seq<u8>, m: int, i: int)
    requires 0 <= i <= m <= t.len(),
    ensures nchars(t.subrange(0, m), i) == nchars(t, i),
    decreases i,
{ if i > 0 { lemma_nchars_prefix(t, m, i - 1); } }
// a character starts at byte a, the next one (or the end of the text) is at byte b
pub open spec fn one_char(t: Seq<u8>, a: int, b: int) -> bool {
    0 <= a < b <= t.len() && !cont(t[a]) && (b < t.len() ==> !cont(t[b])) && forall|i: int| a < i < b ==> cont(#[trigger] t[i])
}
pub proof fn lemma_one_char(t: Seq<u8>, a: int, b: int)
    requires 0 <= a < b <= t.len(), !cont(t[a]), b < t.len() ==> !cont(t[b]), nchars(t, b) == nchars(t, a) + 1,
    ensures one_char(t, a, b),
{
    assert forall|i: int| a < i < b implies cont(#[trigger] t[i]) by {
        if !cont(t[i]) { lemma_nchars_mono(t, i, b); lemma_nchars_mono(t, a, i); }
    }
}
impl VpText {
    // self[start..].char_indices().nth(k)
    #[verifier::external_body]
    pub fn vp_nth_from(&self, start: usize, k: usize) -> (r: Option<(usize, char)>)
        requires start <= self@.len(), bdry(self@, start as int),
        ensures
            r is Some <==> nchars(self@, start as int) + k < nchars(self@, self@.len() as int),
            r is Some ==> start + (r->0).0 < self@.len() && char_at(self@, start + (r->0).0, nchars(self@, start as int) + k),
    { unimplemented!() }
    // self[..end].char_indices().nth_back(k)
    #[verifier::external_body]
    pub fn vp_nth_back(&self, end: usize, k: usize) -> (r: Option<(usize, char)>)
        requires end <= self@.len(), bdry(self@, end as int),
        ensures
            r is Some <==> k < nchars(self@, end as int),
            r is Some ==> (r->0).0 < end && char_at(self@, (r->0).0 as int, nchars(self@, end as int) - 1 - k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_char_boundary(&self, i: usize) -> (r: bool) ensures r == (i <= self@.len() && bdry(self@, i as int)) { unimplemented!() }
}
// debug_assert!(..): has to hold
pub fn vp_check(b: bool) requires b, { }
// ---- text validity: does not start inside a character ------------------------------------------------
#[verifier::external_body]
pub proof fn axiom_text(t: &VpText) ensures text_ok(t@), t@.len() <= isize::MAX {}
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "MAX_LOOK_AHEAD_CHARACTER_COUNT"
kind = "const"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "next_char_index"
ret = "r"
contract = '''
    requires start <= content@.len(), bdry(content@, start as int),
    ensures
        r is Some ==> one_char(content@, start as int, r->0 as int) && r->0 < content@.len(),
        r is None && start < content@.len() ==> one_char(content@, start as int, content@.len() as int),
        r is None ==> nchars(content@, start as int) + 1 >= nchars(content@, content@.len() as int),
'''
start = '''proof {
    axiom_text(content);
    lemma_nchars_all(content@);
    let t = content@;
    assert forall|p: int| #[trigger] char_at(t, p, nchars(t, start as int) + 1) implies one_char(t, start as int, p) by {
        if p <= start { lemma_nchars_mono(t, p, start as int); }
        lemma_one_char(t, start as int, p);
    }
    if start < t.len() && nchars(t, start as int) + 1 >= nchars(t, t.len() as int) { lemma_one_char(t, start as int, t.len() as int); }
}'''
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "content[start..].char_indices().nth($n).map(|$p| $e)"
to = "match content.vp_nth_from(start, $n) { Some($p) => Some($e), None => None }"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "prev_char_index"
ret = "r"
contract = '''
    requires start <= content@.len(), bdry(content@, start as int),
    ensures
        r is None <==> start == 0,
        r is Some ==> r->0 < start && char_at(content@, r->0 as int, nchars(content@, start as int) - 1),
'''
start = '''proof {
    axiom_text(content);
    lemma_nchars_all(content@);
    assert(nchars(content@, 0) == 0);
}'''
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "content[..start].char_indices().next_back().map(|$p| $e)"
to = "match content.vp_nth_back(start, 0) { Some($p) => Some($e), None => None }"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "PrefixStart"
kind = "struct"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "is_index_within_prefix"
ret = "r"
contract = '''
    requires
        prefix_start <= target <= content@.len(), bdry(content@, prefix_start as int), bdry(content@, target as int),
        prefix_size <= MAX_LOOK_AHEAD_CHARACTER_COUNT,
    ensures r == (nchars(content@, target as int) - nchars(content@, prefix_start as int) <= prefix_size),
'''
start = '''proof { axiom_text(content); lemma_nchars_all(content@); }'''
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "debug_assert!($e)"
to = "vp_check($e)"
all = true
[[rewrite]]
from = "content[prefix_start..].char_indices().nth($n).map_or($d, |$p| $e)"
to = "match content.vp_nth_from(prefix_start, $n) { Some($p) => $e, None => $d }"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "get_prefix_start"
ret = "r"
contract = '''
    requires match_start <= content@.len(), bdry(content@, match_start as int), 0 < look_ahead_char_count,
    ensures
        // where the n-th character before the match starts, if there are that many
        r.used_all_chars == (nchars(content@, match_start as int) >= look_ahead_char_count),
        r.used_all_chars ==> char_at(content@, r.start as int, nchars(content@, match_start as int) - look_ahead_char_count),
        !r.used_all_chars ==> r.start == 0,
        r.start <= match_start,
'''
start = '''proof { axiom_text(content); lemma_nchars_all(content@); }'''
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "let prefix = &content[0..match_start];"
to = ""
[[rewrite]]
from = "let mut char_indices = prefix.char_indices();"
to = ""
[[rewrite]]
from = "char_indices.nth_back($n)"
to = "content.vp_nth_back(match_start, $n)"
@*/
