//@include prelude/chars.rs
//@include prelude/enumerate.rs

// ---- specification ---------------------------------------------------------------------------------
pub open spec fn sep(c: char) -> bool { c == '-' || c == '_' || c == '.' || c == ' ' || c == '/' }
pub open spec fn upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn lower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn lc(c: char) -> char { if upper(c) { (c as u32 + 32) as char } else { c } }
pub open spec fn low(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lc(c)) }
// what character i of s contributes to the standardised text
pub open spec fn chunk(s: Seq<char>, i: int) -> Seq<char> {
    if i == 0 || i == s.len() - 1 { seq![s[i]] }                       // first and last character are kept
    else if sep(s[i]) && !sep(s[i - 1]) { seq!['.'] }                  // a separator becomes a dot
    else if upper(s[i]) && !upper(s[i - 1]) && !sep(s[i - 1]) { seq!['.', s[i]] }      // camelCase
    else { seq![s[i]] }
}
pub open spec fn std_to(s: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else { std_to(s, n - 1) + chunk(s, n - 1) } }
pub open spec fn std(s: Seq<char>) -> Seq<char> { std_to(s, s.len() as int) }
pub open spec fn is_lowers(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> lower(#[trigger] s[i]) }
pub open spec fn is_uppers(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> upper(#[trigger] s[i]) }
// fields that consist of letters of one case are already standardised
pub proof fn lemma_bypass(s: Seq<char>, n: int)
    requires is_lowers(s) || is_uppers(s), 0 <= n <= s.len(),
    ensures std_to(s, n) == s.take(n), n == s.len() ==> std(s) == s,
    decreases n,
{
    if n > 0 { lemma_bypass(s, n - 1); assert(lower(s[n - 1]) || upper(s[n - 1])); if n > 1 { assert(lower(s[n - 2]) || upper(s[n - 2])); } assert(s.take(n) =~= s.take(n - 1) + seq![s[n - 1]]); }
    else { assert(s.take(0) =~= seq![]); }
    if n == s.len() { assert(s.take(n) =~= s); }
}
pub proof fn lemma_low_lower(s: Seq<char>)
    requires is_lowers(s), ensures low(s) == s,
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] low(s)[i] == s[i] by { assert(lower(s[i])); } assert(low(s) =~= s); }
pub proof fn lemma_low_push(s: Seq<char>, n: int)
    requires 0 <= n < s.len(), ensures low(s.take(n + 1)) == low(s.take(n)).push(lc(s[n])),
{ assert(low(s.take(n + 1)) =~= low(s.take(n)).push(lc(s[n]))); }

// ---- assumed contracts on std ----------------------------------------------------------------------
pub assume_specification [ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == upper(*c);
pub assume_specification [ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == lower(*c);
pub assume_specification [ char::to_ascii_lowercase ](c: &char) -> (r: char) ensures r == lc(*c);
#[verifier::external_body]
pub fn vp_contains(v: &Vec<char>, c: &char) -> (r: bool) ensures r == v@.contains(*c) { v.contains(c) }
#[verifier::external_body]
pub fn vp_lowercase(s: &str) -> (r: VpString) ensures r@ == low(s@) { unimplemented!() }
pub struct VpString { pub v: Vec<char> }
impl VpString {
    pub open spec fn view(&self) -> Seq<char> { self.v@ }
    pub fn with_capacity(n: usize) -> (r: VpString) ensures r@ == Seq::<char>::empty() { VpString { v: Vec::new() } }
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { self.v.push(c) }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &VpString) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    pub fn as_str(&self) -> (r: &VpString) ensures r@ == self@ { self }
}
#[verifier::external_body]
pub fn vp_owned(s: &str) -> (r: VpString) ensures r@ == s@ { unimplemented!() }
// the closure given to standardize_path_chars, as the list of characters it is called with
pub struct VpCalls { pub v: Vec<char> }
impl VpCalls {
    pub fn vp_call(&mut self, c: &char) ensures final(self).v@ == old(self).v@.push(*c) { self.v.push(*c) }
}

/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "MULTI_WORD_KEYWORDS_LINK_CHARS"
kind = "const"
[[rewrite]]
from = "const MULTI_WORD_KEYWORDS_LINK_CHARS: &[char] = &[$items];"
to = "fn vp_links() -> (r: Vec<char>) ensures forall|c: char| #[trigger] r@.contains(c) <==> sep(c) { let r = vec![$items]; proof { assert forall|c: char| #[trigger] r@.contains(c) <==> sep(c) by { assert(sep(c) ==> r@[0] == c || r@[1] == c || r@[2] == c || r@[3] == c || r@[4] == c); } } r }"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "UNIFIED_LINK_CHAR"
kind = "const"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "CharType"
kind = "enum"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "BypassStandardizePathResult"
kind = "enum"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "get_char_type"
ret = "r"
contract = '''
    ensures
        r is Separator <==> sep(*c), r is Uppercase <==> !sep(*c) && upper(*c), r is Regular <==> !sep(*c) && !upper(*c),
'''
[[rewrite]]
from = "MULTI_WORD_KEYWORDS_LINK_CHARS.contains(c)"
to = "vp_contains(&vp_links(), c)"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "should_bypass_standardize_path"
ret = "r"
contract = '''
    ensures
        r is BypassAndAllLowercase ==> is_lowers(characters@),
        r is BypassAndAllUppercase ==> is_uppers(characters@),
'''
start = "let ghost s = characters@; let ghost mut k: int = 0;"
[[rewrite]]
from = "for char in characters.chars()"
to = "let mut vp_it = characters.vp_chars(); while let Some(char) = vp_it.next()"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant
        0 <= k <= s.len(), vp_it@ == s.skip(k),
        all_lower ==> (forall|i: int| 0 <= i < k ==> lower(#[trigger] s[i])), all_upper ==> (forall|i: int| 0 <= i < k ==> upper(#[trigger] s[i])), all_lower || all_upper,
    ensures
        all_lower ==> is_lowers(s), all_upper ==> is_uppers(s), all_lower || all_upper,
    decreases s.len() - k,
'''
start = '''proof {
    assert(vp_it@ =~= s.skip(k + 1)); assert(char == s[k]);
    k = k + 1;
}'''
before = "proof { assert(s.skip(0) =~= s); }"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "standardize_path_chars"
contract = '''
    ensures final(push_character).v@ == old(push_character).v@ + std(characters@),
'''
start = "let ghost s = characters@; let ghost out0 = push_character.v@; let ghost mut k: int = 1;"
[[rewrite]]
from = "standardize_path_chars<F>(characters: &str, mut push_character: F) where F: FnMut(&char),"
to = "standardize_path_chars(characters: &str, push_character: &mut VpCalls)"
[[rewrite]]
from = "push_character($x)"
to = "push_character.vp_call($x)"
all = true
[[rewrite]]
from = "characters.chars()"
to = "characters.vp_chars()"
all = true
[[rewrite]]
from = "for (i, current) in characters_iter.enumerate()"
to = "let mut vp_it = characters_iter.enumerate(); while let Some((i, current)) = vp_it.next()"
[[before]]
pattern = "return;"
text = "proof { assert(out0 + seq![] =~= out0); }"
[[after]]
pattern = "let mut previous = char;"
text = "proof { assert(std_to(s, 1) =~= seq![s[0]]) by { assert(std_to(s, 0) =~= seq![]); } assert(push_character.v@ =~= out0 + std_to(s, 1)); assert(characters_iter@ =~= s.skip(1)); }"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant
        1 <= k <= s.len(), vp_it@ == (k - 1, s.skip(k)), previous == s[k - 1], kw_length == s.len(),
        push_character.v@ == out0 + std_to(s, k),
    ensures push_character.v@ == out0 + std(s),
    decreases s.len() - k,
'''
start = '''let ghost out1 = push_character.v@;
proof {
    assert(vp_it@.1 =~= s.skip(k + 1)); assert(current == s[k]); assert(i == k - 1);
    assert(out0 + std_to(s, k + 1) =~= (out0 + std_to(s, k)) + chunk(s, k));
    assert(forall|c: char| #[trigger] out1.push(c) =~= out1 + seq![c]);
    assert(forall|c: char, d: char| #[trigger] out1.push(c).push(d) =~= out1 + seq![c, d]);
}'''
end = "proof { k = k + 1; }"
@*/

