use vstd::prelude::*;
verus! {
//@include prelude/standard_code.rs

// ---- syntax trees of the regex crate (regex_syntax::ast), as far as they occur here -----------------
pub struct Position { pub offset: usize, pub line: usize, pub column: usize }
pub struct Span { pub start: Position, pub end: Position }
impl Position { pub fn new(offset: usize, line: usize, column: usize) -> Position { Position { offset, line, column } } }
impl Span { pub fn new(start: Position, end: Position) -> Span { Span { start, end } } }
pub enum LiteralKind { Verbatim, Meta, Superfluous, Other(u8) }
pub struct Literal { pub span: Span, pub kind: LiteralKind, pub c: char }
pub enum Flag { CaseInsensitive, MultiLine, DotMatchesNewLine, SwapGreed, Unicode, CRLF, IgnoreWhitespace }
pub enum FlagsItemKind { Negation, Flag(Flag) }
pub struct FlagsItem { pub span: Span, pub kind: FlagsItemKind }
pub struct Flags { pub span: Span, pub items: Vec<FlagsItem> }
pub enum AssertionKind { StartLine, EndLine, StartText, EndText, WordBoundary, NotWordBoundary, Other(u8) }
pub struct Assertion { pub span: Span, pub kind: AssertionKind }
pub enum GroupKind { CaptureIndex(u32), NonCapturing(Flags), Other(u8) }
pub struct Group { pub span: Span, pub kind: GroupKind, pub ast: Box<Ast> }
pub struct Concat { pub span: Span, pub asts: Vec<Ast> }
pub struct Alternation { pub span: Span, pub asts: Vec<Ast> }
pub enum Ast { Empty(u8), Literal(Literal), Assertion(Assertion), Group(Group), Alternation(Alternation), Concat(Concat), Other(u8) }

// ---- specification: what a keyword's pattern is ------------------------------------------------------
pub enum Tok { Boundary, Char(char) }                                       // an ASCII word boundary, a literal character
pub open spec fn alnum(c: char) -> bool { upper(c) || lower(c) || is_dec_digit(c) }
pub open spec fn meta(c: char) -> bool { c == '\\' || c == '.' || c == '+' || c == '*' || c == '?' || c == '(' || c == ')' || c == '|' || c == '[' || c == ']' || c == '{' || c == '}' || c == '^' || c == '$' || c == '#' || c == '&' || c == '-' || c == '~' }
// (?-u:\b): only ASCII letters, digits and '_' are word characters
pub open spec fn is_boundary(a: Ast) -> bool {
    a is Group && a->Group_0.kind is NonCapturing && *a->Group_0.ast is Assertion && (*a->Group_0.ast)->Assertion_0.kind is WordBoundary
    && { let f = a->Group_0.kind->NonCapturing_0.items@; f.len() == 2 && f[0].kind is Negation && f[1].kind is Flag && f[1].kind->Flag_0 is Unicode }
}
// a literal is escaped exactly if it would be an operator otherwise
pub open spec fn is_char(a: Ast, c: char) -> bool {
    a is Literal && a->Literal_0.c == c && (if meta(c) { a->Literal_0.kind is Meta } else { a->Literal_0.kind is Verbatim })
}
pub open spec fn tok_is(a: Ast, t: Tok) -> bool { match t { Tok::Boundary => is_boundary(a), Tok::Char(c) => is_char(a, c) } }
pub open spec fn toks_are(v: Seq<Ast>, t: Seq<Tok>) -> bool { v.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> tok_is(#[trigger] v[i], t[i]) }
pub open spec fn lits(s: Seq<char>) -> Seq<Tok> { s.map_values(|c: char| Tok::Char(c)) }
pub open spec fn edge(c: char) -> Seq<Tok> { if alnum(c) { seq![Tok::Boundary] } else { seq![] } }
pub open spec fn content_toks(k: Seq<char>) -> Seq<Tok> { edge(k[0]) + lits(k) + edge(k.last()) }
pub open spec fn path_toks(k: Seq<char>) -> Seq<Tok> { edge(k[0]) + lits(low(std(k))) + edge(k.last()) }
pub open spec fn is_content(a: Ast, k: Seq<char>) -> bool { a is Concat && toks_are(a->Concat_0.asts@, content_toks(k)) }
pub open spec fn is_path(a: Ast, k: Seq<char>) -> bool { a is Concat && toks_are(a->Concat_0.asts@, path_toks(k)) }
// the keyword as it is looked for: without surrounding whitespace and without the removed characters
pub uninterp spec fn ws(c: char) -> bool;                                   // char::is_whitespace
pub open spec fn trim_front(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { trim_front(s.drop_first()) } else { s } }
pub open spec fn trim_back(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s.last()) { trim_back(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_back(trim_front(s)) }
pub open spec fn without(s: Seq<char>, rm: Seq<char>) -> Seq<char> { s.filter(|c: char| !rm.contains(c)) }
pub open spec fn wanted(k: Seq<char>, rm: Seq<char>) -> Seq<char> { without(trimmed(k), rm) }
pub open spec fn kw_error(k: Seq<char>, la: usize, rm: Seq<char>) -> Option<ProximityKeywordsValidationError> {
    if k.len() > la { Some(ProximityKeywordsValidationError::KeywordTooLong(la)) } else if wanted(k, rm).len() == 0 { Some(ProximityKeywordsValidationError::EmptyKeyword) } else { None }
}
// the error of the first bad keyword
pub open spec fn kws_error(v: Seq<String>, la: usize, rm: Seq<char>, n: int) -> Option<ProximityKeywordsValidationError> decreases n {
    if n <= 0 { None } else { match kws_error(v, la, rm, n - 1) { Some(e) => Some(e), None => kw_error(v[n - 1]@, la, rm) } }
}
pub open spec fn contents_are(v: Seq<Ast>, k: Seq<String>, rm: Seq<char>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_content(#[trigger] v[i], wanted(k[i]@, rm)) }
pub open spec fn paths_are(v: Seq<Ast>, k: Seq<String>, rm: Seq<char>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> is_path(#[trigger] v[i], wanted(k[i]@, rm)) }
pub open spec fn content_alt(a: Ast, k: Seq<String>, rm: Seq<char>) -> bool { a is Alternation && contents_are(a->Alternation_0.asts@, k, rm) }
pub open spec fn path_alt(a: Ast, k: Seq<String>, rm: Seq<char>) -> bool { a is Alternation && paths_are(a->Alternation_0.asts@, k, rm) }
// a compiled regex, as the syntax tree it was compiled from, case ignored
pub struct SharedRegex { pub ast: Ghost<Ast>, pub case_ignored: Ghost<bool> }
pub open spec fn looks_for_contents(r: SharedRegex, k: Seq<String>, rm: Seq<char>) -> bool { r.case_ignored@ && content_alt(r.ast@, k, rm) }
pub open spec fn looks_for_paths(r: SharedRegex, k: Seq<String>, rm: Seq<char>) -> bool { r.case_ignored@ && path_alt(r.ast@, k, rm) }
pub open spec fn dashes() -> Seq<char> { seq!['-', '_'] }
pub open spec fn config_error(c: ProximityKeywordsConfig) -> Option<ProximityKeywordsValidationError> {
    if c.look_ahead_character_count == 0 || c.look_ahead_character_count > 50 { Some(ProximityKeywordsValidationError::InvalidLookAheadCharacterCount) }
    else if c.included_keywords@.len() > 50 || c.excluded_keywords@.len() > 50 { Some(ProximityKeywordsValidationError::TooManyKeywords) }
    else { match kws_error(c.included_keywords@, c.look_ahead_character_count, seq![], c.included_keywords@.len() as int) {
        Some(e) => Some(e),
        None => kws_error(c.excluded_keywords@, c.look_ahead_character_count, dashes(), c.excluded_keywords@.len() as int) } }
}

// ---- assumed contracts on std and on the regex store ---------------------------------------------------
pub assume_specification [ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == (upper(*c) || lower(*c));
pub assume_specification [ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == is_dec_digit(*c);
#[verifier::external_body]
pub fn vp_is_meta(c: char) -> (r: bool) ensures r == meta(c) { unimplemented!() }
impl VpString {
    #[verifier::external_body]
    pub fn vp_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
}
pub trait VpTrim {
    spec fn vp_text(&self) -> Seq<char>;
    fn vp_trim(&self) -> (r: &str) ensures r@ == trimmed(self.vp_text());
    fn vp_without(&self, rm: &[char]) -> (r: VpString) ensures r@ == without(self.vp_text(), rm@);
}
impl VpTrim for str {
    open spec fn vp_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body]
    fn vp_without(&self, rm: &[char]) -> (r: VpString) { unimplemented!() }
}
// text of a syntax tree within (?i:..); compiling it (without size limit) gives a regex for the tree
pub struct VpPattern { pub ast: Ghost<Ast>, pub ci: Ghost<bool> }
#[verifier::external_body]
pub fn vp_format_ci(a: &Ast) -> (r: VpPattern) ensures r.ast@ == *a, r.ci@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_memoized(p: &VpPattern) -> (r: SharedRegex) ensures r.ast@ == p.ast@, r.case_ignored@ == p.ci@ { unimplemented!() }
pub struct Counter { pub id: u64 }
pub struct Labels { pub id: u64 }
#[verifier::external_body]
pub fn vp_counter() -> Counter { unimplemented!() }

// ---- lemmas --------------------------------------------------------------------------------------------
pub proof fn lemma_std_some(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
    ensures n <= std_to(s, n).len(),
    decreases n,
{ if n > 0 { lemma_std_some(s, n - 1); } }
pub proof fn lemma_kws_error(v: Seq<String>, la: usize, rm: Seq<char>, i: int, n: int)
    requires 0 <= i <= n, kws_error(v, la, rm, i) is Some,
    ensures kws_error(v, la, rm, n) == kws_error(v, la, rm, i),
    decreases n,
{ if n > i { lemma_kws_error(v, la, rm, i, n - 1); } }
pub proof fn lemma_push_lit(s: Seq<char>, n: int)
    requires 0 <= n < s.len(), ensures lits(s.take(n + 1)) == lits(s.take(n)).push(Tok::Char(s[n])),
{ assert(lits(s.take(n + 1)) =~= lits(s.take(n)).push(Tok::Char(s[n]))); }

// ---- the code --------------------------------------------------------------------------------------------
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "MAX_KEYWORD_COUNT"
kind = "const"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "MAX_LOOK_AHEAD_CHARACTER_COUNT"
kind = "const"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "EXCLUDED_KEYWORDS_REMOVED_CHARS"
kind = "const"
[[rewrite]]
from = "const EXCLUDED_KEYWORDS_REMOVED_CHARS: &[char] = &[$x];"
to = "open spec fn removed_list() -> Seq<char> { seq![$x] }"
@*/
#[verifier::external_body]
pub fn vp_removed() -> (r: &'static [char]) ensures r@ == removed_list() { unimplemented!() }
#[verifier::external_body]
pub fn vp_no_chars() -> (r: &'static [char]) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "ProximityKeywordsValidationError"
kind = "enum"
@*/
use ProximityKeywordsValidationError::{EmptyKeyword, InvalidLookAheadCharacterCount, KeywordTooLong, TooManyKeywords};
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "ProximityKeywordsConfig"
kind = "struct"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "ProximityKeywordsRegex"
kind = "struct"
@*/
/*@extract
file = "sds/src/proximity_keywords/included_keywords.rs"
item = "CompiledIncludedProximityKeywords"
kind = "struct"
[[rewrite]]
from = "super::ProximityKeywordsRegex"
to = "ProximityKeywordsRegex"
optional = true
@*/
/*@extract
file = "sds/src/proximity_keywords/excluded_keywords.rs"
item = "CompiledExcludedProximityKeywords"
kind = "struct"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "span"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "literal_ast"
ret = "r"
contract = '''
    ensures is_char(Ast::Literal(r), c),
'''
[[rewrite]]
from = "regex_syntax::is_meta_character($x)"
to = "vp_is_meta($x)"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "word_boundary"
ret = "r"
contract = '''
    ensures is_boundary(r),
'''
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "should_push_word_boundary"
ret = "r"
contract = '''
    ensures r == alnum(c),
'''
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "calculate_keyword_content_pattern"
ret = "r"
contract = '''
    requires keyword@.len() > 0,
    ensures is_content(r, keyword@),
'''
start = "let ghost s = keyword@; let ghost mut k: int = 0;"
[[rewrite]]
from = "for c in keyword.chars()"
to = "let mut vp_it = keyword.vp_chars(); while let Some(c) = vp_it.next()"
[[rewrite]]
from = "keyword.chars()"
to = "keyword.vp_chars()"
all = true
[[loop]]
n = 0
kind = "for"
before = "proof { assert(s.take(s.len() as int) =~= s); assert(s.skip(0) =~= s); assert(lits(s.take(0)) =~= seq![]); assert(edge(s[0]) + lits(s.take(0)) =~= edge(s[0])); assert(toks_are(keyword_pattern@, edge(s[0]) + lits(s.take(0)))); }"
spec = '''
    invariant
        0 <= k <= s.len(), vp_it@ == s.skip(k), s.take(s.len() as int) == s, toks_are(keyword_pattern@, edge(s[0]) + lits(s.take(k))),
    ensures
        toks_are(keyword_pattern@, edge(s[0]) + lits(s)),
    decreases s.len() - k,
'''
start = '''proof { assert(vp_it@ =~= s.skip(k + 1)); assert(c == s[k]); lemma_push_lit(s, k);
    assert((edge(s[0]) + lits(s.take(k))).push(Tok::Char(c)) =~= edge(s[0]) + lits(s.take(k + 1))); k = k + 1; }'''
[[before]]
pattern = "Ast::Concat"
text = "proof { assert((edge(s[0]) + lits(s)) + seq![] =~= edge(s[0]) + lits(s)); assert((edge(s[0]) + lits(s)) + seq![Tok::Boundary] =~= (edge(s[0]) + lits(s)).push(Tok::Boundary)); assert(toks_are(keyword_pattern@, content_toks(s))); }"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "calculate_keyword_path_pattern"
ret = "r"
contract = '''
    requires keyword@.len() > 0,
    ensures is_path(r, keyword@),
'''
start = "let ghost s = keyword@; let ghost t = low(std(s));"
[[rewrite]]
from = "keyword.chars()"
to = "keyword.vp_chars()"
all = true
[[rewrite]]
from = "standardize_path_chars(keyword, |c| { $b; });"
to = '''let mut vp_calls = VpCalls { v: Vec::new() }; standardize_path_chars(keyword, &mut vp_calls); let mut vp_k: usize = 0;
        proof { assert(vp_calls.v@ =~= std(s)); assert(lits(t.take(0)) =~= seq![]); assert(edge(s[0]) + lits(t.take(0)) =~= edge(s[0])); }
        while vp_k < vp_calls.v.len()
            invariant vp_k <= vp_calls.v@.len(), vp_calls.v@ == std(s), t == low(std(s)), toks_are(keyword_pattern@, edge(s[0]) + lits(t.take(vp_k as int))),
            decreases vp_calls.v@.len() - vp_k,
        { let c = &vp_calls.v[vp_k]; proof { lemma_push_lit(t, vp_k as int); assert(t[vp_k as int] == lc(*c)); assert((edge(s[0]) + lits(t.take(vp_k as int))).push(Tok::Char(lc(*c))) =~= edge(s[0]) + lits(t.take(vp_k + 1))); } $b; vp_k += 1; }
        proof { assert(t.take(vp_k as int) =~= t); }'''
[[before]]
pattern = "Ast::Concat"
text = "proof { assert((edge(s[0]) + lits(t)) + seq![] =~= edge(s[0]) + lits(t)); assert((edge(s[0]) + lits(t)) + seq![Tok::Boundary] =~= (edge(s[0]) + lits(t)).push(Tok::Boundary)); assert(toks_are(keyword_pattern@, path_toks(s))); }"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "compile_keywords_to_ast"
kind = "closure"
closure = "map(|keyword| $body)"
rename = "vp_keyword"
sig = "fn vp_keyword(keyword: &String, look_ahead_character_count: usize, remove_chars: &[char]) -> (r: Result<(Ast, Ast), ProximityKeywordsValidationError>)"
contract = '''
    ensures match r {
        Ok(p) => kw_error(keyword@, look_ahead_character_count, remove_chars@) is None && is_content(p.0, wanted(keyword@, remove_chars@)) && is_path(p.1, wanted(keyword@, remove_chars@)),
        Err(e) => kw_error(keyword@, look_ahead_character_count, remove_chars@) == Some(e),
    },
'''
[[rewrite]]
from = "keyword.chars()"
to = "keyword.as_str().vp_chars()"
[[rewrite]]
from = "keyword.trim()"
to = "keyword.as_str().vp_trim()"
[[rewrite]]
from = ".replace($x, \"\")"
to = ".vp_without($x)"
[[rewrite]]
from = "(&trimmed_keyword)"
to = "(trimmed_keyword.vp_str())"
all = true
@*/
// iter().map(..).collect::<Result<Vec<_>, _>>()?.iter().cloned().unzip(): every value in order, or the first error
fn vp_each(keywords: &[String], look_ahead_character_count: usize, remove_chars: &[char]) -> (r: Result<(Vec<Ast>, Vec<Ast>), ProximityKeywordsValidationError>)
    ensures match r {
        Ok(p) => kws_error(keywords@, look_ahead_character_count, remove_chars@, keywords@.len() as int) is None && contents_are(p.0@, keywords@, remove_chars@) && paths_are(p.1@, keywords@, remove_chars@),
        Err(e) => kws_error(keywords@, look_ahead_character_count, remove_chars@, keywords@.len() as int) == Some(e),
    },
{
    let mut a: Vec<Ast> = Vec::new(); let mut b: Vec<Ast> = Vec::new(); let mut i: usize = 0;
    while i < keywords.len()
        invariant
            i <= keywords@.len(), a@.len() == i, b@.len() == i, kws_error(keywords@, look_ahead_character_count, remove_chars@, i as int) is None,
            forall|j: int| 0 <= j < i ==> is_content(#[trigger] a@[j], wanted(keywords@[j]@, remove_chars@)),
            forall|j: int| 0 <= j < i ==> is_path(#[trigger] b@[j], wanted(keywords@[j]@, remove_chars@)),
        decreases keywords@.len() - i,
    {
        match vp_keyword(&keywords[i], look_ahead_character_count, remove_chars) {
            Ok((x, y)) => { a.push(x); b.push(y); }
            Err(e) => { proof { lemma_kws_error(keywords@, look_ahead_character_count, remove_chars@, i + 1, keywords@.len() as int); } return Err(e); }
        }
        i += 1;
    }
    Ok((a, b))
}
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "compile_keywords_to_ast"
ret = "r"
contract = '''
    ensures match r {
        Ok(None) => keywords@.len() == 0,
        Ok(Some(p)) => keywords@.len() > 0 && kws_error(keywords@, look_ahead_character_count, remove_chars@, keywords@.len() as int) is None && content_alt(p.0, keywords@, remove_chars@) && path_alt(p.1, keywords@, remove_chars@),
        Err(e) => kws_error(keywords@, look_ahead_character_count, remove_chars@, keywords@.len() as int) == Some(e),
    },
'''
[[rewrite]]
from = "keywords.is_empty()"
to = "keywords.len() == 0"
[[rewrite]]
from = "keywords.iter().map(|keyword| $b).collect::<Result<Vec<_>, _>>()?.iter().cloned().unzip()"
to = "vp_each(keywords, look_ahead_character_count, remove_chars)?"
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "compile_keywords"
ret = "r"
contract = '''
    ensures match r {
        Ok(None) => keywords@.len() == 0,
        Ok(Some(p)) => keywords@.len() > 0 && kws_error(keywords@, look_ahead_character_count, remove_chars@, keywords@.len() as int) is None && looks_for_contents(p.0, keywords@, remove_chars@) && looks_for_paths(p.1, keywords@, remove_chars@),
        Err(e) => kws_error(keywords@, look_ahead_character_count, remove_chars@, keywords@.len() as int) == Some(e),
    },
'''
[[rewrite]]
from = "compile_keywords_to_ast(&keywords, "
to = "compile_keywords_to_ast(keywords.as_slice(), "
[[rewrite]]
from = 'format!("(?i:{content_ast})")'
to = "vp_format_ci(&content_ast)"
[[rewrite]]
from = 'format!("(?i:{path_ast})")'
to = "vp_format_ci(&path_ast)"
[[rewrite]]
from = "let mut builder = $x;"
to = ""
[[rewrite]]
from = "let regex_builder = $x;"
to = ""
[[rewrite]]
from = "get_memoized_regex($p, |p| regex_builder.build(p)).unwrap()"
to = "vp_memoized($p)"
all = true
@*/
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "compile_keywords_proximity_config"
ret = "r"
contract = '''
    ensures match r {
        Err(e) => config_error(*config) == Some(e),
        Ok(p) => config_error(*config) is None
            && (p.0 is Some <==> config.included_keywords@.len() > 0) && (p.1 is Some <==> config.excluded_keywords@.len() > 0)
            && (p.0 is Some ==> (p.0->0).look_ahead_character_count == config.look_ahead_character_count
                && looks_for_contents((p.0->0).keywords_pattern.content_regex, config.included_keywords@, seq![]) && looks_for_paths((p.0->0).keywords_pattern.path_regex, config.included_keywords@, seq![]))
            && (p.1 is Some ==> (p.1->0).look_ahead_character_count == config.look_ahead_character_count
                && looks_for_contents((p.1->0).keywords_pattern.content_regex, config.excluded_keywords@, dashes()) && looks_for_paths((p.1->0).keywords_pattern.path_regex, config.excluded_keywords@, dashes())),
    },
'''
start = "proof { assert(removed_list() =~= dashes()); }"
[[rewrite]]
from = "counter!($x)"
to = "vp_counter()"
[[rewrite]]
from = "&[], )?"
to = "vp_no_chars(), )?"
[[rewrite]]
from = "EXCLUDED_KEYWORDS_REMOVED_CHARS"
to = "vp_removed()"
[[rewrite]]
from = "config.included_keywords.clone()"
to = "vp_clone(&config.included_keywords)"
[[rewrite]]
from = "config.excluded_keywords.clone()"
to = "vp_clone(&config.excluded_keywords)"
@*/
#[verifier::external_body]
pub fn vp_clone(v: &Vec<String>) -> (r: Vec<String>) ensures r@ == v@ { v.clone() }
} // verus!
fn main() {}
