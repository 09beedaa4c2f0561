// ---- excluded keywords ---------------------------------------------------------------------------------
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "EXCLUDED_KEYWORDS_REMOVED_CHARS"
kind = "const"
[[rewrite]]
from = ": &[char] = &["
to = ": [char; 2] = ["
@*/
pub open spec fn removed(b: u8) -> bool { b == 45 || b == 95 }           // '-' and '_'
pub open spec fn strip(t: Seq<u8>) -> Seq<u8>
    decreases t.len(),
{ if t.len() == 0 { t } else if removed(t.last()) { strip(t.drop_last()) } else { strip(t.drop_last()).push(t.last()) } }
pub proof fn lemma_strip_add(a: Seq<u8>, b: Seq<u8>)
    ensures strip(a + b) == strip(a) + strip(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(strip(a) + strip(b) =~= strip(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_strip_add(a, b.drop_last());
        if !removed(b.last()) { assert((strip(a) + strip(b.drop_last())).push(b.last()) =~= strip(a) + strip(b.drop_last()).push(b.last())); }
    }
}
// one character: stripped as a whole or not at all
pub proof fn lemma_strip_char(c: Seq<u8>)
    requires c.len() > 0, forall|i: int| 0 < i < c.len() ==> cont(#[trigger] c[i]),
    ensures !removed(c[0]) ==> strip(c) == c, removed(c[0]) && c.len() == 1 ==> strip(c) == Seq::<u8>::empty(),
    decreases c.len(),
{
    if c.len() == 1 { assert(c.drop_last() =~= seq![]); assert(strip(c.drop_last()).push(c.last()) =~= c); }
    else { lemma_strip_char(c.drop_last()); assert(!removed(c.last())); if !removed(c[0]) { assert(c.drop_last().push(c.last()) =~= c); } }
}
pub proof fn lemma_strip_text(t: Seq<u8>)
    requires text_ok(t),
    ensures text_ok(strip(t)) || (exists|i: int| 0 < i < t.len() && cont(#[trigger] t[i]) && removed(t[i - 1])),
    decreases t.len(),
{
    if t.len() > 0 {
        let d = t.drop_last();
        lemma_strip_text(d);
        if text_ok(strip(d)) {
            if !removed(t.last()) && strip(d).len() == 0 && cont(t.last()) {
                assert(t.len() > 1);
                if !removed(d.last()) { assert(strip(d).len() > 0); }
                assert(cont(t[t.len() - 1]) && removed(t[t.len() - 2]));
            }
        } else {
            let i = choose|i: int| 0 < i < d.len() && cont(#[trigger] d[i]) && removed(d[i - 1]);
            assert(cont(t[i]) && removed(t[i - 1]));
        }
    }
}
// a byte below 0x80 is a whole character (the part of UTF-8 validity that is used)
#[verifier::external_body]
pub proof fn axiom_ascii(t: &VpText)
    ensures forall|i: int| 0 <= i < t@.len() - 1 && t@[i] < 0x80 ==> !cont(#[trigger] t@[i + 1]),
{}
impl VpText {
    // self.replace(chars, "")
    #[verifier::external_body]
    pub fn vp_remove(&self, chars: &[char; 2]) -> (r: VpText)
        requires chars@ == seq!['-', '_'],
        ensures r@ == strip(self@),
    { unimplemented!() }
    // self[a..].starts_with(chars)
    #[verifier::external_body]
    pub fn vp_starts_with_any(&self, a: usize, chars: &[char; 2]) -> (r: bool)
        requires chars@ == seq!['-', '_'], a <= self@.len(), bdry(self@, a as int),
        ensures r == (a < self@.len() && removed(self@[a as int])),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VpRegex { x: u8 }
// a keyword of the set occurs in bytes lo..hi of the text (word boundaries see the whole text)
pub uninterp spec fn kw_within(r: VpRegex, t: Seq<u8>, lo: int, hi: int) -> bool;
// a path of the event contains a keyword
pub uninterp spec fn kw_in_path(r: VpRegex, t: Seq<u8>) -> bool;
pub struct VpInput<'a> { pub text: &'a VpText, pub a: usize, pub b: usize }
impl VpRegex {
    #[verifier::external_body]
    pub fn vp_found(&self, i: &VpInput) -> (r: bool)
        requires i.a <= i.b + 1, i.b <= i.text@.len(),
        ensures r == kw_within(*self, i.text@, i.a as int, i.b as int),
    { unimplemented!() }
}
/*@extract
file = "sds/src/proximity_keywords/mod.rs"
item = "ProximityKeywordsRegex"
kind = "struct"
[[rewrite]]
from = "SharedRegex"
to = "VpRegex"
all = true
@*/
// The window of a match at byte m: the n characters before it (w..m), with one more character of
// context on each side (c..w and m..e). '-' and '_' are removed; a keyword has to lie in the window.
pub open spec fn window(t: Seq<u8>, m: int, n: int, c: int, w: int, e: int) -> bool {
    &&& one_char(t, m, e)
    &&& if nchars(t, m) > n { char_at(t, c, nchars(t, m) - n - 1) && one_char(t, c, w) } else { c == 0 && w == 0 }
    &&& 0 <= c <= w <= m
}
pub open spec fn hay(t: Seq<u8>, c: int, e: int) -> Seq<u8> { strip(t.subrange(c, e)) }
pub open spec fn excluded_in_window(r: VpRegex, t: Seq<u8>, m: int, c: int, w: int, e: int) -> bool {
    kw_within(r, hay(t, c, e), hay(t, c, w).len() as int, hay(t, c, m).len() as int)
}
pub open spec fn excluded_before(r: VpRegex, t: Seq<u8>, m: int, n: int) -> bool {
    exists|c: int, w: int, e: int| #[trigger] window(t, m, n, c, w, e) && excluded_in_window(r, t, m, c, w, e)
}
// the window is determined by the text, the match and the look-ahead
pub proof fn lemma_window_unique(t: Seq<u8>, m: int, n: int, c: int, w: int, e: int, c2: int, w2: int, e2: int)
    requires window(t, m, n, c, w, e), window(t, m, n, c2, w2, e2), n >= 1,
    ensures c == c2, w == w2, e == e2,
{
    if e < e2 { assert(cont(t[e])); } else if e2 < e { assert(cont(t[e2])); }
    if nchars(t, m) > n {
        lemma_nchars_all(t);
        if w < w2 { assert(cont(t[w])); } else if w2 < w { assert(cont(t[w2])); }
    }
}
pub open spec fn vp_end(t: Seq<u8>, a: int) -> int
    decreases t.len() - a,
{ if a + 1 >= t.len() || !cont(t[a + 1]) { a + 1 } else { vp_end(t, a + 1) } }
pub proof fn lemma_end(t: Seq<u8>, a: int)
    requires 0 <= a < t.len(),
    ensures a < vp_end(t, a) <= t.len(), vp_end(t, a) < t.len() ==> !cont(t[vp_end(t, a)]), forall|i: int| a < i < vp_end(t, a) ==> cont(#[trigger] t[i]),
    decreases t.len() - a,
{ if !(a + 1 >= t.len() || !cont(t[a + 1])) { lemma_end(t, a + 1); } }
pub proof fn lemma_one_char_count(t: Seq<u8>, a: int, b: int)
    requires one_char(t, a, b),
    ensures nchars(t, b) == nchars(t, a) + 1,
{
    lemma_conts(t, a + 1, b);
}
pub proof fn lemma_conts(t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), forall|i: int| a <= i < b ==> cont(#[trigger] t[i]),
    ensures nchars(t, b) == nchars(t, a),
    decreases b - a,
{ if a < b { lemma_conts(t, a, b - 1); } }
// stripping the window: the characters of context are kept whole or removed whole
pub proof fn lemma_window_strip(x: &VpText, m: int, c: int, w: int, e: int)
    requires one_char(x@, m, e), 0 <= c <= w <= m, c < w ==> one_char(x@, c, w), c == w ==> c == 0,
    ensures
        ({
            let t = x@; let sp = hay(t, c, e); let lo = hay(t, c, w).len(); let hi = hay(t, c, m).len();
            &&& lo <= hi <= sp.len()
            &&& removed(t[m]) ==> sp.len() == hi
            &&& !removed(t[m]) ==> one_char(sp, hi as int, sp.len() as int)
            &&& c < w && removed(t[c]) ==> lo == 0
            &&& c < w && !removed(t[c]) ==> one_char(sp, 0, lo as int)
        }),
{
    axiom_text(x); axiom_ascii(x);
    let t = x@;
    let (cw, wm, me) = (t.subrange(c, w), t.subrange(w, m), t.subrange(m, e));
    assert(t.subrange(c, m) =~= cw + wm);
    assert(t.subrange(c, e) =~= (cw + wm) + me);
    assert(t.subrange(c, e) =~= cw + (wm + me));
    lemma_strip_add(cw, wm); lemma_strip_add(cw + wm, me); lemma_strip_add(cw, wm + me);
    assert forall|i: int| 0 < i < me.len() implies cont(#[trigger] me[i]) by { assert(cont(t[m + i])); }
    lemma_strip_char(me);
    if removed(t[m]) { if e > m + 1 { assert(!cont(t[m + 1])); assert(cont(t[m + 1])); } }
    let sp = hay(t, c, e); let hi = hay(t, c, m).len() as int;
    if !removed(t[m]) {
        assert(sp[hi] == me[0]);
        assert forall|i: int| hi < i < sp.len() implies cont(#[trigger] sp[i]) by { assert(sp[i] == me[i - hi]); }
    }
    if c < w {
        assert forall|i: int| 0 < i < cw.len() implies cont(#[trigger] cw[i]) by { assert(cont(t[c + i])); }
        lemma_strip_char(cw);
        if removed(t[c]) { if w > c + 1 { assert(!cont(t[c + 1])); assert(cont(t[c + 1])); } }
        else {
            let rest = wm + me;
            assert(rest =~= t.subrange(w, e));
            assert(rest[0] == t[w]);
            lemma_strip_text(rest);
            if exists|i: int| 0 < i < rest.len() && cont(#[trigger] rest[i]) && removed(rest[i - 1]) {
                let i = choose|i: int| 0 < i < rest.len() && cont(#[trigger] rest[i]) && removed(rest[i - 1]);
                assert(t[w + i - 1] < 0x80 && cont(t[w + i - 1 + 1]));
            }
            assert(text_ok(strip(rest)));
            assert(sp =~= cw + strip(rest));
            assert forall|i: int| 0 < i < cw.len() implies cont(#[trigger] sp[i]) by { assert(sp[i] == cw[i]); }
            if cw.len() < sp.len() { assert(sp[cw.len() as int] == strip(rest)[0]); }
        }
    }
}
/*@extract
file = "sds/src/proximity_keywords/excluded_keywords.rs"
item = "contains_excluded_keyword_match"
ret = "r"
contract = '''
    requires
        match_start < content@.len(), bdry(content@, match_start as int),
        1 <= look_ahead_char_count <= MAX_LOOK_AHEAD_CHARACTER_COUNT,
    ensures r == excluded_before(regex.content_regex, content@, match_start as int, look_ahead_char_count as int),
'''
start = '''let ghost t = content@; let ghost m = match_start as int; let ghost n = look_ahead_char_count as int;
proof { axiom_text(content); lemma_nchars_all(t); assert(nchars(t, 0) == 0); axiom_ascii(content); }'''
[[rewrite]]
from = "content: &str"
to = "content: &VpText"
[[rewrite]]
from = "content[prefix_start_info.start..prefix_end].replace($c, \"\")"
to = "content.vp_slice(prefix_start_info.start, prefix_end).vp_remove(&$c)"
[[rewrite]]
from = "content[match_start..].starts_with($c)"
to = "content.vp_starts_with_any(match_start, &$c)"
[[rewrite]]
from = "content[prefix_start_info.start..].starts_with($c)"
to = "content.vp_starts_with_any(prefix_start_info.start, &$c)"
[[rewrite]]
from = "Input::new(&stripped_prefix).earliest(true).span($a..$b)"
to = "VpInput { text: &stripped_prefix, a: $a, b: $b }"
[[rewrite]]
from = "search_half(&input).is_some()"
to = "vp_found(&input)"
[[before]]
pattern = "let stripped_prefix ="
text = '''
let ghost c = prefix_start_info.start as int;
let ghost e = prefix_end as int;
let ghost w = if prefix_start_info.used_all_chars { vp_end(t, c) } else { 0 };
proof {
    if prefix_start_info.used_all_chars { lemma_end(t, c); assert(one_char(t, c, w)); assert(w <= m) by { if w > m { assert(cont(t[m])); } } }
    assert(window(t, m, n, c, w, e));
    lemma_window_strip(content, m, c, w, e);
    let sp = hay(t, c, e); let hi = hay(t, c, m).len() as int; let lo = hay(t, c, w).len() as int;
    lemma_nchars_all(sp);
    if !removed(t[m]) { lemma_one_char_count(sp, hi, sp.len() as int); assert(char_at(sp, hi, nchars(sp, sp.len() as int) - 1)); }
    if c < w && !removed(t[c]) {
        assert forall|b: int| #[trigger] one_char(sp, 0, b) implies b == lo by { if b < lo { assert(cont(sp[b])); } else if lo < b { assert(cont(sp[lo])); } }
    }
}'''
[[after]]
pattern = "let input = Input::new(&stripped_prefix).earliest(true).span(span_start..span_end);"
text = '''
proof {
    assert(stripped_prefix@ == hay(t, c, e));
    assert(span_end == hay(t, c, m).len());
    assert(span_start == hay(t, c, w).len());
    if excluded_before(regex.content_regex, t, m, n) {
        let (c2, w2, e2) = choose|c2: int, w2: int, e2: int| #[trigger] window(t, m, n, c2, w2, e2) && excluded_in_window(regex.content_regex, t, m, c2, w2, e2);
        lemma_window_unique(t, m, n, c, w, e, c2, w2, e2);
    }
}'''
@*/
