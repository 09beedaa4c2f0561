use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include prelude/text.rs
//@include prelude/match_action_code.rs
/*@extract
file = "sds/src/match_validation/match_status.rs"
item = "MatchStatus"
kind = "enum"
[[rewrite]]
from = "String"
to = "VpText"
all = true
@*/
// `Box<dyn CompiledRuleDyn>` is opaque here: a rule has one fixed match action and validation type.
#[verifier::external_body]
pub struct VpRule { x: usize }
#[verifier::external_body]
pub struct VpValidationType { x: usize }
impl VpRule {
    pub uninterp spec fn action(&self) -> MatchAction;
    pub uninterp spec fn validated(&self) -> bool;
    #[verifier::external_body]
    pub fn get_match_action(&self) -> (r: &MatchAction) ensures *r == self.action() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_match_validation_type(&self) -> (r: Option<&VpValidationType>) ensures r is Some <==> self.validated() { unimplemented!() }
}
// event paths are opaque here
#[verifier::external_body]
pub struct VpPath { x: usize }
impl VpPath {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: VpPath) ensures r == *self { unimplemented!() }
}
// What an index encoding promises: positions are additive widths of the text before them, a width
// never exceeds the number of UTF-8 bytes, and `adjust_shift` moves the shift by the width
// difference of the replaced text. Utf8Encoding below is proved to keep it.
pub trait Encoding: Sized {
    type Index: Sized;
    type IndexShift: Sized;
    spec fn width(t: Seq<u8>) -> int;
    spec fn s_index(v: Self::Index, utf8: int) -> int;
    spec fn s_shift(v: Self::IndexShift, utf8: int) -> int;
    proof fn law_width(a: Seq<u8>, b: Seq<u8>) ensures Self::width(a + b) == Self::width(a) + Self::width(b), 0 <= Self::width(a) <= a.len();
    fn zero_shift() -> (r: Self::IndexShift) ensures Self::s_shift(r, 0) == 0;
    fn get_index(value: &Self::Index, utf8_index: usize) -> (r: usize) ensures r == Self::s_index(*value, utf8_index as int);
    fn get_shift(value: &Self::IndexShift, utf8_shift: isize) -> (r: isize)
        requires isize::MIN <= Self::s_shift(*value, utf8_shift as int) <= isize::MAX,
        ensures r == Self::s_shift(*value, utf8_shift as int);
    fn adjust_shift(shift: &mut Self::IndexShift, before: &VpText, after: &VpText)
        ensures forall|d: int| #[trigger] Self::s_shift(*final(shift), d) == Self::s_shift(*old(shift), d - after@.len() + before@.len()) + Self::width(after@) - Self::width(before@);
}
pub struct Utf8Encoding;
impl Encoding for Utf8Encoding {
    type Index = ();
    type IndexShift = ();
    open spec fn width(t: Seq<u8>) -> int { t.len() as int }
    open spec fn s_index(v: (), utf8: int) -> int { utf8 }
    open spec fn s_shift(v: (), utf8: int) -> int { utf8 }
    proof fn law_width(a: Seq<u8>, b: Seq<u8>) {}
/*@extract
file = "sds/src/encoding.rs"
item = "Utf8Encoding::zero_shift"
ret = "r"
@*/
/*@extract
file = "sds/src/encoding.rs"
item = "Utf8Encoding::get_index"
ret = "r"
@*/
/*@extract
file = "sds/src/encoding.rs"
item = "Utf8Encoding::get_shift"
ret = "r"
@*/
/*@extract
file = "sds/src/encoding.rs"
item = "Utf8Encoding::adjust_shift"
[[rewrite]]
from = "&str"
to = "&VpText"
all = true
@*/
}
/*@extract
file = "sds/src/rule_match.rs"
item = "InternalRuleMatch"
kind = "struct"
@*/
/*@extract
file = "sds/src/rule_match.rs"
item = "RuleMatch"
kind = "struct"
[[rewrite]]
from = "Path<'static>"
to = "VpPath"
[[rewrite]]
from = "Option<String>"
to = "Option<VpText>"
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerFeatures"
kind = "struct"
@*/
pub struct Scanner { pub rules: Vec<VpRule>, pub scanner_features: ScannerFeatures }

// ---- specification -----------------------------------------------------------------------------
pub open spec fn pos_of(t: Seq<u8>, k: int) -> int { choose|p: int| #[trigger] char_at(t, p, k) }
// the replaced range and text for a match of text m
pub open spec fn rp(act: MatchAction, m: Seq<u8>) -> (int, int, Seq<u8>) {
    let total = nchars(m, m.len() as int);
    match act {
        MatchAction::None => (0, 0, seq![]),
        MatchAction::Redact { replacement } => (0, m.len() as int, replacement@),
        MatchAction::Hash => (0, m.len() as int, hash_text(m)),
        MatchAction::Utf16Hash => (0, m.len() as int, utf16_hash_text(m)),
        MatchAction::PartialRedact { direction, character_count } => match direction {
            PartialRedactDirection::FirstCharacters => (0, if total > character_count { pos_of(m, character_count as int) } else { m.len() as int }, stars(character_count as int)),
            PartialRedactDirection::LastCharacters => (if total > character_count { pos_of(m, total - character_count) } else { 0 }, m.len() as int, stars(character_count as int)),
        },
    }
}
// what the match becomes
pub open spec fn piece(act: MatchAction, m: Seq<u8>) -> Seq<u8> {
    let (a, b, t) = rp(act, m);
    if mutating(act) { splice(m, a, b, t) } else { m }
}
proof fn lemma_nchars_mono(t: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= t.len(),
    ensures nchars(t, p) <= nchars(t, q),
    decreases q - p,
{ if p < q { lemma_nchars_mono(t, p, q - 1); } }
proof fn lemma_char_at_unique(t: Seq<u8>, p: int, q: int, k: int)
    requires char_at(t, p, k), char_at(t, q, k),
    ensures p == q,
{
    if p < q { lemma_nchars_mono(t, p + 1, q); assert(nchars(t, p + 1) == nchars(t, p) + 1); }
    if q < p { lemma_nchars_mono(t, q + 1, p); assert(nchars(t, q + 1) == nchars(t, q) + 1); }
}
proof fn lemma_rp(act: MatchAction, m: Seq<u8>, a: int, b: int, text: Seq<u8>)
    requires good_replacement(act, m, a, b, text),
    ensures rp(act, m) == (a, b, text),
{
    let total = nchars(m, m.len() as int);
    if let MatchAction::PartialRedact { direction, character_count } = act {
        if total > character_count {
            if direction is FirstCharacters {
                lemma_char_at_unique(m, b, pos_of(m, character_count as int), character_count as int);
            } else {
                lemma_char_at_unique(m, a, pos_of(m, total - character_count), total - character_count);
            }
        }
    }
}
pub open spec fn fits(x: int) -> bool { isize::MIN <= x <= isize::MAX }
// a replacement can always be carried out within the address space (see DESIGN.md)
pub open spec fn step_ok<E: Encoding>(s: Scanner, c: Seq<u8>, m: InternalRuleMatch<E>, d: int, sh: E::IndexShift) -> bool {
    let ms = m.utf8_start + d;
    let me = m.utf8_end + d;
    &&& m.rule_index < s.rules@.len()
    &&& valid_action(s.rules@[m.rule_index as int].action())
    &&& m.utf8_start < m.utf8_end <= isize::MAX
    &&& fits(d)
    &&& 0 <= ms && me <= c.len() && c.len() <= isize::MAX
    &&& bdry(c, ms) && bdry(c, me)
    &&& text_ok(c.subrange(ms, me))
    &&& ({
        let act = s.rules@[m.rule_index as int].action();
        let mc = c.subrange(ms, me);
        let p = piece(act, mc);
        let dd = d + p.len() - mc.len();
        let w = if mutating(act) { E::width(rp(act, mc).2) - E::width(mc.subrange(rp(act, mc).0, rp(act, mc).1)) } else { 0 };
        &&& fits(dd)
        &&& fits(E::s_shift(sh, d))
        &&& fits(E::s_shift(sh, d) + w)
        &&& 0 <= E::s_index(m.custom_start, m.utf8_start as int) <= isize::MAX
        &&& 0 <= E::s_index(m.custom_end, m.utf8_end as int) <= isize::MAX
        &&& 0 <= E::s_index(m.custom_start, m.utf8_start as int) + E::s_shift(sh, d) <= isize::MAX
        &&& 0 <= E::s_index(m.custom_end, m.utf8_end as int) + E::s_shift(sh, d) + w <= isize::MAX
    })
}
pub open spec fn act_of<E: Encoding>(s: Scanner, m: InternalRuleMatch<E>) -> MatchAction { s.rules@[m.rule_index as int].action() }

// ---- the whole string -----------------------------------------------------------------------
pub open spec fn prev_end<E: Encoding>(ms: Seq<InternalRuleMatch<E>>, k: int) -> int { if k <= 0 { 0 } else { ms[k - 1].utf8_end as int } }
pub open spec fn matched<E: Encoding>(t: Seq<u8>, m: InternalRuleMatch<E>) -> Seq<u8> { t.subrange(m.utf8_start as int, m.utf8_end as int) }
// the redacted text up to the end of match k-1: untouched text between matches is copied verbatim,
// each match becomes its piece
pub open spec fn build<E: Encoding>(s: Scanner, t: Seq<u8>, ms: Seq<InternalRuleMatch<E>>, k: int) -> Seq<u8>
    decreases k, 0int,
{
    if k <= 0 { seq![] } else {
        before_match(s, t, ms, k - 1) + piece(act_of(s, ms[k - 1]), matched(t, ms[k - 1]))
    }
}
// the redacted text in front of match k
pub open spec fn before_match<E: Encoding>(s: Scanner, t: Seq<u8>, ms: Seq<InternalRuleMatch<E>>, k: int) -> Seq<u8>
    decreases k, 1int, 
{ build(s, t, ms, k) + t.subrange(prev_end(ms, k), ms[k].utf8_start as int) }
pub open spec fn partial<E: Encoding>(s: Scanner, t: Seq<u8>, ms: Seq<InternalRuleMatch<E>>, k: int) -> Seq<u8> {
    build(s, t, ms, k) + t.subrange(prev_end(ms, k), t.len() as int)
}
pub open spec fn good_match<E: Encoding>(s: Scanner, t: Seq<u8>, m: InternalRuleMatch<E>) -> bool {
    &&& m.utf8_start < m.utf8_end <= t.len()
    &&& bdry(t, m.utf8_start as int) && bdry(t, m.utf8_end as int)
    &&& m.rule_index < s.rules@.len()
    &&& valid_action(act_of(s, m))
    // calculate_indices has been run
    &&& E::s_index(m.custom_start, m.utf8_start as int) == E::width(t.subrange(0, m.utf8_start as int))
    &&& E::s_index(m.custom_end, m.utf8_end as int) == E::width(t.subrange(0, m.utf8_end as int))
}
pub open spec fn apply_ok<E: Encoding>(s: Scanner, t: Seq<u8>, ms: Seq<InternalRuleMatch<E>>) -> bool {
    &&& text_ok(t) && t.len() <= isize::MAX
    &&& forall|i: int| 0 <= i < ms.len() ==> good_match(s, t, #[trigger] ms[i])
    &&& forall|i: int, j: int| 0 <= i < j < ms.len() ==> (#[trigger] ms[i]).utf8_end <= (#[trigger] ms[j]).utf8_start
    &&& forall|k: int| 0 <= k <= ms.len() ==> (#[trigger] partial(s, t, ms, k)).len() <= isize::MAX
}
pub open spec fn good_output<E: Encoding>(s: Scanner, t: Seq<u8>, ms: Seq<InternalRuleMatch<E>>, path: VpPath, i: int, r: RuleMatch) -> bool {
    &&& r.rule_index == ms[i].rule_index
    &&& r.path == path
    &&& r.replacement_type == rtype(act_of(s, ms[i]))
    &&& r.start_index == E::width(before_match(s, t, ms, i))
    &&& r.end_index_exclusive == E::width(build(s, t, ms, i + 1))
    &&& r.shift_offset == E::width(build(s, t, ms, i + 1)) - E::width(t.subrange(0, ms[i].utf8_end as int))
    &&& r.match_value is Some <==> s.scanner_features.return_matches
    &&& r.match_value is Some ==> r.match_value->0@ == matched(t, ms[i])
    &&& r.match_status == (if s.rules@[ms[i].rule_index as int].validated() { MatchStatus::NotChecked } else { MatchStatus::NotAvailable })
}
proof fn lemma_w<E: Encoding>(t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= t.len(),
    ensures E::width(t.subrange(0, b)) == E::width(t.subrange(0, a)) + E::width(t.subrange(a, b)), 0 <= E::width(t.subrange(0, a)) <= a, 0 <= E::width(t.subrange(a, b)) <= b - a,
{
    assert(t.subrange(0, b) =~= t.subrange(0, a) + t.subrange(a, b));
    E::law_width(t.subrange(0, a), t.subrange(a, b));
    E::law_width(t.subrange(a, b), t.subrange(a, b));
}
proof fn lemma_piece_len(act: MatchAction, m: Seq<u8>)
    requires mutating(act),
    ensures
        0 <= rp(act, m).0 <= rp(act, m).1 <= m.len() ==> piece(act, m) == m.subrange(0, rp(act, m).0) + rp(act, m).2 + m.subrange(rp(act, m).1, m.len() as int),
{ }
// the chosen positions exist
proof fn lemma_exists_char(t: Seq<u8>, n: int, k: int)
    requires 0 <= n <= t.len(), 0 <= k < nchars(t, n),
    ensures char_at(t, pos_of(t, k), k),
    decreases n,
{
    if n > 0 {
        if k < nchars(t, n - 1) { lemma_exists_char(t, n - 1, k); }
        else { assert(char_at(t, n - 1, k)); }
    }
}
proof fn lemma_rp_range(act: MatchAction, m: Seq<u8>)
    requires mutating(act), valid_action(act),
    ensures 0 <= rp(act, m).0 <= rp(act, m).1 <= m.len(),
{
    let total = nchars(m, m.len() as int);
    if let MatchAction::PartialRedact { direction, character_count } = act {
        if total > character_count {
            lemma_exists_char(m, m.len() as int, character_count as int);
            lemma_exists_char(m, m.len() as int, total - character_count);
        }
    }
}
proof fn lemma_piece_width<E: Encoding>(act: MatchAction, m: Seq<u8>)
    requires mutating(act), valid_action(act),
    ensures ({ let (a, b, t) = rp(act, m); E::width(piece(act, m)) == E::width(m) + E::width(t) - E::width(m.subrange(a, b)) && piece(act, m).len() == m.len() + t.len() - (b - a) }),
{
    lemma_rp_range(act, m);
    let (a, b, t) = rp(act, m);
    let l = m.len() as int;
    let p = piece(act, m);
    assert(p =~= m.subrange(0, a) + t + m.subrange(b, l));
    E::law_width(m.subrange(0, a) + t, m.subrange(b, l));
    E::law_width(m.subrange(0, a), t);
    assert(m =~= m.subrange(0, a) + m.subrange(a, b) + m.subrange(b, l));
    E::law_width(m.subrange(0, a) + m.subrange(a, b), m.subrange(b, l));
    E::law_width(m.subrange(0, a), m.subrange(a, b));
}
// the state in front of match k satisfies the callee's precondition
#[verifier::rlimit(60)]
proof fn lemma_step<E: Encoding>(s: Scanner, t: Seq<u8>, ms: Seq<InternalRuleMatch<E>>, k: int, d: int, sh: E::IndexShift)
    requires
        apply_ok(s, t, ms), 0 <= k < ms.len(),
        d == build(s, t, ms, k).len() - prev_end(ms, k),
        E::s_shift(sh, d) == E::width(build(s, t, ms, k)) - E::width(t.subrange(0, prev_end(ms, k))),
    ensures
        step_ok(s, partial(s, t, ms, k), ms[k], d, sh),
        partial(s, t, ms, k).subrange(ms[k].utf8_start + d, ms[k].utf8_end + d) == matched(t, ms[k]),
        splice(partial(s, t, ms, k), ms[k].utf8_start + d, ms[k].utf8_end + d, piece(act_of(s, ms[k]), matched(t, ms[k]))) == partial(s, t, ms, k + 1),
        E::s_index(ms[k].custom_start, ms[k].utf8_start as int) + E::s_shift(sh, d) == E::width(before_match(s, t, ms, k)),
        build(s, t, ms, k + 1).len() - prev_end(ms, k + 1) == d + piece(act_of(s, ms[k]), matched(t, ms[k])).len() - matched(t, ms[k]).len(),
        ({
            let act = act_of(s, ms[k]);
            let mc = matched(t, ms[k]);
            let (a, b, x) = rp(act, mc);
            let w: int = if mutating(act) { E::width(x) - E::width(mc.subrange(a, b)) } else { 0 };
            E::s_shift(sh, d) + w == E::width(build(s, t, ms, k + 1)) - E::width(t.subrange(0, prev_end(ms, k + 1)))
        }),
{
    let m = ms[k];
    let c = partial(s, t, ms, k);
    let bk = build(s, t, ms, k);
    let pe = prev_end(ms, k);
    let act = act_of(s, m);
    let mc = matched(t, m);
    let p = piece(act, mc);
    assert(good_match(s, t, m));
    assert(0 <= pe <= m.utf8_start) by { if k > 0 { assert(ms[k - 1].utf8_end <= ms[k].utf8_start); } }
    let st = m.utf8_start as int;
    let en = m.utf8_end as int;
    assert(st + d == bk.len() + (st - pe));
    assert(c.subrange(st + d, en + d) =~= mc);
    let bm = before_match(s, t, ms, k);
    let b1 = build(s, t, ms, k + 1);
    assert(b1 == bm + p);
    assert(splice(c, st + d, en + d, p) =~= partial(s, t, ms, k + 1));
    // boundaries
    assert(st + d < c.len() && c[st + d] == t[st]);
    assert(en + d < c.len() ==> c[en + d] == t[en]);
    assert(mc[0] == t[st]);
    assert(pe > 0 ==> k > 0);
    if st + d == 0 { } else { if st == 0 { assert(k == 0) by { if k > 0 { assert(good_match(s, t, ms[k - 1])); } } } }
    assert(bdry(c, st + d));
    assert(bdry(c, en + d));
    assert(text_ok(mc));
    // widths
    lemma_w::<E>(t, pe, st);
    lemma_w::<E>(t, st, en);
    lemma_w::<E>(t, 0, pe);
    E::law_width(bk, t.subrange(pe, st));
    E::law_width(bm, p);
    E::law_width(bk, bk);
    E::law_width(bm, bm);
    E::law_width(b1, b1);
    E::law_width(p, p);
    assert(partial(s, t, ms, k + 1).len() <= isize::MAX);
    assert(c.len() <= isize::MAX);
    if mutating(act) { lemma_piece_width::<E>(act, mc); }
    assert(b1.len() <= partial(s, t, ms, k + 1).len());
    assert(0 <= E::width(b1) <= b1.len());
    if k > 0 { assert(good_match(s, t, ms[k - 1])); }
}

impl Scanner {
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::apply_match_actions_for_string"
ret = "r"
contract = '''
    requires
        step_ok::<E>(*self, old(content)@, *rule_match, *old(utf8_byte_delta) as int, *old(custom_index_delta)),
    ensures
        ({
            let c = old(content)@;
            let d = *old(utf8_byte_delta) as int;
            let ms = rule_match.utf8_start + d;
            let me = rule_match.utf8_end + d;
            let act = act_of(*self, *rule_match);
            let mc = c.subrange(ms, me);
            let (a, b, t) = rp(act, mc);
            let p = piece(act, mc);
            let w: int = if mutating(act) { E::width(t) - E::width(mc.subrange(a, b)) } else { 0 };
            let sh = E::s_shift(*old(custom_index_delta), d);
            &&& mutating(act) ==> 0 <= a <= b <= mc.len()
            &&& final(content)@ == splice(c, ms, me, p)
            &&& *final(utf8_byte_delta) == d + p.len() - mc.len()
            &&& E::s_shift(*final(custom_index_delta), *final(utf8_byte_delta) as int) == sh + w
            &&& r.rule_index == rule_match.rule_index
            &&& r.path == path
            &&& r.replacement_type == rtype(act)
            &&& r.start_index == E::s_index(rule_match.custom_start, rule_match.utf8_start as int) + sh
            &&& r.end_index_exclusive == E::s_index(rule_match.custom_end, rule_match.utf8_end as int) + sh + w
            &&& r.shift_offset == sh + w
            &&& r.match_value is Some <==> self.scanner_features.return_matches
            &&& r.match_value is Some ==> r.match_value->0@ == mc
            &&& r.match_status == (if self.rules@[rule_match.rule_index as int].validated() { MatchStatus::NotChecked } else { MatchStatus::NotAvailable })
        }),
'''
start = '''
let ghost c0 = content@;
let ghost mc = content@.subrange(rule_match.utf8_start + *utf8_byte_delta, rule_match.utf8_end + *utf8_byte_delta);
let ghost d0 = *utf8_byte_delta as int;
let ghost sh0 = *custom_index_delta;
'''
[[rewrite]]
from = "content: &mut String"
to = "content: &mut VpText"
[[rewrite]]
from = "path: Path<'static>"
to = "path: VpPath"
[[rewrite]]
from = "debug_assert!(content.is_char_boundary($x));"
to = "proof { assert(bdry(content@, $x as int)); }"
all = true
optional = true
[[rewrite]]
from = "&content[$a..$b]"
to = "content.vp_slice($a, $b)"
all = true
[[rewrite]]
from = "&matched_content[$a..$b]"
to = "matched_content.vp_slice($a, $b)"
all = true
[[rewrite]]
from = "content.replace_range($a..$b, $x)"
to = "content.vp_replace_range($a, $b, $x)"
[[before]]
pattern = "let before_replacement"
text = '''
proof {
    lemma_rp(act_of(*self, *rule_match), mc, replacement.start as int, replacement.end as int, replacement.replacement@);
    assert(bdry(content@, mutated_utf8_match_start + replacement.start));
    assert(bdry(content@, mutated_utf8_match_start + replacement.end));
}
'''
[[after]]
pattern = "content.replace_range($a..$b, $x);"
text = '''
proof {
    assert(content@ =~= splice(c0, rule_match.utf8_start + d0, rule_match.utf8_end + d0, piece(act_of(*self, *rule_match), mc)));
}
'''
[[before]]
pattern = "let shift_offset"
text = '''
proof {
    if !mutating(act_of(*self, *rule_match)) { assert(content@ =~= splice(c0, rule_match.utf8_start + d0, rule_match.utf8_end + d0, mc)); }
}
'''
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::apply_match_actions"
contract = '''
    requires
        apply_ok(*self, old(content)@, old(rule_matches)@),
    ensures
        final(rule_matches)@ == old(rule_matches)@,
        final(content)@ == partial(*self, old(content)@, old(rule_matches)@, old(rule_matches)@.len() as int),
        final(output_rule_matches)@.len() == old(output_rule_matches)@.len() + old(rule_matches)@.len(),
        forall|i: int| 0 <= i < old(output_rule_matches)@.len() ==> final(output_rule_matches)@[i] == old(output_rule_matches)@[i],
        forall|i: int| 0 <= i < old(rule_matches)@.len() ==> good_output(*self, old(content)@, old(rule_matches)@, *path, i, #[trigger] final(output_rule_matches)@[old(output_rule_matches)@.len() + i]),
'''
start = '''
let ghost t = content@;
let ghost ms = rule_matches@;
let ghost out0 = output_rule_matches@;
'''
[[rewrite]]
from = "content: &mut String"
to = "content: &mut VpText"
[[rewrite]]
from = "path: &Path<'static>"
to = "path: &VpPath"
[[rewrite]]
from = "for rule_match in rule_matches"
to = "for vp_i in 0..rule_matches.len()"
[[loop]]
n = 0
kind = "for"
before = '''
proof {
    assert(partial(*self, t, ms, 0) =~= t);
    assert(t.subrange(0, 0) =~= Seq::<u8>::empty());
    assert(build(*self, t, ms, 0) =~= Seq::<u8>::empty());
}
'''
spec = '''
    invariant
        apply_ok(*self, t, ms),
        rule_matches@ == ms,
        content@ == partial(*self, t, ms, vp_i as int),
        utf8_byte_delta == build(*self, t, ms, vp_i as int).len() - prev_end(ms, vp_i as int),
        E::s_shift(custom_index_delta, utf8_byte_delta as int) == E::width(build(*self, t, ms, vp_i as int)) - E::width(t.subrange(0, prev_end(ms, vp_i as int))),
        output_rule_matches@.len() == out0.len() + vp_i,
        forall|i: int| 0 <= i < out0.len() ==> #[trigger] output_rule_matches@[i] == out0[i],
        forall|i: int| 0 <= i < vp_i ==> good_output(*self, t, ms, *path, i, #[trigger] output_rule_matches@[out0.len() + i]),
'''
start = '''
let rule_match = &rule_matches[vp_i];
proof { lemma_step(*self, t, ms, vp_i as int, utf8_byte_delta as int, custom_index_delta); }
'''
@*/
}
// without a mutating match the text stays as it is (used by unit scan)
pub proof fn theorem_plain<E: Encoding>(s: Scanner, t: Seq<u8>, ms: Seq<InternalRuleMatch<E>>, k: int)
    requires apply_ok(s, t, ms), 0 <= k <= ms.len(), forall|i: int| 0 <= i < ms.len() ==> !mutating(act_of(s, #[trigger] ms[i])),
    ensures build(s, t, ms, k) == t.subrange(0, prev_end(ms, k)), 0 <= prev_end(ms, k) <= t.len(), partial(s, t, ms, k) == t,
    decreases k,
{
    if k > 0 {
        theorem_plain(s, t, ms, k - 1);
        assert(good_match(s, t, ms[k - 1]));
        if k > 1 { assert(ms[k - 2].utf8_end <= ms[k - 1].utf8_start); }
        assert(!mutating(act_of(s, ms[k - 1])));
        assert(build(s, t, ms, k) =~= t.subrange(0, prev_end(ms, k)));
    } else { assert(build(s, t, ms, 0) =~= t.subrange(0, 0)); }
    assert(partial(s, t, ms, k) =~= t);
}
} // verus!
fn main() {}
