/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction"
kind = "enum"
[[rewrite]]
from = "replacement: String"
to = "replacement: VpText"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "PartialRedactDirection"
kind = "enum"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "PARTIAL_REDACT_CHARACTER"
kind = "const"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "MatchActionValidationError"
kind = "enum"
@*/
/*@extract
file = "sds/src/rule_match.rs"
item = "ReplacementType"
kind = "enum"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "Replacement"
kind = "struct"
[[rewrite]]
from = "struct Replacement<'a>"
to = "struct Replacement"
[[rewrite]]
from = "Cow<'a, str>"
to = "VpText"
@*/
// ---- what the documentation of the match actions says --------------------------------------
// farmhash's 64-bit fingerprint, and a number in lower-case hexadecimal: external (see DESIGN.md)
pub uninterp spec fn farmhash64(b: Seq<u8>) -> u64;
pub uninterp spec fn hex_text(n: u64) -> Seq<u8>;
pub uninterp spec fn utf16_le(m: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn vp_farmhash(b: &VpText) -> (r: u64) ensures r == farmhash64(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_hex(n: u64) -> (r: VpText) ensures r@ == hex_text(n) { unimplemented!() }
#[verifier::external_body]
pub fn vp_utf16_le(t: &VpText) -> (r: VpText) ensures r@ == utf16_le(t@) { unimplemented!() }
#[verifier::opaque]
pub open spec fn hash_text(m: Seq<u8>) -> Seq<u8> { hex_text(farmhash64(m)) }
#[verifier::opaque]
pub open spec fn utf16_hash_text(m: Seq<u8>) -> Seq<u8> { hex_text(farmhash64(utf16_le(m))) }
pub open spec fn stars(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 42u8) }
pub open spec fn mutating(a: MatchAction) -> bool { !(a is None) }
// (a, b, text) is a correct replacement for the matched text m under the action
pub open spec fn good_replacement(act: MatchAction, m: Seq<u8>, a: int, b: int, text: Seq<u8>) -> bool {
    match act {
        MatchAction::None => false,
        MatchAction::Redact { replacement } => a == 0 && b == m.len() && text == replacement@,
        MatchAction::Hash => a == 0 && b == m.len() && text == hash_text(m),
        MatchAction::Utf16Hash => a == 0 && b == m.len() && text == utf16_hash_text(m),
        MatchAction::PartialRedact { direction, character_count } => {
            let total = nchars(m, m.len() as int);
            &&& text == stars(character_count as int)
            &&& match direction {
                // exactly the first n characters (all, if there are no more than n)
                PartialRedactDirection::FirstCharacters => a == 0 && (if total > character_count { char_at(m, b, character_count as int) } else { b == m.len() }),
                // exactly the last n characters
                PartialRedactDirection::LastCharacters => b == m.len() && (if total > character_count { char_at(m, a, total - character_count) } else { a == 0 }),
            }
        }
    }
}
pub open spec fn valid_action(a: MatchAction) -> bool {
    a is PartialRedact ==> a->character_count > 0
}
pub open spec fn rtype(a: MatchAction) -> ReplacementType {
    match a {
        MatchAction::None => ReplacementType::None,
        MatchAction::Redact { .. } => ReplacementType::Placeholder,
        MatchAction::Hash => ReplacementType::Hash,
        MatchAction::Utf16Hash => ReplacementType::Hash,
        MatchAction::PartialRedact { direction, .. } => if direction is FirstCharacters { ReplacementType::PartialStart } else { ReplacementType::PartialEnd },
    }
}
pub proof fn lemma_stars(n: nat)
    ensures rep(seq![42u8], n) == stars(n as int),
    decreases n,
{
    if n > 0 { lemma_stars((n - 1) as nat); }
    assert(rep(seq![42u8], n) =~= stars(n as int));
}
impl MatchAction {
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::validate"
ret = "r"
contract = "ensures r is Ok <==> valid_action(*self),"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::is_mutating"
ret = "r"
contract = "ensures r == mutating(*self),"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::replacement_type"
ret = "r"
contract = "ensures r == rtype(*self),"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::get_replacement"
ret = "r"
contract = '''
    requires valid_action(*self), text_ok(matched_content@),
    ensures
        r is Some <==> mutating(*self),
        r is Some ==> good_replacement(*self, matched_content@, r->0.start as int, r->0.end as int, r->0.replacement@),
        r is Some ==> r->0.start <= r->0.end <= matched_content@.len() && bdry(matched_content@, r->0.start as int) && bdry(matched_content@, r->0.end as int),
        r is Some && matched_content@.len() > 0 ==> r->0.start < r->0.end,
'''
[[rewrite]]
from = "matched_content: &str"
to = "matched_content: &VpText"
[[rewrite]]
from = "Cow::Borrowed(replacement)"
to = "replacement.vp_same()"
[[rewrite]]
from = "Cow::Owned($x)"
to = "$x"
all = true
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::hash"
contract = "ensures r@ == hash_text(match_result@),"
start = "proof { reveal(hash_text); }"
[[rewrite]]
from = "(match_result: &str) -> String"
to = "(match_result: &VpText) -> (r: VpText)"
[[rewrite]]
from = "farmhash::fingerprint64(match_result.as_bytes())"
to = "vp_farmhash(match_result)"
[[rewrite]]
from = "format!(\"{hash:x}\")"
to = "vp_hex(hash)"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::utf16_hash"
contract = "ensures r@ == utf16_hash_text(match_result@),"
start = "proof { reveal(utf16_hash_text); }"
[[rewrite]]
from = "(match_result: &str) -> String"
to = "(match_result: &VpText) -> (r: VpText)"
[[rewrite]]
from = "match_result.encode_utf16().flat_map(u16::to_le_bytes).collect::<Vec<_>>()"
to = "vp_utf16_le(match_result)"
[[rewrite]]
from = "farmhash::fingerprint64($x)"
to = "vp_farmhash($x)"
[[rewrite]]
from = "format!(\"{hash:x}\")"
to = "vp_hex(hash)"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::partial_redaction_first"
ret = "r"
contract = '''
    requires *num_characters > 0, text_ok(matched_content@),
    ensures
        r.start == 0, r.end <= matched_content@.len(), bdry(matched_content@, r.end as int),
        matched_content@.len() > 0 ==> r.end > 0,
        r.replacement@ == stars(*num_characters as int),
        ({ let total = nchars(matched_content@, matched_content@.len() as int);
           if total > *num_characters { char_at(matched_content@, r.end as int, *num_characters as int) } else { r.end == matched_content@.len() } }),
'''
start = "proof { lemma_stars(*num_characters as nat); }"
[[rewrite]]
from = "matched_content: &str"
to = "matched_content: &VpText"
[[rewrite]]
from = "Replacement<'static>"
to = "Replacement"
[[rewrite]]
from = "$s.chars().count()"
to = "$s.vp_char_count()"
[[rewrite]]
from = "matched_content.char_indices().nth($n).unwrap().0"
to = "matched_content.vp_char_offset($n)"
[[rewrite]]
from = "String::from(PARTIAL_REDACT_CHARACTER).repeat(*num_characters).into()"
to = "VpText::from(PARTIAL_REDACT_CHARACTER).repeat(*num_characters)"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::partial_redaction_last"
ret = "r"
contract = '''
    requires *num_characters > 0, text_ok(match_result@),
    ensures
        r.end == match_result@.len(), r.start <= r.end, bdry(match_result@, r.start as int),
        match_result@.len() > 0 ==> r.start < r.end,
        r.replacement@ == stars(*num_characters as int),
        ({ let total = nchars(match_result@, match_result@.len() as int);
           if total > *num_characters { char_at(match_result@, r.start as int, total - *num_characters) } else { r.start == 0 } }),
'''
start = "proof { lemma_stars(*num_characters as nat); }"
[[rewrite]]
from = "match_result: &str"
to = "match_result: &VpText"
[[rewrite]]
from = "Replacement<'static>"
to = "Replacement"
[[rewrite]]
from = "$s.chars().count()"
to = "$s.vp_char_count()"
[[rewrite]]
from = "match_result.char_indices().nth_back($n).unwrap().0"
to = "match_result.vp_char_offset_back($n)"
[[rewrite]]
from = "String::from(PARTIAL_REDACT_CHARACTER).repeat(*num_characters).into()"
to = "VpText::from(PARTIAL_REDACT_CHARACTER).repeat(*num_characters)"
@*/
}
