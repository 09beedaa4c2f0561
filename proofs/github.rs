use vstd::prelude::*;
verus! {
//@include prelude/chars.rs
//@include prelude/utf8len.rs
//@include prelude/strs.rs

// base62, most significant digit first, digits 0-9 A-Z a-z, no leading zeros (zero is "0")
pub open spec fn b62(d: int) -> char { if d < 10 { ('0' as int + d) as char } else if d < 36 { ('A' as int + d - 10) as char } else { ('a' as int + d - 36) as char } }
pub open spec fn base62(n: nat) -> Seq<char> decreases n { if n < 62 { seq![b62(n as int)] } else { base62(n / 62).push(b62((n % 62) as int)) } }
pub open spec fn pad(s: Seq<char>, n: int) -> Seq<char> { if s.len() >= n { s } else { Seq::new((n - s.len()) as nat, |i: int| '0') + s } }
pub uninterp spec fn crc32(s: Seq<char>) -> u32;
// The part after the last '_' is alphanumeric, longer than 6 characters, and ends with the CRC32 of
// what precedes it, in base62, padded with zeros to 6 digits.
pub open spec fn github_ok(s: Seq<char>) -> bool {
    let u = last_sep(s, '_');
    let p = s.skip(u + 1);
    u >= 0 && p.len() > 6 && (forall|i: int| 0 <= i < p.len() ==> alnum(#[trigger] p[i]))
        && p.skip(p.len() - 6) == pad(base62(crc32(p.take(p.len() - 6)) as nat), 6)
}
#[verifier::external_body]
pub fn vp_crc32(s: &str) -> (r: u32) ensures r == crc32(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_base62(n: u32) -> (r: String) ensures r@ == base62(n as nat) { unimplemented!() }
// format! of one string argument: only the format used by the code is given a meaning
#[verifier::external_body]
pub fn vp_format(f: &str, s: String) -> (r: String) ensures f@ == "{:0>6}"@ ==> r@ == pad(s@, 6) { unimplemented!() }

pub struct GithubTokenChecksum;
impl GithubTokenChecksum {
/*@extract
file = "sds/src/secondary_validation/github_token_checksum.rs"
item = "GithubTokenChecksum::is_valid_match"
ret = "r"
contract = '''
    ensures r == github_ok(regex_match@),
'''
start = '''
let ghost u = last_sep(regex_match@, '_');
let ghost p = regex_match@.skip(u + 1);
proof {
    lemma_last_piece(regex_match@, '_');
    if forall|i: int| 0 <= i < p.len() ==> alnum(#[trigger] p[i]) {
        lemma_u8len_ascii(p);
        if p.len() > 6 {
            lemma_u8len_ascii(p.take(p.len() - 6));
            assert(at_byte(p, p.len() - 6, p.len() - 6));
        }
    }
}
'''
[[rewrite]]
from = "regex_match.split($c).collect()"
to = "vp_split(regex_match, $c)"
[[rewrite]]
from = "parts.last().unwrap()"
to = "vp_last(&parts)"
[[rewrite]]
from = "last_part.chars().all(|c| $body)"
to = "last_part.vp_chars().all(|c: char| -> (b: bool) ensures b == alnum(c) { $body })"
[[rewrite]]
from = "last_part.len() <= 6"
to = "vp_str_len(last_part) <= 6"
[[rewrite]]
from = "crc32fast::hash(last_part[..last_part.len() - $n].as_bytes())"
to = "vp_crc32(vp_to(last_part, vp_str_len(last_part) - $n))"
[[rewrite]]
from = "format!($f, base62::encode(computed_checksum))"
to = "vp_format($f, vp_base62(computed_checksum))"
[[rewrite]]
from = "computed_checksum_b62 == last_part[last_part.len() - $n..]"
to = "vp_eq(&computed_checksum_b62, vp_from(last_part, vp_str_len(last_part) - $n))"
[[after]]
pattern = "let last_part = parts.last().unwrap();"
text = "proof { assert(last_part@ =~= p); }"
@*/
}
} // verus!
fn main() {}
