use vstd::prelude::*;
verus! {
//@include prelude/chars.rs
//@include prelude/utf8len.rs
//@include prelude/enumerate.rs

// ISO 7064 MOD 11-2: 18 characters, 17 decimal digits then a check character (digit or X/x);
// sum of value * 2^(distance from the end) is 1 mod 11.
#[verifier::opaque]
pub open spec fn pow2mod11(n: nat) -> int decreases n { if n == 0 { 1 } else { (2 * pow2mod11((n - 1) as nat)) % 11 } }
pub open spec fn isum(s: Seq<char>, n: int) -> int     // weighted sum of the first n characters
    decreases n,
{ if n <= 0 { 0 } else { isum(s, n - 1) + pow2mod11((18 - n) as nat) * dec_val(s[n - 1]) } }
pub open spec fn check_val(c: char) -> int { if c == 'X' || c == 'x' { 10 } else { dec_val(c) } }
pub open spec fn chinese_id_ok(s: Seq<char>) -> bool {
    s.len() == 18
    && (forall|i: int| 0 <= i < 17 ==> is_dec_digit(#[trigger] s[i]))
    && (is_dec_digit(s[17]) || s[17] == 'X' || s[17] == 'x')
    && (isum(s, 17) + check_val(s[17])) % 11 == 1
}
/*@extract
file = "sds/src/secondary_validation/chinese_id_checksum.rs"
item = "CHINESE_ID_LENGTH"
kind = "const"
@*/
/*@extract
file = "sds/src/secondary_validation/chinese_id_checksum.rs"
item = "CHINESE_ID_COEFFICIENTS"
kind = "const"
[[rewrite]]
from = ": &[i32] = &["
to = ": [i32; 17] = ["
@*/

proof fn lemma_weight(i: int)
    requires 0 <= i < 17,
    ensures CHINESE_ID_COEFFICIENTS[i] == pow2mod11((17 - i) as nat),
        0 <= CHINESE_ID_COEFFICIENTS[i] <= 10,
{
    reveal_with_fuel(pow2mod11, 19);
}
pub struct ChineseIdChecksum;
impl ChineseIdChecksum {
/*@extract
file = "sds/src/secondary_validation/chinese_id_checksum.rs"
item = "ChineseIdChecksum::is_valid_match"
ret = "r"
contract = '''
    ensures r == chinese_id_ok(regex_match@),
'''
start = '''
let ghost s = regex_match@;
proof {
    lemma_u8len_ge(s);
    if s.len() == 18 && (forall|i: int| 0 <= i < 17 ==> is_dec_digit(#[trigger] s[i])) && s[17] as u32 <= 0x7f { lemma_u8len_ascii(s); }
    if s.len() > 0 {
        let f = s.take(if s.len() <= 17 { s.len() as int } else { 17 });
        if forall|i: int| 0 <= i < f.len() ==> is_dec_digit(#[trigger] f[i]) {
            lemma_u8len_ascii(f);
            let g = s.skip(f.len() as int);
            assert(f + g =~= s);
            lemma_u8len_add(f, g);
            lemma_u8len_ge(g);
            if g.len() == 1 { assert(g.drop_last() =~= seq![]); assert(g.last() == s.last()); }
        }
    }
}
'''
[[rewrite]]
from = "regex_match.len()"
to = "vp_str_len(regex_match)"
[[rewrite]]
from = "for ($i, $c) in regex_match.chars().take($n).enumerate()"
to = "let mut vp_it = regex_match.vp_chars().take($n).enumerate(); while let Some(($i, $c)) = vp_it.next()"
[[rewrite]]
from = "regex_match.chars().next_back()"
to = "regex_match.vp_chars().next_back()"
[[rewrite]]
from = "let mut sum = 0;"
to = "let mut sum: i32 = 0;"
[[loop]]
n = 0
spec = '''
    invariant
        s == regex_match@,
        u8len(s) == 18,
        0 <= vp_it@.0 <= 17,
        vp_it@.0 <= s.len(),
        vp_it@.1 =~= s.take(if s.len() <= 17 { s.len() as int } else { 17 }).skip(vp_it@.0),
        forall|i: int| 0 <= i < vp_it@.0 ==> is_dec_digit(#[trigger] s[i]),
        0 <= sum <= 90 * vp_it@.0,
        sum == isum(s, vp_it@.0),
    ensures vp_it@.1.len() == 0,
    decreases vp_it@.1.len(),
'''
start = '''proof {
    assert(c == s[idx as int]);
    lemma_weight(idx as int);
    if is_dec_digit(c) {
      let k = CHINESE_ID_COEFFICIENTS[idx as int] as int;
      assert(0 <= k * dec_val(c) <= 90) by (nonlinear_arith) requires 0 <= k <= 10, 0 <= dec_val(c) <= 9;
    }
}'''
@*/
}
} // verus!
fn main() {}
