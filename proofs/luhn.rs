use vstd::prelude::*;
verus! {
//@include prelude/chars.rs
//@include prelude/digits.rs

// Luhn: the digits, weighted from the right starting just left of the check digit
// 2,1,2,1,... (doubled digits above 9 reduced by 9), plus the check digit, sum to 0 mod 10.
pub open spec fn dbl(d: int) -> int { if 2 * d > 9 { 2 * d - 9 } else { 2 * d } }
pub open spec fn wsum(ds: Seq<int>, doubling: bool) -> int
    decreases ds.len(),
{
    if ds.len() == 0 { 0 } else { (if doubling { dbl(ds.last()) } else { ds.last() }) + wsum(ds.drop_last(), !doubling) }
}
pub open spec fn luhn_ok(s: Seq<char>) -> bool {
    let ds = digits(s);
    ds.len() > 0 && (wsum(ds.drop_last(), true) + ds.last()) % 10 == 0
}

pub struct LuhnChecksum;
impl LuhnChecksum {
/*@extract
file = "sds/src/secondary_validation/luhn_checksum.rs"
item = "LuhnChecksum::is_valid_match"
ret = "r"
contract = '''
    requires regex_match@.len() < 0x1000_0000,
    ensures r == luhn_ok(regex_match@),
'''
start = "proof { lemma_digits_range(regex_match@); }"
[[rewrite]]
from = "regex_match.chars()"
to = "regex_match.vp_chars()"
[[loop]]
n = 0
spec = '''
    invariant
        digits(regex_match@) == digits0,
        digits0.len() > 0,
        checksum as int == digits0.last(),
        0 <= checksum <= 9,
        0 <= sum <= 9 * (digits0.len() - digits(input_iter@).len()),
        digits0.len() < 0x1000_0000,
        digits(input_iter@).len() <= digits0.len(),
        sum + wsum(digits(input_iter@), !is_odd) == wsum(digits0.drop_last(), true),
    ensures sum == wsum(digits0.drop_last(), true), sum <= 9 * 0x1000_0000,
    decreases input_iter@.len(),
'''
before = "let ghost digits0 = digits(regex_match@); proof { assert(digits0.drop_last() =~= digits(input_iter@)); assert(digits0.last() == checksum as int); }"
start = "let ghost before_is_odd = is_odd; proof { reveal_with_fuel(wsum, 2); assert(digits(input_iter@) =~= digits(input_iter@).push(digit as int).drop_last()); }"
@*/
}
} // verus!
fn main() {}
