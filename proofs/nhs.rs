use vstd::prelude::*;
verus! {
//@include prelude/chars.rs
//@include prelude/digits.rs

// NHS number: exactly ten digits d1..d10 with 10*d1 + 9*d2 + ... + 1*d10 = 0 (mod 11).
pub open spec fn wsum(ds: Seq<int>, w: int) -> int     // last element has weight w, then w+1, ...
    decreases ds.len(),
{ if ds.len() == 0 { 0 } else { w * ds.last() + wsum(ds.drop_last(), w + 1) } }
pub open spec fn nhs_ok(s: Seq<char>) -> bool {
    digits(s).len() == 10 && wsum(digits(s), 1) % 11 == 0
}
// the code weights the digits in the opposite direction (10 for the last one, ... 1 for the first)
pub open spec fn rsum(ds: Seq<int>, w: int) -> int
    decreases ds.len(),
{ if ds.len() == 0 { 0 } else { w * ds.last() + rsum(ds.drop_last(), w - 1) } }
pub proof fn lemma_opposite(ds: Seq<int>, w: int)
    ensures (wsum(ds, w) + rsum(ds, 11 - w)) % 11 == 0,
    decreases ds.len(),
{
    if ds.len() > 0 {
        lemma_opposite(ds.drop_last(), w + 1);
        let a = w * ds.last();
        let b = (11 - w) * ds.last();
        assert(a + b == 11 * ds.last()) by (nonlinear_arith) requires a == w * ds.last(), b == (11 - w) * ds.last();
        let c = wsum(ds.drop_last(), w + 1) + rsum(ds.drop_last(), 11 - (w + 1));
        assert(wsum(ds, w) + rsum(ds, 11 - w) == c + 11 * ds.last());
        assert((c + 11 * ds.last()) % 11 == 0) by (nonlinear_arith) requires c % 11 == 0;
    }
}

/*@extract
file = "sds/src/secondary_validation/nhs_check_digit.rs"
item = "nhs_multiplier_from_number_idx"
ret = "r"
contract = '''
    requires index < 10,
    ensures r == 10 - index,
'''
@*/

pub struct NhsCheckDigit;
impl NhsCheckDigit {
/*@extract
file = "sds/src/secondary_validation/nhs_check_digit.rs"
item = "NhsCheckDigit::is_valid_match"
ret = "r"
contract = '''
    ensures r == nhs_ok(regex_match@),
'''
start = '''proof {
    lemma_digits_range(regex_match@);
    lemma_opposite(digits(regex_match@), 1);
}
let ghost all = digits(regex_match@);'''
[[rewrite]]
from = "regex_match.chars()"
to = "regex_match.vp_chars()"
[[rewrite]]
from = "let mut nb_digit = 0;"
to = "let mut nb_digit: usize = 0;"
[[rewrite]]
from = "let mut total_sum = 0;"
to = "let mut total_sum: u32 = 0;"
[[rewrite]]
from = "let mut check_digit = 0;"
to = "let mut check_digit: u32 = 0;"
[[loop]]
n = 0
spec = '''
    invariant
        all == digits(regex_match@),
        forall|i: int| 0 <= i < all.len() ==> 0 <= #[trigger] all[i] <= 9,
        nb_digit <= 10,
        digits(input_iter@).len() + nb_digit == all.len(),
        digits(input_iter@) =~= all.take(all.len() - nb_digit),
        total_sum <= 90 * nb_digit,
        nb_digit <= 9 ==> total_sum + rsum(digits(input_iter@), 10 - nb_digit) == rsum(all, 10) && check_digit == 0,
        nb_digit == 10 && all.len() == 10 ==> check_digit <= 9 && total_sum + check_digit == rsum(all, 10),
    ensures
        nb_digit == all.len(),
    decreases input_iter@.len(),
'''
start = '''proof {
    let rest = digits(input_iter@);
    assert(rest =~= rest.push(digit as int).drop_last());
    assert(rest.push(digit as int).last() == digit as int);
    if nb_digit < 9 {
        let m = 10 - nb_digit;
        assert(0 <= m * (digit as int) <= 90) by (nonlinear_arith) requires 0 <= digit <= 9, 1 <= m <= 10;
        assert((digit as int) * m == m * (digit as int)) by (nonlinear_arith);
    }
    reveal_with_fuel(rsum, 3);
    if nb_digit == 9 && all.len() == 10 {
        assert(rest.len() == 0);
        assert(rsum(rest, 0) == 0);
        assert(rsum(rest.push(digit as int), 1) == 1 * (digit as int) + rsum(rest.push(digit as int).drop_last(), 0));
        assert(total_sum + digit == rsum(all, 10));
    }
}'''
@*/
}
} // verus!
fn main() {}
