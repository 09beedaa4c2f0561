use vstd::prelude::*;
verus! {
//@include prelude/chars.rs
//@include prelude/digits.rs

pub open spec fn number(ds: Seq<int>) -> int
    decreases ds.len(),
{ if ds.len() == 0 { 0 } else { 10 * number(ds.drop_last()) + ds.last() } }
// NIR: exactly 15 digits; the last two are 97 - (the number formed by the first 13) mod 97.
pub open spec fn nir_ok(s: Seq<char>) -> bool {
    let ds = digits(s);
    ds.len() == 15 && number(ds.subrange(13, 15)) == 97 - number(ds.take(13)) % 97
}
pub open spec fn pow10(n: nat) -> int decreases n { if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
pub proof fn lemma_number_bound(ds: Seq<int>)
    requires forall|i: int| 0 <= i < ds.len() ==> 0 <= #[trigger] ds[i] <= 9,
    ensures 0 <= number(ds) < pow10(ds.len()),
    decreases ds.len(),
{ if ds.len() > 0 { lemma_number_bound(ds.drop_last()); } }

/*@extract
file = "sds/src/secondary_validation/nir_checksum.rs"
item = "get_next_digit_chars"
ret = "r"
contract = '''
    requires size <= 15,
    ensures
        r is Some <==> digits(old(chars)@).len() >= size,
        r is Some ==> r->0 as int == number(digits(old(chars)@).take(size as int))
            && digits(final(chars)@) == digits(old(chars)@).skip(size as int),
'''
start = "let ghost all = digits(old(chars)@); proof { lemma_digits_range(old(chars)@); }"
[[rewrite]]
from = "for _ in 0..size"
to = "for vp_i in 0..size"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant
        size <= 15,
        all == digits(old(chars)@),
        forall|i: int| 0 <= i < all.len() ==> 0 <= #[trigger] all[i] <= 9,
        all.len() >= vp_i,
        digits(chars@) == all.skip(vp_i as int),
        total as int == number(all.take(vp_i as int)),
'''
start = '''proof {
    lemma_number_bound(all.take(vp_i as int));
    reveal_with_fuel(pow10, 17);
    assert(0 <= total < 1_000_000_000_000_000);
    assert(all.skip(vp_i as int).len() == all.len() - vp_i);
}'''
end = '''proof {
    assert(all.take(vp_i + 1).drop_last() =~= all.take(vp_i as int));
    assert(all.skip(vp_i as int).drop_first() =~= all.skip(vp_i + 1));
    assert(all.skip(vp_i as int)[0] == all[vp_i as int]);
    assert((seq![all[vp_i as int]] + digits(chars@)).drop_first() =~= digits(chars@));
}'''
@*/
pub struct NirChecksum;
impl NirChecksum {
/*@extract
file = "sds/src/secondary_validation/nir_checksum.rs"
item = "NirChecksum::is_valid_match"
ret = "r"
contract = '''
    ensures r == nir_ok(regex_match@),
'''
start = '''
let ghost all = digits(regex_match@);
proof {
    lemma_digits_range(regex_match@);
    if all.len() >= 13 { lemma_number_bound(all.take(13)); }
    if all.len() >= 15 {
        assert(all.skip(13).take(2) =~= all.subrange(13, 15));
        assert(all.skip(13).skip(2) =~= all.skip(15));
        lemma_number_bound(all.subrange(13, 15));
    }
}
'''
[[rewrite]]
from = "regex_match.chars()"
to = "regex_match.vp_chars()"
@*/
}
} // verus!
fn main() {}
