use vstd::prelude::*;
verus! {
//@include prelude/chars.rs

pub uninterp spec fn alphanumeric(c: char) -> bool;         // char::is_alphanumeric
pub uninterp spec fn iban(s: Seq<char>) -> bool;            // the iban crate accepts exactly this text
pub assume_specification [ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == alphanumeric(c);
pub open spec fn keep(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if alphanumeric(s.last()) { keep(s.drop_last()).push(s.last()) } else { keep(s.drop_last()) } }
impl<'a> Chars<'a> {
    // filter(f).collect::<String>() for an f that keeps exactly the alphanumeric characters
    #[verifier::external_body]
    pub fn vp_filter_collect<F: Fn(&char) -> bool>(self, f: F) -> (r: String)
        requires
            forall|c: char| f.requires((&c,)),
            forall|c: char, b: bool| #[trigger] f.ensures((&c,), b) ==> b == alphanumeric(c),
        ensures r@ == keep(self@),
    { unimplemented!() }
}
pub struct IbanError;
#[verifier::external_body]
pub fn vp_parse_iban(s: &String) -> (r: Result<u64, IbanError>) ensures r is Ok <==> iban(s@) { unimplemented!() }
pub struct IbanChecker;
impl IbanChecker {
/*@extract
file = "sds/src/secondary_validation/iban_checker.rs"
item = "IbanChecker::is_valid_match"
ret = "r"
contract = '''
    ensures r == iban(keep(regex_match@)),
'''
[[rewrite]]
from = "regex_match.chars().filter(|c| $body).collect()"
to = "regex_match.vp_chars().vp_filter_collect(|c: &char| -> (b: bool) ensures b == alphanumeric(*c) { $body })"
[[rewrite]]
from = "iban_candidate.parse::<Iban>()"
to = "vp_parse_iban(&iban_candidate)"
@*/
}
} // verus!
fn main() {}
