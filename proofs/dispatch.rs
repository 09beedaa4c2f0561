use vstd::prelude::*;
verus! {
// Which validator a rule's `SecondaryValidator` runs. What each of them accepts is the contract of its
// own unit (luhn, chinese_id, github, nhs, iban, nir, jwt); here it is an uninterpreted predicate each.
pub uninterp spec fn luhn_ok(s: Seq<char>) -> bool;
pub uninterp spec fn cid_ok(s: Seq<char>) -> bool;
pub uninterp spec fn github_ok(s: Seq<char>) -> bool;
pub uninterp spec fn nhs_ok(s: Seq<char>) -> bool;
pub uninterp spec fn iban_ok(s: Seq<char>) -> bool;
pub uninterp spec fn nir_ok(s: Seq<char>) -> bool;
pub uninterp spec fn jwt_ok(s: Seq<char>) -> bool;     // at the time of the call
pub struct LuhnChecksum;
pub struct ChineseIdChecksum;
pub struct GithubTokenChecksum;
pub struct NhsCheckDigit;
pub struct IbanChecker;
pub struct NirChecksum;
pub struct JwtExpirationChecker;
impl LuhnChecksum { #[verifier::external_body] pub fn is_valid_match(&self, m: &str) -> (r: bool) ensures r == luhn_ok(m@) { unimplemented!() } }
impl ChineseIdChecksum { #[verifier::external_body] pub fn is_valid_match(&self, m: &str) -> (r: bool) ensures r == cid_ok(m@) { unimplemented!() } }
impl GithubTokenChecksum { #[verifier::external_body] pub fn is_valid_match(&self, m: &str) -> (r: bool) ensures r == github_ok(m@) { unimplemented!() } }
impl NhsCheckDigit { #[verifier::external_body] pub fn is_valid_match(&self, m: &str) -> (r: bool) ensures r == nhs_ok(m@) { unimplemented!() } }
impl IbanChecker { #[verifier::external_body] pub fn is_valid_match(&self, m: &str) -> (r: bool) ensures r == iban_ok(m@) { unimplemented!() } }
impl NirChecksum { #[verifier::external_body] pub fn is_valid_match(&self, m: &str) -> (r: bool) ensures r == nir_ok(m@) { unimplemented!() } }
impl JwtExpirationChecker { #[verifier::external_body] pub fn is_valid_match(&self, m: &str) -> (r: bool) ensures r == jwt_ok(m@) { unimplemented!() } }
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "SecondaryValidator"
kind = "enum"
@*/
pub open spec fn accepts(v: SecondaryValidator, s: Seq<char>) -> bool {
    match v {
        SecondaryValidator::LuhnChecksum => luhn_ok(s),
        SecondaryValidator::ChineseIdChecksum => cid_ok(s),
        SecondaryValidator::GithubTokenChecksum => github_ok(s),
        SecondaryValidator::NhsCheckDigit => nhs_ok(s),
        SecondaryValidator::IbanChecker => iban_ok(s),
        SecondaryValidator::NirChecksum => nir_ok(s),
        SecondaryValidator::JwtExpirationChecker => jwt_ok(s),
    }
}
impl SecondaryValidator {
/*@extract
file = "sds/src/secondary_validation/mod.rs"
item = "Validator for SecondaryValidator::is_valid_match"
ret = "r"
contract = '''
    ensures r == accepts(*self, regex_match@),
'''
@*/
}
} // verus!
fn main() {}
