use vstd::prelude::*;
verus! {
//@include prelude/chars.rs
//@include prelude/utf8len.rs
//@include prelude/strs.rs

// serde_json::Value, seen through the two accessors the validator uses
#[verifier::external_body]
pub struct JsonValue { x: u8 }
pub uninterp spec fn field(v: JsonValue, name: Seq<char>) -> Option<JsonValue>;
pub uninterp spec fn integer(v: JsonValue) -> Option<i64>;
// the JSON value whose base64url encoding without padding is s, if there is one
pub uninterp spec fn segment_json(s: Seq<char>) -> Option<JsonValue>;
pub uninterp spec fn now() -> i64;                         // the clock reading of the call
impl JsonValue {
    #[verifier::external_body]
    pub fn get(&self, name: &str) -> (r: Option<&JsonValue>)
        ensures r is Some <==> field(*self, name@) is Some, r is Some ==> *(r->0) == field(*self, name@)->0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>) ensures r == integer(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_now() -> (r: i64) ensures r == now() { unimplemented!() }
#[verifier::external_body]
pub fn vp_decode(s: &str) -> (r: Option<JsonValue>) ensures r == segment_json(s@) { unimplemented!() }

// header.payload.signature, header and payload are JSON; without an "exp" claim the token never
// expires, otherwise "exp" must be an integer in the future.
pub open spec fn jwt_ok(s: Seq<char>) -> bool {
    let p = pieces(s, '.');
    p.len() == 3 && segment_json(p[0]) is Some && segment_json(p[1]) is Some && match field(segment_json(p[1])->0, "exp"@) {
        None => true,
        Some(e) => integer(e) is Some && integer(e)->0 > now(),
    }
}
// str::split with a one-character pattern
pub open spec fn one_char(p: Seq<char>) -> char { p[0] }
#[verifier::external_body]
pub fn vp_split_str<'a>(s: &'a str, pat: &str) -> (r: Vec<&'a str>)
    ensures pat@.len() == 1 ==> r@.len() == pieces(s@, one_char(pat@)).len()
        && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, one_char(pat@))[i],
{ s.split(pat).collect() }
/*@extract
file = "sds/src/secondary_validation/jwt_expiration_checker.rs"
item = "SEGMENTS_COUNT"
kind = "const"
@*/
/*@extract
file = "sds/src/secondary_validation/jwt_expiration_checker.rs"
item = "decode_segment"
ret = "r"
contract = '''
    ensures r == segment_json(segment@),
'''
[[rewrite]]
from = "URL_SAFE_NO_PAD.decode(segment).ok().and_then(|decoded| serde_json::from_slice(&decoded).ok())"
to = "vp_decode(segment)"
@*/
/*@extract
file = "sds/src/secondary_validation/jwt_expiration_checker.rs"
item = "decode_segments"
ret = "r"
contract = '''
    ensures
        r is Some <==> pieces(encoded_token@, '.').len() == 3 && segment_json(pieces(encoded_token@, '.')[0]) is Some && segment_json(pieces(encoded_token@, '.')[1]) is Some,
        r is Some ==> (r->0).0 == segment_json(pieces(encoded_token@, '.')[0])->0 && (r->0).1 == segment_json(pieces(encoded_token@, '.')[1])->0,
'''
start = "proof { reveal_strlit(\".\"); }"
[[rewrite]]
from = "encoded_token.split($p).collect()"
to = "vp_split_str(encoded_token, $p)"
@*/
pub struct JwtExpirationChecker;
impl JwtExpirationChecker {
/*@extract
file = "sds/src/secondary_validation/jwt_expiration_checker.rs"
item = "JwtExpirationChecker::is_valid_match"
ret = "r"
contract = '''
    ensures r == jwt_ok(regex_match@),
'''
[[rewrite]]
from = "Utc::now().timestamp()"
to = "vp_now()"
@*/
}
} // verus!
fn main() {}
