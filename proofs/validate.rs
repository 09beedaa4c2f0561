use vstd::prelude::*;
use std::ops::Range;
verus! {
// ======== values that are only passed on ================================================================
#[verifier::external_body]
pub struct VpStr { x: u8 }
#[verifier::external_body]
pub struct VpPath { x: u8 }
#[verifier::external_body]
pub struct ReplacementType { x: u8 }
#[verifier::external_body]
pub struct Duration { x: u8 }
#[verifier::external_body]
pub struct VpDate { x: u8 }
#[verifier::external_body]
pub struct VpError { x: u8 }
impl VpStr {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    // the text contains $HOST; $HOST, $MATCH replaced everywhere by another text
    pub uninterp spec fn has_host(self) -> bool;
    pub uninterp spec fn host(self, h: VpStr) -> VpStr;
    pub uninterp spec fn with_match(self, m: VpStr) -> VpStr;
    #[verifier::external_body] pub fn vp_has_host(&self) -> (r: bool) ensures r == self.has_host() { unimplemented!() }
    #[verifier::external_body] pub fn vp_host(&self, h: &VpStr) -> (r: VpStr) ensures r == self.host(*h) { unimplemented!() }
    #[verifier::external_body] pub fn vp_with_match(&self, m: &VpStr) -> (r: VpStr) ensures r == self.with_match(*m) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub uninterp spec fn unexpected_text(code: u16) -> VpStr;
pub uninterp spec fn failed_text(e: VpError) -> VpStr;
pub uninterp spec fn text_of(s: Seq<char>) -> VpStr;
#[verifier::external_body]
pub fn vp_unexpected(code: u16) -> (r: VpStr) ensures r == unexpected_text(code) { unimplemented!() }
#[verifier::external_body]
pub fn vp_failed(e: VpError) -> (r: VpStr) ensures r == failed_text(e) { unimplemented!() }
#[verifier::external_body]
pub fn vp_text(s: &str) -> (r: VpStr) ensures r == text_of(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_err() -> VpError { unimplemented!() }

// ======== statuses (order and merge: C12, unit status) ===================================================
/*@extract
file = "sds/src/match_validation/match_status.rs"
item = "MatchStatus"
kind = "enum"
derive_order = true
[[rewrite]]
from = "Error(String)"
to = "Error(VpStr)"
@*/
pub uninterp spec fn text_lt(a: VpStr, b: VpStr) -> bool;
#[verifier::external_body]
pub proof fn axiom_text_lt()
    ensures
        forall|a: VpStr| !(#[trigger] text_lt(a, a)),
        forall|a: VpStr, b: VpStr| !(#[trigger] text_lt(a, b) && text_lt(b, a)),
        forall|a: VpStr, b: VpStr, c: VpStr| #[trigger] text_lt(a, b) && #[trigger] text_lt(b, c) ==> text_lt(a, c),
        forall|a: VpStr, b: VpStr| #[trigger] text_lt(a, b) || text_lt(b, a) || a == b,
{}
pub open spec fn weaker(a: MatchStatus, b: MatchStatus) -> bool { a.vp_rank() < b.vp_rank() || (a is Error && b is Error && text_lt(a->Error_0, b->Error_0)) }
pub open spec fn join(a: MatchStatus, b: MatchStatus) -> MatchStatus { if weaker(a, b) { b } else { a } }
impl MatchStatus {
    #[verifier::external_body] pub fn merge(&mut self, n: MatchStatus) ensures *final(self) == join(*old(self), n) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// r is the strongest of the old status and those in s
pub open spec fn best(r: MatchStatus, old: MatchStatus, s: ISet<MatchStatus>) -> bool {
    &&& r == old || s.contains(r)
    &&& !weaker(r, old) && forall|x: MatchStatus| #[trigger] s.contains(x) ==> !weaker(r, x)
}
pub proof fn lemma_best(r: MatchStatus, old: MatchStatus, s: ISet<MatchStatus>, x: MatchStatus)
    requires best(r, old, s),
    ensures best(join(r, x), old, s.insert(x)),
{ axiom_text_lt(); }
// whatever the order of the answers: at most one strongest
pub proof fn theorem_best(a: MatchStatus, b: MatchStatus, old: MatchStatus, s: ISet<MatchStatus>)
    requires best(a, old, s), best(b, old, s),
    ensures a == b,
{ axiom_text_lt(); }

// ======== matches =======================================================================================
/*@extract
file = "sds/src/rule_match.rs"
item = "RuleMatch"
kind = "struct"
[[rewrite]]
from = "path: Path<'static>"
to = "path: VpPath"
[[rewrite]]
from = "Option<String>"
to = "Option<VpStr>"
@*/
// the same match, apart from its status
pub open spec fn kin(a: RuleMatch, b: RuleMatch) -> bool { a == (RuleMatch { match_status: a.match_status, ..b }) }
pub open spec fn kins(a: Seq<RuleMatch>, b: Seq<RuleMatch>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> kin(#[trigger] a[i], b[i]) }
pub fn vp_merge(v: &mut Vec<RuleMatch>, i: usize, s: MatchStatus)
    requires i < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, RuleMatch { match_status: join(old(v)@[i as int].match_status, s), ..old(v)@[i as int] }),
{ v[i].match_status.merge(s); }

// ======== configuration =================================================================================
/*@extract
file = "sds/src/match_validation/config.rs"
item = "AwsConfig"
kind = "struct"
[[rewrite]]
from = "aws_sts_endpoint: String"
to = "aws_sts_endpoint: VpStr"
[[rewrite]]
from = "DateTime<Utc>"
to = "VpDate"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "AwsType"
kind = "enum"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpMethod"
kind = "enum"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "RequestHeader"
kind = "struct"
[[rewrite]]
from = "String"
to = "VpStr"
all = true
@*/
impl RequestHeader {
/*@extract
file = "sds/src/match_validation/config.rs"
item = "RequestHeader::get_value_with_match"
contract = "ensures r == self.value.with_match(*matche),"
[[rewrite]]
from = "matche: &str"
to = "matche: &VpStr"
[[rewrite]]
from = "-> String"
to = "-> (r: VpStr)"
[[rewrite]]
from = '.replace("$MATCH", $m)'
to = ".vp_with_match($m)"
@*/
}
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorOption"
kind = "struct"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfig"
kind = "struct"
[[rewrite]]
from = "Vec<String>"
to = "Vec<VpStr>"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "MatchValidationType"
kind = "enum"
@*/
pub uninterp spec fn secs(n: u64) -> Duration;
#[verifier::external_body]
pub fn vp_secs(n: u64) -> (r: Duration) ensures r == secs(n) { unimplemented!() }
/*@extract
file = "sds/src/match_validation/config.rs"
item = "DEFAULT_HTTPS_TIMEOUT_SEC"
kind = "const"
@*/
// `vec![x]`
pub fn vp_one<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }
pub open spec fn default_ranges(ok: Seq<Range<u16>>, bad: Seq<Range<u16>>) -> bool { ok == seq![Range { start: 200u16, end: 300u16 }] && bad == seq![Range { start: 400u16, end: 500u16 }] }
impl AwsConfig {
/*@extract
file = "sds/src/match_validation/config.rs"
item = "Default for AwsConfig::default"
contract = 'ensures r.aws_sts_endpoint == text_of("https://sts.amazonaws.com"@), r.forced_datetime_utc is None, r.timeout == secs(3),'
ret = "r"
[[rewrite]]
from = '"https://sts.amazonaws.com".to_string()'
to = 'vp_text("https://sts.amazonaws.com")'
[[rewrite]]
from = "Duration::from_secs($n)"
to = "vp_secs($n)"
@*/
}
pub open spec fn endpoints_of(e: VpStr, hosts: Seq<VpStr>) -> Seq<VpStr> { if hosts.len() == 0 { seq![e] } else { Seq::new(hosts.len(), |i: int| e.host(hosts[i])) } }
impl HttpValidatorConfig {
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfig::new"
contract = '''
    ensures
        r is Ok <==> (endpoint.has_host() <==> hosts@.len() > 0),
        r is Ok ==> ({ let c = r->Ok_0;
            &&& c.endpoints@ == endpoints_of(*endpoint, hosts@) && c.method is Get && c.request_header@.len() == 0
            &&& default_ranges(c.valid_http_status_code@, c.invalid_http_status_code@) && c.options.timeout == secs(3) }),
'''
[[rewrite]]
from = "endpoint: &str, hosts: Vec<String>"
to = "endpoint: &VpStr, hosts: Vec<VpStr>"
[[rewrite]]
from = "-> Result<Self, String>"
to = "-> (r: Result<Self, VpError>)"
[[rewrite]]
from = 'endpoint.contains("$HOST")'
to = "endpoint.vp_has_host()"
all = true
[[rewrite]]
from = '"Endpoint contains $HOST but no hosts are provided".to_string()'
to = "vp_err()"
[[rewrite]]
from = '"Endpoint does not contain $HOST but hosts are provided".to_string()'
to = "vp_err()"
[[rewrite]]
from = "let mut endpoints = vec![];"
to = "let mut endpoints: Vec<VpStr> = Vec::new();"
[[rewrite]]
from = "for host in hosts"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = 'endpoint.replace("$HOST", $h)'
to = "endpoint.vp_host($h)"
[[rewrite]]
from = "endpoint.to_string()"
to = "endpoint.clone()"
[[rewrite]]
from = "valid_http_status_code: vec![$x]"
to = "valid_http_status_code: vp_one($x)"
[[rewrite]]
from = "invalid_http_status_code: vec![$x]"
to = "invalid_http_status_code: vp_one($x)"
[[rewrite]]
from = "request_header: vec![]"
to = "request_header: Vec::new()"
[[rewrite]]
from = "Duration::from_secs($n)"
to = "vp_secs($n)"
[[loop]]
n = 0
kind = "for"
before = "let vp_n = hosts.len();"
spec = '''
    invariant vp_n == hosts@.len(), endpoints@ == Seq::new(vp_i as nat, |i: int| endpoint.host(hosts@[i])),
'''
start = "let host = vp_clone(&hosts[vp_i]); let ghost o = endpoints@;"
end = "proof { assert(endpoints@ =~= Seq::new((vp_i + 1) as nat, |i: int| endpoint.host(hosts@[i]))); }"
[[after]]
pattern = "endpoints.push(endpoint.to_string());"
text = "proof { assert(endpoints@ =~= seq![*endpoint]); }"
@*/
}
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfigBuilder"
kind = "struct"
[[rewrite]]
from = "endpoint: String, hosts: Vec<String>, method:"
to = "pub endpoint: VpStr, pub hosts: Vec<VpStr>, pub method:"
[[rewrite]]
from = "request_header:"
to = "pub request_header:"
[[rewrite]]
from = "valid_http_status_code:"
to = "pub valid_http_status_code:"
[[rewrite]]
from = "invalid_http_status_code:"
to = "pub invalid_http_status_code:"
[[rewrite]]
from = "options:"
to = "pub options:"
@*/
impl HttpValidatorConfigBuilder {
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfigBuilder::new"
ret = "r"
contract = '''
    ensures
        r.endpoint == endpoint, r.hosts@.len() == 0, r.method is Get, default_ranges(r.valid_http_status_code@, r.invalid_http_status_code@), r.options.timeout == secs(3),
        r.request_header@ == seq![RequestHeader { key: text_of("Authorization"@), value: text_of("Bearer $MATCH"@) }],
'''
[[rewrite]]
from = "endpoint: String"
to = "endpoint: VpStr"
[[rewrite]]
from = "hosts: vec![]"
to = "hosts: Vec::new()"
[[rewrite]]
from = "valid_http_status_code: vec![$x]"
to = "valid_http_status_code: vp_one($x)"
[[rewrite]]
from = "invalid_http_status_code: vec![$x]"
to = "invalid_http_status_code: vp_one($x)"
[[rewrite]]
from = 'vec![RequestHeader { key: "Authorization".to_string(), value: "Bearer $MATCH".to_string(), }]'
to = 'vp_one(RequestHeader { key: vp_text("Authorization"), value: vp_text("Bearer $MATCH") })'
[[rewrite]]
from = "Duration::from_secs($n)"
to = "vp_secs($n)"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfigBuilder::build"
contract = '''
    ensures
        r is Ok <==> (self.endpoint.has_host() <==> self.hosts@.len() > 0),
        r is Ok ==> ({ let c = r->Ok_0;
            &&& c.endpoints@ == endpoints_of(self.endpoint, self.hosts@) && c.method == self.method && c.request_header == self.request_header
            &&& c.valid_http_status_code == self.valid_http_status_code && c.invalid_http_status_code == self.invalid_http_status_code && c.options == self.options }),
'''
[[rewrite]]
from = "-> Result<HttpValidatorConfig, String>"
to = "-> (r: Result<HttpValidatorConfig, VpError>)"
[[rewrite]]
from = "self.endpoint.as_str()"
to = "&self.endpoint"
[[rewrite]]
from = "self.hosts.clone()"
to = "vp_clone(&self.hosts)"
[[rewrite]]
from = "self.invalid_http_status_code.clone()"
to = "vp_clone(&self.invalid_http_status_code)"
all = true
[[rewrite]]
from = "self.method.clone()"
to = "vp_clone(&self.method)"
[[rewrite]]
from = "self.request_header.clone()"
to = "vp_clone(&self.request_header)"
[[rewrite]]
from = "self.valid_http_status_code.clone()"
to = "vp_clone(&self.valid_http_status_code)"
[[rewrite]]
from = "self.options.clone()"
to = "vp_clone(&self.options)"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfigBuilder::set_request_header"
ret = "r"
contract = "ensures *old(self) == (HttpValidatorConfigBuilder { request_header: old(self).request_header, ..*r }), r.request_header == request_header, *final(self) == *final(r),"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfigBuilder::set_hosts"
ret = "r"
contract = "ensures *old(self) == (HttpValidatorConfigBuilder { hosts: old(self).hosts, ..*r }), r.hosts == hosts, *final(self) == *final(r),"
[[rewrite]]
from = "Vec<String>"
to = "Vec<VpStr>"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfigBuilder::set_method"
ret = "r"
contract = "ensures *old(self) == (HttpValidatorConfigBuilder { method: old(self).method, ..*r }), r.method == method, *final(self) == *final(r),"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfigBuilder::set_valid_http_status_code"
ret = "r"
contract = "ensures *old(self) == (HttpValidatorConfigBuilder { valid_http_status_code: old(self).valid_http_status_code, ..*r }), r.valid_http_status_code == valid_http_status_code, *final(self) == *final(r),"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfigBuilder::set_invalid_http_status_code"
ret = "r"
contract = "ensures *old(self) == (HttpValidatorConfigBuilder { invalid_http_status_code: old(self).invalid_http_status_code, ..*r }), r.invalid_http_status_code == invalid_http_status_code, *final(self) == *final(r),"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "HttpValidatorConfigBuilder::set_timeout"
ret = "r"
contract = "ensures *old(self) == (HttpValidatorConfigBuilder { options: old(self).options, ..*r }), r.options.timeout == timeout, *final(self) == *final(r),"
@*/
}
// ======== HTTP: what is sent, and what the answer means ==================================================
pub struct Req { pub method: HttpMethod, pub url: VpStr, pub timeout: Option<Duration>, pub headers: Seq<(VpStr, VpStr)> }
// the answer to a request (during one validation): a status code or a failure
pub uninterp spec fn answer(r: Req) -> Result<u16, VpError>;
pub struct VpClient { pub x: u8 }
pub struct VpRequest { pub r: Ghost<Req> }
pub struct VpStatus { pub code: u16 }
impl VpStatus {
    pub fn as_u16(&self) -> (r: u16) ensures r == self.code { self.code }
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.code < 300) { 200 <= self.code && self.code < 300 }
    pub fn is_client_error(&self) -> (r: bool) ensures r == (400 <= self.code < 500) { 400 <= self.code && self.code < 500 }
    pub fn is_server_error(&self) -> (r: bool) ensures r == (500 <= self.code < 600) { 500 <= self.code && self.code < 600 }
}
pub struct Response { pub code: u16 }
impl Response { pub fn status(&self) -> (r: VpStatus) ensures r.code == self.code { VpStatus { code: self.code } } }
pub open spec fn req(m: HttpMethod, url: VpStr) -> Req { Req { method: m, url: url, timeout: None, headers: Seq::empty() } }
impl VpClient {
    #[verifier::external_body] pub fn get(url: &VpStr) -> (r: VpRequest) ensures r.r@ == req(HttpMethod::Get, *url) { unimplemented!() }
    #[verifier::external_body] pub fn post(url: &VpStr) -> (r: VpRequest) ensures r.r@ == req(HttpMethod::Post, *url) { unimplemented!() }
    #[verifier::external_body] pub fn put(url: &VpStr) -> (r: VpRequest) ensures r.r@ == req(HttpMethod::Put, *url) { unimplemented!() }
    #[verifier::external_body] pub fn delete(url: &VpStr) -> (r: VpRequest) ensures r.r@ == req(HttpMethod::Delete, *url) { unimplemented!() }
    #[verifier::external_body] pub fn patch(url: &VpStr) -> (r: VpRequest) ensures r.r@ == req(HttpMethod::Patch, *url) { unimplemented!() }
}
impl VpRequest {
    #[verifier::external_body] pub fn vp_timeout(self, d: &Duration) -> (r: VpRequest) ensures r.r@ == (Req { timeout: Some(*d), ..self.r@ }) { unimplemented!() }
    #[verifier::external_body] pub fn header(self, k: &VpStr, v: &VpStr) -> (r: VpRequest) ensures r.r@ == (Req { headers: self.r@.headers.push((*k, *v)), ..self.r@ }) { unimplemented!() }
    #[verifier::external_body] pub fn send(self) -> (r: Result<Response, VpError>)
        ensures match r { Ok(x) => answer(self.r@) == Ok::<u16, VpError>(x.code), Err(e) => answer(self.r@) == Err::<u16, VpError>(e) } { unimplemented!() }
}
pub fn vp_in(r: &Range<u16>, x: &u16) -> (b: bool) ensures b == (r.start <= *x < r.end) { r.start <= *x && *x < r.end }
pub open spec fn within(v: Seq<Range<u16>>, x: u16) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).start <= x < v[i].end }
pub open spec fn classify(c: HttpValidatorConfig, code: u16) -> MatchStatus {
    if within(c.valid_http_status_code@, code) { MatchStatus::Valid } else if within(c.invalid_http_status_code@, code) { MatchStatus::Invalid } else { MatchStatus::Error(unexpected_text(code)) }
}
pub open spec fn headers_for(h: Seq<RequestHeader>, v: VpStr) -> Seq<(VpStr, VpStr)> { Seq::new(h.len(), |i: int| (h[i].key, h[i].value.with_match(v))) }
pub open spec fn request_for(c: HttpValidatorConfig, e: VpStr, v: VpStr) -> Req { Req { method: c.method, url: e, timeout: Some(c.options.timeout), headers: headers_for(c.request_header@, v) } }
pub open spec fn outcome(c: HttpValidatorConfig, e: VpStr, v: VpStr) -> MatchStatus {
    match answer(request_for(c, e, v)) { Ok(code) => classify(c, code), Err(x) => MatchStatus::Error(failed_text(x)) }
}
// the statuses a match gets from the endpoints
pub open spec fn asked(c: HttpValidatorConfig, v: VpStr) -> ISet<MatchStatus> { ISet::new(|s: MatchStatus| exists|k: int| 0 <= k < c.endpoints@.len() && s == #[trigger] outcome(c, c.endpoints@[k], v)) }
pub open spec fn http_validated(c: HttpValidatorConfig, a: Seq<RuleMatch>, b: Seq<RuleMatch>) -> bool {
    kins(b, a) && forall|i: int| 0 <= i < a.len() ==> best((#[trigger] b[i]).match_status, a[i].match_status, asked(c, a[i].match_value->0))
}
/*@extract
file = "sds/src/match_validation/http_validator.rs"
item = "HttpValidator"
kind = "struct"
[[rewrite]]
from = "config:"
to = "pub config:"
@*/
// `AHashMap<(usize, &String), MatchStatus>`: its entries, in any order, each key once
pub struct VpAnswers { pub v: Vec<((usize, VpStr), MatchStatus)> }
pub open spec fn is_key(c: HttpValidatorConfig, n: int, k: (usize, VpStr)) -> bool { (k.0 as int) < n && c.endpoints@.contains(k.1) }
impl VpAnswers {
    pub open spec fn over(&self, c: HttpValidatorConfig, n: int) -> bool {
        &&& forall|i: int| 0 <= i < self.v@.len() ==> is_key(c, n, #[trigger] self.v@[i].0)
        &&& forall|k: (usize, VpStr)| #[trigger] is_key(c, n, k) ==> self.has(k)
    }
    pub open spec fn has(&self, k: (usize, VpStr)) -> bool { exists|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]).0 == k }
}
impl HttpValidator {
/*@extract
file = "sds/src/match_validation/http_validator.rs"
item = "HttpValidator::new_from_config"
ret = "r"
contract = "ensures r.config == config,"
@*/
/*@extract
file = "sds/src/match_validation/http_validator.rs"
item = "HttpValidator::handle_reqwest_response"
contract = "ensures *final(match_status) == classify(self.config, val.code),"
nloops = 2
[[rewrite]]
from = "for valid_range in &self.config.valid_http_status_code"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = "for invalid_range in &self.config.invalid_http_status_code"
to = "for vp_i in 0..vp_m"
[[rewrite]]
from = "valid_range.contains($x)"
to = "vp_in(valid_range, $x)"
[[rewrite]]
from = "invalid_range.contains($x)"
to = "vp_in(invalid_range, $x)"
[[rewrite]]
from = 'fmt::format(format_args!("Unexpected HTTP status code {}", $x))'
to = "vp_unexpected($x)"
[[loop]]
n = 0
kind = "for"
before = "let vp_n = self.config.valid_http_status_code.len();"
spec = '''
    invariant vp_n == self.config.valid_http_status_code@.len(), forall|i: int| 0 <= i < vp_i ==> !((#[trigger] self.config.valid_http_status_code@[i]).start <= val.code < self.config.valid_http_status_code@[i].end),
'''
start = "let valid_range = &self.config.valid_http_status_code[vp_i];"
[[loop]]
n = 1
kind = "for"
before = "let vp_m = self.config.invalid_http_status_code.len();"
spec = '''
    invariant vp_m == self.config.invalid_http_status_code@.len(), !within(self.config.valid_http_status_code@, val.code), forall|i: int| 0 <= i < vp_i ==> !((#[trigger] self.config.invalid_http_status_code@[i]).start <= val.code < self.config.invalid_http_status_code@[i].end),
'''
start = "let invalid_range = &self.config.invalid_http_status_code[vp_i];"
@*/
/*@extract
file = "sds/src/match_validation/http_validator.rs"
item = "MatchValidator for HttpValidator::validate"
kind = "closure"
closure = "for_each(|((match_idx, endpoint), match_status)| $body,)"
sig = "fn vp_ask(&self, matches: &Vec<RuleMatch>, match_idx: &usize, endpoint: &&VpStr, match_status: &mut MatchStatus)"
contract = '''
    requires *match_idx < matches@.len(), matches@[*match_idx as int].match_value is Some,
    ensures *final(match_status) == outcome(self.config, **endpoint, matches@[*match_idx as int].match_value->0),
'''
[[rewrite]]
from = "BLOCKING_HTTP_CLIENT."
to = "VpClient::"
all = true
[[rewrite]]
from = ".timeout(self.config.options.timeout)"
to = ".vp_timeout(&self.config.options.timeout)"
[[rewrite]]
from = "for header in &self.config.request_header"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = 'fmt::format(format_args!("Error making HTTP request: {}", $x))'
to = "vp_failed($x)"
[[loop]]
n = 0
kind = "for"
before = "let vp_n = self.config.request_header.len(); let ghost r0 = request_builder.r@; proof { assert(r0.headers =~= headers_for(self.config.request_header@.take(0), *match_value)); }"
spec = '''
    invariant vp_n == self.config.request_header@.len(), r0.method == self.config.method, r0.url == **endpoint, r0.timeout == Some(self.config.options.timeout),
        request_builder.r@ == (Req { headers: headers_for(self.config.request_header@.take(vp_i as int), *match_value), ..r0 }),
'''
start = "let header = &self.config.request_header[vp_i];"
end = "proof { assert(headers_for(self.config.request_header@.take(vp_i + 1), *match_value) =~= headers_for(self.config.request_header@.take(vp_i as int), *match_value).push((header.key, header.value.with_match(*match_value)))); }"
after = "proof { assert(self.config.request_header@.take(vp_n as int) =~= self.config.request_header@); }"
@*/
/*@extract
file = "sds/src/match_validation/http_validator.rs"
item = "MatchValidator for HttpValidator::validate"
kind = "closure"
closure = "map(move |endpoint| $body)"
sig = "fn vp_entry<'a>(idx: usize, endpoint: &'a VpStr) -> (r: ((usize, &'a VpStr), MatchStatus))"
contract = "ensures (r.0).0 == idx && *(r.0).1 == *endpoint && r.1 == MatchStatus::NotChecked,"
@*/
    // `matches.iter().enumerate().flat_map(|(idx, _)| endpoints.iter().map(vp_entry)).collect()`: keys that occur twice are kept once
    #[verifier::external_body]
    fn vp_entries(&self, matches: &Vec<RuleMatch>) -> (r: VpAnswers) ensures r.over(self.config, matches@.len() as int) { unimplemented!() }
    // `par_iter_mut().for_each(vp_ask)`: every entry once, in any order
    fn vp_ask_all(&self, matches: &Vec<RuleMatch>, m: &mut VpAnswers)
        requires old(m).over(self.config, matches@.len() as int), forall|i: int| 0 <= i < matches@.len() ==> (#[trigger] matches@[i]).match_value is Some,
        ensures final(m).over(self.config, matches@.len() as int), filled(self.config, matches@, final(m).v@),
    {
        let mut i: usize = 0;
        while i < m.v.len()
            invariant i <= m.v@.len(), m.v@.len() == old(m).v@.len(), forall|j: int| 0 <= j < m.v@.len() ==> (#[trigger] m.v@[j]).0 == old(m).v@[j].0,
                old(m).over(self.config, matches@.len() as int), forall|j: int| 0 <= j < matches@.len() ==> (#[trigger] matches@[j]).match_value is Some,
                forall|j: int| 0 <= j < i ==> is_outcome(self.config, matches@, #[trigger] m.v@[j]),
            decreases m.v@.len() - i,
        {
            assert(is_key(self.config, matches@.len() as int, old(m).v@[i as int].0));
            let k = (m.v[i].0.0, m.v[i].0.1.clone());
            let mut s = m.v[i].1.clone();
            let e = &k.1;
            self.vp_ask(matches, &k.0, &e, &mut s);
            m.v.set(i, (k, s));
            i += 1;
        }
        assert forall|k: (usize, VpStr)| #[trigger] is_key(self.config, matches@.len() as int, k) implies m.has(k) by { assert(old(m).has(k)); let j = choose|j: int| 0 <= j < old(m).v@.len() && (#[trigger] old(m).v@[j]).0 == k; assert(m.v@[j].0 == k); }
    }
/*@extract
file = "sds/src/match_validation/http_validator.rs"
item = "MatchValidator for HttpValidator::validate"
nloops = 2
contract = '''
    requires forall|i: int| 0 <= i < old(matches)@.len() ==> (#[trigger] old(matches)@[i]).match_value is Some,
    ensures http_validated(self.config, old(matches)@, final(matches)@),
'''
[[rewrite]]
from = "matches: &mut Vec<RuleMatch>, _: &[Box<dyn CompiledRuleDyn>]"
to = "matches: &mut Vec<RuleMatch>"
[[rewrite]]
from = "let mut match_status_per_endpoint_and_match: AHashMap<_, _> = matches.iter().enumerate().flat_map($f).collect();"
to = "let mut match_status_per_endpoint_and_match = self.vp_entries(matches);"
[[rewrite]]
from = "match_status_per_endpoint_and_match.par_iter_mut().for_each($f);"
to = "self.vp_ask_all(matches, &mut match_status_per_endpoint_and_match);"
[[rewrite]]
from = "for ((match_idx, _), status) in match_status_per_endpoint_and_match"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = "matches[$i].match_status.merge($s);"
to = "vp_merge(matches, $i, $s);"
[[loop]]
n = 1
kind = "for"
before = "proof { axiom_text_lt(); } let vp_n = match_status_per_endpoint_and_match.v.len(); let ghost e = match_status_per_endpoint_and_match.v@;"
spec = '''
    invariant
        vp_n == e.len(), e == match_status_per_endpoint_and_match.v@, kins(matches@, old(matches)@),
        forall|j: int| 0 <= j < e.len() ==> is_key(self.config, matches@.len() as int, (#[trigger] e[j]).0),
        forall|j: int| 0 <= j < matches@.len() ==> best((#[trigger] matches@[j]).match_status, old(matches)@[j].match_status, seen(e, vp_i as int, j)),
'''
start = "let match_idx = match_status_per_endpoint_and_match.v[vp_i].0.0; let status = &match_status_per_endpoint_and_match.v[vp_i].1; let ghost m0 = matches@; proof { assert(is_key(self.config, matches@.len() as int, e[vp_i as int].0)); }"
end = '''proof {
    assert forall|j: int| 0 <= j < matches@.len() implies best((#[trigger] matches@[j]).match_status, old(matches)@[j].match_status, seen(e, vp_i + 1, j)) by {
        assert(best(m0[j].match_status, old(matches)@[j].match_status, seen(e, vp_i as int, j)));
        lemma_seen(e, vp_i as int, j);
        if j == match_idx { lemma_best(m0[j].match_status, old(matches)@[j].match_status, seen(e, vp_i as int, j), *status); }
    }
}'''
after = '''let vp_l = matches.len(); proof {
    assert forall|j: int| 0 <= j < matches@.len() implies best((#[trigger] matches@[j]).match_status, old(matches)@[j].match_status, asked(self.config, old(matches)@[j].match_value->0)) by {
        lemma_all_seen(self.config, old(matches)@, match_status_per_endpoint_and_match, j);
    }
}'''
@*/
}
pub open spec fn is_outcome(c: HttpValidatorConfig, m: Seq<RuleMatch>, e: ((usize, VpStr), MatchStatus)) -> bool { e.1 == outcome(c, (e.0).1, m[(e.0).0 as int].match_value->0) }
pub open spec fn filled(c: HttpValidatorConfig, m: Seq<RuleMatch>, e: Seq<((usize, VpStr), MatchStatus)>) -> bool { forall|j: int| 0 <= j < e.len() ==> is_outcome(c, m, #[trigger] e[j]) }
pub open spec fn seen(e: Seq<((usize, VpStr), MatchStatus)>, n: int, j: int) -> ISet<MatchStatus> { ISet::new(|s: MatchStatus| exists|i: int| 0 <= i < n && ((#[trigger] e[i]).0).0 == j && e[i].1 == s) }
pub proof fn lemma_seen(e: Seq<((usize, VpStr), MatchStatus)>, n: int, j: int)
    requires 0 <= n < e.len(),
    ensures seen(e, n + 1, j) == (if (e[n].0).0 == j { seen(e, n, j).insert(e[n].1) } else { seen(e, n, j) }),
{
    let t = if (e[n].0).0 == j { seen(e, n, j).insert(e[n].1) } else { seen(e, n, j) };
    assert forall|s: MatchStatus| t.contains(s) implies #[trigger] seen(e, n + 1, j).contains(s) by {
        if (e[n].0).0 == j && s == e[n].1 { assert(((e[n]).0).0 == j && e[n].1 == s); }
    }
    assert(seen(e, n + 1, j) =~= t);
}
pub proof fn lemma_all_seen(c: HttpValidatorConfig, m: Seq<RuleMatch>, a: VpAnswers, j: int)
    requires a.over(c, m.len() as int), filled(c, m, a.v@), 0 <= j < m.len(), m.len() <= usize::MAX,
    ensures seen(a.v@, a.v@.len() as int, j) == asked(c, m[j].match_value->0),
{
    let v = m[j].match_value->0;
    assert forall|s: MatchStatus| seen(a.v@, a.v@.len() as int, j).contains(s) implies #[trigger] asked(c, v).contains(s) by {
        let i = choose|i: int| 0 <= i < a.v@.len() && ((#[trigger] a.v@[i]).0).0 == j && a.v@[i].1 == s;
        assert(is_key(c, m.len() as int, a.v@[i].0)); assert(is_outcome(c, m, a.v@[i]));
        let k = choose|k: int| 0 <= k < c.endpoints@.len() && c.endpoints@[k] == (a.v@[i].0).1;
        assert(s == outcome(c, c.endpoints@[k], v));
    }
    assert forall|s: MatchStatus| asked(c, v).contains(s) implies #[trigger] seen(a.v@, a.v@.len() as int, j).contains(s) by {
        let k = choose|k: int| 0 <= k < c.endpoints@.len() && s == #[trigger] outcome(c, c.endpoints@[k], v);
        let key = (j as usize, c.endpoints@[k]);
        assert(is_key(c, m.len() as int, key));
        assert(a.has(key));
        let i = choose|i: int| 0 <= i < a.v@.len() && (#[trigger] a.v@[i]).0 == key;
        assert(is_outcome(c, m, a.v@[i]));
    }
    assert(seen(a.v@, a.v@.len() as int, j) =~= asked(c, v));
}
//@include prelude/validate_aws.rs
//@include prelude/validate_scanner.rs
} // verus!
fn main() {}
