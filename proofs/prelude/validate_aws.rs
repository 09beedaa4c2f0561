// ======== AWS: every id is tried with every secret =======================================================
// `Box<dyn CompiledRuleDyn>`
#[verifier::external_body]
pub struct VpRule { x: u8 }
impl VpRule {
    pub uninterp spec fn vtype(&self) -> Option<MatchValidationType>;
    #[verifier::external_body]
    pub fn get_match_validation_type(&self) -> (r: Option<&MatchValidationType>) ensures r is Some <==> self.vtype() is Some, r is Some ==> *r->0 == self.vtype()->0 { unimplemented!() }
}
pub open spec fn is_id(rules: Seq<VpRule>, m: RuleMatch) -> bool { let t = rules[m.rule_index as int].vtype(); t is Some && t->0 is Aws && t->0->Aws_0 is AwsId }
pub open spec fn is_secret(rules: Seq<VpRule>, m: RuleMatch) -> bool { let t = rules[m.rule_index as int].vtype(); t is Some && t->0 is Aws && t->0->Aws_0 is AwsSecret }
// the secret in a match; whether an id can be part of a header; whether the endpoint is a URL; the signed request
pub uninterp spec fn sendable(id: VpStr) -> bool;
pub uninterp spec fn is_url(e: VpStr) -> bool;
#[verifier::external_body]
pub struct VpHeaders { x: u8 }
pub struct AwsReq { pub url: VpStr, pub headers: Option<Map<VpStr, VpStr>>, pub body: Option<VpStr>, pub timeout: Option<Duration> }
pub uninterp spec fn aws_answer(r: AwsReq) -> Result<u16, VpError>;
pub struct VpAwsRequest { pub r: Ghost<AwsReq> }
impl VpAwsRequest {
    #[verifier::external_body] pub fn post(url: &VpStr) -> (r: Self) ensures r.r@ == (AwsReq { url: *url, headers: None, body: None, timeout: None }) { unimplemented!() }
    #[verifier::external_body] pub fn headers(self, h: VpHeaders) -> (r: Self) ensures r.r@ == (AwsReq { headers: Some(h.all()), ..self.r@ }) { unimplemented!() }
    #[verifier::external_body] pub fn body(self, b: VpStr) -> (r: Self) ensures r.r@ == (AwsReq { body: Some(b), ..self.r@ }) { unimplemented!() }
    #[verifier::external_body] pub fn vp_timeout(self, d: &Duration) -> (r: Self) ensures r.r@ == (AwsReq { timeout: Some(*d), ..self.r@ }) { unimplemented!() }
    #[verifier::external_body] pub fn send(self) -> (r: Result<Response, VpError>)
        ensures match r { Ok(x) => aws_answer(self.r@) == Ok::<u16, VpError>(x.code), Err(e) => aws_answer(self.r@) == Err::<u16, VpError>(e) } { unimplemented!() }
}
// `AWS_SECRET_REGEX`: the first place where it matches, and its first group
pub uninterp spec fn secret_found(v: VpStr) -> Option<VpStr>;
pub open spec fn secret_in(v: VpStr) -> VpStr { match secret_found(v) { Some(s) => s, None => text_of(""@) } }
pub struct VpCaps { pub s: VpStr }
#[verifier::external_body]
pub fn vp_captures(v: &VpStr) -> (r: Option<VpCaps>) ensures r is Some <==> secret_found(*v) is Some, r is Some ==> r->0.s == secret_found(*v)->0 { unimplemented!() }
/*@extract
file = "sds/src/match_validation/aws_validator.rs"
item = "extract_aws_secret_from_match"
contract = "ensures r == secret_in(*match_value),"
[[rewrite]]
from = "match_value: &str"
to = "match_value: &VpStr"
[[rewrite]]
from = "-> String"
to = "-> (r: VpStr)"
[[rewrite]]
from = "AWS_SECRET_REGEX.captures($x)"
to = "vp_captures($x)"
[[rewrite]]
from = "caps[1].to_string()"
to = "caps.s.clone()"
[[rewrite]]
from = '"".to_string()'
to = 'vp_text("")'
@*/
// ---- the signed request: aws-sign-v4 and the header map by assumed contracts ----
pub struct Sign { pub method: VpStr, pub url: VpStr, pub at: VpDate, pub headers: Map<VpStr, VpStr>, pub region: VpStr, pub id: VpStr, pub secret: VpStr, pub service: VpStr, pub body: VpStr }
pub uninterp spec fn signature(s: Sign) -> VpStr;
pub uninterp spec fn date_text(d: VpDate) -> VpStr;
pub uninterp spec fn printable(v: VpStr) -> bool;     // can be the value of a header
pub open spec fn plain_headers(at: VpDate) -> Map<VpStr, VpStr> {
    Map::<VpStr, VpStr>::empty().insert(text_of("X-Amz-Date"@), date_text(at)).insert(text_of("Accept-Encoding"@), text_of("identity"@))
        .insert(text_of("Content-Type"@), text_of("application/x-www-form-urlencoded; charset=utf-8"@)).insert(text_of("host"@), text_of("sts.us-east-1.amazonaws.com"@))
}
pub open spec fn aws_body() -> VpStr { text_of("Action=GetCallerIdentity&Version=2011-06-15"@) }
pub open spec fn to_sign(at: VpDate, endpoint: VpStr, id: VpStr, secret: VpStr) -> Sign {
    Sign { method: text_of("POST"@), url: endpoint, at: at, headers: plain_headers(at), region: text_of("us-east-1"@), id: id, secret: secret, service: text_of("sts"@), body: aws_body() }
}
pub open spec fn signed(at: VpDate, endpoint: VpStr, id: VpStr, secret: VpStr) -> (VpStr, Map<VpStr, VpStr>) {
    (aws_body(), plain_headers(at).insert(text_of("authorization"@), signature(to_sign(at, endpoint, id, secret))))
}
impl VpHeaders {
    pub uninterp spec fn all(self) -> Map<VpStr, VpStr>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.all() == Map::<VpStr, VpStr>::empty() { unimplemented!() }
    // `insert(k, v.parse().unwrap())`: the text can be the value of a header
    #[verifier::external_body] pub fn vp_insert(&mut self, k: VpStr, v: VpStr)
        requires printable(v), ensures final(self).all() == old(self).all().insert(k, v) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_date(d: &VpDate) -> (r: VpStr) ensures r == date_text(*d) { unimplemented!() }
#[verifier::external_body]
pub fn vp_auth() -> (r: VpStr) ensures r == text_of("authorization"@) { unimplemented!() }
pub struct VpSign { pub s: Ghost<Sign> }
impl VpSign {
    // panics unless the endpoint is a URL
    #[verifier::external_body] pub fn new(method: VpStr, url: &VpStr, at: &VpDate, headers: &VpHeaders, region: VpStr, id: &VpStr, secret: &VpStr, service: VpStr, body: &VpStr) -> (r: Self)
        requires is_url(*url),
        ensures r.s@ == (Sign { method: method, url: *url, at: *at, headers: headers.all(), region: region, id: *id, secret: *secret, service: service, body: *body }) { unimplemented!() }
    #[verifier::external_body] pub fn sign(&self) -> (r: VpStr) ensures r == signature(self.s@) { unimplemented!() }
}
// header names differ; constant texts and dates are printable; a signature is if the id is (the rest of it is hex digits, dates and constants)
#[verifier::external_body]
pub proof fn axiom_headers()
    ensures
        forall|a: Seq<char>, b: Seq<char>| #[trigger] text_of(a) == #[trigger] text_of(b) ==> a == b,
        forall|s: Sign| sendable(s.id) ==> printable(#[trigger] signature(s)), forall|d: VpDate| printable(#[trigger] date_text(d)),
        printable(text_of("identity"@)), printable(text_of("application/x-www-form-urlencoded; charset=utf-8"@)), printable(text_of("sts.us-east-1.amazonaws.com"@)),
{}
/*@extract
file = "sds/src/match_validation/validator_utils.rs"
item = "generate_aws_headers_and_body"
contract = '''
    requires is_url(*endpoint), sendable(*aws_id),
    ensures (r.0, r.1.all()) == signed(*datetime, *endpoint, *aws_id, *aws_secret),
'''
start = '''proof { axiom_headers();
    reveal_strlit("X-Amz-Date"); reveal_strlit("Accept-Encoding"); reveal_strlit("Content-Type"); reveal_strlit("host"); reveal_strlit("authorization");
    assert("X-Amz-Date"@.len() == 10 && "Accept-Encoding"@.len() == 15 && "Content-Type"@.len() == 12 && "host"@.len() == 4 && "authorization"@.len() == 13); }'''
[[rewrite]]
from = "datetime: &DateTime<Utc>, endpoint: &str, aws_id: &str, aws_secret: &str"
to = "datetime: &VpDate, endpoint: &VpStr, aws_id: &VpStr, aws_secret: &VpStr"
[[rewrite]]
from = "-> (String, reqwest::header::HeaderMap)"
to = "-> (r: (VpStr, VpHeaders))"
[[rewrite]]
from = "reqwest::header::HeaderMap::new()"
to = "VpHeaders::new()"
[[rewrite]]
from = 'datetime.format("%Y%m%dT%H%M%SZ").to_string()'
to = "vp_date(datetime)"
[[rewrite]]
from = 'headers.insert("X-Amz-Date", datetime_str.parse().unwrap())'
to = 'headers.vp_insert(vp_text("X-Amz-Date"), datetime_str)'
[[rewrite]]
from = 'headers.insert("Accept-Encoding", "identity".parse().unwrap())'
to = 'headers.vp_insert(vp_text("Accept-Encoding"), vp_text("identity"))'
[[rewrite]]
from = 'headers.insert("Content-Type", "application/x-www-form-urlencoded; charset=utf-8".parse().unwrap(),)'
to = 'headers.vp_insert(vp_text("Content-Type"), vp_text("application/x-www-form-urlencoded; charset=utf-8"))'
[[rewrite]]
from = 'headers.insert("host", "sts.us-east-1.amazonaws.com".parse().unwrap())'
to = 'headers.vp_insert(vp_text("host"), vp_text("sts.us-east-1.amazonaws.com"))'
[[rewrite]]
from = '"Action=GetCallerIdentity&Version=2011-06-15".to_string()'
to = 'vp_text("Action=GetCallerIdentity&Version=2011-06-15")'
[[rewrite]]
from = "aws_sign_v4::AwsSign::new"
to = "VpSign::new"
[[rewrite]]
from = '"POST"'
to = 'vp_text("POST")'
[[rewrite]]
from = '"us-east-1"'
to = 'vp_text("us-east-1")'
[[rewrite]]
from = '"sts"'
to = 'vp_text("sts")'
[[rewrite]]
from = "body.as_str()"
to = "&body"
[[rewrite]]
from = "headers.insert(reqwest::header::AUTHORIZATION, signature.parse().unwrap())"
to = "headers.vp_insert(vp_auth(), signature)"
[[after]]
pattern = "headers.insert(reqwest::header::AUTHORIZATION, signature.parse().unwrap());"
text = "proof { assert(headers.all() =~= signed(*datetime, *endpoint, *aws_id, *aws_secret).1); }"
[[after]]
pattern = "let signature = s.sign();"
text = "proof { assert(headers.all() =~= plain_headers(*datetime)); }"
@*/
#[verifier::external_body]
pub fn vp_bad_url(e: &VpStr) -> (r: bool) ensures r == !is_url(*e) { unimplemented!() }
#[verifier::external_body]
pub fn vp_unsendable(id: &VpStr) -> (r: bool) ensures r == !sendable(*id) { unimplemented!() }
#[verifier::external_body]
pub fn vp_now() -> VpDate { unimplemented!() }
pub open spec fn aws_class(code: u16, s: MatchStatus) -> bool {
    &&& 200 <= code < 300 ==> s == MatchStatus::Valid
    &&& 400 <= code < 500 ==> s == MatchStatus::Invalid
    &&& 500 <= code < 600 ==> s == MatchStatus::Error(unexpected_text(code))
    &&& !(200 <= code < 300) && !(400 <= code < 600) ==> s == MatchStatus::NotChecked
}
pub open spec fn aws_req(c: AwsConfig, at: VpDate, id: VpStr, secret: VpStr) -> AwsReq {
    let b = signed(at, c.aws_sts_endpoint, id, secret_in(secret));
    AwsReq { url: c.aws_sts_endpoint, headers: Some(b.1), body: Some(b.0), timeout: Some(c.timeout) }
}
// s is the status of the pair: that of the answer to the request signed with them (at the configured time, or now)
pub open spec fn aws_outcome(c: AwsConfig, id: Option<VpStr>, secret: Option<VpStr>, s: MatchStatus) -> bool {
    if id is None || secret is None || !is_url(c.aws_sts_endpoint) || !sendable(id->0) { s is Error }
    else { exists|at: VpDate| (c.forced_datetime_utc is Some ==> at == c.forced_datetime_utc->0) && (match #[trigger] aws_answer(aws_req(c, at, id->0, secret->0)) { Ok(code) => aws_class(code, s), Err(e) => s == MatchStatus::Error(failed_text(e)) }) }
}
/*@extract
file = "sds/src/match_validation/aws_validator.rs"
item = "handle_reqwest_response"
contract = "requires *old(match_status) == MatchStatus::NotChecked, ensures aws_class(val.code, *final(match_status)),"
[[rewrite]]
from = "reqwest::blocking::Response"
to = "Response"
[[rewrite]]
from = 'fmt::format(format_args!("Unexpected HTTP status code {}", $x))'
to = "vp_unexpected($x)"
@*/
// `AHashMap<(usize, usize), MatchStatus>`: its entries, in any order, each key once
pub struct VpPairs { pub v: Vec<((usize, usize), MatchStatus)> }
pub open spec fn is_pair(rules: Seq<VpRule>, m: Seq<RuleMatch>, i: int, s: int) -> bool { 0 <= i < m.len() && 0 <= s < m.len() && is_id(rules, m[i]) && is_secret(rules, m[s]) }
impl VpPairs {
    pub open spec fn has(&self, i: int, s: int) -> bool { exists|k: int| 0 <= k < self.v@.len() && ((#[trigger] self.v@[k]).0).0 == i && (self.v@[k].0).1 == s }
    pub open spec fn over(&self, rules: Seq<VpRule>, m: Seq<RuleMatch>) -> bool {
        &&& forall|k: int| 0 <= k < self.v@.len() ==> is_pair(rules, m, ((#[trigger] self.v@[k]).0).0 as int, (self.v@[k].0).1 as int)
        &&& forall|i: int, s: int| #[trigger] is_pair(rules, m, i, s) ==> self.has(i, s)
    }
    pub open spec fn fresh(&self) -> bool { forall|k: int| 0 <= k < self.v@.len() ==> (#[trigger] self.v@[k]).1 == MatchStatus::NotChecked }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.v@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: (usize, usize), s: MatchStatus)
        ensures
            forall|i: int, j: int| #[trigger] final(self).has(i, j) <==> old(self).has(i, j) || (i == k.0 && j == k.1),
            forall|n: int| 0 <= n < final(self).v@.len() ==> old(self).v@.contains(#[trigger] final(self).v@[n]) || final(self).v@[n] == (k, s),
    { unimplemented!() }
}
pub open spec fn pairs_filled(c: AwsConfig, m: Seq<RuleMatch>, e: Seq<((usize, usize), MatchStatus)>) -> bool { forall|k: int| 0 <= k < e.len() ==> pair_outcome(c, m, #[trigger] e[k]) }
pub open spec fn pair_outcome(c: AwsConfig, m: Seq<RuleMatch>, e: ((usize, usize), MatchStatus)) -> bool { aws_outcome(c, m[(e.0).0 as int].match_value, m[(e.0).1 as int].match_value, e.1) }
// the statuses of the first n pairs that match j is part of
pub open spec fn pair_seen(e: Seq<((usize, usize), MatchStatus)>, n: int, j: int) -> ISet<MatchStatus> { ISet::new(|s: MatchStatus| exists|i: int| 0 <= i < n && (((#[trigger] e[i]).0).0 == j || (e[i].0).1 == j) && e[i].1 == s) }
// every pair of an id and a secret is tried, and a match ends with the strongest of its statuses
pub open spec fn aws_validated(c: AwsConfig, rules: Seq<VpRule>, a: Seq<RuleMatch>, b: Seq<RuleMatch>) -> bool {
    &&& kins(b, a)
    &&& exists|e: VpPairs| #[trigger] e.over(rules, a) && pairs_filled(c, a, e.v@) && forall|j: int| 0 <= j < a.len() ==> best((#[trigger] b[j]).match_status, a[j].match_status, pair_seen(e.v@, e.v@.len() as int, j))
}
pub open spec fn in_rules(rules: Seq<VpRule>, m: Seq<RuleMatch>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).rule_index < rules.len() }
pub open spec fn picked(v: Seq<usize>, n: int, f: spec_fn(int) -> bool) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]) < n && f(v[k] as int)
    &&& forall|i: int| 0 <= i < n && #[trigger] f(i) ==> v.contains(i as usize)
}
pub proof fn lemma_picked(v: Seq<usize>, n: int, f: spec_fn(int) -> bool, w: Seq<usize>)
    requires picked(v, n, f), 0 <= n < usize::MAX, w == (if f(n) { v.push(n as usize) } else { v }),
    ensures picked(w, n + 1, f),
{
    assert forall|i: int| 0 <= i < n + 1 && #[trigger] f(i) implies w.contains(i as usize) by {
        if i < n { assert(v.contains(i as usize)); let k = choose|k: int| 0 <= k < v.len() && v[k] == i as usize; assert(w[k] == i as usize); } else { assert(w[v.len() as int] == n as usize); }
    }
}
/*@extract
file = "sds/src/match_validation/aws_validator.rs"
item = "AwsValidator"
kind = "struct"
@*/
impl AwsValidator {
/*@extract
file = "sds/src/match_validation/aws_validator.rs"
item = "AwsValidator::new"
ret = "r"
contract = "ensures r.config == config,"
@*/
/*@extract
file = "sds/src/match_validation/aws_validator.rs"
item = "AwsValidator::get_match_status_per_pairs_of_matches_idx"
nloops = 3
contract = '''
    requires in_rules(scanner_rules@, matches@),
    ensures r.over(scanner_rules@, matches@), r.fresh(),
'''
start = "let ghost fi = |i: int| is_id(scanner_rules@, matches@[i]); let ghost fs = |i: int| is_secret(scanner_rules@, matches@[i]); let vp_n = matches.len();"
[[rewrite]]
from = "scanner_rules: &[Box<dyn CompiledRuleDyn>]"
to = "scanner_rules: &[VpRule]"
[[rewrite]]
from = "-> AHashMap<(usize, usize), MatchStatus>"
to = "-> (r: VpPairs)"
[[rewrite]]
from = "let mut aws_id_matches_idx = vec![];"
to = "let mut aws_id_matches_idx: Vec<usize> = Vec::new();"
[[rewrite]]
from = "let mut aws_secret_matches_idx = vec![];"
to = "let mut aws_secret_matches_idx: Vec<usize> = Vec::new();"
[[rewrite]]
from = "for (idx, m) in matches.iter().enumerate()"
to = "for idx in 0..vp_n"
[[rewrite]]
from = ": AHashMap<(usize, usize), MatchStatus> = AHashMap::new()"
to = ": VpPairs = VpPairs::new()"
[[rewrite]]
from = "for aws_id_match_idx in &aws_id_matches_idx"
to = "for vp_i in 0..vp_ni"
[[rewrite]]
from = "for aws_secret_match_idx in &aws_secret_matches_idx"
to = "for vp_s in 0..vp_ns"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant vp_n == matches@.len(), in_rules(scanner_rules@, matches@), picked(aws_id_matches_idx@, idx as int, fi), picked(aws_secret_matches_idx@, idx as int, fs),
        fi == (|i: int| is_id(scanner_rules@, matches@[i])), fs == (|i: int| is_secret(scanner_rules@, matches@[i])),
'''
start = "let m = &matches[idx]; let ghost i0 = aws_id_matches_idx@; let ghost s0 = aws_secret_matches_idx@;"
end = "proof { lemma_picked(i0, idx as int, fi, aws_id_matches_idx@); lemma_picked(s0, idx as int, fs, aws_secret_matches_idx@); }"
[[loop]]
n = 1
kind = "for"
before = "let vp_ni = aws_id_matches_idx.len(); let vp_ns = aws_secret_matches_idx.len();"
spec = '''
    invariant vp_ni == aws_id_matches_idx@.len(), vp_ns == aws_secret_matches_idx@.len(), match_status_per_pairs_of_matches_idx.fresh(),
        forall|a: int, b: int| 0 <= a < vp_i && 0 <= b < vp_ns ==> match_status_per_pairs_of_matches_idx.has(#[trigger] aws_id_matches_idx@[a] as int, #[trigger] aws_secret_matches_idx@[b] as int),
        within_pairs(match_status_per_pairs_of_matches_idx, aws_id_matches_idx@, aws_secret_matches_idx@),
'''
start = "let aws_id_match_idx = &aws_id_matches_idx[vp_i];"
after = '''proof {
    let p = match_status_per_pairs_of_matches_idx;
    assert forall|i: int, s: int| #[trigger] is_pair(scanner_rules@, matches@, i, s) implies p.has(i, s) by {
        assert(fi(i)); assert(fs(s));
        let a = choose|a: int| 0 <= a < aws_id_matches_idx@.len() && aws_id_matches_idx@[a] == i as usize;
        let b = choose|b: int| 0 <= b < aws_secret_matches_idx@.len() && aws_secret_matches_idx@[b] == s as usize;
        assert(p.has(aws_id_matches_idx@[a] as int, aws_secret_matches_idx@[b] as int));
    }
    assert forall|k: int| 0 <= k < p.v@.len() implies is_pair(scanner_rules@, matches@, ((#[trigger] p.v@[k]).0).0 as int, (p.v@[k].0).1 as int) by {
        assert(aws_id_matches_idx@.contains((p.v@[k].0).0)); assert(aws_secret_matches_idx@.contains((p.v@[k].0).1));
        let a = choose|a: int| 0 <= a < aws_id_matches_idx@.len() && aws_id_matches_idx@[a] == (p.v@[k].0).0;
        let b = choose|b: int| 0 <= b < aws_secret_matches_idx@.len() && aws_secret_matches_idx@[b] == (p.v@[k].0).1;
        assert(fi(aws_id_matches_idx@[a] as int)); assert(fs(aws_secret_matches_idx@[b] as int));
    }
}'''
[[loop]]
n = 2
kind = "for"
spec = '''
    invariant vp_ni == aws_id_matches_idx@.len(), vp_ns == aws_secret_matches_idx@.len(), match_status_per_pairs_of_matches_idx.fresh(), vp_i < vp_ni, aws_id_match_idx == aws_id_matches_idx@[vp_i as int],
        forall|a: int, b: int| 0 <= a < vp_i && 0 <= b < vp_ns ==> match_status_per_pairs_of_matches_idx.has(#[trigger] aws_id_matches_idx@[a] as int, #[trigger] aws_secret_matches_idx@[b] as int),
        forall|b: int| 0 <= b < vp_s ==> match_status_per_pairs_of_matches_idx.has(aws_id_matches_idx@[vp_i as int] as int, #[trigger] aws_secret_matches_idx@[b] as int),
        within_pairs(match_status_per_pairs_of_matches_idx, aws_id_matches_idx@, aws_secret_matches_idx@),
'''
start = "let aws_secret_match_idx = &aws_secret_matches_idx[vp_s]; let ghost p0 = match_status_per_pairs_of_matches_idx;"
end = '''proof {
    let p = match_status_per_pairs_of_matches_idx;
    assert forall|k: int| 0 <= k < p.v@.len() implies (#[trigger] p.v@[k]).1 == MatchStatus::NotChecked && aws_id_matches_idx@.contains((p.v@[k].0).0) && aws_secret_matches_idx@.contains((p.v@[k].0).1) by {
        if p0.v@.contains(p.v@[k]) { let q = choose|q: int| 0 <= q < p0.v@.len() && p0.v@[q] == p.v@[k]; assert(p0.v@[q].1 == MatchStatus::NotChecked); }
    }
}'''
@*/
/*@extract
file = "sds/src/match_validation/aws_validator.rs"
item = "MatchValidator for AwsValidator::validate"
kind = "closure"
closure = "for_each(|((id_index, secret_index), match_status)| $body)"
sig = "fn vp_try(&self, matches: &Vec<RuleMatch>, id_index: &usize, secret_index: &usize, match_status: &mut MatchStatus)"
contract = '''
    requires *id_index < matches@.len(), *secret_index < matches@.len(), *old(match_status) == MatchStatus::NotChecked,
    ensures aws_outcome(self.config, matches@[*id_index as int].match_value, matches@[*secret_index as int].match_value, *final(match_status)),
'''
[[rewrite]]
from = '"Missing match value for aws_secret".to_string()'
to = 'vp_text("Missing match value for aws_secret")'
[[rewrite]]
from = '"Missing match value for aws_id".to_string()'
to = 'vp_text("Missing match value for aws_id")'
[[rewrite]]
from = "chrono::Utc::now()"
to = "vp_now()"
[[rewrite]]
from = "self.config.forced_datetime_utc.unwrap()"
to = "vp_clone(self.config.forced_datetime_utc.as_ref().unwrap())"
[[rewrite]]
from = "reqwest::Url::parse($e).is_err()"
to = "vp_bad_url($e)"
[[rewrite]]
from = "reqwest::header::HeaderValue::from_str($e).is_err()"
to = "vp_unsendable($e)"
[[rewrite]]
from = '"Invalid aws_sts_endpoint".to_string()'
to = 'vp_text("Invalid aws_sts_endpoint")'
[[rewrite]]
from = '"Invalid characters in aws_id".to_string()'
to = 'vp_text("Invalid characters in aws_id")'
[[rewrite]]
from = "AWS_BLOCKING_CLIENT.post(self.config.aws_sts_endpoint.as_str())"
to = "VpAwsRequest::post(&self.config.aws_sts_endpoint)"
[[rewrite]]
from = ".timeout(self.config.timeout)"
to = ".vp_timeout(&self.config.timeout)"
[[rewrite]]
from = 'fmt::format(format_args!("Error making HTTP request: {}", $x))'
to = "vp_failed($x)"
[[before]]
pattern = "match res {"
text = "proof { let w = aws_answer(aws_req(self.config, datetime, *match_id, matches@[*secret_index as int].match_value->0)); assert(match res { Ok(x) => w == Ok::<u16, VpError>(x.code), Err(e) => w == Err::<u16, VpError>(e) }); }"
@*/
    // `par_iter_mut().for_each(vp_try)`: every entry once, in any order
    fn vp_try_all(&self, matches: &Vec<RuleMatch>, m: &mut VpPairs, rules: Ghost<Seq<VpRule>>)
        requires old(m).over(rules@, matches@), old(m).fresh(),
        ensures final(m).over(rules@, matches@), pairs_filled(self.config, matches@, final(m).v@),
    {
        let mut i: usize = 0;
        while i < m.v.len()
            invariant i <= m.v@.len(), m.v@.len() == old(m).v@.len(), forall|j: int| 0 <= j < m.v@.len() ==> (#[trigger] m.v@[j]).0 == old(m).v@[j].0,
                old(m).over(rules@, matches@), forall|j: int| i <= j < m.v@.len() ==> (#[trigger] m.v@[j]).1 == MatchStatus::NotChecked,
                forall|j: int| 0 <= j < i ==> pair_outcome(self.config, matches@, #[trigger] m.v@[j]),
            decreases m.v@.len() - i,
        {
            assert(is_pair(rules@, matches@, (old(m).v@[i as int].0).0 as int, (old(m).v@[i as int].0).1 as int));
            let k = (m.v[i].0.0, m.v[i].0.1);
            let mut s = m.v[i].1.clone();
            self.vp_try(matches, &k.0, &k.1, &mut s);
            m.v.set(i, (k, s));
            i += 1;
        }
        assert forall|k: int| 0 <= k < m.v@.len() implies is_pair(rules@, matches@, ((#[trigger] m.v@[k]).0).0 as int, (m.v@[k].0).1 as int) by { assert(old(m).v@[k].0 == m.v@[k].0); }
        assert forall|a: int, b: int| #[trigger] is_pair(rules@, matches@, a, b) implies m.has(a, b) by { assert(old(m).has(a, b)); let k = choose|k: int| 0 <= k < old(m).v@.len() && ((#[trigger] old(m).v@[k]).0).0 == a && (old(m).v@[k].0).1 == b; assert(m.v@[k].0 == old(m).v@[k].0); }
    }
/*@extract
file = "sds/src/match_validation/aws_validator.rs"
item = "MatchValidator for AwsValidator::validate"
contract = '''
    requires in_rules(scanner_rules@, old(matches)@),
    ensures aws_validated(self.config, scanner_rules@, old(matches)@, final(matches)@),
'''
[[rewrite]]
from = "scanner_rules: &[Box<dyn CompiledRuleDyn>]"
to = "scanner_rules: &[VpRule]"
[[rewrite]]
from = "AHashMap<(usize, usize), MatchStatus>"
to = "VpPairs"
[[rewrite]]
from = "match_status_per_pairs_of_matches_idx.par_iter_mut().for_each($f);"
to = "self.vp_try_all(matches, &mut match_status_per_pairs_of_matches_idx, Ghost(scanner_rules@)); proof { assert(match_status_per_pairs_of_matches_idx.over(scanner_rules@, old(matches)@)); }"
@*/
}
pub open spec fn within_pairs(p: VpPairs, ids: Seq<usize>, secrets: Seq<usize>) -> bool { forall|k: int| 0 <= k < p.v@.len() ==> ids.contains(((#[trigger] p.v@[k]).0).0) && secrets.contains((p.v@[k].0).1) }
/*@extract
file = "sds/src/match_validation/aws_validator.rs"
item = "merge_returned_match_status_with_better_status"
contract = '''
    requires forall|k: int| 0 <= k < match_status_per_pairs_of_matches_idx.v@.len() ==> ((#[trigger] match_status_per_pairs_of_matches_idx.v@[k]).0).0 < old(matches)@.len() && (match_status_per_pairs_of_matches_idx.v@[k].0).1 < old(matches)@.len(),
    ensures kins(final(matches)@, old(matches)@), forall|j: int| 0 <= j < final(matches)@.len() ==> best((#[trigger] final(matches)@[j]).match_status, old(matches)@[j].match_status, pair_seen(match_status_per_pairs_of_matches_idx.v@, match_status_per_pairs_of_matches_idx.v@.len() as int, j)),
'''
[[rewrite]]
from = "matches: &mut [RuleMatch]"
to = "matches: &mut Vec<RuleMatch>"
[[rewrite]]
from = "AHashMap<(usize, usize), MatchStatus>"
to = "VpPairs"
[[rewrite]]
from = "for ((id_index, secret_index), match_status) in match_status_per_pairs_of_matches_idx"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = "matches[*id_index].match_status.merge($s);"
to = "vp_merge(matches, *id_index, $s);"
[[rewrite]]
from = "matches[*secret_index].match_status.merge($s);"
to = "vp_merge(matches, *secret_index, $s);"
[[loop]]
n = 0
kind = "for"
before = "proof { axiom_text_lt(); } let vp_n = match_status_per_pairs_of_matches_idx.v.len(); let ghost e = match_status_per_pairs_of_matches_idx.v@;"
spec = '''
    invariant
        vp_n == e.len(), e == match_status_per_pairs_of_matches_idx.v@, kins(matches@, old(matches)@),
        forall|k: int| 0 <= k < e.len() ==> ((#[trigger] e[k]).0).0 < matches@.len() && (e[k].0).1 < matches@.len(),
        forall|j: int| 0 <= j < matches@.len() ==> best((#[trigger] matches@[j]).match_status, old(matches)@[j].match_status, pair_seen(e, vp_i as int, j)),
'''
start = '''let id_index = &match_status_per_pairs_of_matches_idx.v[vp_i].0.0; let secret_index = &match_status_per_pairs_of_matches_idx.v[vp_i].0.1; let match_status = &match_status_per_pairs_of_matches_idx.v[vp_i].1; let ghost m0 = matches@;
    proof { assert(e[vp_i as int].0 == ((*id_index, *secret_index))); }'''
end = '''proof {
    axiom_text_lt();
    assert forall|j: int| 0 <= j < matches@.len() implies best((#[trigger] matches@[j]).match_status, old(matches)@[j].match_status, pair_seen(e, vp_i + 1, j)) by {
        assert(best(m0[j].match_status, old(matches)@[j].match_status, pair_seen(e, vp_i as int, j)));
        lemma_pair_seen(e, vp_i as int, j);
        if j == *id_index || j == *secret_index { lemma_best(m0[j].match_status, old(matches)@[j].match_status, pair_seen(e, vp_i as int, j), *match_status); }
    }
}'''
@*/
pub proof fn lemma_pair_seen(e: Seq<((usize, usize), MatchStatus)>, n: int, j: int)
    requires 0 <= n < e.len(),
    ensures pair_seen(e, n + 1, j) == (if (e[n].0).0 == j || (e[n].0).1 == j { pair_seen(e, n, j).insert(e[n].1) } else { pair_seen(e, n, j) }),
{
    let t = if (e[n].0).0 == j || (e[n].0).1 == j { pair_seen(e, n, j).insert(e[n].1) } else { pair_seen(e, n, j) };
    assert forall|s: MatchStatus| t.contains(s) implies #[trigger] pair_seen(e, n + 1, j).contains(s) by {
        if ((e[n].0).0 == j || (e[n].0).1 == j) && s == e[n].1 { assert((((e[n]).0).0 == j || (e[n].0).1 == j) && e[n].1 == s); }
    }
    assert(pair_seen(e, n + 1, j) =~= t);
}
