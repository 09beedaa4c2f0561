//! Match validation against a local HTTP server (loopback only) whose answers are a function of the request.
use dd_sds::*;
use drivers::Run;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
struct Req { method: String, path: String, headers: BTreeMap<String, String>, body: String }
static SALT: AtomicU64 = AtomicU64::new(0);
const CODES: &[u16] = &[200, 204, 299, 300, 304, 302, 399, 400, 401, 403, 404, 418, 499, 500, 503, 599];
fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325u64 ^ SALT.load(Ordering::SeqCst), |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
/// the answer of the server to a credential at a path
fn answer(path: &str, cred: &str) -> u16 { CODES[(fnv(&format!("{path}|{cred}")) >> 20) as usize % CODES.len()] }
fn serve(log: Arc<Mutex<Vec<Req>>>) -> u16 {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    std::thread::spawn(move || for s in l.incoming() { if let Ok(s) = s { let log = log.clone(); std::thread::spawn(move || { let _ = handle(s, log); }); } });
    port
}
fn handle(mut s: TcpStream, log: Arc<Mutex<Vec<Req>>>) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut b = BufReader::new(s.try_clone()?);
    loop {
        let mut line = String::new();
        if b.read_line(&mut line)? == 0 { return Ok(()); }
        let mut p = line.split_whitespace();
        let (method, path) = (p.next().unwrap_or("").to_string(), p.next().unwrap_or("").to_string());
        let mut headers = BTreeMap::new();
        loop {
            let mut h = vec![];
            if b.read_until(b'\n', &mut h)? == 0 { return Ok(()); }
            let h = String::from_utf8_lossy(&h).trim_end_matches(['\r', '\n']).to_string();
            if h.is_empty() { break; }
            if let Some((k, v)) = h.split_once(':') { headers.insert(k.to_ascii_lowercase(), v.trim().to_string()); }
        }
        let n: usize = headers.get("content-length").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut body = vec![0; n];
        b.read_exact(&mut body)?;
        let cred = headers.get("x-cred").or(headers.get("authorization")).cloned().unwrap_or_default();
        let code = answer(&path, &cred);
        log.lock().unwrap().push(Req { method, path, headers, body: String::from_utf8_lossy(&body).into() });
        write!(s, "HTTP/1.1 {code} X\r\nContent-Length: 0\r\n\r\n")?;
    }
}
fn range_status(code: u16, ok: &[std::ops::Range<u16>], bad: &[std::ops::Range<u16>]) -> MatchStatus {
    if ok.iter().any(|r| r.contains(&code)) { MatchStatus::Valid } else if bad.iter().any(|r| r.contains(&code)) { MatchStatus::Invalid } else { MatchStatus::Error(format!("Unexpected HTTP status code {code}")) }
}
fn rank(s: &MatchStatus) -> u8 { match s { MatchStatus::NotChecked => 0, MatchStatus::NotAvailable => 1, MatchStatus::Invalid => 2, MatchStatus::Error(_) => 3, MatchStatus::Valid => 4 } }
fn best(a: MatchStatus, b: MatchStatus) -> MatchStatus {
    match (rank(&a), rank(&b)) { (x, y) if x > y => a, (x, y) if x < y => b, _ => match (&a, &b) { (MatchStatus::Error(x), MatchStatus::Error(y)) if y > x => b, _ => a } }
}
#[derive(Clone, Debug)]
enum Kind { Plain, Http { paths: Vec<String>, method: usize, headers: Vec<(String, String)>, ok: Vec<std::ops::Range<u16>>, bad: Vec<std::ops::Range<u16>> }, Id, Secret, Session }
fn is_id(c: char) -> bool { !(c.is_control() && c != '\t') }
const METHODS: &[(&str, HttpMethod)] = &[("GET", HttpMethod::Get), ("POST", HttpMethod::Post), ("PUT", HttpMethod::Put), ("DELETE", HttpMethod::Delete), ("PATCH", HttpMethod::Patch)];
const DAY: i64 = 1_700_000_000;
fn aws_auth(endpoint: &str, id: &str, secret: &str) -> String {
    let dt = chrono::DateTime::from_timestamp(DAY, 0).unwrap();
    let mut h = http::HeaderMap::new();
    h.insert("X-Amz-Date", dt.format("%Y%m%dT%H%M%SZ").to_string().parse().unwrap());
    h.insert("Accept-Encoding", "identity".parse().unwrap());
    h.insert("Content-Type", "application/x-www-form-urlencoded; charset=utf-8".parse().unwrap());
    h.insert("host", "sts.us-east-1.amazonaws.com".parse().unwrap());
    aws_sign_v4::AwsSign::new("POST", endpoint, &dt, &h, "us-east-1", id, secret, "sts", AWS_BODY).sign()
}
const AWS_BODY: &str = "Action=GetCallerIdentity&Version=2011-06-15";
/// the first run of 40 key characters that ends at a word boundary
fn secret_of(s: &str) -> String {
    let t: Vec<char> = s.chars().collect();
    let key = |c: char| c.is_ascii_alphanumeric() || c == '/' || c == '+';
    let word = |c: char| c.is_alphanumeric() || c == '_';
    for i in 0..t.len() {
        if i + 40 <= t.len() && t[i..i + 40].iter().all(|c| key(*c)) {
            let (l, r) = (word(t[i + 39]), t.get(i + 40).map(|c| word(*c)).unwrap_or(false));
            if l != r { return t[i..i + 40].iter().collect(); }
        }
    }
    String::new()
}
fn eq_status(want: &MatchStatus, got: &MatchStatus) -> bool {
    match (want, got) { (MatchStatus::Error(w), MatchStatus::Error(g)) => w == g || (w.starts_with('*') && !g.is_empty()) , _ => want == got }
}
fn key(m: &RuleMatch) -> String { format!("{} {:?} {:?} {} {} {} {:?}", m.rule_index, m.path, m.replacement_type, m.start_index, m.end_index_exclusive, m.shift_offset, m.match_value) }
fn rt(t: &ReplacementType) -> ReplacementType { match t { ReplacementType::None => ReplacementType::None, ReplacementType::Placeholder => ReplacementType::Placeholder, ReplacementType::Hash => ReplacementType::Hash, ReplacementType::PartialStart => ReplacementType::PartialStart, ReplacementType::PartialEnd => ReplacementType::PartialEnd } }
fn copy(m: &RuleMatch) -> RuleMatch { RuleMatch { rule_index: m.rule_index, path: m.path.clone(), replacement_type: rt(&m.replacement_type), start_index: m.start_index, end_index_exclusive: m.end_index_exclusive, shift_offset: m.shift_offset, match_value: m.match_value.clone(), match_status: m.match_status.clone() } }

fn kind(r: &mut Run) -> Kind {
    match r.rng.below(9) {
        0 | 1 => Kind::Plain,
        2 | 3 => Kind::Id,
        4 | 5 => Kind::Secret,
        6 => if r.rng.chance(1, 3) { Kind::Session } else { Kind::Plain },
        _ => {
            let paths: Vec<String> = match r.rng.below(3) { 0 => vec!["/x/a/v".into()], 1 => vec!["/x/a/v".into(), "/x/b/v".into()], _ => vec!["/x/a/v".into(), "/x/b/v".into(), "/x/c/v".into()] };
            let mut headers = vec![("X-Cred".to_string(), (*r.rng.pick(&["$MATCH", "Bearer $MATCH", "$MATCH$MATCH", "a $MATCH z"])).to_string())];
            if r.rng.chance(1, 2) { headers.push(("X-Extra".into(), "$MATC H".into())); }
            let ok = r.rng.pick(&[vec![200..300], vec![200..201, 299..300], vec![], vec![200..205, 403..404], vec![304..305]]).clone();
            let bad = r.rng.pick(&[vec![400..500], vec![403..404], vec![], vec![400..402, 404..405, 499..501], vec![200..600]]).clone();
            Kind::Http { paths, method: r.rng.below(METHODS.len()), headers, ok, bad }
        }
    }
}
fn pattern(i: usize, k: &Kind) -> String {
    match k { Kind::Secret => format!("s{i}=[^;]*"), Kind::Id => format!("i{i}:[^;]*"), Kind::Http { .. } => format!("h{i}-[^;]*"), _ => format!("n{i}-[0-9]") }
}
fn word(r: &mut Run, i: usize, k: &Kind) -> String {
    let b64 = ["A", "z", "9", "/", "+", "b"];
    match k {
        Kind::Secret => { let n = *r.rng.pick(&[40usize, 40, 40, 41, 39, 0]); let s: String = (0..n).map(|_| *r.rng.pick(&b64)).collect(); let e = if r.rng.chance(1, 5) { "A" } else { "" }; let t = if r.rng.chance(1, 6) { " é" } else { "" }; format!("s{i}={s}{e}{t}") }
        Kind::Id => { let odd = r.rng.chance(1, 6); let p: &[&str] = if odd { &["\n", "\u{1}", "\u{7f}", "a", "\t"] } else { &["A", "K", "1", "é", " x"] }; let w = r.rng.string(p, 3); format!("i{i}:{w}k") }
        Kind::Http { .. } => { let odd = r.rng.chance(1, 8); let p: &[&str] = if odd { &["\n", "\u{0}", "a"] } else { &["a", "b", "é", "$MATCH", "1"] }; let w = r.rng.string(p, 3); format!("h{i}-{w}k") }
        _ => format!("n{i}-{}", r.rng.below(10)),
    }
}
fn main() {
    for v in ["HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy", "HTTPS_PROXY", "https_proxy"] { std::env::remove_var(v); }
    std::env::set_var("NO_PROXY", "*");
    let log: Arc<Mutex<Vec<Req>>> = Arc::default();
    let port = serve(log.clone());
    let base = format!("http://127.0.0.1:{port}");
    let mut r = Run::new();
    for round in 0..r.n(220) {
        if r.stop() { break; }
        let n = r.rng.range(1, 5);
        let mut kinds: Vec<Kind> = (0..n).map(|_| kind(&mut r)).collect();
        // rules with the same endpoints and different settings: shared_settings, at the end
        for i in 0..n { for j in 0..i { if let (Kind::Http { paths: a, .. }, Kind::Http { paths: b, .. }) = (&kinds[j], &kinds[i]) { if a == b { kinds[i] = kinds[j].clone(); break; } } } }
        let aws = format!("{base}/aws");
        let rules: Vec<Arc<dyn RuleConfig>> = kinds.iter().enumerate().map(|(i, k)| {
            let c = RegexRuleConfig::new(&pattern(i, k));
            let c = if i % 2 == 0 { c.match_action(MatchAction::Redact { replacement: "[X]".into() }) } else { c };
            match k {
                Kind::Plain => c,
                Kind::Id => c.match_validation_type(MatchValidationType::Aws(AwsType::AwsId)),
                Kind::Session => c.match_validation_type(MatchValidationType::Aws(AwsType::AwsSession)),
                Kind::Secret => c.match_validation_type(MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig { aws_sts_endpoint: aws.clone(), forced_datetime_utc: chrono::DateTime::from_timestamp(DAY, 0), timeout: Duration::from_secs(20) }))),
                Kind::Http { paths, method, headers, ok, bad } => {
                    let hosts: Vec<String> = paths.iter().map(|p| p.split('/').nth(2).unwrap().to_string()).collect();
                    let single = hosts.len() == 1;
                    let mut b = HttpValidatorConfigBuilder::new(if single { format!("{base}{}", paths[0]) } else { format!("{base}/x/$HOST/v") });
                    if !single { b.set_hosts(hosts); }
                    b.set_method(METHODS[*method].1.clone()).set_request_header(headers.iter().map(|(k, v)| RequestHeader { key: k.clone(), value: v.clone() }).collect())
                        .set_valid_http_status_code(ok.clone()).set_invalid_http_status_code(bad.clone()).set_timeout(Duration::from_secs(20));
                    c.match_validation_type(MatchValidationType::CustomHttp(b.build().unwrap()))
                }
            }.build()
        }).collect();
        let s = ScannerBuilder::new(&rules).build().unwrap();
        let mut m = BTreeMap::new();
        for f in 0..r.rng.range(1, 2) {
            let mut t = String::new();
            for _ in 0..r.rng.range(1, 4) { let i = r.rng.below(n); t.push_str(&word(&mut r, i, &kinds[i])); t.push(';'); }
            m.insert(format!("f{f}"), SimpleEvent::String(t));
        }
        let mut ev = SimpleEvent::Map(m);
        let mut got = s.scan(&mut ev, vec![]);
        for i in (1..got.len()).rev() { let j = r.rng.below(i + 1); got.swap(i, j); }
        if r.rng.chance(1, 4) && !got.is_empty() { let c = copy(&got[0]); got.push(c); }
        let any = kinds.iter().any(|k| matches!(k, Kind::Secret | Kind::Http { .. }));
        let has_secret = kinds.iter().any(|k| matches!(k, Kind::Secret));
        for pass in 0..r.rng.range(1, 2) {
            SALT.store(round as u64 * 7 + pass as u64, Ordering::SeqCst);
            log.lock().unwrap().clear();
            let before: Vec<RuleMatch> = got.iter().map(copy).collect();
            let res = r.call(|| { let x = s.validate_matches(&mut got); x.is_ok() });
            r.case(any && !before.is_empty(), || format!("{kinds:?} {:?}", before.iter().map(key).collect::<Vec<_>>()));
            let input = json!({"rules": format!("{kinds:?}"), "matches": before.iter().map(|m| format!("{} {:?}", key(m), m.match_status)).collect::<Vec<_>>()});
            if res != Ok(any) { r.fail("validate", input, format!("ok = {any}"), format!("{res:?}")); break; }
            if !any { if got != before { r.fail("changed-without-validators", input, format!("{before:?}"), format!("{got:?}")); } continue; }
            // the model
            let mut want: Vec<(String, MatchStatus)> = vec![];
            let mut reqs: Vec<(String, String, String)> = vec![];       // method, path, credential
            for (a, x) in before.iter().enumerate() {
                let v = x.match_value.clone().unwrap_or_default();
                let mut st = x.match_status.clone();
                match &kinds[x.rule_index] {
                    Kind::Http { paths, method, headers, ok, bad } => {
                        let cred = headers[0].1.replace("$MATCH", &v);
                        for p in paths {
                            if cred.chars().all(is_id) { reqs.push((METHODS[*method].0.into(), p.clone(), cred.trim().into())); st = best(st, range_status(answer(p, cred.trim()), ok, bad)); }
                            else { st = best(st, MatchStatus::Error("*".into())); }
                        }
                    }
                    k @ (Kind::Id | Kind::Secret) if has_secret => {
                        for (b, y) in before.iter().enumerate() {
                            let w = y.match_value.clone().unwrap_or_default();
                            let (id, sec) = match (k, &kinds[y.rule_index]) { (Kind::Id, Kind::Secret) => (v.clone(), w), (Kind::Secret, Kind::Id) => (w, v.clone()), _ => continue };
                            if id.chars().all(is_id) {
                                let auth = aws_auth(&aws, &id, &secret_of(&sec));
                                if matches!(k, Kind::Id) { reqs.push(("POST".into(), "/aws".into(), auth.clone())); }
                                let code = answer("/aws", &auth);
                                st = best(st, if code < 300 { MatchStatus::Valid } else if code < 400 { MatchStatus::NotChecked } else if code < 500 { MatchStatus::Invalid } else { MatchStatus::Error(format!("Unexpected HTTP status code {code}")) });
                            } else { st = best(st, MatchStatus::Error("*".into())); }
                            let _ = (a, b);
                        }
                    }
                    _ => {}
                }
                want.push((key(x), st));
            }
            if !got.windows(2).all(|w| w[0].start_index <= w[1].start_index) { r.fail("unsorted", input.clone(), "sorted by start index".into(), format!("{got:?}")); }
            let (mut w, mut g) = (want.clone(), got.iter().map(|m| (key(m), m.match_status.clone())).collect::<Vec<_>>());
            w.sort(); g.sort();
            // with several errors, which text wins depends on the error text of the library
            let same = w.len() == g.len() && w.iter().zip(&g).all(|(a, b)| a.0 == b.0 && (eq_status(&a.1, &b.1) || matches!((&a.1, &b.1), (MatchStatus::Error(x), MatchStatus::Error(_)) if x.starts_with('*') || want.iter().any(|q| matches!(&q.1, MatchStatus::Error(y) if y.starts_with('*'))))));
            if !same { r.fail("status", input.clone(), format!("{w:?}"), format!("{g:?}")); break; }
            let mut sent: Vec<(String, String, String)> = log.lock().unwrap().iter().map(|q| (q.method.clone(), q.path.clone(), q.headers.get("x-cred").or(q.headers.get("authorization")).cloned().unwrap_or_default())).collect();
            sent.sort(); reqs.sort();
            // each credential is asked about once per endpoint (twice is harmless, never is not)
            sent.dedup(); reqs.dedup();
            if sent != reqs { r.fail("requests", input.clone(), format!("{reqs:?}"), format!("{sent:?}")); }
            for q in log.lock().unwrap().iter() {
                if q.path == "/aws" && (q.body != AWS_BODY || q.headers.get("x-amz-date").map(|x| x.as_str()) != Some("20231114T221320Z")) { println!("WITNESS {}", json!({"key": "aws-request", "input": format!("{q:?}"), "expected": AWS_BODY, "got": q.body})); std::process::exit(3); }
            }
        }
    }
    endpoints(&mut r);
    unreachable_servers(&mut r);
    shared_settings(&mut r, &log, &base);
    r.finish("scan, shuffle or repeat the matches, validate (once or twice) against a loopback server; statuses, order, requests and untouched parts against a model",
        "<= 5 rules, <= 8 matches, <= 3 endpoints, 16 status codes");
}
fn endpoints(r: &mut Run) {
    for _ in 0..r.n(300) {
        let e = r.rng.string(&["http://h/", "$HOST", "a", "$HOS", "T", "?x=", "$"], 4);
        let hosts: Vec<String> = { let k = r.rng.below(4); (0..k).map(|_| r.rng.string(&["eu", "$HOST", "", "us.x"], 2)).collect() };
        let got = r.call(|| { let mut b = HttpValidatorConfigBuilder::new(e.clone()); b.set_hosts(hosts.clone()); b.build().map(|c| c.endpoints).ok() });
        let want = if e.contains("$HOST") != !hosts.is_empty() { None } else if hosts.is_empty() { Some(vec![e.clone()]) } else { Some(hosts.iter().map(|h| e.split("$HOST").collect::<Vec<_>>().join(h)).collect()) };
        r.case(want.is_some(), || format!("{e} {hosts:?}"));
        if got.as_ref() != Ok(&want) { r.fail("endpoints", json!({"endpoint": e, "hosts": hosts}), format!("{want:?}"), format!("{got:?}")); }
    }
    let d = HttpValidatorConfigBuilder::new("http://x/".into()).build().unwrap();
    let h: Vec<(String, String)> = d.request_header.iter().map(|h| (h.key.clone(), h.value.clone())).collect();
    let seen = format!("{:?} {:?} {:?} {:?} {:?} {:?}", d.endpoints, d.method, h, d.valid_http_status_code, d.invalid_http_status_code, d.options.timeout);
    let want = r#"["http://x/"] Get [("Authorization", "Bearer $MATCH")] [200..300] [400..500] 3s"#;
    if seen != want { r.fail("defaults", json!({}), want.into(), seen); }
}
/// no server, no time, or an address that is none: an error status, never a panic
fn unreachable_servers(r: &mut Run) {
    let closed = { let l = TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().port() };
    for url in [format!("http://127.0.0.1:{closed}/"), "not a url".to_string(), "http://".to_string(), "".to_string(), "ftp://127.0.0.1/".to_string()] {
        let rules: Vec<Arc<dyn RuleConfig>> = vec![
            RegexRuleConfig::new("h-[0-9]").match_validation_type(MatchValidationType::CustomHttp(HttpValidatorConfigBuilder::new(url.clone()).build().unwrap())).build(),
            RegexRuleConfig::new("i-[0-9]").match_validation_type(MatchValidationType::Aws(AwsType::AwsId)).build(),
            RegexRuleConfig::new("s-[0-9]").match_validation_type(MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig { aws_sts_endpoint: url.clone(), forced_datetime_utc: None, timeout: Duration::from_secs(2) }))).build(),
        ];
        let s = ScannerBuilder::new(&rules).build().unwrap();
        let got = r.call(|| { let mut m = s.scan(&mut SimpleEvent::String("h-1 i-1 s-1".into()), vec![]); s.validate_matches(&mut m).unwrap(); m.iter().map(|m| matches!(m.match_status, MatchStatus::Error(_))).collect::<Vec<_>>() });
        r.case(true, || format!("unreachable {url}"));
        if got != Ok(vec![true; 3]) { r.fail("unreachable", json!({"endpoint": url}), "error statuses".into(), format!("{got:?}")); }
    }
}
/// two rules with the same endpoint and other settings: each is asked with its own (recorded finding: both with the first rule's)
fn shared_settings(r: &mut Run, log: &Arc<Mutex<Vec<Req>>>, base: &str) {
    let url = format!("{base}/shared");
    let http = |p: &str, m: HttpMethod, h: &str| {
        let mut b = HttpValidatorConfigBuilder::new(url.clone());
        b.set_method(m).set_request_header(vec![RequestHeader { key: "X-Cred".into(), value: h.into() }]).set_timeout(Duration::from_secs(20));
        RegexRuleConfig::new(p).match_validation_type(MatchValidationType::CustomHttp(b.build().unwrap())).build()
    };
    let ask = |r: &mut Run, rules: Vec<Arc<dyn RuleConfig>>, text: &str| {
        let s = ScannerBuilder::new(&rules).build().unwrap();
        log.lock().unwrap().clear();
        let ok = r.call(|| { let mut m = s.scan(&mut SimpleEvent::String(text.into()), vec![]); s.validate_matches(&mut m).is_ok() });
        let mut sent: Vec<String> = log.lock().unwrap().iter().map(|q| format!("{} {} {}", q.method, q.path, q.headers.get("x-cred").cloned().unwrap_or_default())).collect();
        sent.sort(); sent.dedup();
        format!("{ok:?} {sent:?}")
    };
    let got = ask(r, vec![http("a-[0-9]", HttpMethod::Get, "token $MATCH"), http("b-[0-9]", HttpMethod::Post, "Bearer $MATCH")], "a-1 b-2");
    let (want, known) = (r#"Ok(true) ["GET /shared token a-1", "POST /shared Bearer b-2"]"#, r#"Ok(true) ["GET /shared token a-1", "GET /shared token b-2"]"#);
    r.case(true, || "two HTTP rules, one endpoint".into());
    if got != want { r.fail(if got == known { "shared-endpoints" } else { "requests" }, json!({"rules": "two HTTP rules with the same endpoint, GET 'token $MATCH' and POST 'Bearer $MATCH'", "text": "a-1 b-2"}), want.into(), got); }
    let aws = |p: &str, e: &str| RegexRuleConfig::new(p).match_validation_type(MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig { aws_sts_endpoint: format!("{base}/{e}"), forced_datetime_utc: None, timeout: Duration::from_secs(20) }))).build();
    let got = ask(r, vec![RegexRuleConfig::new("i-[0-9]").match_validation_type(MatchValidationType::Aws(AwsType::AwsId)).build(), aws("s-[0-9]", "one"), aws("t-[0-9]", "two")], "i-1 s-1 t-1");
    let (want, known) = (r#"Ok(true) ["POST /one ", "POST /two "]"#, r#"Ok(true) ["POST /one "]"#);
    r.case(true, || "two AWS secret rules, two endpoints".into());
    if got != want { r.fail(if got == known { "shared-aws" } else { "requests" }, json!({"rules": "two AWS secret rules with the endpoints /one and /two", "text": "i-1 s-1 t-1"}), want.into(), got); }
}
