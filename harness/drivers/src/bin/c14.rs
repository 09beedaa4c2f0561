//! JWT expiry: three segments, header and payload are unpadded base64url JSON; valid unless an `exp`
//! claim is present and is not an integer in the future.
use dd_sds::{SecondaryValidator, Validator};
use drivers::Run;
use std::time::{SystemTime, UNIX_EPOCH};
const AL: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn enc(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() { o.push(AL[(n >> (18 - 6 * i)) as usize & 63] as char); }
    }
    o
}
fn now() -> i64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64 }
fn one(r: &mut Run, s: &str, e: bool) {
    let s2 = s.to_string();
    let g = r.call(|| SecondaryValidator::JwtExpirationChecker.is_valid_match(&s2));
    r.case(s.contains('.'), || s.to_string());
    if g != Ok(e) { r.fail("jwt", serde_json::json!(s), format!("{e}"), format!("{g:?}")); }
}
fn main() {
    let mut r = Run::new();
    let heads = ["{\"alg\":\"HS256\",\"typ\":\"JWT\"}", "{}", "null", "1", "[]", "{\"alg\":\"é\"}"];
    let t = now();
    let bodies: Vec<(String, bool)> = vec![
        ("{}".into(), true), ("{\"a\":1}".into(), true), ("{\"a\":{\"exp\":1}}".into(), true), ("[1]".into(), true), ("null".into(), true), ("\"exp\"".into(), true), ("[\"exp\", 1]".into(), true),
        (format!("{{\"exp\":{}}}", t + 100_000), true), (format!("{{\"exp\":{}}}", t + 1_000_000_000_000), true), (format!("{{\"a\":\"x\",\"exp\":{},\"z\":1}}", t + 60), true),
        (format!("{{\"exp\":{}}}", i64::MAX), true), (format!("{{\"exp\":{}}}", t - 1), false), (format!("{{\"exp\":{}}}", t - 60), false), ("{\"exp\":0}".into(), false), ("{\"exp\":1}".into(), false),
        ("{\"exp\":-1}".into(), false), (format!("{{\"exp\":{}}}", i64::MIN), false), ("{\"exp\":1e18}".into(), false), ("{\"exp\":99999999999.5}".into(), false), (format!("{{\"exp\":\"{}\"}}", t + 1000), false),
        ("{\"exp\":null}".into(), false), ("{\"exp\":true}".into(), false), ("{\"exp\":[]}".into(), false), (format!("{{\"exp\":[{}]}}", t + 1000), false), (format!("{{\"exp\":{{\"exp\":{}}}}}", t + 1000), false),
        ("{\"exp\":18446744073709551615}".into(), false), ("{\"Exp\":1}".into(), true), ("{\"exp \":1}".into(), true), ("{\"é\":\"\u{1F600}\"}".into(), true),
    ];
    for h in heads { for (b, e) in &bodies { for sig in ["sig", "", "é", "a-b_c=", "SflKxwRJSMeKKF2QT4fwpMeJf36POk6yJV_adQssw5c"] {
        let (a, c) = (enc(h.as_bytes()), enc(b.as_bytes()));
        let tok = format!("{a}.{c}.{sig}");
        one(&mut r, &tok, *e);
        for bad in [format!("{a}.{c}"), format!("{a}.{c}.{sig}.x"), format!("{a}.{c}.{sig}."), format!(".{a}.{c}.{sig}"), format!("{a}{c}.{sig}"), format!(".{c}.{sig}"), format!("{a}..{sig}"), format!("{a}=.{c}.{sig}"), format!("{a}.{c}=.{sig}"), format!("é.{c}.{sig}"), format!("{a}.é.{sig}"), format!("{a}.{} .{sig}", c), format!("{}.{c}.{sig}", enc(b"{")), format!("{a}.{}.{sig}", enc(b"{\"exp\":")), format!("{a}.{}.{sig}", enc(&[0xff, 0xfe])), format!("{a}.{}.{sig}", enc(format!("{b} x").as_bytes()))] { one(&mut r, &bad, false); }
    }}}
    for s in ["", ".", "..", "...", "a.b.c", "é.é.é"] { one(&mut r, s, false); }
    // header order: the first segment is the header, the second the payload
    let exp = enc(format!("{{\"exp\":{}}}", t - 100).as_bytes());
    one(&mut r, &format!("{exp}.{}.s", enc(b"{}")), true);
    one(&mut r, &format!("{}.{exp}.s", enc(b"{}")), false);
    // the boundary second
    for _ in 0..r.n(2000) {
        let d = *r.rng.pick(&[-2i64, -1, 0, 1, 2, 3]);
        let n0 = now();
        let tok = format!("{}.{}.s", enc(b"{}"), enc(format!("{{\"exp\":{}}}", n0 + d).as_bytes()));
        let g = r.call(|| SecondaryValidator::JwtExpirationChecker.is_valid_match(&tok));
        if now() != n0 { continue; }
        r.case(true, || format!("exp = now {d:+}"));
        if g != Ok(d > 0) { r.fail("jwt-now", serde_json::json!(format!("exp = now {d:+}")), format!("{}", d > 0), format!("{g:?}")); }
    }
    for _ in 0..r.n(5000) {
        let d = r.rng.below(2_000_000_000) as i64 - 1_000_000_000;
        if d.abs() < 100 { continue; }
        let pad = r.rng.string(&["a", "é", "\\n", "{", "}", "\\\""], 6);
        let b = if r.rng.chance(1, 2) { format!("{{\"k\":\"{pad}\",\"exp\":{}}}", t + d) } else { format!("{{ \"exp\" : {} , \"k\":\"{pad}\"}}", t + d) };
        let tok = format!("{}.{}.{}", enc(b"{\"alg\":\"none\"}"), enc(b.as_bytes()), enc(pad.as_bytes()));
        one(&mut r, &tok, d > 0);
    }
    r.finish("tokens built from header x payload x signature, well-formed and damaged; non-trivial = has a dot", "expiry at every offset of up to 3 s around now, random offsets of up to 30 years; all JSON types of exp")
}
