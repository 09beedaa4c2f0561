//! IBAN: the alphanumeric characters of the text form a valid IBAN (country structure and MOD 97-10).
use dd_sds::{SecondaryValidator, Validator};
use drivers::Run;
// registry structures of some countries: n digits, a upper-case letters, c upper-case alphanumeric
const REG: &[(&str, &str)] = &[("DE", "18n"), ("FR", "5n5n11c2n"), ("GB", "4a6n8n"), ("KZ", "3n13c"), ("NO", "4n6n1n"), ("BE", "3n7n2n"), ("MT", "4a5n18c"), ("AL", "8n16c"), ("NL", "4a10n"), ("ES", "4n4n1n1n10n"), ("CH", "5n12c"), ("IT", "1a5n5n12c"), ("SA", "2n18c"), ("BR", "8n5n10n1a1c"), ("SE", "3n16n1n")];
fn mod97(s: &str) -> u32 {
    let mut m = 0u64;
    for c in s.chars() { let v = c.to_digit(36).unwrap() as u64; m = if v >= 10 { m * 100 + v } else { m * 10 + v } % 97; }
    m as u32
}
fn structure(s: &str) -> Vec<char> {
    let mut o = vec![]; let mut n = 0;
    for c in s.chars() { if let Some(d) = c.to_digit(10) { n = n * 10 + d } else { for _ in 0..n { o.push(c) } n = 0 } }
    o
}
// Some(answer) for the countries above (and for what no registry accepts), None otherwise
fn ok(text: &str) -> Option<bool> {
    let t: Vec<char> = text.chars().filter(|c| c.is_alphanumeric()).collect();
    if t.len() < 5 || t.len() > 34 || t.iter().any(|c| !c.is_ascii()) { return Some(false); }
    let s: String = t.iter().collect();
    if t.iter().any(|c| c.is_ascii_lowercase()) { return None; }
    let st = structure(match REG.iter().find(|x| x.0 == &s[..2]) { Some(x) => x.1, None => return if s[..2].chars().all(|c| c.is_ascii_uppercase()) && !["ZZ", "XX", "QQ"].contains(&&s[..2]) { None } else { Some(false) } });
    if !s[2..4].chars().all(|c| c.is_ascii_digit()) || t.len() - 4 != st.len() { return Some(false); }
    if !t[4..].iter().zip(&st).all(|(c, k)| match k { 'n' => c.is_ascii_digit(), 'a' => c.is_ascii_uppercase(), _ => c.is_ascii_digit() || c.is_ascii_uppercase() }) { return Some(false); }
    Some(mod97(&format!("{}{}", &s[4..], &s[..4])) == 1)
}
fn one(r: &mut Run, s: &str) {
    let Some(e) = ok(s) else { return };
    let s2 = s.to_string();
    let g = r.call(|| SecondaryValidator::IbanChecker.is_valid_match(&s2));
    r.case(e, || s.to_string());
    if g != Ok(e) { r.fail("iban", serde_json::json!(s), format!("{e}"), format!("{g:?}")); }
}
fn main() {
    let mut r = Run::new();
    for s in ["", "D", "DE", "DE44", "DE4450010517540732493", "DE44500105175407324931", "DE445001051754073249310", "é", "DE44é0010517540732493", "ZZ44500105175407324931", "  ", "--"] { one(&mut r, s); }
    for _ in 0..r.n(30_000) {
        let (cc, st) = *r.rng.pick(REG);
        let body: String = structure(st).iter().map(|k| match k { 'n' => (b'0' + r.rng.below(10) as u8) as char, 'a' => (b'A' + r.rng.below(26) as u8) as char, _ => { let x = r.rng.below(36); if x < 10 { (b'0' + x as u8) as char } else { (b'A' + x as u8 - 10) as char } } }).collect();
        let chk = 98 - mod97(&format!("{body}{cc}00"));
        let good = format!("{cc}{chk:02}{body}");
        one(&mut r, &good);
        // separators anywhere
        let mut sep = String::new();
        for c in good.chars() { if r.rng.chance(1, 5) { sep.push_str(*r.rng.pick(&[" ", "-", "_", ".", "/", "\u{a0}", "  ", "\n", "—"])); } sep.push(c); }
        one(&mut r, &sep);
        let mut v: Vec<char> = good.chars().collect();
        let i = r.rng.below(v.len());
        match r.rng.below(5) {
            0 => v[i] = (b'0' + r.rng.below(10) as u8) as char,
            1 => v[i] = (b'A' + r.rng.below(26) as u8) as char,
            2 => { v.remove(i); }
            3 => v.insert(i, (b'0' + r.rng.below(10) as u8) as char),
            _ => { if i + 1 < v.len() { v.swap(i, i + 1); } else { v[i] = 'é'; } }
        }
        let bad: String = v.iter().collect();
        one(&mut r, &bad);
        one(&mut r, &format!("{good}é"));
        if r.stop() { break; }
    }
    for base in ["DE44500105175407324931", "GB82WEST12345698765432", "DE44500105175407324932"] {
        let ds: Vec<char> = base.chars().collect();
        for p in 0..=ds.len() {
            let (a, b): (String, String) = (ds[..p].iter().collect(), ds[p..].iter().collect());
            for u in (0..128u8).filter(|u| !u.is_ascii_lowercase()) { one(&mut r, &format!("{a}{}{b}", u as char)); }
            for c in [" ", "-", "\u{a0}", "—"] { for n in [1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000] { one(&mut r, &format!("{a}{}{b}", c.repeat(n))); } }
        }
        for n in [1usize, 2, 5, 10, 30, 100] { let t: String = ds.iter().map(|d| format!("{}{d}", " ".repeat(n))).collect(); one(&mut r, &t); }
    }
    r.finish("IBANs of 15 countries, valid, separated and damaged; non-trivial = valid", "random account numbers; lower-case and unlisted countries are not judged")
}
