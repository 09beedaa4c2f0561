//! Chinese resident id: ISO 7064 MOD 11-2 against the real validator.
use dd_sds::{SecondaryValidator, Validator};
use drivers::Run;
fn ok(s: &str) -> bool {
    let cs: Vec<char> = s.chars().collect();
    if cs.len() != 18 { return false; }
    let mut m: u32 = 0; // pure-system recursive definition: P = (P + a) * 2 mod 11
    for c in &cs[..17] {
        if !('0'..='9').contains(c) { return false; }
        m = ((m + (*c as u32 - 48)) * 2) % 11;
    }
    let v = match cs[17] { 'X' | 'x' => 10, c @ '0'..='9' => c as u32 - 48, _ => return false };
    (m + v) % 11 == 1
}
fn one(r: &mut Run, s: &str) {
    let e = ok(s);
    let s2 = s.to_string();
    let g = r.call(|| SecondaryValidator::ChineseIdChecksum.is_valid_match(&s2));
    r.case(s.len() >= 17, || s.to_string());
    if g != Ok(e) { r.fail("chinese_id", serde_json::json!(s), format!("{e}"), format!("{g:?}")); }
}
fn main() {
    let mut r = Run::new();
    for s in ["", "X", "é", "1234567890123456é", "12345678901234567é"] { one(&mut r, s); }
    let checks = ["0","1","2","3","4","5","6","7","8","9","X","x","Y","a","é","²","٣"," ","Ｘ"];
    // every position x every digit, on several bases, with every check character
    let bases = ["00000000000000000", "11111111111111111", "51323120001212165", "99999999999999999", "12345678901234567"];
    for b in bases { for p in 0..17 { for d in 0..10 {
        let mut v: Vec<char> = b.chars().collect(); v[p] = char::from_digit(d, 10).unwrap();
        let s: String = v.iter().collect();
        for c in checks { let t = format!("{s}{c}"); one(&mut r, &t); }
    }}}
    for n in 0..=22usize { for ch in ["1", "5", "é"] { let s = ch.repeat(n); for c in checks { let t = format!("{s}{c}"); one(&mut r, &t); } } }
    let alpha = ["0","1","2","3","4","5","6","7","8","9"];
    let odd = ["X","x","é","٣","-"," ","a"];
    for _ in 0..r.n(20_000) {
        let n = *r.rng.pick(&[15usize,16,17,17,17,17,17,17,18,19]);
        let mut s: String = (0..n).map(|_| *r.rng.pick(&alpha)).collect();
        if r.rng.chance(1, 6) && n > 0 { let p = r.rng.below(n); let o = *r.rng.pick(&odd); s.replace_range(p..p + 1, o); }
        for c in checks { let t = format!("{s}{c}"); one(&mut r, &t); }
        if r.stop() { break; }
    }
    r.finish("18-character candidates with every check character; non-trivial = at least 17 bytes", "5 bases x 17 positions x 10 digits x 19 check characters; random ids")
}
