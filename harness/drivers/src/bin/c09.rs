//! GitHub token checksum: the text after the last '_' is base62, longer than six characters, and its
//! last six characters are the CRC-32 of the rest in base62, left-padded with zeros.
use dd_sds::{SecondaryValidator, Validator};
use drivers::Run;
fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b { c ^= *x as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 }; } }
    !c
}
fn b62(mut n: u32) -> String {
    let d: Vec<char> = ('0'..='9').chain('A'..='Z').chain('a'..='z').collect();
    let mut o = vec!['0'; 6];
    for i in (0..6).rev() { o[i] = d[(n % 62) as usize]; n /= 62; }
    o.into_iter().collect()
}
fn ok(s: &str) -> bool {
    let Some(i) = s.rfind('_') else { return false };
    let t: Vec<char> = s[i + 1..].chars().collect();
    if t.len() <= 6 || !t.iter().all(|c| matches!(c, '0'..='9' | 'a'..='z' | 'A'..='Z')) { return false; }
    let (a, b): (String, String) = (t[..t.len() - 6].iter().collect(), t[t.len() - 6..].iter().collect());
    b == b62(crc32(a.as_bytes()))
}
fn one(r: &mut Run, s: &str) {
    let e = ok(s);
    let s2 = s.to_string();
    let g = r.call(|| SecondaryValidator::GithubTokenChecksum.is_valid_match(&s2));
    r.case(s.contains('_'), || s.to_string());
    if g != Ok(e) { r.fail("github", serde_json::json!(s), format!("{e}"), format!("{g:?}")); }
}
fn main() {
    let mut r = Run::new();
    let al: Vec<String> = ('0'..='9').chain('A'..='Z').chain('a'..='z').map(|c| c.to_string()).collect();
    let al: Vec<&str> = al.iter().map(|s| s.as_str()).collect();
    for s in ["", "_", "__", "a_", "_a", "ghp_000000", "ghp_0000000", "é_", "_é", "a_éé", "a_ééé", "ghp_abcdeñ", "ghp_ñabcde", "ghp_aññ", "a_bc\u{1F600}de", "ghp_٣٣٣٣٣٣٣"] { one(&mut r, s); }
    // every one-character payload, and an empty one
    one(&mut r, &format!("p_{}", b62(crc32(b""))));
    for a in &al { let s = format!("_{a}{}", b62(crc32(a.as_bytes()))); one(&mut r, &s); }
    for it in 0..r.n(60_000) {
        let n = if it % 3 == 0 { 30 } else { r.rng.range(0, 40) };
        let mut p = String::new();
        for _ in 0..n { p.push_str(*r.rng.pick(&al)); }
        let prefix = *r.rng.pick(&["ghp_", "gho_", "_", "x_y_", "", "github_pat_11AAAA_", "é_", "a__"]);
        let sum = b62(crc32(p.as_bytes()));
        let t = format!("{prefix}{p}{sum}");
        one(&mut r, &t);
        // the unpadded spelling, and small damage
        one(&mut r, &format!("{prefix}{p}{}", sum.trim_start_matches('0')));
        if it % 4 == 0 { let b = *r.rng.pick(&[" ", "\n", "\t", "\r", "\u{a0}"]); one(&mut r, &format!("{t}{b}")); one(&mut r, &format!("{b}{t}")); }
        let mut cs: Vec<char> = t.chars().collect();
        if !cs.is_empty() {
            let i = if r.rng.chance(1, 2) { cs.len() - 1 - r.rng.below(cs.len().min(7)) } else { r.rng.below(cs.len()) };
            match r.rng.below(4) {
                0 => cs[i] = r.rng.pick(&al).chars().next().unwrap(),
                1 => cs[i] = *r.rng.pick(&['_', '-', 'é', '/', ' ', '.']),
                2 => { cs.remove(i); }
                _ => { let c = cs[i]; cs[i] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }; }
            }
            let u: String = cs.into_iter().collect();
            one(&mut r, &u);
        }
        if r.stop() { break; }
    }
    r.finish("GitHub-style tokens, valid and damaged; non-trivial = has a '_'", "payloads of 0 to 40 base62 characters with correct, unpadded and damaged checksums")
}
