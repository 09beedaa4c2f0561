//! NIR: fifteen digits, last two = 97 - (first thirteen mod 97).
use dd_sds::{SecondaryValidator, Validator};
use drivers::Run;
fn ok(s: &str) -> bool {
    let ds: Vec<u64> = s.chars().filter(|c| ('0'..='9').contains(c)).map(|c| c as u64 - 48).collect();
    if ds.len() != 15 { return false; }
    let n = ds[..13].iter().fold(0u64, |a, d| a * 10 + d);
    97 - n % 97 == ds[13] * 10 + ds[14]
}
fn one(r: &mut Run, s: &str) {
    let e = ok(s);
    let s2 = s.to_string();
    let g = r.call(|| SecondaryValidator::NirChecksum.is_valid_match(&s2));
    r.case(s.chars().filter(|c| c.is_ascii_digit()).count() >= 13, || s.to_string());
    if g != Ok(e) { r.fail("nir", serde_json::json!(s), format!("{e}"), format!("{g:?}")); }
}
fn main() {
    let mut r = Run::new();
    for n in 0..=20usize { for d in 0..10 { let s = format!("{d}").repeat(n); one(&mut r, &s); } }
    for k in 0..97u64 { // every residue, every key
        for base in [0u64, 97 * 1000003, 9_999_999_999_900] {
            let n = base - base % 97 + k;
            if n > 9_999_999_999_999 { continue; }
            for c in 0..100 { let s = format!("{n:013}{c:02}"); one(&mut r, &s); }
        }
    }
    let alpha = ["0","1","2","3","4","5","6","7","8","9"];
    let sep = [" ", "-", "", "", "", "", ".", "é", "٣", "A", "B"];
    for _ in 0..r.n(20_000) {
        let mut s = String::new();
        let mut n = 0u64;
        for _ in 0..13 { let d = r.rng.below(10); n = n * 10 + d as u64; s.push_str(alpha[d]); s.push_str(*r.rng.pick(&sep)); }
        let key = 97 - n % 97;
        for k in [key, key + 1, key.saturating_sub(1), key % 97, 0, 98 - key, (key + 50) % 100] {
            let sp = *r.rng.pick(&sep); let sp2 = *r.rng.pick(&sep);
            let t = format!("{s}{}{sp}{}{sp2}", k / 10 % 10, k % 10); one(&mut r, &t);
            let x = r.rng.below(10);
            let t2 = format!("{t}{x}"); one(&mut r, &t2);
            let t3 = format!("{x}{t}"); one(&mut r, &t3);
        }
        let t4 = format!("{s}{}", key % 10); one(&mut r, &t4);
        if r.stop() { break; }
    }
    // one digit text, with every ASCII character and long runs of separators at every place
    for base in ["123456789012311", "256087511904286", "123456789012312", "12345678901231"] {
        let ds: Vec<char> = base.chars().collect();
        for p in 0..=ds.len() {
            let (a, b): (String, String) = (ds[..p].iter().collect(), ds[p..].iter().collect());
            for u in 0..128u8 { let t = format!("{a}{}{b}", u as char); one(&mut r, &t); }
            for c in [" ", "-", "x", "é", "٣", "\u{1d7d8}"] { for n in [1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] { let t = format!("{a}{}{b}", c.repeat(n)); one(&mut r, &t); } }
        }
        for n in [1usize, 2, 5, 10, 30, 100, 300] { let t: String = ds.iter().map(|d| format!("{}{d}", " ".repeat(n))).collect(); one(&mut r, &t); }
    }
    r.finish("digit texts with separators; non-trivial = at least thirteen digits", "every residue x every key on 3 bases; random numbers of 13 to 17 digits")
}
