//! Luhn: the real validator against the published definition (sum of all digits from the
//! right, every second one doubled and digit-summed, divisible by ten).
use dd_sds::{SecondaryValidator, Validator};
use drivers::Run;

fn luhn(s: &str) -> bool {
    let ds: Vec<u32> = s.chars().filter(|c| ('0'..='9').contains(c)).map(|c| c as u32 - 48).collect();
    if ds.is_empty() { return false; }
    let mut t = 0;
    for (i, d) in ds.iter().rev().enumerate() {
        if i % 2 == 1 { let x = d * 2; t += x / 10 + x % 10; } else { t += d; }
    }
    t % 10 == 0
}
fn one(r: &mut Run, s: &str) {
    let e = luhn(s);
    let s2 = s.to_string();
    let g = r.call(|| SecondaryValidator::LuhnChecksum.is_valid_match(&s2));
    r.case(s.chars().any(|c| c.is_ascii_digit()), || s.to_string());
    if g != Ok(e) { r.fail("luhn", serde_json::json!(s), format!("{e}"), format!("{g:?}")); }
}
fn main() {
    let mut r = Run::new();
    one(&mut r, "");
    // all strings up to length 5 over digits, every single char length-1
    for n in 0..=5usize {
        for v in 0..10u32.pow(n as u32) { let s = format!("{v:0n$}"); one(&mut r, &s[..]); if r.stop() { break; } }
    }
    let alpha = ["0","1","2","3","4","5","6","7","8","9","9","5"," ","-",".","x","é","٣","𝟗","²","a","f"];
    for _ in 0..r.n(60_000) {
        let max = *r.rng.pick(&[6usize, 20, 40]);
        let s = r.rng.string(&alpha, max);
        one(&mut r, &s);
        // make it valid by choosing the check digit, then perturb
        for c in 0..10 { let t = format!("{s}{c}"); one(&mut r, &t); }
        if r.stop() { break; }
    }
    for n in [100usize, 1000, 20000] {
        for d in 0..10 { let s = format!("{d}").repeat(n); one(&mut r, &s); }
    }
    // one digit text, with every ASCII character and long runs of separators at every place
    for base in ["4111111111111111", "5555555555554444", "0", "79927398713", "79927398710"] {
        let ds: Vec<char> = base.chars().collect();
        for p in 0..=ds.len() {
            let (a, b): (String, String) = (ds[..p].iter().collect(), ds[p..].iter().collect());
            for u in 0..128u8 { let t = format!("{a}{}{b}", u as char); one(&mut r, &t); }
            for c in [" ", "-", "x", "é", "٣", "\u{1d7d8}"] { for n in [1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] { let t = format!("{a}{}{b}", c.repeat(n)); one(&mut r, &t); } }
        }
        for n in [1usize, 2, 5, 10, 30, 100, 300] { let t: String = ds.iter().map(|d| format!("{}{d}", " ".repeat(n))).collect(); one(&mut r, &t); }
    }
    r.finish("texts over digits, separators and non-ASCII digits; non-trivial = has an ASCII digit", "all digit strings up to length 5; random texts up to 41 characters; long runs up to 20000 digits")
}
