//! NHS number: ten digits, 10*d1+9*d2+...+1*d10 divisible by 11.
use dd_sds::{SecondaryValidator, Validator};
use drivers::Run;
fn ok(s: &str) -> bool {
    let ds: Vec<u32> = s.chars().filter(|c| ('0'..='9').contains(c)).map(|c| c as u32 - 48).collect();
    ds.len() == 10 && ds.iter().enumerate().map(|(i, d)| (10 - i as u32) * d).sum::<u32>() % 11 == 0
}
fn one(r: &mut Run, s: &str) {
    let e = ok(s);
    let s2 = s.to_string();
    let g = r.call(|| SecondaryValidator::NhsCheckDigit.is_valid_match(&s2));
    r.case(s.chars().filter(|c| c.is_ascii_digit()).count() >= 9, || s.to_string());
    if g != Ok(e) { r.fail("nhs", serde_json::json!(s), format!("{e}"), format!("{g:?}")); }
}
fn main() {
    let mut r = Run::new();
    for n in 0..=14usize { for d in 0..10 { let s = format!("{d}").repeat(n); one(&mut r, &s); } }
    for b in ["0000000000", "1234567881", "9077844449", "9999999999"] { for p in 0..10 { for q in 0..10 { for d in 0..10 { for f in 0..10 {
        let mut v: Vec<char> = b.chars().collect();
        v[p] = char::from_digit(d, 10).unwrap(); v[q] = char::from_digit(f, 10).unwrap();
        let s: String = v.iter().collect(); one(&mut r, &s);
    }}}}}
    let alpha = ["0","1","2","3","4","5","6","7","8","9"];
    let sep = [" ", "-", "", "", "", "", ".", "é", "٣", "a"];
    for _ in 0..r.n(60_000) {
        let n = *r.rng.pick(&[8usize, 9, 9, 9, 9, 9, 10, 11, 12]);
        let mut s = String::new();
        for _ in 0..n { s.push_str(*r.rng.pick(&alpha)); s.push_str(*r.rng.pick(&sep)); }
        for c in 0..10 { let t = format!("{s}{c}"); one(&mut r, &t); }
        if r.stop() { break; }
    }
    // one digit text, with every ASCII character and long runs of separators at every place
    for base in ["9434765919", "4010232137", "9434765918", "943476591", "94347659190"] {
        let ds: Vec<char> = base.chars().collect();
        for p in 0..=ds.len() {
            let (a, b): (String, String) = (ds[..p].iter().collect(), ds[p..].iter().collect());
            for u in 0..128u8 { let t = format!("{a}{}{b}", u as char); one(&mut r, &t); }
            for c in [" ", "-", "x", "é", "٣", "\u{1d7d8}"] { for n in [1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] { let t = format!("{a}{}{b}", c.repeat(n)); one(&mut r, &t); } }
        }
        for n in [1usize, 2, 5, 10, 30, 100, 300] { let t: String = ds.iter().map(|d| format!("{}{d}", " ".repeat(n))).collect(); one(&mut r, &t); }
    }
    r.finish("digit texts with separators; non-trivial = at least nine digits", "every pair of positions varied over all digits on 4 bases; random numbers of 9 to 13 digits")
}
