//! Shared support of the contract drivers.
pub mod model;
pub mod rec;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    /// a number near a boundary of some integer width (below 2^32 if `small`)
    pub fn big(&mut self, small: bool) -> usize {
        let b = *self.pick(&[1usize << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 1 << 62]);
        let v = match self.below(4) { 0 => b - 1, 1 => b + self.below(12), 2 => b.wrapping_mul(self.range(1, 3)) + self.below(12), _ => self.below(12) };
        if small { v & 0xffff_ffff } else { v }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn string(&mut self, alphabet: &[&str], max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

pub struct Run {
    pub rng: Rng,
    pub thorough: bool,
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    witnesses: usize,
    keys: HashSet<String>,
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
    h
}

impl Run {
    pub fn new() -> Run {
        let a: Vec<String> = std::env::args().collect();
        let thorough = a.get(1).map(|x| x == "thorough").unwrap_or(false);
        let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
        std::panic::set_hook(Box::new(|_| {}));
        Run { rng: Rng(seed.wrapping_mul(0x1234567).wrapping_add(99)), thorough, evaluations: 0,
              distinct: HashSet::new(), samples: vec![], witnesses: 0, keys: HashSet::new() }
    }
    /// scale factor for the random parts
    pub fn n(&self, quick: usize) -> usize { if self.thorough { quick * 12 } else { quick } }

    /// records one evaluated case; `nontrivial` says whether it exercised the property
    pub fn case(&mut self, nontrivial: bool, desc: impl Fn() -> String) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 2_000_000 {
            let d = desc();
            if self.distinct.insert(fnv(d.as_bytes())) && (self.samples.len() < 3 || (self.samples.len() < 8 && self.evaluations % 9973 == 0)) {
                self.samples.push(d.chars().take(300).collect());
            }
        }
    }
    /// a failing case on the real code. `key` identifies the class (known-findings matching)
    pub fn fail(&mut self, key: &str, input: serde_json::Value, expected: String, got: String) {
        if self.witnesses < 10 && self.keys.insert(format!("{key}{}", if self.witnesses < 3 { self.witnesses } else { 0 })) {
            println!("WITNESS {}", serde_json::json!({"key": key, "input": input, "expected": cut(&expected), "got": cut(&got)}));
        }
        self.witnesses += 1;
    }
    pub fn stop(&self) -> bool { self.witnesses >= 200 }
    /// Calls the real code; a panic is reported as the given text
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            format!("panic: {m}")
        })
    }
    pub fn finish(&self, rule: &str, bounds: &str) -> ! {
        println!("STATS {}", serde_json::json!({"evaluations": self.evaluations, "distinct_nontrivial": self.distinct.len(),
            "rule": rule, "bounds": bounds, "samples": self.samples}));
        std::process::exit(if self.witnesses > 0 { 3 } else { 0 });
    }
}
fn cut(s: &str) -> String { s.chars().take(2000).collect() }
