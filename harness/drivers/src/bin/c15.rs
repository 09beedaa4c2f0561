//! Compiled regexes are shared between scanners: what a scanner finds must depend on its own rules
//! only, whatever scanners were built, dropped or used before, in this or other threads.
use dd_sds::*;
use drivers::rec::Rec;
use drivers::{Rng, Run};
use regex::Regex;
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier, Mutex};

/// (SDS pattern, equivalent pattern of the regex crate); None = must be rejected
fn pool() -> Vec<(String, Option<String>)> {
    let long = "x?".repeat(60);
    let mut v: Vec<(String, Option<String>)> = ["ab", "AB", "(?i)ab", "(?i:ab)", "aB", "a b", "a  b", " a b", "a b ", "a.b", "(?s)a.b", "(?-u:a.b)", "[ab]+", "[ab]{2}", "[ab]{2,}", "a|b", "b|a", "ab|a", "a|ab", "é", "É", "(?i)é", "e", "a+", "a+?", "a{1}", "a", "b", "(a)", "(?:a)", "a\\.b", "^a", "(?m)^a", "\\ba", "a\\b", "(?i)(?:(?-u:\\b)ab(?-u:\\b))", "ab0"]
        .iter().filter(|p| !p.contains("(?-u:a.b)")).map(|p| {
            let r = p.replace("(?-u:\\b)", "\u{1}").replace("\\b", "(?-u:\\b)").replace('\u{1}', "(?-u:\\b)");
            (p.to_string(), Some(r))
        }).collect();
    v.retain(|x| !x.0.contains("(?-u"));
    for p in ["ab ", " ab", "ab\n", "\tab", "ab\t", "ba", "aab", "abb", "abab", "ab.", "\u{a0}ab", "ab\u{a0}", "e\u{301}", "\u{e9}a", "e\u{301}a"] { if !v.iter().any(|x| x.0 == p) { v.push((p.to_string(), Some(p.to_string()))); } }
    for t in ["a", "b", "ab", "ba", "é"] { let p = format!("{long}{t}"); v.push((p.clone(), Some(p))); }
    for p in ["a(", "", "[b", "a{4000}", "a|", "b*"] { v.push((p.to_string(), None)); }
    v
}
const TEXT: &[&str] = &["a", "b", "A", "B", " ", "ab", "aB", ".", "\n", "é", "É", "e", "x", "0", "a.b", "k", "word", "Ab"];
struct Live { scanner: Scanner, rx: Regex, pat: String, kw: Option<&'static str> }
fn found(l: &Live, t: &str) -> Vec<(usize, usize)> {
    let mut s = t.to_string();
    let mut v: Vec<_> = l.scanner.scan(&mut s, vec![]).iter().map(|m| (m.start_index, m.end_index_exclusive)).collect();
    v.sort();
    v
}
fn expect(l: &Live, t: &str) -> Vec<(usize, usize)> {
    let all = l.rx.find_iter(t).map(|m| (m.start(), m.end()));
    match l.kw {
        None => all.collect(),
        // no excluded keyword within 30 characters before the match
        Some(k) => {
            let kr = Regex::new(&format!("(?i)(?-u:\\b){}(?-u:\\b)", regex::escape(k))).unwrap();
            let mut out = vec![];
            let mut at = 0;
            while let Some(m) = l.rx.find_at(t, at) {
                // texts are short: the whole prefix lies in the window; the keyword must be a word of the text
                if kr.find_iter(t).any(|x| x.end() <= m.start()) { at = m.start() + t[m.start()..].chars().next().unwrap().len_utf8(); } else { out.push((m.start(), m.end())); at = m.end(); }
            }
            out
        }
    }
}
fn build(pat: &str, kw: Option<&'static str>) -> Result<Scanner, String> {
    let mut c = RegexRuleConfig::new(pat);
    if let Some(k) = kw { c = c.proximity_keywords(ProximityKeywordsConfig { look_ahead_character_count: 50, included_keywords: vec![], excluded_keywords: vec![k.to_string()] }); }
    Scanner::builder(&[c.build()]).build().map_err(|e| format!("{e:?}"))
}
/// one history; returns a description of the first difference
fn history(seed: u64, steps: usize, fresh: u64, tag: usize, live_out: &mut Vec<Live>, log: &mut dyn FnMut(bool, String)) -> Option<(String, String, String)> {
    let mut rng = Rng(seed);
    let pool = pool();
    let rxs: BTreeMap<String, Regex> = pool.iter().filter_map(|(p, r)| r.as_ref().map(|r| (p.clone(), Regex::new(r).unwrap()))).collect();
    let mut uniq = 0u64;
    for step in 0..steps {
        match rng.below(10) {
            0..=2 => {
                let (p, r) = rng.pick(&pool).clone();
                let kw = if rng.chance(1, 5) { Some(*rng.pick(&["k", "word"])) } else { None };
                match (build(&p, kw), r) {
                    (Ok(scanner), Some(_)) => live_out.push(Live { scanner, rx: rxs[&p].clone(), pat: p, kw }),
                    (Err(_), None) => {}
                    (g, e) => return Some((format!("step {step}: build {p:?}"), format!("accepted: {}", e.is_some()), format!("{:?}", g.map(|_| "accepted")))),
                }
            }
            3..=4 if fresh > 0 => {
                for _ in 0..rng.range(1, 40) {
                    if uniq >= fresh { break; }
                    uniq += 1;
                    let p = format!("u{tag}x{uniq}");
                    match build(&p, None) {
                        Ok(scanner) => { let l = Live { scanner, rx: Regex::new(&p).unwrap(), pat: p.clone(), kw: None };
                            let t = format!("{p}u{tag}x{}", uniq + 1);
                            if found(&l, &t) != expect(&l, &t) { return Some((format!("step {step}: scan {t:?} with {p:?}"), format!("{:?}", expect(&l, &t)), format!("{:?}", found(&l, &t)))); }
                            if rng.chance(1, 30) { live_out.push(l); } }
                        Err(e) => return Some((format!("step {step}: build {p:?}"), "accepted".into(), e)),
                    }
                }
            }
            5 => { if !live_out.is_empty() { let i = rng.below(live_out.len()); live_out.swap_remove(i); } }
            _ => {
                if live_out.is_empty() { continue; }
                let i = rng.below(live_out.len());
                let l = &live_out[i];
                let t = if l.pat.starts_with('u') && l.pat.len() > 3 { format!("{} {}{}", l.pat, l.pat.to_uppercase(), l.pat) } else { rng.string(TEXT, 8) };
                let (g, e) = (found(l, &t), expect(l, &t));
                log(!e.is_empty(), format!("{:?} {:?} {t:?}", l.pat, l.kw));
                if g != e { return Some((format!("step {step}: scan {t:?} with {:?} excluded {:?}", l.pat, l.kw), format!("{e:?}"), format!("{g:?}"))); }
            }
        }
        if live_out.len() > 60 { let i = rng.below(live_out.len()); live_out.swap_remove(i); }
    }
    None
}
fn main() {
    let rec = Rec::install();
    let mut r = Run::new();
    // every ordered pair of patterns: built one after the other, the first kept or dropped
    let pool = pool();
    let texts: Vec<String> = (0..40).map(|_| r.rng.string(TEXT, 8)).collect();
    let rx: Vec<Option<Regex>> = pool.iter().map(|(_, r)| r.as_ref().map(|r| Regex::new(r).unwrap())).collect();
    let exp: Vec<Vec<Vec<(usize, usize)>>> = rx.iter().map(|x| texts.iter().map(|t| x.as_ref().map(|x| x.find_iter(t).map(|m| (m.start(), m.end())).collect()).unwrap_or_default()).collect()).collect();
    for i in 0..pool.len() { for j in 0..pool.len() {
        if r.stop() { break; }
        let keep = (i * 3 + j) % 4 != 0;
        let first = build(&pool[i].0, None);
        if first.is_ok() != rx[i].is_some() { r.fail("accept", serde_json::json!(pool[i].0), format!("accepted: {}", rx[i].is_some()), format!("{:?}", first.map(|_| "accepted"))); continue; }
        let _kept = if keep { first.ok() } else { None };
        let second = build(&pool[j].0, None);
        if second.is_ok() != rx[j].is_some() { r.fail("accept", serde_json::json!([pool[i].0, pool[j].0]), format!("accepted: {}", rx[j].is_some()), format!("{:?}", second.map(|_| "accepted"))); continue; }
        let (Ok(s), Some(x)) = (second, rx[j].clone()) else { continue };
        let l = Live { scanner: s, rx: x, pat: pool[j].0.clone(), kw: None };
        // the texts of the patterns themselves tell similar patterns apart
        for t in [format!("{}|{}", pool[i].0, pool[j].0), format!("{}{}", pool[j].0, pool[i].0), format!("{} x", pool[i].0)] {
            if t.len() > 100 { continue; }
            let (g, e) = (r.call(|| found(&l, &t)), expect(&l, &t));
            r.case(true, || format!("{} {} {t}", pool[i].0, pool[j].0));
            if g != Ok(e.clone()) { r.fail("pair", serde_json::json!({"before": pool[i].0, "kept": keep, "pattern": pool[j].0, "text": t}), format!("{e:?}"), format!("{g:?}")); }
        }
        for k in [(i + j) % 40, (i * 7 + j * 3 + 1) % 40] {
            let g = r.call(|| found(&l, &texts[k]));
            r.case(true, || format!("{} {} {}", pool[i].0, pool[j].0, texts[k]));
            if g != Ok(exp[j][k].clone()) { r.fail("pair", serde_json::json!({"before": pool[i].0, "pattern": pool[j].0, "text": texts[k]}), format!("{:?}", exp[j][k]), format!("{g:?}")); }
        }
    } }
    // single-threaded histories with many distinct patterns (several clean-ups of the store)
    let mut live = vec![];
    for h in 0..r.n(4) {
        let mut n = vec![];
        let g = r.call(|| history(1000 + h as u64, 4000, 2600, h, &mut live, &mut |a, b| n.push((a, b))));
        for (a, b) in n { r.case(a, || b.clone()); }
        match g { Ok(None) => {} Ok(Some((a, b, c))) => r.fail("history", serde_json::json!({"history": h, "at": a}), b, c), Err(e) => r.fail("history", serde_json::json!({"history": h}), "no panic".into(), e) }
    }
    // stored regexes: never more than the ones in use plus what was inserted since the last clean-up
    let distinct: std::collections::BTreeSet<_> = live.iter().map(|l| l.pat.clone()).collect();
    let (total, bound) = (rec.get("scanner.total_regexes"), distinct.len() as f64 + 2.0 * 2.0 + 1000.0);
    if total > bound || total < distinct.len() as f64 { r.fail("leak", serde_json::json!("after the histories"), format!("between {} and {bound} regexes kept", distinct.len()), format!("{total}")); }
    drop(live);
    // the same histories concurrently
    for round in 0..r.n(2) {
        let threads = 6;
        let bar = Arc::new(Barrier::new(threads));
        let errs = Arc::new(Mutex::new(vec![]));
        let hs: Vec<_> = (0..threads).map(|k| { let (bar, errs) = (bar.clone(), errs.clone()); std::thread::spawn(move || {
            bar.wait();
            let mut live = vec![]; let mut n = vec![];
            let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| history(77 + (round * 64 + k) as u64, 1500, 450, 1000 + round * 8 + k, &mut live, &mut |a, b| n.push((a, b)))));
            match g { Ok(None) => {} Ok(Some(x)) => errs.lock().unwrap().push(x), Err(_) => errs.lock().unwrap().push(("history".into(), "no panic".into(), "panic".into())) }
            n
        }) }).collect();
        for h in hs { for (a, b) in h.join().unwrap() { r.case(a, || b.clone()); } }
        for (a, b, c) in errs.lock().unwrap().drain(..) { r.fail("threads", serde_json::json!({"round": round, "at": a}), b, c); }
    }
    r.finish("expected matches by the regex crate, per scanner, after arbitrary build/drop/scan histories", "all ordered pairs of a pool of about 60 patterns; histories of 4000 steps with 2600 distinct patterns; 6 threads");
}
