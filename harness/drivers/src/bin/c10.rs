//! Proximity keywords in the scanned text, against the character-window definition, and the
//! validation of keyword configurations.
use dd_sds::*;
use drivers::Run;

const POOL: &[&str] = &["key", "Key", "key word", "word two", "id", "a", "aa", "é", "clé", "É", "k.y", "k*y", "(id)", "[x]", "-id", "id-", "key:", "a_b", "a-b", "_k", "key-word", " key", "word ", "7", "a7", "éa", "two", "\\d", "^a", "a|b", "$", "日本", "k y", "a #1 b c", "id #9 key", "b", "- a", "_ id", "id -", "\u{130}", "i\u{130}"];
const TEXT: &[&str] = &["key", "KEY", "Key", " ", " ", " ", "  ", "word", "two", "id", "ID", "a", "A", "aa", "b", "é", "É", "clé", "k.y", "kay", "k*y", "(id)", "[x]", "-", "_", "-id", "_k", "7", "#1", "#2", "#3", "#9", "x#4", "-#5", "-1", "-2", ":-3", "\n", "日本", "日", "\u{1F600}", ".", "|", "d", "\\d", "$", "^a", "key word", "k-ey", "w_ord", "id#6", "é#7", "a #1 b c", "id #9 key", "b", "_8", "_#1", "\u{130}", "i", "i\u{130}"];
fn is_word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
fn same(a: char, b: char) -> bool { a == b || a.to_lowercase().eq(b.to_lowercase()) }
fn boundary(t: &[char], i: usize) -> bool {
    let l = i > 0 && is_word(t[i - 1]);
    let r = i < t.len() && is_word(t[i]);
    l != r
}
fn kw_at(t: &[char], i: usize, k: &[char]) -> bool {
    i + k.len() <= t.len() && k.iter().zip(&t[i..]).all(|(a, b)| same(*a, *b))
        && (!k[0].is_ascii_alphanumeric() || boundary(t, i))
        && (!k[k.len() - 1].is_ascii_alphanumeric() || boundary(t, i + k.len()))
}
const MARK: &[char] = &['#', '%', '-', '_'];
// matches of the pattern [#%_-][0-9] (they cannot overlap each other): character positions
fn pats(t: &[char]) -> Vec<usize> { (0..t.len()).filter(|i| MARK.contains(&t[*i]) && *i + 1 < t.len() && t[*i + 1].is_ascii_digit()).collect() }
fn strip(k: &str) -> Vec<char> { k.trim().chars().filter(|c| *c != '-' && *c != '_').collect() }

fn included(t: &[char], m: usize, ks: &[Vec<char>], n: usize) -> bool { (m.saturating_sub(n)..=m).any(|i| ks.iter().any(|k| kw_at(t, i, k))) }
fn excluded(t: &[char], m: usize, ks: &[Vec<char>], n: usize) -> bool {
    let w = m.saturating_sub(n);
    let from = w.saturating_sub(1);     // one character of context on either side, for word boundaries
    let st = |x: &[char]| -> Vec<char> { x.iter().copied().filter(|c| *c != '-' && *c != '_').collect() };
    let s = st(&t[from..=m]);
    let (lo, hi) = (st(&t[from..w]).len(), st(&t[from..m]).len());
    (lo..hi).any(|i| ks.iter().any(|k| i + k.len() <= hi && kw_at(&s, i, k)))
}
fn scan(r: &mut Run, cfg: &ProximityKeywordsConfig, texts: &[String]) {
    let rule = RegexRuleConfig::new("[#%_-][0-9]").proximity_keywords(cfg.clone()).build();
    let scanner = match Scanner::builder(&[rule]).build() { Ok(s) => s, Err(e) => { r.fail("config", serde_json::json!(format!("{cfg:?}")), "accepted".into(), format!("{e:?}")); return; } };
    let n = cfg.look_ahead_character_count;
    let inc: Vec<Vec<char>> = cfg.included_keywords.iter().map(|k| k.trim().chars().collect()).collect();
    let exc: Vec<Vec<char>> = cfg.excluded_keywords.iter().map(|k| strip(k)).collect();
    for text in texts {
        let t: Vec<char> = text.chars().collect();
        let off: Vec<usize> = text.char_indices().map(|x| x.0).collect();
        let all = pats(&t);
        let want: Vec<(usize, bool)> = all.iter().map(|m| (off[*m], if !inc.is_empty() { included(&t, *m, &inc, n) } else if !exc.is_empty() { !excluded(&t, *m, &exc, n) } else { true })).collect();
        let mut ev = text.clone();
        let got = r.call(|| scanner.scan(&mut ev, vec![]).into_iter().map(|m| (m.start_index, m.end_index_exclusive)).collect::<Vec<_>>());
        let input = || serde_json::json!({"look_ahead": n, "included": cfg.included_keywords, "excluded": cfg.excluded_keywords, "text": text});
        r.case(want.iter().any(|w| w.1) && want.iter().any(|w| !w.1), || input().to_string());
        match &got {
            Err(e) => r.fail("keywords", input(), format!("{want:?}"), e.clone()),
            Ok(g) => {
                let bad = want.iter().any(|(s, w)| g.contains(&(*s, *s + 2)) != *w)
                    || g.iter().any(|x| !want.iter().any(|(s, _)| *x == (*s, *s + 2))) || g.windows(2).any(|w| w[0].0 >= w[1].0);
                if bad { r.fail("keywords", input(), format!("{want:?}"), format!("{g:?}")); }
            }
        }
        if r.stop() { return; }
    }
}
fn cfg(n: usize, i: &[&str], e: &[&str]) -> ProximityKeywordsConfig {
    ProximityKeywordsConfig { look_ahead_character_count: n, included_keywords: i.iter().map(|s| s.to_string()).collect(), excluded_keywords: e.iter().map(|s| s.to_string()).collect() }
}
fn check_cfg(r: &mut Run, c: &ProximityKeywordsConfig) {
    let n = c.look_ahead_character_count;
    let mut errs = vec![];
    if n == 0 || n > 50 { errs.push("InvalidLookAheadCharacterCount"); }
    if c.included_keywords.len() > 50 || c.excluded_keywords.len() > 50 { errs.push("TooManyKeywords"); }
    for (k, ex) in c.included_keywords.iter().map(|k| (k, false)).chain(c.excluded_keywords.iter().map(|k| (k, true))) {
        if k.chars().count() > n { errs.push("KeywordTooLong"); }
        if k.trim().is_empty() || (ex && strip(k).is_empty()) { errs.push("EmptyKeyword"); }
    }
    let rule = RegexRuleConfig::new("#[0-9]").proximity_keywords(c.clone()).build();
    let got = r.call(|| match Scanner::builder(&[rule]).build() { Ok(_) => "ok".to_string(), Err(CreateScannerError::InvalidKeywords(e)) => format!("{e:?}"), Err(e) => format!("{e:?}") });
    let fine = match &got { Err(_) => false, Ok(g) if g == "ok" => errs.is_empty(), Ok(g) => errs.iter().any(|e| g.starts_with(e)) };
    let d = format!("{c:?}");
    r.case(true, || d.clone());
    if !fine { r.fail("config", serde_json::json!(d.clone()), format!("{errs:?}"), format!("{got:?}")); }
}
fn main() {
    let mut r = Run::new();
    // configurations
    let k50: Vec<String> = (0..51).map(|i| format!("k{i}")).collect();
    for n in [0usize, 1, 2, 3, 49, 50, 51, 52, 1000] {
        for (i, e) in [(vec!["a"], vec![]), (vec![], vec!["a"]), (vec![], vec![]), (vec!["ab"], vec!["é"]), (vec!["éé"], vec![]), (vec![" "], vec![]), (vec![""], vec![]), (vec![], vec!["-"]), (vec!["-"], vec![]), (vec![], vec!["-_-"]), (vec!["_"], vec!["a"]), (vec!["a "], vec![]), (vec![], vec![""]), (vec!["ééé"], vec!["日本語"])] {
            check_cfg(&mut r, &cfg(n, &i, &e));
        }
        for len in [48usize, 49, 50, 51] { for c in ["a", "é"] { let k = c.repeat(len); check_cfg(&mut r, &cfg(n, &[&k], &[])); check_cfg(&mut r, &cfg(n, &[], &[&k])); check_cfg(&mut r, &cfg(n, &["a", "b", &k], &["c"])); } }
        for len in [49usize, 50, 51] { let k: Vec<&str> = k50[..len].iter().map(|s| s.as_str()).collect(); check_cfg(&mut r, &cfg(n, &k, &[])); check_cfg(&mut r, &cfg(n, &[], &k)); }
    }
    // every distance around the look-ahead limit, with fillers of different widths
    for n in [1usize, 2, 3, 4, 7, 10, 30, 50] { for f in [" ", "é", "\u{1F600}", "x", "-", "_"] { for kw in ["id", "a", "é", "clé", "a-b"] {
        if kw.chars().count() > n { continue; }
        let mut ts = vec![];
        for d in 0..=(n + 6) { for pre in ["", "x", " ", "é", "é é "] { for post in ["#1", " #1 #2", "#1#2  #3", "-1 -2", "_1 -2"] { ts.push(format!("{pre}{kw}{}{post}", f.repeat(d))); ts.push(format!("{pre}{kw} {}{post}", f.repeat(d))); } } }
        scan(&mut r, &cfg(n, &[kw], &[]), &ts);
        scan(&mut r, &cfg(n, &[], &[kw]), &ts);
    }}}
    // texts built from a few pieces, exhaustively
    let pieces = ["key", " ", "#1", "word", "é", "-", "x"];
    let mut small = vec![String::new()];
    for _ in 0..5 { small = small.iter().flat_map(|s| std::iter::once(s.clone()).chain(pieces.iter().map(move |p| format!("{s}{p}")))).collect::<std::collections::BTreeSet<_>>().into_iter().collect(); }
    for (n, i, e) in [(3usize, vec!["key"], vec![]), (3, vec![], vec!["key"]), (5, vec!["key"], vec![]), (4, vec![], vec!["key", "x"]), (8, vec!["key word", "word"], vec!["x"]), (8, vec![], vec!["key word"]), (1, vec!["x"], vec![]), (1, vec![], vec!["x"]), (4, vec!["-"], vec![]), (7, vec!["key x", "x"], vec![]), (10, vec!["#1 x word", "x"], vec![])] {
        scan(&mut r, &cfg(n, &i, &e), &small);
        if r.stop() { break; }
    }
    for _ in 0..r.n(900) {
        let n = match r.rng.below(4) { 0 => r.rng.range(1, 5), 1 => r.rng.range(5, 12), 2 => r.rng.range(12, 49), _ => *r.rng.pick(&[10usize, 30, 50]) };
        let pick = |r: &mut Run| -> Vec<String> { let c = r.rng.below(4); (0..c).map(|_| r.rng.pick(POOL).to_string()).filter(|k| k.chars().count() <= n && !strip(k).is_empty()).collect() };
        let (i, e) = match r.rng.below(5) { 0 | 1 => (pick(&mut r), vec![]), 2 | 3 => (vec![], pick(&mut r)), _ => (pick(&mut r), pick(&mut r)) };
        let c = ProximityKeywordsConfig { look_ahead_character_count: n, included_keywords: i, excluded_keywords: e };
        let texts: Vec<String> = (0..40).map(|_| { let len = if r.rng.chance(1, 6) { 60 } else { 14 }; r.rng.string(TEXT, len) }).collect();
        scan(&mut r, &c, &texts);
        if r.stop() { break; }
    }
    r.finish("keyword configurations x texts around matches of [#%_-][0-9]; non-trivial = some match reported and some suppressed",
             "all texts of up to 5 pieces for 10 configurations, every distance around 8 look-ahead sizes, random keyword sets (0-3) and texts of up to 60 pieces; config limits at their edges")
}
