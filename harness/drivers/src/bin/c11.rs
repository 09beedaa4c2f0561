//! Paths: standardised form, keywords found in paths, prefix test, printed form.
use dd_sds::*;
use drivers::Run;
use std::collections::BTreeMap;

type Seg = PathSegment<'static>;
#[derive(PartialEq, Clone, Copy)]
enum K { R, U, S }
fn kind(c: char) -> K { if ['-', '_', '.', ' ', '/'].contains(&c) { K::S } else if c.is_ascii_uppercase() { K::U } else { K::R } }
fn std_chars(s: &str) -> Vec<char> {
    let t: Vec<char> = s.chars().collect();
    let mut o = vec![];
    for i in 0..t.len() {
        let c = t[i];
        if i == 0 || i == t.len() - 1 { o.push(c); continue; }
        match (kind(t[i - 1]), kind(c)) {
            (_, K::R) | (K::S, _) | (K::U, K::U) => o.push(c),
            (K::R, K::U) => { o.push('.'); o.push(c); }
            (_, K::S) => o.push('.'),
        }
    }
    o
}
fn low(v: Vec<char>) -> String { v.into_iter().map(|c| c.to_ascii_lowercase()).collect() }
fn sanitized(p: &[Seg]) -> String {
    let mut o = String::new();
    for (i, s) in p.iter().enumerate() { if let PathSegment::Field(f) = s { if i != 0 { o.push('.'); } o.push_str(&low(std_chars(f))); } }
    o
}
fn printed(p: &[Seg]) -> String {
    let mut o = String::new();
    for (i, s) in p.iter().enumerate() { match s { PathSegment::Field(f) => { if i != 0 { o.push('.'); } o.push_str(f); } PathSegment::Index(n) => o.push_str(&format!("[{n}]")) } }
    o
}
fn is_word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
fn boundary(t: &[char], i: usize) -> bool { (i > 0 && is_word(t[i - 1])) != (i < t.len() && is_word(t[i])) }
fn in_path(san: &str, kw: &str) -> bool {
    let t: Vec<char> = san.chars().collect();
    let first = kw.chars().next().unwrap();
    let last = kw.chars().next_back().unwrap();
    let k: Vec<char> = low(std_chars(kw)).chars().collect();
    (0..=t.len()).any(|i| i + k.len() <= t.len() && (0..k.len()).all(|j| t[i + j].to_lowercase().eq(k[j].to_lowercase()))
        && (!first.is_ascii_alphanumeric() || boundary(&t, i)) && (!last.is_ascii_alphanumeric() || boundary(&t, i + k.len())))
}
fn paths(r: &mut Run, segs: Vec<Seg>) {
    let p = Path { segments: segs.clone() };
    let (a, b) = (sanitized(&segs), printed(&segs));
    let g = r.call(|| (p.sanitize(), format!("{p}"), format!("{p:?}"), p.into_static() == p, p.len(), p.is_empty()));
    r.case(!a.is_empty(), || format!("{segs:?}"));
    let e = (a, b.clone(), b, true, segs.len(), segs.is_empty());
    if g != Ok(e.clone()) { r.fail("path", serde_json::json!(format!("{segs:?}")), format!("{e:?}"), format!("{g:?}")); }
    for s in &segs {
        let e = match s { PathSegment::Field(f) => Some(low(std_chars(f))), _ => None };
        let g = r.call(|| s.sanitize().map(|c| c.to_string()));
        if g != Ok(e.clone()) { r.fail("segment", serde_json::json!(format!("{s:?}")), format!("{e:?}"), format!("{g:?}")); }
    }
}
fn main() {
    let mut r = Run::new();
    // every field of up to six characters over the character kinds
    let al = ['a', 'B', 'C', '-', '.', 'é', '1'];
    let mut level = vec![String::new()];
    for n in 0..=5 {
        for s in &level { paths(&mut r, vec![PathSegment::Field(s.clone().into())]); }
        if n < 5 { level = level.iter().flat_map(|s| al.iter().map(move |c| format!("{s}{c}"))).collect(); }
    }
    // every ASCII character, and some others, in every position among the character kinds
    for c in (0u8..128).map(|b| b as char).chain("ÉİıſKéΩ١。·—\u{a0}\u{2028}ǅ".chars()) {
        for (x, y) in [("", ""), ("a", "b"), ("A", "B"), ("ab", "Cd"), ("-", "-"), ("a", "BC"), ("aB", ""), ("", "aB"), ("1", "2"), ("é", "é")] {
            paths(&mut r, vec![PathSegment::Field(format!("{x}{c}{y}").into())]);
            paths(&mut r, vec![PathSegment::Field(format!("{x}{c}{c}{y}").into()), PathSegment::Field(format!("{c}").into())]);
        }
    }
    let pieces = ["aws", "access", "key", "Key", "KEY", "-", "_", ".", " ", "/", "é", "É", "1", "A", "a", "\u{1F600}", "b", "B", "id", "ID", "--"];
    let seg = |r: &mut Run| -> Seg { match r.rng.below(5) { 0 => PathSegment::Index(r.rng.below(12)), 1 => PathSegment::Index(r.rng.big(false)), _ => { let max = if r.rng.chance(1, 20) { 80 } else { 5 }; let s = r.rng.string(&pieces, max); PathSegment::Field(s.into()) } } };
    for _ in 0..r.n(20000) {
        let n = r.rng.below(5);
        let segs: Vec<Seg> = (0..n).map(|_| seg(&mut r)).collect();
        paths(&mut r, segs.clone());
        // prefix test
        let m = r.rng.below(n + 1);
        let mut q = segs[..m].to_vec();
        // nearly equal: an index with a bit changed, a field with a letter changed
        if r.rng.chance(1, 3) && m > 0 {
            let i = r.rng.below(m);
            q[i] = match &q[i] {
                PathSegment::Index(n) => PathSegment::Index(n ^ (1usize << r.rng.below(63))),
                PathSegment::Field(f) => { let mut c: Vec<char> = f.chars().collect(); if !c.is_empty() { let k = r.rng.below(c.len()); match r.rng.below(3) { 0 => { c.remove(k); } 1 => c[k] = if c[k].is_lowercase() { c[k].to_ascii_uppercase() } else { c[k].to_ascii_lowercase() }, _ => c.push('x') } } PathSegment::Field(c.into_iter().collect::<String>().into()) }
            };
        }
        if r.rng.chance(1, 3) { let s = seg(&mut r); let i = r.rng.below(q.len() + 1); if i < q.len() && r.rng.chance(1, 2) { q[i] = s } else { q.push(s) } }
        let e = q.len() <= n && q[..] == segs[..q.len()];
        let (p, q2) = (Path { segments: segs.clone() }, Path { segments: q.clone() });
        let g = r.call(|| p.starts_with(&q2));
        if g != Ok(e) { r.fail("starts_with", serde_json::json!(format!("{segs:?} / {q:?}")), format!("{e}"), format!("{g:?}")); }
    }
    // keywords in paths, through the scanner
    let kws = ["key", "aws key", "aws-access", "accessKey", "AccessKey", "awsAccess", "a.b", "-id", "id-", "Id", "é", "clé", "KEY", "aB", "k_e_y", "id1", "q", "éB", "access key id", "a--b", "a:b", "a+b", "x@y", "$k", "[k]", "k*", "a\\b", "k?", "\u{130}", "\u{130}d", "a\u{130}", "id\u{e9}", "\u{c9}Key"];
    for _ in 0..r.n(2500) {
        let c = r.rng.range(1, 3);
        let ks: Vec<String> = (0..c).map(|_| r.rng.pick(&kws).to_string()).collect();
        let on = r.rng.chance(4, 5);
        let rule = |act: MatchAction| RegexRuleConfig::new("#[0-9]").match_action(act).proximity_keywords(ProximityKeywordsConfig { look_ahead_character_count: 20, included_keywords: ks.clone(), excluded_keywords: vec![] }).build();
        let scanner = Scanner::builder(&[rule(MatchAction::None)]).with_keywords_should_match_event_paths(on).build().unwrap();
        for _ in 0..8 {
            let n = r.rng.range(1, 4);
            let pieces2 = ["aws", "Access", "access", "Key", "key", "KEY", "-", "_", ".", " ", "id", "Id", "a", "B", "b", "é", "1", "k", "e", "y", "cl", "q", "i", "\u{130}", "\u{c9}", ":", "+", "@", "x", "$", "[k]", "*", "\\", "?"];
            let segs: Vec<Seg> = (0..n).map(|i| if r.rng.chance(1, 4) { PathSegment::Index(0) } else { let mut s = r.rng.string(&pieces2, 4); if r.rng.chance(1, 3) { s = r.rng.pick(&kws).to_string(); } let _ = i; PathSegment::Field(s.into()) }).collect();
            let text = *r.rng.pick(&["#1", "x #1 #2", "", "no match", "##1", "ß #3"]);
            let mut ev = SimpleEvent::String(text.to_string());
            for s in segs.iter().rev() {
                ev = match s { PathSegment::Field(f) => SimpleEvent::Map(BTreeMap::from([(f.to_string(), ev)])), PathSegment::Index(_) => SimpleEvent::List(vec![ev]) };
            }
            let hit = on && ks.iter().any(|k| in_path(&sanitized(&segs), k));
            let want: Vec<usize> = if hit { text.match_indices('#').filter(|(i, _)| text[i + 1..].starts_with(|c: char| c.is_ascii_digit())).map(|x| x.0).collect() } else { vec![] };
            let got = r.call(|| scanner.scan(&mut ev, vec![]).into_iter().map(|m| m.start_index).collect::<Vec<_>>());
            let d = format!("keywords {ks:?}, path keywords {on}, path {segs:?}, text {text:?}");
            r.case(hit, || d.clone());
            if got != Ok(want.clone()) { r.fail("path-keyword", serde_json::json!(d), format!("{want:?}"), format!("{got:?}")); }
        }
        if r.stop() { break; }
    }
    r.finish("path fields of every character kind, random paths, keyword sets x paths through the scanner; non-trivial = the path has text / contains a keyword",
             "all fields of up to 5 characters over 7 kinds of characters, every ASCII character in 10 surroundings, random paths of up to 4 segments of up to 5 (some 80) pieces, keyword sets of 1 to 3")
}
