//! Overlap resolution: which matches survive, against the documented priority order.
use dd_sds::*;
use drivers::model::*;
use drivers::Run;

fn pat(r: &mut Run) -> Pat {
    let cs = ['a', 'b', 'é'];
    let n = r.rng.range(1, 5);
    Pat((0..n).map(|_| { let k = r.rng.range(1, 2); let mut v: Vec<char> = (0..k).map(|_| *r.rng.pick(&cs)).collect(); v.sort(); v.dedup(); v }).collect())
}
fn run_one(r: &mut Run, pats: &[Pat], actions: &[MatchAction], scanner: &Scanner, t: &str) {
    let raw: Vec<Raw> = pats.iter().enumerate().flat_map(|(i, p)| p.find(t).into_iter().map(move |(s, e)| Raw { rule: i, start: s, end: e })).collect();
    let total = raw.len();
    let kept = resolve(raw, actions);
    // (rule, end of the match in the input, length for matches that were not replaced)
    let exp: Vec<(usize, isize, Option<usize>)> = kept.iter().map(|m| (m.rule, m.end as isize, if mutating(&actions[m.rule]) { None } else { Some(m.end - m.start) })).collect();
    let got = r.call(|| {
        let mut e = t.to_string();
        scanner.scan(&mut e, vec![])
    }).map(|o| o.iter().map(|m| (m.rule_index, m.end_index_exclusive as isize - m.shift_offset, if mutating(&actions[m.rule_index]) { None } else { Some(m.end_index_exclusive - m.start_index) })).collect::<Vec<_>>());
    let names: Vec<String> = pats.iter().map(|p| p.regex()).collect();
    r.case(kept.len() < total, || format!("{names:?} {actions:?} {t:?}"));
    if got != Ok(exp.clone()) {
        r.fail("overlap", serde_json::json!({"patterns": names, "actions": format!("{actions:?}"), "text": t}), format!("{exp:?}"), format!("{got:?}"));
    }
}
fn main() {
    let mut r = Run::new();
    let acts = [MatchAction::None, MatchAction::None, MatchAction::Redact { replacement: "#".into() }, MatchAction::Redact { replacement: "#######".into() }, MatchAction::Hash];
    for it in 0..r.n(2500) {
        let n = r.rng.range(2, 6);
        let pats: Vec<Pat> = (0..n).map(|_| pat(&mut r)).collect();
        let actions: Vec<MatchAction> = (0..n).map(|_| r.rng.pick(&acts).clone()).collect();
        let rules: Vec<_> = pats.iter().zip(&actions).map(|(p, a)| RegexRuleConfig::new(&p.regex()).match_action(a.clone()).build()).collect();
        let scanner = Scanner::builder(&rules).build().unwrap();
        for _ in 0..8 {
            let max = if it % 50 == 0 { 300 } else { 12 };
            let t = r.rng.string(&["a", "b", "a", "b", "é", "x"], max);
            run_one(&mut r, &pats, &actions, &scanner, &t);
        }
        if r.stop() { break; }
    }
    // long matches: lengths around the boundaries of small integers
    for _ in 0..r.n(60) {
        let n = r.rng.range(2, 4);
        let pats: Vec<Pat> = (0..n).map(|_| { let k = *r.rng.pick(&[1, 2, 10, 127, 128, 255, 256, 257, 300, 512, 530]); let c: Vec<char> = if r.rng.chance(1, 2) { vec!['a'] } else { vec!['a', 'b'] }; Pat(vec![c; k]) }).collect();
        let actions: Vec<MatchAction> = (0..n).map(|_| r.rng.pick(&acts).clone()).collect();
        let rules: Vec<_> = pats.iter().zip(&actions).map(|(p, a)| RegexRuleConfig::new(&p.regex()).match_action(a.clone()).build()).collect();
        let scanner = Scanner::builder(&rules).build().unwrap();
        for _ in 0..4 { let t: String = (0..r.rng.range(1, 4)).map(|_| format!("{}{}", r.rng.pick(&["a", "ab", "aab"]).repeat(r.rng.range(50, 300)), r.rng.pick(&["", "x", "b"]))).collect(); run_one(&mut r, &pats, &actions, &scanner, &t); }
    }
    r.finish("random overlapping rule sets through the real Scanner; non-trivial = at least one match had to be dropped",
             "2-6 rules with patterns of 1-5 characters, texts up to 12 (some up to 300) characters; patterns up to 530 characters, texts up to 3600")
}
