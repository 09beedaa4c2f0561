//! Redaction: real Scanner, compared with the naive model, in three index encodings.
use dd_sds::*;
use drivers::model::*;
use drivers::Run;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[allow(deprecated)]
fn action(r: &mut Run) -> MatchAction {
    match r.rng.below(9) {
        0 | 1 => MatchAction::None,
        2 => MatchAction::Hash,
        3 => MatchAction::Utf16Hash,
        4 | 5 => MatchAction::Redact { replacement: r.rng.pick(&["", "*", "é😀", "[redacted placeholder]", "ab"]).to_string() },
        x => MatchAction::PartialRedact {
            direction: if x % 2 == 0 { PartialRedactDirection::FirstCharacters } else { PartialRedactDirection::LastCharacters },
            character_count: r.rng.range(1, 7),
        },
    }
}
fn pat(r: &mut Run) -> Pat {
    let cs = ['a', 'b', 'c', 'é', '😀', '1'];
    let n = r.rng.range(1, 4);
    Pat((0..n).map(|_| { let k = *r.rng.pick(&[1usize, 1, 2, 3]); let mut v: Vec<char> = (0..k).map(|_| *r.rng.pick(&cs)).collect(); v.sort(); v.dedup(); v }).collect())
}
fn check<E: Encoding>(scanner: &Scanner, ev: &BTreeMap<String, String>, exp_map: &BTreeMap<String, String>, exp: &[Out]) -> Result<(), (String, String)> {
    let got = catch_unwind(AssertUnwindSafe(|| {
        let mut e: MapEvent<E> = MapEvent::new(ev.clone());
        let out = scanner.scan(&mut e, vec![]);
        (e, out)
    }));
    let (e, out) = got.map_err(|p| (format!("{exp_map:?} {exp:?}"), format!("panic {:?}", p.downcast_ref::<String>())))?;
    let o: Vec<Out> = out.iter().map(to_out).collect();
    if e.0 != *exp_map || o != exp { return Err((format!("{exp_map:?} {exp:?}"), format!("{:?} {o:?}", e.0))); }
    if out.iter().any(|m| m.match_value.is_some() || m.match_status != MatchStatus::NotAvailable) {
        return Err(("no match_value, status NotAvailable".into(), format!("{out:?}")));
    }
    for (k, might) in &e.2 {
        if ev[k] != exp_map[k] && !might { return Err((format!("might_mutate for {k}"), "false".into())); }
    }
    Ok(())
}
fn cut(s: String) -> String { if s.len() > 20000 { s.chars().take(20000).collect() } else { s } }
fn main() {
    let mut r = Run::new();
    let alpha = ["a", "b", "c", "a", "b", "é", "😀", "1", " ", "-"];
    for it in 0..r.n(2500) {
        let n = r.rng.range(1, 4);
        // now and then long strings and long replacements: lengths and shifts beyond 8 and 16 bits
        let long = it % 60 == 7;
        let pats: Vec<Pat> = (0..n).map(|_| pat(&mut r)).collect();
        let mut actions: Vec<MatchAction> = (0..n).map(|_| action(&mut r)).collect();
        if long { for a in actions.iter_mut() { if let MatchAction::Redact { replacement } = a { *replacement = (*r.rng.pick(&["*", "é", "😀"])).repeat(*r.rng.pick(&[300usize, 40000])); } else if let MatchAction::PartialRedact { character_count, .. } = a { if r.rng.chance(1, 2) { *character_count = *r.rng.pick(&[300usize, 40000]); } } } }
        let actions = actions;
        let rules: Vec<_> = pats.iter().zip(&actions).map(|(p, a)| RegexRuleConfig::new(&p.regex()).match_action(a.clone()).build()).collect();
        let scanner = match Scanner::builder(&rules).build() { Ok(s) => s, Err(e) => { r.fail("build", serde_json::json!(format!("{pats:?} {actions:?}")), "scanner".into(), format!("{e}")); continue; } };
        for _ in 0..if long { 2 } else { 6 } {
            let ev: BTreeMap<String, String> = (0..r.rng.range(1, 2)).map(|i| (format!("k{i}"), if long && i == 0 {
                // few matches among long stretches of other text
                let k = r.rng.range(1, 6);
                (0..k).map(|_| { let fill = (*r.rng.pick(&["-", " ", "\u{2028}", "𐍈"])).repeat(*r.rng.pick(&[0usize, 1, 130, 300, 33000])); fill + &r.rng.string(&alpha, 6) }).collect::<String>()
            } else { r.rng.string(&alpha, 14) })).collect();
            let ws: [(usize, fn(&str) -> usize); 3] = [(8, w8), (16, w16), (32, w32)];
            for (k, w) in ws {
                let mut em = BTreeMap::new();
                let mut eo = vec![];
                for (key, t) in &ev {
                    let raw: Vec<Raw> = pats.iter().enumerate().flat_map(|(i, p)| p.find(t).into_iter().map(move |(s, e)| Raw { rule: i, start: s, end: e })).collect();
                    let (x, o) = redact(t, &resolve(raw, &actions), &actions, key, w);
                    em.insert(key.clone(), x);
                    eo.extend(o);
                }
                let res = match k { 8 => check::<Utf8Encoding>(&scanner, &ev, &em, &eo), 16 => check::<Units<16>>(&scanner, &ev, &em, &eo), _ => check::<Units<32>>(&scanner, &ev, &em, &eo) };
                r.case(em != ev, || if long { format!("long strings {it}") } else { format!("{:?} {actions:?} {ev:?} utf{k}", pats.iter().map(|p| p.regex()).collect::<Vec<_>>()) });
                if let Err((e, g)) = res {
                    r.fail("redact", serde_json::json!({"patterns": pats.iter().map(|p| p.regex()).collect::<Vec<_>>(), "actions": format!("{actions:?}"), "event": ev, "index_encoding": k}), cut(e), cut(g));
                }
            }
        }
        if r.stop() { break; }
    }
    r.finish("random rule sets (fixed-length class patterns, every action) and events through the real Scanner in three index encodings; non-trivial = the event is changed",
             "1-4 rules, 1-2 strings of up to 14 characters incl. 2- and 4-byte characters; now and then strings and replacements of up to 160000 bytes")
}
