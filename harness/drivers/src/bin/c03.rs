//! Match actions: a rule matching the whole text, every action, against the documented result.
use dd_sds::*;
use drivers::model::*;
use drivers::Run;

#[allow(deprecated)]
fn main() {
    let mut r = Run::new();
    let alpha = ["a", "B", "0", "é", "€", "😀", "ñ", " ", "-", "e\u{301}", "ß", "漢"];
    // rejected / accepted configurations
    for (a, ok) in [
        (MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, character_count: 0 }, false),
        (MatchAction::PartialRedact { direction: PartialRedactDirection::LastCharacters, character_count: 0 }, false),
        (MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, character_count: 1 }, true),
        (MatchAction::PartialRedact { direction: PartialRedactDirection::LastCharacters, character_count: 1 }, true),
        (MatchAction::None, true), (MatchAction::Hash, true), (MatchAction::Utf16Hash, true), (MatchAction::Redact { replacement: "".into() }, true),
    ] {
        let g = r.call(|| Scanner::builder(&[RegexRuleConfig::new("a").match_action(a.clone()).build()]).build().is_ok());
        r.case(true, || format!("build {a:?}"));
        if g != Ok(ok) { r.fail("validate", serde_json::json!(format!("{a:?}")), format!("accepted={ok}"), format!("{g:?}")); }
    }
    for it in 0..r.n(1500) {
        let max = if it % 100 == 0 { 700 } else if it % 30 == 0 { 80 } else { 9 };
        let mut t = r.rng.string(&alpha, max);
        if t.is_empty() { t.push('é'); }
        let len = t.chars().count();
        let p = Pat(t.chars().map(|c| vec![c]).collect()).regex();
        let mut actions = vec![MatchAction::None, MatchAction::Hash, MatchAction::Utf16Hash, MatchAction::Redact { replacement: r.rng.string(&alpha, 5) }];
        let mut counts = vec![1, 2, 3, len.saturating_sub(1).max(1), len, len + 1, len + 40];
        if max > 9 { counts.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]); }
        for c in counts {
            actions.push(MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, character_count: c });
            actions.push(MatchAction::PartialRedact { direction: PartialRedactDirection::LastCharacters, character_count: c });
        }
        for a in actions {
            let (pre, post) = (r.rng.string(&["x", "é", "."], 3).replace('é', "ø"), r.rng.string(&["x", "ø", "."], 3));
            let text = format!("{pre}{t}{post}");
            let (exp, _) = redact(&text, &Pat(t.chars().map(|c| vec![c]).collect()).find(&text).into_iter().map(|(s, e)| Raw { rule: 0, start: s, end: e }).collect::<Vec<_>>(), &[a.clone()], "", w8);
            let g = r.call(|| {
                let s = Scanner::builder(&[RegexRuleConfig::new(&p).match_action(a.clone()).build()]).build().unwrap();
                let mut e = text.clone();
                let ms = s.scan(&mut e, vec![]);
                (e, format!("{:?}", ms[0].replacement_type), ms.len())
            });
            r.case(mutating(&a), || format!("{a:?} on {text:?}"));
            let e = (exp, format!("{:?}", rtype(&a)), 1usize);
            if g != Ok(e.clone()) { r.fail("action", serde_json::json!({"action": format!("{a:?}"), "text": text, "matched": t}), format!("{e:?}"), format!("{g:?}")); }
        }
        if r.stop() { break; }
    }
    r.finish("every match action on texts mixing 1- to 4-byte characters, through the real Scanner; non-trivial = the action changes the text",
             "matches up to 1400 characters, counts 1..len+40")
}
