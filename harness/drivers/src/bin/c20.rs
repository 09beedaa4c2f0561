//! Rule configurations, labels and scanner builders: what is set is what is built.
use dd_sds::*;
use drivers::rec::Rec;
use drivers::Run;
use metrics::{IntoLabels, Label};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

const TXT: &[&str] = &["a", "b", "", " ", "é", "\"", "\\", "\n", "env", "k1", "\u{0}", "\u{1F600}", "key"];
fn pairs(r: &mut Run, max: usize) -> Vec<(String, String)> { let n = r.rng.below(max + 1); (0..n).map(|_| (r.rng.string(TXT, 3), r.rng.string(TXT, 3))).collect() }
fn held(l: &Labels) -> Vec<(String, String)> { l.clone().into_labels().iter().map(|l: &Label| (l.key().to_string(), l.value().to_string())).collect() }

fn labels(r: &mut Run) {
    for _ in 0..r.n(4000) {
        let (a, b) = (pairs(r, 4), pairs(r, 4));
        let (la, lb) = (Labels::new(&a), Labels::new(&b));
        let want: Vec<_> = a.iter().chain(&b).cloned().collect();
        let got = r.call(|| held(&la.clone_with_labels(lb.clone())));
        r.case(!want.is_empty(), || format!("labels {a:?} {b:?}"));
        if got.as_ref() != Ok(&want) { r.fail("label-merge", json!({"of": a, "and": b}), format!("{want:?}"), format!("{got:?}")); }
        if held(&la) != a || held(&Labels::empty()) != vec![] || held(&Labels::default()) != vec![] { r.fail("labels", json!({"of": a}), format!("{a:?}"), format!("{la:?}")); }
        let j = serde_json::to_value(&la).unwrap();
        let wj = Value::Array(a.iter().map(|(k, v)| json!([k, v])).collect());
        if j != wj { r.fail("label-json", json!({"of": a}), wj.to_string(), j.to_string()); }
        let back = r.call(|| serde_json::from_value::<Labels>(wj.clone()).map(|l| held(&l)).map_err(|e| e.to_string()));
        if back.as_ref() != Ok(&Ok(a.clone())) { r.fail("label-from-json", json!({"json": wj}), format!("{a:?}"), format!("{back:?}")); }
        // a list that is not of pairs is rejected
        let mut bad: Vec<Vec<String>> = a.iter().map(|(k, v)| vec![k.clone(), v.clone()]).collect();
        let at = r.rng.below(bad.len() + 1);
        let n = *r.rng.pick(&[0usize, 1, 3, 4]);
        bad.insert(at, (0..n).map(|_| r.rng.string(TXT, 2)).collect());
        let res = r.call(|| serde_json::from_value::<Labels>(json!(bad)).is_err());
        if res != Ok(true) { r.fail("label-arity", json!({"json": bad}), "an error".into(), format!("{res:?}")); }
    }
}

#[derive(Clone, Debug)]
struct R { pattern: String, action: MatchAction, scope: Scope, prox: Option<ProximityKeywordsConfig>, validator: Option<SecondaryValidator>, labels: Vec<(String, String)>, vt: Option<MatchValidationType> }
fn path(r: &mut Run) -> Path<'static> { let n = r.rng.below(3); Path { segments: (0..n).map(|_| if r.rng.chance(1, 3) { PathSegment::Index(r.rng.below(12)) } else { PathSegment::Field(r.rng.string(TXT, 2).into()) }).collect() } }
fn paths(r: &mut Run) -> Vec<Path<'static>> { let n = r.rng.below(3); (0..n).map(|_| path(r)).collect() }
fn scope(r: &mut Run) -> Scope { match r.rng.below(5) { 0 => Scope::all(), 1 => { let p = paths(r); Scope::include(p) } 2 => { let (p, q) = (paths(r), paths(r)); Scope::include_and_exclude(p, q) } _ => { let p = paths(r); Scope::exclude(p) } } }
fn vt(r: &mut Run, tag: usize) -> MatchValidationType {
    match r.rng.below(4) {
        0 => MatchValidationType::Aws(AwsType::AwsId),
        1 => MatchValidationType::Aws(AwsType::AwsSession),
        2 => MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig::default())),
        _ => MatchValidationType::CustomHttp(HttpValidatorConfigBuilder::new(format!("http://127.0.0.1:1/{tag}")).build().unwrap()),
    }
}
fn action(r: &mut Run) -> MatchAction {
    match r.rng.below(6) {
        0 => MatchAction::Redact { replacement: r.rng.string(TXT, 2) },
        1 => MatchAction::Hash,
        2 => MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, character_count: r.rng.range(1, 4) },
        3 => MatchAction::PartialRedact { direction: PartialRedactDirection::LastCharacters, character_count: r.rng.range(1, 4) },
        _ => MatchAction::None,
    }
}
const VALIDATORS: &[(&str, SecondaryValidator)] = &[("LuhnChecksum", SecondaryValidator::LuhnChecksum), ("ChineseIdChecksum", SecondaryValidator::ChineseIdChecksum), ("GithubTokenChecksum", SecondaryValidator::GithubTokenChecksum),
    ("NhsCheckDigit", SecondaryValidator::NhsCheckDigit), ("IbanChecker", SecondaryValidator::IbanChecker), ("NirChecksum", SecondaryValidator::NirChecksum), ("JwtExpirationChecker", SecondaryValidator::JwtExpirationChecker)];
fn words(r: &mut Run) -> Vec<String> { let n = r.rng.below(3); (0..n).map(|_| (*r.rng.pick(&["key", "id", "api-key", "é"])).to_string()).collect() }
fn rule(r: &mut Run) -> R {
    let tag = r.rng.below(3);
    let prox = if r.rng.chance(1, 3) { Some(ProximityKeywordsConfig { look_ahead_character_count: r.rng.range(8, 50), included_keywords: words(r), excluded_keywords: words(r) }) } else { None };
    let v = if r.rng.chance(1, 3) { Some(r.rng.pick(VALIDATORS).1.clone()) } else { None };
    let t = if r.rng.chance(1, 4) { Some(vt(r, tag)) } else { None };
    R { pattern: (*r.rng.pick(&["secret", "[0-9]{4}", "é+", "a|b"])).to_string(), action: action(r), scope: scope(r), prox, validator: v, labels: pairs(r, 2), vt: t }
}
fn config(x: &R) -> RegexRuleConfig {
    RegexRuleConfig { pattern: x.pattern.clone(), match_action: x.action.clone(), scope: x.scope.clone(), proximity_keywords: x.prox.clone(), validator: x.validator.clone(), labels: Labels::new(&x.labels), match_validation_type: x.vt.clone() }
}
/// the setters, in the given order
fn by_setters(x: &R, order: &[usize], noise: Option<&R>) -> RegexRuleConfig {
    let mut c = RegexRuleConfig::new(noise.map(|n| n.pattern.as_str()).unwrap_or(&x.pattern));
    let apply = |c: RegexRuleConfig, x: &R, i: usize| match i {
        0 => c.pattern(x.pattern.clone()),
        1 => c.match_action(x.action.clone()),
        2 => c.scope(x.scope.clone()),
        3 => match &x.prox { Some(p) => c.proximity_keywords(p.clone()), None => c },
        4 => match &x.validator { Some(v) => c.validator(v.clone()), None => c },
        5 => c.labels(Labels::new(&x.labels)),
        _ => match &x.vt { Some(v) => c.match_validation_type(v.clone()), None => c },
    };
    if let Some(n) = noise { for i in [0, 1, 2, 5] { c = apply(c, n, i); } }
    for i in order { c = apply(c, x, *i); }
    c
}
fn jseg(s: &PathSegment) -> Value { match s { PathSegment::Field(f) => json!({"type": "Field", "value": f}), PathSegment::Index(i) => json!({"type": "Index", "value": i}) } }
fn jpaths(ps: &[Path]) -> Value { Value::Array(ps.iter().map(|p| json!({"segments": p.segments.iter().map(jseg).collect::<Vec<_>>()})).collect()) }
fn to_json(x: &R) -> Value {
    let vname = |v: &SecondaryValidator| VALIDATORS.iter().find(|y| &y.1 == v).unwrap().0;
    #[allow(deprecated)]
    let a = match &x.action {
        MatchAction::None => json!({"type": "None"}), MatchAction::Hash => json!({"type": "Hash"}),
        MatchAction::Redact { replacement } => json!({"type": "Redact", "replacement": replacement}),
        MatchAction::PartialRedact { direction, character_count } => json!({"type": "PartialRedact", "character_count": character_count, "direction": if *direction == PartialRedactDirection::FirstCharacters { "FirstCharacters" } else { "LastCharacters" }}),
        _ => unreachable!(),
    };
    let s = match &x.scope { Scope::Include { include, exclude } => json!({"type": "Include", "paths": {"include": jpaths(include), "exclude": jpaths(exclude)}}), Scope::Exclude(e) => json!({"type": "Exclude", "paths": jpaths(e)}) };
    json!({"pattern": x.pattern, "match_action": a, "scope": s,
        "proximity_keywords": x.prox.as_ref().map(|p| json!({"look_ahead_character_count": p.look_ahead_character_count, "included_keywords": p.included_keywords, "excluded_keywords": p.excluded_keywords})),
        "validator": x.validator.as_ref().map(|v| json!({"type": vname(v)})),
        "labels": x.labels.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
        "match_validation_type": serde_json::to_value(&x.vt).unwrap()})
}
fn configs(r: &mut Run) {
    for _ in 0..r.n(3000) {
        let x = rule(r);
        let want = config(&x);
        let mut order: Vec<usize> = (0..7).collect();
        for i in (1..7).rev() { let j = r.rng.below(i + 1); order.swap(i, j); }
        let noise = if r.rng.chance(1, 2) { Some(rule(r)) } else { None };
        r.case(true, || format!("{x:?} {order:?}"));
        let before = RegexRuleConfig::new("before");
        let got = r.call(|| by_setters(&x, &order, noise.as_ref()));
        if got.as_ref() != Ok(&want) { r.fail("setters", json!({"rule": format!("{x:?}"), "order": order}), format!("{want:?}"), format!("{got:?}")); }
        let _ = before.pattern("after".into());
        if before.pattern != "before" { r.fail("setter-mutates", json!({}), "before".into(), before.pattern.clone()); }
        // JSON: written and read in the documented form (the one the Go binding sends)
        let wj = to_json(&x);
        let j = serde_json::to_value(&want).unwrap();
        if j != wj { r.fail("config-json", json!({"rule": format!("{x:?}")}), wj.to_string(), j.to_string()); }
        let mut variants = vec![wj.clone()];
        let o = |v: &Value| v.as_object().unwrap().clone();
        let mut m = o(&wj); m.insert("id".into(), json!("ignored")); variants.push(Value::Object(m));
        let mut m = o(&wj);
        if x.scope == Scope::all() { m.remove("scope"); }
        if x.labels.is_empty() { if r.rng.chance(1, 2) { m.remove("labels"); } else { m.insert("labels".into(), Value::Null); } }
        if x.validator.is_none() { m.remove("validator"); }
        if x.vt.is_none() { m.remove("match_validation_type"); }
        match &x.prox {
            None => { m.remove("proximity_keywords"); }
            Some(p) => {
                let q = m.get_mut("proximity_keywords").unwrap().as_object_mut().unwrap();
                for (k, e) in [("included_keywords", p.included_keywords.is_empty()), ("excluded_keywords", p.excluded_keywords.is_empty())] { if e { if r.rng.chance(1, 2) { q.remove(k); } else { q.insert(k.into(), Value::Null); } } }
            }
        }
        variants.push(Value::Object(m));
        for v in variants {
            let back = r.call(|| serde_json::from_value::<RegexRuleConfig>(v.clone()).map_err(|e| e.to_string()));
            if back.as_ref() != Ok(&Ok(want.clone())) { r.fail("config-from-json", json!({"json": v}), format!("{want:?}"), format!("{back:?}")); }
        }
        // required parts
        for k in ["pattern", "match_action"] { let mut m = o(&wj); m.remove(k); if serde_json::from_value::<RegexRuleConfig>(Value::Object(m.clone())).is_ok() { r.fail("config-missing", json!({"json": m}), "an error".into(), "accepted".into()); } }
    }
}
// ---- building ------------------------------------------------------------------------------------------
fn spoil(r: &mut Run, x: &mut R) -> i64 {
    match r.rng.below(7) {
        0 => { x.pattern = (*r.rng.pick(&["", "a*", "(", "[z-a]", "x{2,1}"])).to_string(); -2 }
        1 => { x.action = MatchAction::PartialRedact { direction: PartialRedactDirection::LastCharacters, character_count: 0 }; -4 }
        2 => { x.prox = Some(ProximityKeywordsConfig { look_ahead_character_count: *r.rng.pick(&[0, 51, 1000]), included_keywords: vec![], excluded_keywords: vec![] }); -3 }
        3 => { x.prox = Some(ProximityKeywordsConfig { look_ahead_character_count: 30, included_keywords: vec!["ok".into(), "".into()], excluded_keywords: vec![] }); -3 }
        4 => { x.prox = Some(ProximityKeywordsConfig { look_ahead_character_count: 30, included_keywords: vec![], excluded_keywords: vec!["".into()] }); -3 }
        5 => { x.prox = Some(ProximityKeywordsConfig { look_ahead_character_count: 4, included_keywords: vec![], excluded_keywords: vec!["abcde".into()] }); -3 }
        _ => { x.prox = Some(ProximityKeywordsConfig { look_ahead_character_count: 30, included_keywords: vec!["k".into(); 51], excluded_keywords: vec![] }); -3 }
    }
}
fn building(r: &mut Run) {
    for _ in 0..r.n(250) {
        let n = r.rng.below(5);
        let mut xs: Vec<R> = (0..n).map(|_| rule(r)).collect();
        let mut codes = vec![];
        for x in xs.iter_mut() { if r.rng.chance(1, 4) { codes.push(spoil(r, x)); } }
        let cfgs: Vec<Arc<dyn RuleConfig>> = xs.iter().map(|x| config(x).build()).collect();
        let (a, b, c) = (r.rng.chance(1, 2), r.rng.chance(1, 2), r.rng.chance(1, 2));
        let got = r.call(|| ScannerBuilder::new(&cfgs).with_implicit_wildcard_indexes_for_scopes(a).with_multipass_v0(b).with_keywords_should_match_event_paths(c).build().map(|_| ()).map_err(i64::from));
        r.case(n > 0, || format!("{xs:?}"));
        let ok = match &got { Ok(Ok(())) => codes.is_empty(), Ok(Err(c)) => codes.contains(c), Err(_) => false };
        if !ok { r.fail("build", json!({"rules": format!("{xs:?}")}), if codes.is_empty() { "a scanner".into() } else { format!("an error out of {codes:?}") }, format!("{got:?}")); }
    }
}
// features: each switches its own behaviour, whatever the others are and in whatever order they are set
fn features(r: &mut Run) {
    for n in 0..48u32 {
        let (wild, multi, paths, order) = (n & 1 != 0, n & 2 != 0, n & 4 != 0, n / 8);
        let rules: Vec<Arc<dyn RuleConfig>> = vec![
            RegexRuleConfig::new("w1").scope(Scope::include(vec![vec!["l".into(), "f".into()].into()])).match_action(MatchAction::Redact { replacement: "W".into() }).build(),
            RegexRuleConfig::new("m1").scope(Scope::exclude(vec![vec!["x".into()].into()])).match_action(MatchAction::Redact { replacement: "M".into() }).build(),
            RegexRuleConfig::new("p1").proximity_keywords(ProximityKeywordsConfig { look_ahead_character_count: 10, included_keywords: vec!["token".into()], excluded_keywords: vec![] }).match_action(MatchAction::Redact { replacement: "P".into() }).build(),
        ];
        let mut b = ScannerBuilder::new(&rules);
        let ord = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order as usize];
        for i in ord { b = match i { 0 => b.with_implicit_wildcard_indexes_for_scopes(wild), 1 => b.with_multipass_v0(multi), _ => b.with_keywords_should_match_event_paths(paths) }; }
        let s = b.build().unwrap();
        let str = |s: &str| SimpleEvent::String(s.into());
        let map = |v: Vec<(&str, SimpleEvent)>| SimpleEvent::Map(v.into_iter().map(|(k, e)| (k.to_string(), e)).collect::<BTreeMap<_, _>>());
        let mk = |w: &str, m: &str, p: &str| map(vec![("l", SimpleEvent::List(vec![map(vec![("f", str(w))])])), ("x", str("m1")), ("y", str(m)), ("token", str(p))]);
        let mut ev = mk("w1", "m1", "p1");
        let _ = r.call(|| { s.scan(&mut ev, vec![]); });
        let want = mk(if wild { "W" } else { "w1" }, if multi { "m1" } else { "M" }, if paths { "P" } else { "p1" });
        r.case(true, || format!("features {wild} {multi} {paths} {ord:?}"));
        if ev != want { r.fail("feature", json!({"implicit_wildcards": wild, "multipass": multi, "keywords_in_paths": paths, "order": ord}), format!("{want:?}"), format!("{ev:?}")); }
    }
    // the default builder: no implicit wildcards, multipass on, no keywords in paths
    let rules: Vec<Arc<dyn RuleConfig>> = vec![RegexRuleConfig::new("m1").scope(Scope::exclude(vec![vec!["x".into()].into()])).build()];
    let s = ScannerBuilder::new(&rules).build().unwrap();
    let mut ev = SimpleEvent::Map([("x".to_string(), SimpleEvent::String("m1".into())), ("y".to_string(), SimpleEvent::String("m1".into()))].into_iter().collect());
    let n = s.scan(&mut ev, vec![]).len();
    if n != 0 { r.fail("feature-default", json!({}), "0 matches".into(), n.to_string()); }
}
// labels: those of the scanner on its own metrics, and those of the scanner and of the rule on the rule's
fn observed(r: &mut Run, rec: &Rec) {
    for _ in 0..r.n(60) {
        let clean = |r: &mut Run, p: &str| -> Vec<(String, String)> { let n = r.rng.below(3); (0..n).map(|i| (format!("{p}{i}"), format!("v{}", r.rng.below(100)))).collect() };
        let (ls, l0, l1) = (clean(r, "s"), clean(r, "a"), clean(r, "b"));
        let rule = |p: &str, l: &Vec<(String, String)>| RegexRuleConfig::new(p).scope(Scope::exclude(vec![vec!["x".into()].into()])).labels(Labels::new(l))
            .proximity_keywords(ProximityKeywordsConfig { look_ahead_character_count: 12, included_keywords: vec![], excluded_keywords: vec!["fake".into()] }).build();
        let rules = [rule("p1", &l0), rule("q1", &l1)];
        let s = ScannerBuilder::new(&rules).labels(Labels::new(&ls)).build().unwrap();
        rec.clear();
        let k = [r.rng.below(3), r.rng.below(3)];
        let mut m: BTreeMap<String, SimpleEvent> = BTreeMap::new();
        m.insert("x".into(), SimpleEvent::String("p1 q1".into()));
        m.insert("y".into(), SimpleEvent::String(format!("{}{}", "p1 ".repeat(k[0]), "q1 ".repeat(k[1]))));
        let free = r.rng.chance(1, 2);
        if free { m.insert("z".into(), SimpleEvent::String("fake p1, fake q1".into())); }
        s.scan(&mut SimpleEvent::Map(m), vec![]);
        let key = |name: &str, l: &[&Vec<(String, String)>], extra: &[(&str, &str)]| { let mut v: Vec<String> = l.iter().flat_map(|x| x.iter()).map(|(a, b)| format!("{a}={b}")).chain(extra.iter().map(|(a, b)| format!("{a}={b}"))).collect(); v.sort(); if v.is_empty() { name.to_string() } else { format!("{name}|{}", v.join(",")) } };
        let mut want: BTreeMap<String, f64> = BTreeMap::new();
        *want.entry(key("scanned_events", &[&ls], &[])).or_default() += 1.0;
        *want.entry(key("false_positive.multipass.excluded_match", &[&ls, &l0], &[])).or_default() += k[0] as f64;
        *want.entry(key("false_positive.multipass.excluded_match", &[&ls, &l1], &[])).or_default() += k[1] as f64;
        let got = rec.all();
        r.case(true, || format!("{ls:?} {l0:?} {l1:?} {k:?}"));
        for (k, v) in &want { if got.get(k).copied().unwrap_or(0.0) != *v { r.fail("metric-labels", json!({"scanner": ls, "rules": [&l0, &l1]}), format!("{k} = {v}"), format!("{got:?}")); } }
        for (k, _) in &got { if k.starts_with("false_positive.multipass") || k.starts_with("scanned_events") { if !want.contains_key(k) { r.fail("metric-labels", json!({"scanner": ls, "rules": [&l0, &l1]}), format!("{want:?}"), k.clone()); } } }
        // every metric of a scan carries the scanner's labels
        for k in got.keys() { if (k.starts_with("false_positive") || k.starts_with("scan")) && !ls.iter().all(|(a, b)| k.contains(&format!("{a}={b}"))) { r.fail("scanner-labels", json!({"scanner": ls}), "the labels of the scanner".into(), k.clone()); } }
    }
}
fn main() {
    let rec = Rec::install();
    let mut r = Run::new();
    labels(&mut r);
    configs(&mut r);
    features(&mut r);
    building(&mut r);
    observed(&mut r, &rec);
    r.finish("labels merged, written and read; configurations by setters in any order and by JSON; scanners built from valid and invalid rules; feature switches; labels on metrics",
        "labels <= 4 pairs, rules <= 4 per scanner; 48 feature cases; random otherwise");
}
