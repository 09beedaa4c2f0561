//! Scopes: which rules are offered / excluded at which path of which event, against the prefix rule.
use dd_sds::*;
use drivers::Run;
use std::collections::BTreeMap;

type Seg = PathSegment<'static>;
fn seg(r: &mut Run) -> Seg {
    match r.rng.below(6) { 0 => "a".into(), 1 => "b".into(), 2 => "message".into(), 3 => PathSegment::Index(0), 4 => PathSegment::Index(1), _ => "0".into() }
}
fn path(r: &mut Run, max: usize) -> Path<'static> {
    let n = r.rng.below(max + 1);
    Path { segments: (0..n).map(|_| seg(r)).collect() }
}
fn paths(r: &mut Run) -> Vec<Path<'static>> {
    let n = r.rng.below(4);
    (0..n).map(|_| path(r, 4)).collect()
}
fn event(r: &mut Run, depth: usize, next: &mut usize) -> SimpleEvent {
    let k = if depth == 0 { 0 } else { r.rng.below(7) };
    if k < 1 { *next += 1; return SimpleEvent::String(format!("v{next}")); }
    let n = r.rng.below(4);
    if k < 4 { return SimpleEvent::List((0..n).map(|_| event(r, depth - 1, next)).collect()); }
    let mut m = BTreeMap::new();
    for _ in 0..n { let key = (*r.rng.pick(&["a", "b", "message", "0"])).to_string(); let e = event(r, depth - 1, next); m.insert(key, e); }
    SimpleEvent::Map(m)
}
fn leaves(e: &SimpleEvent, at: &mut Vec<Seg>, out: &mut Vec<(Vec<Seg>, String)>) {
    match e {
        SimpleEvent::String(s) => out.push((at.clone(), s.clone())),
        SimpleEvent::List(l) => for (i, c) in l.iter().enumerate() { at.push(PathSegment::Index(i)); leaves(c, at, out); at.pop(); },
        SimpleEvent::Map(m) => for (k, c) in m { at.push(PathSegment::Field(k.clone().into())); leaves(c, at, out); at.pop(); },
    }
}
// does the scope path q cover the event path p?
fn covers(w: bool, q: &[Seg], p: &[Seg], skipped: bool) -> bool {
    if q.is_empty() { return true; }
    if p.is_empty() { return false; }
    let idx = matches!(p[0], PathSegment::Index(_));
    (q[0] == p[0] && !(skipped && idx) && covers(w, &q[1..], &p[1..], false)) || (w && idx && covers(w, q, &p[1..], true))
}
fn expect(w: bool, sc: &Scope, p: &[Seg]) -> (bool, bool) {
    let any = |ps: &Vec<Path<'static>>| ps.iter().any(|q| covers(w, &q.segments, p, false));
    match sc {
        Scope::Include { include, exclude } => (any(include), any(exclude)),
        Scope::Exclude(x) => (true, any(x)),
    }
}
#[derive(Debug, PartialEq, Eq, Clone, PartialOrd, Ord)]
struct Seen { path: Vec<Seg>, content: String, rules: Vec<usize>, excluded: Vec<usize> }
struct Rec<'a> { out: &'a mut Vec<Seen>, n: usize }
impl<'p, 'a> ContentVisitor<'p> for Rec<'a> {
    fn visit_content<'c>(&'c mut self, path: &Path<'p>, content: &str, mut rules: RuleIndexVisitor, ex: ExclusionCheck<'c>, _tp: &[usize]) -> bool {
        let mut v = vec![];
        rules.visit_rule_indices(|i| v.push(i));
        v.sort();
        self.out.push(Seen { path: path.into_static().segments, content: content.to_string(), rules: v, excluded: (0..self.n).filter(|i| ex.is_excluded(*i)).collect() });
        false
    }
    fn find_true_positive_rules_from_current_path(&self, _: &str, _: &mut Vec<usize>) -> usize { 0 }
}
// one set of scopes on one event: visited twice, and optionally scanned
fn one(r: &mut Run, scopes: &[Scope], w: bool, ev: &mut SimpleEvent, scan: bool) {
    let n = scopes.len();
    let mut ls = vec![];
    leaves(ev, &mut vec![], &mut ls);
    let mut exp: Vec<Seen> = ls.into_iter().map(|(p, c)| {
        let e: Vec<(bool, bool)> = scopes.iter().map(|s| expect(w, s, &p)).collect();
        Seen { rules: (0..n).filter(|i| e[*i].0).collect(), excluded: (0..n).filter(|i| e[*i].1).collect(), path: p, content: c }
    }).collect();
    exp.sort();
    let short = |t: String| if t.len() > 6000 { format!("{}...", t.chars().take(6000).collect::<String>()) } else { t };
    let input = serde_json::json!({"scopes": short(format!("{scopes:?}")), "wildcards": w, "event": short(format!("{ev:?}"))});
    let set = ScopedRuleSet::new(scopes).with_implicit_index_wildcards(w);
    // the same rule set serves several scans
    for round in 0..2 {
        let mut got = vec![];
        let res = r.call(|| set.visit_string_rule_combinations(ev, Rec { out: &mut got, n }));
        got.sort();
        if res.is_err() || got != exp { r.fail("scope", input.clone(), short(format!("{exp:?}")), short(format!("{res:?} {got:?} (round {round})"))); break; }
    }
    // the same decisions, through the whole scanner
    if scan {
        let rules: Vec<_> = scopes.iter().map(|s| RegexRuleConfig::new("v[0-9]+").scope(s.clone()).build()).collect();
        let scanner = Scanner::builder(&rules).with_multipass_v0(false).with_implicit_wildcard_indexes_for_scopes(w).build().unwrap();
        let want: Vec<(Vec<Seg>, usize)> = exp.iter().filter_map(|s| s.rules.iter().find(|i| !s.excluded.contains(i)).map(|i| (s.path.clone(), *i))).collect();
        let mut copy = ev.clone();
        let got = r.call(|| { let mut g: Vec<(Vec<Seg>, usize)> = scanner.scan(&mut copy, vec![]).into_iter().map(|m| (m.path.segments, m.rule_index)).collect(); g.sort(); g });
        if got != Ok(want.clone()) { r.fail("scope-scan", input.clone(), short(format!("{want:?}")), short(format!("{got:?}"))); }
    }
    r.case(exp.iter().any(|s| !s.rules.is_empty() || !s.excluded.is_empty()), || input.to_string());
}
// sizes that random small cases never reach: many rules, wide maps, long lists, deep paths
fn large(r: &mut Run) {
    let deep = |n: usize, mk: &dyn Fn(usize) -> Seg| -> Path<'static> { Path { segments: (0..n).map(mk).collect() } };
    for w in [false, true] {
        // many rules, added at the root, at a field and excluded below it
        let scopes: Vec<Scope> = (0..600usize).map(|i| match i % 3 {
            0 => Scope::all(),
            1 => Scope::include(vec![Path::from(vec!["a".into()]), Path::from(vec!["b".into(), "a".into()])]),
            _ => Scope::include_and_exclude(vec![Path::from(vec!["a".into()])], vec![Path::from(vec!["a".into(), PathSegment::Index(i % 5)])]),
        }).collect();
        let list = SimpleEvent::List((0..6).map(|i| SimpleEvent::String(format!("v{i}"))).collect());
        let mut ev = SimpleEvent::Map(BTreeMap::from([("a".into(), list.clone()), ("b".into(), SimpleEvent::Map(BTreeMap::from([("a".into(), list.clone()), ("c".into(), list)])))]));
        one(r, &scopes, w, &mut ev, false);
        // wide: paths below a field, given before or after the field itself, added and removed
        for width in [9usize, 20, 70, 300] { for order in 0..4usize {
            let below: Vec<Path<'static>> = (0..width).map(|i| Path::from(vec!["a".into(), PathSegment::Field(format!("k{i}").into())])).collect();
            let idx: Vec<Path<'static>> = (0..width).map(|i| Path::from(vec!["a".into(), PathSegment::Index(i), "x".into()])).collect();
            let top = Path::from(vec!["a".into()]);
            let mut ps = if order < 2 { below.clone() } else { idx.clone() };
            if order % 2 == 0 { ps.push(top.clone()); } else { ps.insert(width / 2, top.clone()); }
            let scopes = [Scope::include(ps.clone()), Scope::exclude(ps.clone()), Scope::include_and_exclude(vec![Path::root()], ps.clone()), Scope::include_and_exclude(ps, vec![below[width - 1].clone(), idx[width - 1].clone()])];
            let mut map = BTreeMap::new(); for i in 0..width { map.insert(format!("k{i}"), SimpleEvent::String(format!("v{i}"))); }
            let list: Vec<SimpleEvent> = (0..width).map(|i| SimpleEvent::Map(BTreeMap::from([("x".to_string(), SimpleEvent::String(format!("v{i}")))]))).collect();
            for inner in [SimpleEvent::Map(map), SimpleEvent::List(list)] {
                let mut ev = SimpleEvent::Map(BTreeMap::from([("a".to_string(), inner), ("b".to_string(), SimpleEvent::String("v0".into()))]));
                one(r, &scopes, w, &mut ev, width < 30);
            }
        } }
        // long lists: every index is a path of its own
        let ids: Vec<usize> = vec![0, 9, 10, 63, 64, 99, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 1999];
        let scopes: Vec<Scope> = ids.iter().map(|i| Scope::include(vec![Path::from(vec![PathSegment::Index(*i)]), Path::from(vec![PathSegment::Index(*i), "a".into()])])).chain(ids.iter().map(|i| Scope::exclude(vec![Path::from(vec![PathSegment::Index(*i)])]))).chain([Scope::include(vec![Path::from(vec!["a".into()])])]).collect();
        let mut ev = SimpleEvent::List((0..2000).map(|i| if i % 3 == 0 || ids.contains(&i) { SimpleEvent::Map(BTreeMap::from([("a".to_string(), SimpleEvent::String(format!("v{i}")))])) } else { SimpleEvent::String(format!("v{i}")) }).collect());
        one(r, &scopes, w, &mut ev, true);
        // deep: fields, indices and both in turn, with scopes of every length
        for kind in 0..3usize { for depth in [13usize, 17, 33] {
            let mk = move |i: usize| -> Seg { if kind == 0 || kind == 2 && i % 2 == 0 { PathSegment::Field(format!("k{}", i % 3).into()) } else { PathSegment::Index(i % 2) } };
            if kind == 1 && w && depth > 17 { continue; }
            let scopes: Vec<Scope> = (0..depth + 3).map(|l| Scope::include(vec![deep(l, &mk)])).chain((1..depth + 3).map(|l| Scope::exclude(vec![deep(l, &mk)]))).chain((1..depth).map(|l| Scope::include_and_exclude(vec![deep(l, &mk)], vec![deep(l + 1, &mk)]))).collect();
            let mut ev = SimpleEvent::String("v1".into());
            for i in (0..depth).rev() {
                ev = match mk(i) {
                    PathSegment::Index(x) => SimpleEvent::List((0..2).map(|j| if j == x { ev.clone() } else { SimpleEvent::String(format!("v{}", 2 * i + j)) }).collect()),
                    PathSegment::Field(f) => SimpleEvent::Map(BTreeMap::from([(f.to_string(), ev), ("z".to_string(), SimpleEvent::String(format!("v{i}")))])),
                };
            }
            one(r, &scopes, w, &mut ev, true);
        } }
        if r.stop() { return; }
    }
}
fn main() {
    let mut r = Run::new();
    for it in 0..r.n(20000) {
        let n = r.rng.range(1, if it % 20 == 0 { 70 } else { 4 });
        let scopes: Vec<Scope> = (0..n).map(|_| match r.rng.below(4) {
            0 => Scope::exclude(paths(&mut r)),
            1 => Scope::include(paths(&mut r)),
            _ => { let a = paths(&mut r); let b = paths(&mut r); Scope::include_and_exclude(a, b) }
        }).collect();
        let w = r.rng.chance(1, 2);
        let mut next = 0;
        let mut ev = event(&mut r, 4, &mut next);
        one(&mut r, &scopes, w, &mut ev, it % 6 == 0);
        if r.stop() { break; }
    }
    if !r.stop() { large(&mut r); }
    r.finish("random scope sets x random nested events, visited twice and scanned; non-trivial = some rule offered or excluded somewhere",
             "1-70 rules, 0-3 include/exclude paths of 0-4 segments, events of depth up to 4, with and without implicit index wildcards; and 600 rules, 300 fields, lists of 2000, depth 33")
}
