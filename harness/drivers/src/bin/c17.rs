//! Events: every string is presented once with its path, in order, and visit_string_mut reaches
//! exactly the string presented under that path.
use dd_sds::*;
use drivers::Run;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

#[derive(Debug, Clone, PartialEq, Eq)]
enum Op { Push(PathSegment<'static>), Pop, Visit(String) }
struct Rec { path: Path<'static>, ops: Vec<Op>, might: bool }
impl<'p> EventVisitor<'p> for Rec {
    fn push_segment(&mut self, s: PathSegment<'p>) { self.path.segments.push(s.into_static()); self.ops.push(Op::Push(s.into_static())); }
    fn pop_segment(&mut self) { self.path.segments.pop(); self.ops.push(Op::Pop); }
    fn visit_string<'s>(&'s mut self, v: &str) -> VisitStringResult<'s, 'p> {
        self.ops.push(Op::Visit(v.to_string()));
        VisitStringResult { might_mutate: self.might, path: &self.path }
    }
}
const KEYS: &[&str] = &["message", "Message", "a", "b", "", "messag", "messages", "é", "0", "1", "a.b", "[0]", "message ", "zz", "host"];
const STRS: &[&str] = &["", "a", "1", "secret 1", "é1", "x1y1", "true", "null", "message"];
fn value(r: &mut Run, d: usize, plain: bool) -> Value {
    let n = if d == 0 { 6 } else { 10 };
    match r.rng.below(n) {
        0 if !plain => Value::Null,
        1 if !plain => json!(r.rng.chance(1, 2)),
        2 if !plain => match r.rng.below(7) { 0 => json!(0), 1 => json!(-17), 2 => json!(u64::MAX), 3 => json!(1.5), 4 => json!(1e300), 5 => json!(i64::MIN), _ => json!(-0.0) },
        0..=5 => json!(*r.rng.pick(STRS)),
        6 | 7 => Value::Array((0..r.rng.below(5)).map(|_| value(r, d - 1, plain)).collect()),
        _ => Value::Object((0..r.rng.below(6)).map(|_| (r.rng.pick(KEYS).to_string(), value(r, d - 1, plain))).collect()),
    }
}
fn simple(v: &Value) -> SimpleEvent {
    match v { Value::Array(l) => SimpleEvent::List(l.iter().map(simple).collect()), Value::Object(m) => SimpleEvent::Map(m.iter().map(|(k, v)| (k.clone(), simple(v))).collect()), Value::String(s) => SimpleEvent::String(s.clone()), x => SimpleEvent::String(x.to_string()) }
}
fn kids(v: &Value, message_first: bool) -> Option<Vec<(PathSegment<'static>, &Value)>> {
    match v {
        Value::Array(l) => Some(l.iter().enumerate().map(|(i, c)| (PathSegment::Index(i), c)).collect()),
        Value::Object(m) => {
            let mut k: Vec<(&String, &Value)> = m.iter().collect();
            if message_first { k.sort_by_key(|(k, _)| k.to_string()); k.sort_by_key(|(k, _)| *k != "message"); }
            Some(k.into_iter().map(|(k, c)| (PathSegment::Field(k.clone().into()), c)).collect())
        }
        _ => None,
    }
}
fn expect(v: &Value, mf: bool, path: &mut Vec<PathSegment<'static>>, ops: &mut Vec<Op>, leaves: &mut Vec<(Path<'static>, String)>) {
    if let Some(k) = kids(v, mf) {
        for (s, c) in k { ops.push(Op::Push(s.clone())); path.push(s); expect(c, mf, path, ops, leaves); path.pop(); ops.push(Op::Pop); }
    } else if !v.is_null() {
        let t = v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string());
        ops.push(Op::Visit(t.clone())); leaves.push((Path::from(path.clone()), t));
    }
}
fn put(v: &mut Value, p: &[PathSegment<'static>], s: &str) {
    match (p.first(), v) { (None, v) => *v = json!(s), (Some(PathSegment::Field(k)), Value::Object(m)) => put(m.get_mut(k.as_ref()).unwrap(), &p[1..], s), (Some(PathSegment::Index(i)), Value::Array(l)) => put(&mut l[*i], &p[1..], s), _ => unreachable!() }
}
fn visit<E: Event>(e: &mut E, might: bool) -> Vec<Op> { let mut rec = Rec { path: Path::root(), ops: vec![], might }; e.visit_event(&mut rec); rec.ops }
/// the event after editing the leaf at p, and the texts the closure was called with
fn edit<E: Event>(e: &mut E, p: &Path, change: Option<&str>) -> Vec<String> {
    let mut seen = vec![];
    e.visit_string_mut(p, |s| { seen.push(s.clone()); if let Some(c) = change { *s = c.to_string(); true } else { false } });
    seen
}
fn one<E: Event + Clone + PartialEq + std::fmt::Debug>(r: &mut Run, kind: &str, v: &Value, mf: bool, make: &dyn Fn(&Value) -> E, ordered: bool) {
    let (mut ops, mut leaves) = (vec![], vec![]);
    let e = make(v);
    expect(v, mf, &mut vec![], &mut ops, &mut leaves);
    let might = r.rng.chance(1, 2);
    let g = r.call(|| { let mut x = e.clone(); (visit(&mut x, might), x) });
    r.case(leaves.len() > 1, || format!("{kind} {v}"));
    let ok = match &g {
        Ok((o, x)) => *x == e && if ordered { *o == ops } else {
            // a hash map visits its fields in any order
            let split = |o: &[Op]| { let (mut d, mut cur, mut out) = (0, vec![], vec![]); for x in o { match x { Op::Push(_) => d += 1, Op::Pop => d -= 1, _ => {} } cur.push(format!("{x:?}")); if d == 0 { out.push(std::mem::take(&mut cur)); } } out.push(cur); out.sort(); out };
            split(o) == split(&ops)
        },
        Err(_) => false,
    };
    if !ok { r.fail("visit", json!({"event": v, "as": kind}), format!("{ops:?}"), format!("{:?}", g.map(|x| x.0))); return; }
    for (p, t) in &leaves {
        let long = "é".repeat(300);
        for change in [None, Some("*"), Some(""), Some("a longer é text"), Some("1"), Some("true"), Some("null"), Some("[1]"), Some("\"q\""), Some(" 2 "), Some(t.as_str()), Some(long.as_str())] {
            let mut w = v.clone();
            if let Some(c) = change { put(&mut w, &p.segments, c); }
            let want = make(&w);
            let g = r.call(|| { let mut x = e.clone(); let s = edit(&mut x, p, change); (s, x) });
            let ok = match &g { Ok((s, x)) => s == &vec![t.clone()] && *x == want, Err(_) => false };
            r.case(change.is_some(), || format!("{kind} {v} {p} {change:?}"));
            if !ok { r.fail("visit_string_mut", json!({"event": v, "as": kind, "path": format!("{p}"), "change": change}), format!("called with {t:?}, then {want:?}"), format!("{g:?}")); return; }
        }
    }
}
fn redacted(v: &Value) -> Value {
    match v {
        Value::Array(l) => Value::Array(l.iter().map(redacted).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), redacted(v))).collect()),
        Value::Null => Value::Null,
        x => { let t = x.as_str().map(|s| s.to_string()).unwrap_or_else(|| x.to_string()); let u = t.replace('1', "<one>"); if u == t { x.clone() } else { json!(u) } }
    }
}
fn main() {
    let mut r = Run::new();
    let rule = || RegexRuleConfig::new("1").match_action(MatchAction::Redact { replacement: "<one>".into() }).build();
    let scanner = Scanner::builder(&[rule()]).build().unwrap();
    let n = r.n(2500);
    for i in 0..n {
        let d = r.rng.range(0, 4);
        let v = value(&mut r, d, false);
        one::<Value>(&mut r, "serde_json::Value", &v, false, &|v| v.clone(), true);
        let p = value(&mut r, d, true);
        one::<SimpleEvent>(&mut r, "SimpleEvent", &p, true, &simple, true);
        let m = Value::Object((0..r.rng.below(5)).map(|_| (r.rng.pick(KEYS).to_string(), value(&mut r, d.saturating_sub(1), false))).collect());
        one::<HashMap<String, Value>>(&mut r, "HashMap", &m, false, &|v| v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect(), false);
        let s = json!(*r.rng.pick(STRS));
        one::<String>(&mut r, "String", &s, false, &|v| v.as_str().unwrap().to_string(), true);
        // a whole scan
        if i % 2 == 0 {
            let g = r.call(|| { let mut x = v.clone(); let m = scanner.scan(&mut x, vec![]); (m.iter().map(|m| m.path.to_string()).collect::<Vec<_>>(), x) });
            let want = redacted(&v);
            let (mut ops, mut leaves) = (vec![], vec![]);
            expect(&v, false, &mut vec![], &mut ops, &mut leaves);
            let paths: Vec<String> = leaves.iter().flat_map(|(p, t)| vec![p.to_string(); t.matches('1').count()]).collect();
            if g != Ok((paths.clone(), want.clone())) { r.fail("scan", json!({"event": v}), format!("{paths:?} {want}"), format!("{g:?}")); }
            let g = r.call(|| { let mut x = simple(&p); scanner.scan(&mut x, vec![]); x });
            if g != Ok(simple(&redacted(&p))) { r.fail("scan-simple", json!({"event": p}), format!("{:?}", simple(&redacted(&p))), format!("{g:?}")); }
            let hm: HashMap<String, Value> = m.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let g = r.call(|| { let mut x = hm.clone(); scanner.scan(&mut x, vec![]); x });
            let w: HashMap<String, Value> = redacted(&m).as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            if g.as_ref() != Ok(&w) { r.fail("scan-hashmap", json!({"event": m}), format!("{w:?}"), format!("{g:?}")); }
        }
        if r.stop() { break; }
    }
    // wide and deep events
    let wide = Value::Array((0..1500).map(|i| json!(format!("v{i}"))).collect());
    one::<Value>(&mut r, "wide", &wide, false, &|v| v.clone(), true);
    let mut deep = json!("1");
    for i in 0..60 { deep = if i % 2 == 0 { json!([deep]) } else { json!({ "k": deep }) }; }
    one::<Value>(&mut r, "deep", &deep, false, &|v| v.clone(), true);
    one::<SimpleEvent>(&mut r, "deep", &deep, true, &simple, true);
    let _: Option<BTreeMap<u8, u8>> = None;
    r.finish("event trees and edits of their leaves; non-trivial = more than one leaf, or a changed leaf", "random trees of depth <= 4 and up to 6 children, keys around \"message\", all leaf kinds; one wide and one deep event")
}
