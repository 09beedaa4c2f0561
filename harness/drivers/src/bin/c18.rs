//! The binary exchange format: events encoded and responses decoded by an independent codec.
use dd_sds::*;
use drivers::model::*;
use drivers::Run;
use sds_bindings_utils::{encode_response, BinaryEvent};
use serde_json::json;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CStr, CString};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Seg { F(Vec<u8>), I(u32) }
#[derive(Clone, Debug)]
enum T { S(Vec<u8>), Node(Vec<(Seg, T)>) }
#[derive(Clone, Debug, PartialEq, Eq)]
enum Op { Push(PathSegment<'static>), Pop, Visit(String) }

fn lossy(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
fn block(out: &mut Vec<u8>, b: &[u8]) { let n = b.len(); out.extend([(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]); out.extend_from_slice(b); }
fn encode(t: &T, out: &mut Vec<u8>) {
    match t {
        T::S(s) => { out.push(3); block(out, s); }
        T::Node(k) => for (s, c) in k {
            match s { Seg::F(f) => { out.push(0); block(out, f); } Seg::I(i) => { out.push(1); out.extend([(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, *i as u8]); } }
            encode(c, out); out.push(2);
        },
    }
}
fn seg(s: &Seg) -> PathSegment<'static> { match s { Seg::F(f) => PathSegment::Field(lossy(f).into()), Seg::I(i) => PathSegment::Index(*i as usize) } }
fn expect(t: &T, p: &mut Vec<PathSegment<'static>>, ops: &mut Vec<Op>, leaves: &mut Vec<(Vec<PathSegment<'static>>, String)>) {
    match t {
        T::S(s) => { ops.push(Op::Visit(lossy(s))); leaves.push((p.clone(), lossy(s))); }
        T::Node(k) => for (s, c) in k { let s = seg(s); ops.push(Op::Push(s.clone())); p.push(s); expect(c, p, ops, leaves); p.pop(); ops.push(Op::Pop); },
    }
}
struct Rec { path: Path<'static>, ops: Vec<Op>, might: Vec<bool>, n: usize }
impl<'p> EventVisitor<'p> for Rec {
    fn push_segment(&mut self, s: PathSegment<'p>) { self.path.segments.push(s.into_static()); self.ops.push(Op::Push(s.into_static())); }
    fn pop_segment(&mut self) { self.path.segments.pop(); self.ops.push(Op::Pop); }
    fn visit_string<'s>(&'s mut self, v: &str) -> VisitStringResult<'s, 'p> {
        self.ops.push(Op::Visit(v.to_string())); self.n += 1;
        VisitStringResult { might_mutate: self.might[(self.n - 1) % self.might.len()], path: &self.path }
    }
}
/// a response: mutated strings by path, and matches (rule, path, type, start, end, shift)
type Match = (u32, String, String, u32, u32, i32);
fn num(b: &[u8], i: &mut usize) -> Option<u32> { let r = b.get(*i..*i + 4)?; *i += 4; Some(((r[0] as u32) << 24) | ((r[1] as u32) << 16) | ((r[2] as u32) << 8) | r[3] as u32) }
fn text(b: &[u8], i: &mut usize) -> Option<String> { let n = num(b, i)? as usize; let r = b.get(*i..*i + n)?; *i += n; String::from_utf8(r.to_vec()).ok() }
fn decode(b: &[u8]) -> Option<(Vec<(Vec<PathSegment<'static>>, String)>, Vec<Match>)> {
    let (mut i, mut muts, mut ms) = (0, vec![], vec![]);
    while i < b.len() {
        i += 1;
        match b[i - 1] {
            4 if ms.is_empty() => {
                let mut p = vec![];
                loop {
                    let t = *b.get(i)?; i += 1;
                    match t { 0 => p.push(PathSegment::Field(text(b, &mut i)?.into())), 1 => p.push(PathSegment::Index(num(b, &mut i)? as usize)), 3 => { muts.push((p, text(b, &mut i)?)); break; } _ => return None }
                }
            }
            5 => ms.push((num(b, &mut i)?, text(b, &mut i)?, text(b, &mut i)?, num(b, &mut i)?, num(b, &mut i)?, num(b, &mut i)? as i32)),
            _ => return None,
        }
    }
    Some((muts, ms))
}
fn tree(r: &mut Run, d: usize, bad: bool) -> T {
    if d == 0 || r.rng.chance(1, 4) {
        let mut s = r.rng.string(&["a", "b", "1", "é", "😀", "x", " ", "ab1", "abcabcabc"], 8).into_bytes();
        if bad && r.rng.chance(1, 3) { let at = r.rng.below(s.len() + 1); s.insert(at, 0xff); }
        if r.rng.chance(1, 40) { s = vec![b'z'; *r.rng.pick(&[255, 256, 257, 300, 5000, 66000])]; s.extend("ab1é".as_bytes()); if bad { let at = *r.rng.pick(&[0, 1, s.len() / 2, s.len()]); s.insert(at, 0xff); } }
        // many matches of one rule before the first of another
        if r.rng.chance(1, 12) { let k = r.rng.range(9, 300); let mut t = r.rng.pick(&["a", "b", "1", "é"]).repeat(k); t.push_str(*r.rng.pick(&["a", "b1", "1", "é"])); s = t.into_bytes(); }
        return T::S(s);
    }
    let n = r.rng.below(5);
    let list = r.rng.chance(1, 3);
    let keys: Vec<&str> = vec!["a", "b", "message", "", "é", "a.b", "0", "key with space", "[1]", "[", ".", "Ab_c"];
    let mut used = std::collections::BTreeSet::new();
    T::Node((0..n).filter_map(|i| {
        let s = if list { Seg::I(*r.rng.pick(&[i as u32, i as u32, i as u32, i as u32 + 256, 70000 + i as u32, 0x0100_0000 + i as u32, 0x7fff_ffff, 0x8000_0000 + i as u32, u32::MAX - i as u32])) }
            else if bad && r.rng.chance(1, 6) { Seg::F(b"k\xffk".to_vec()) }
            else if r.rng.chance(1, 60) { Seg::F("é".repeat(*r.rng.pick(&[128, 2100, 33000])).into_bytes()) }
            else { Seg::F(r.rng.pick(&keys).as_bytes().to_vec()) };
        if !used.insert(s.clone()) { return None; }
        Some((s, tree(r, d - 1, bad)))
    }).collect())
}
fn ptext(p: &[PathSegment<'static>]) -> String {
    let mut s = String::new();
    for (i, x) in p.iter().enumerate() { match x { PathSegment::Field(f) => { if i > 0 { s.push('.'); } s.push_str(f); } PathSegment::Index(n) => s.push_str(&format!("[{n}]")) } }
    s
}
struct Ffi { scanner: i64 }
impl Ffi {
    fn new(rules: &[(String, MatchAction)]) -> Option<Ffi> {
        let list = dd_sds_go::rule::create_rule_list();
        for (p, a) in rules {
            let j = json!({"pattern": p, "match_action": serde_json::to_value(a).unwrap()});
            let c = CString::new(j.to_string()).unwrap();
            let rule = dd_sds_go::rule::create_regex_rule(c.as_ptr());
            if rule < 0 { return None; }
            dd_sds_go::rule::append_rule_to_list(rule, list);
            dd_sds_go::rule::free_any_rule(rule);
        }
        let mut err: *const c_char = std::ptr::null();
        let scanner = dd_sds_go::create_scanner::create_scanner(list, &mut err, false);
        dd_sds_go::rule::free_rule_list(list);
        if scanner <= 0 && scanner > -100 { return None; }
        Some(Ffi { scanner })
    }
    fn scan(&self, b: &[u8]) -> Result<Option<Vec<u8>>, String> {
        let (mut n, mut c) = (-7i64, -7i64);
        let mut err: *const c_char = std::ptr::null();
        let p = dd_sds_go::scan::scan(self.scanner, b.as_ptr() as *const c_void, b.len() as i64, &mut n, &mut c, &mut err);
        if !err.is_null() { let m = unsafe { CStr::from_ptr(err) }.to_string_lossy().into_owned(); dd_sds_go::scan::free_string(err); return Err(format!("{m} size {n} capacity {c}")); }
        if n <= 0 || c <= 0 { return if n == 0 && c == 0 && p.is_null() { Ok(None) } else { Err(format!("size {n} capacity {c}")) }; }
        let v = unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) }.to_vec();
        dd_sds_go::scan::free_vec(p, n, c);
        Ok(Some(v))
    }
}
impl Drop for Ffi { fn drop(&mut self) { dd_sds_go::delete_scanner::delete_scanner(self.scanner); } }

fn main() {
    let mut r = Run::new();
    for _ in 0..r.n(700) {
        let n = r.rng.range(1, 3);
        let cs = ['a', 'b', '1', 'é'];
        let pats: Vec<Pat> = (0..n).map(|_| Pat((0..r.rng.range(1, 2)).map(|_| vec![*r.rng.pick(&cs)]).collect())).collect();
        let actions: Vec<MatchAction> = (0..n).map(|_| match r.rng.below(6) {
            0 | 1 => MatchAction::None, 2 => MatchAction::Hash,
            3 => MatchAction::Redact { replacement: r.rng.pick(&["", "*", "[redacted é]"]).to_string() },
            4 => MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, character_count: 1 },
            _ => MatchAction::PartialRedact { direction: PartialRedactDirection::LastCharacters, character_count: 1 },
        }).collect();
        let rules: Vec<_> = pats.iter().zip(&actions).map(|(p, a)| RegexRuleConfig::new(&p.regex()).match_action(a.clone()).build()).collect();
        let scanner = match Scanner::builder(&rules).build() { Ok(s) => s, Err(e) => { r.fail("build", json!(format!("{pats:?}")), "scanner".into(), format!("{e}")); continue; } };
        let ffi = Ffi::new(&pats.iter().map(|p| p.regex()).zip(actions.iter().cloned()).collect::<Vec<_>>());
        let ffi = match ffi { Some(f) => f, None => { r.fail("ffi-build", json!(format!("{pats:?} {actions:?}")), "scanner".into(), "error".into()); continue; } };
        for _ in 0..5 {
            let bad = r.rng.chance(1, 4);
            let t = tree(&mut r, 3, bad);
            let mut bytes = vec![];
            encode(&t, &mut bytes);
            let (mut ops, mut leaves) = (vec![], vec![]);
            expect(&t, &mut vec![], &mut ops, &mut leaves);
            let input = json!({"event": format!("{:.600}", format!("{t:?}")), "rules": format!("{:?} {actions:?}", pats.iter().map(|p| p.regex()).collect::<Vec<_>>())});
            // decoding of the event, what is kept, and edits of what is kept
            let might: Vec<bool> = (0..r.rng.range(1, 5)).map(|_| r.rng.chance(2, 3)).collect();
            let strict = !bad && r.rng.chance(1, 2);
            let g = r.call(|| {
                let mut e = BinaryEvent::<Utf8Encoding>::new(bytes.clone(), strict);
                let mut rec = Rec { path: Path::root(), ops: vec![], might: might.clone(), n: 0 };
                e.visit_event(&mut rec);
                (rec.ops, e.storage.clone(), e)
            });
            r.case(leaves.len() > 1, || format!("{t:?}"));
            let want: BTreeMap<Path<'static>, (bool, String)> = leaves.iter().enumerate().filter(|(i, _)| might[i % might.len()]).map(|(_, (p, s))| (Path::from(p.clone()), (false, s.clone()))).collect();
            let mut e = match g {
                Ok((o, st, e)) if o == ops && st == want => e,
                x => { r.fail("decode", input, format!("{ops:?} {want:?}"), format!("{:?}", x.map(|x| (x.0, x.1)))); continue; }
            };
            let mut want = want;
            for p in want.keys().cloned().collect::<Vec<_>>() {
                let change = r.rng.chance(1, 2);
                let mut seen = vec![];
                let old = want[&p].1.clone();
                if let Err(m) = r.call(|| e.visit_string_mut(&p, |s| { seen.push(s.clone()); if change { s.push('!'); } change })) { r.fail("mutate", json!({"path": p.to_string(), "in": input.clone()}), "edit".into(), m); break; }
                if change { let x = want.get_mut(&p).unwrap(); x.0 = true; x.1.push('!'); }
                if seen != vec![old] || e.storage != want { r.fail("mutate", json!({"path": p.to_string(), "in": input.clone()}), format!("{want:?}"), format!("{seen:?} {:?}", e.storage)); break; }
            }
            // the response to such edits
            let one = RuleMatch { rule_index: r.rng.big(true), path: want.keys().next().cloned().unwrap_or(Path::root()), replacement_type: ReplacementType::Hash, start_index: r.rng.big(true), end_index_exclusive: r.rng.big(true), shift_offset: r.rng.big(true) as u32 as i32 as isize, match_value: None, match_status: MatchStatus::NotAvailable };
            let g = r.call(|| (encode_response(&want, &[]), encode_response(&want, std::slice::from_ref(&one))));
            let muts: Vec<_> = want.iter().filter(|(_, v)| v.0).map(|(p, v)| (p.segments.clone(), v.1.clone())).collect();
            let m: Match = (one.rule_index as u32, ptext(&one.path.segments), "hash".into(), one.start_index as u32, one.end_index_exclusive as u32, one.shift_offset as i32);
            let ok = match &g { Ok((None, Some(b))) => decode(b) == Some((muts.clone(), vec![m.clone()])), _ => false };
            if !ok { r.fail("encode", input.clone(), format!("{muts:?} {m:?}"), format!("{:?}", g.map(|x| x.1.map(|b| decode(&b))))); }
            // whole scans, directly and through the C interface
            for k in 0..4 {
                let ws: [(fn(&str) -> usize, u8); 3] = [(w8, 8), (w16, 16), (w32, 32)];
                let w = if k < 3 { ws[k].0 } else { w8 };
                let (mut muts, mut ms): (BTreeMap<Path<'static>, String>, Vec<Match>) = (BTreeMap::new(), vec![]);
                for (p, s) in &leaves {
                    let raw: Vec<Raw> = pats.iter().enumerate().flat_map(|(i, q)| q.find(s).into_iter().map(move |(a, b)| Raw { rule: i, start: a, end: b })).collect();
                    let res = resolve(raw, &actions);
                    let (x, o) = redact(s, &res, &actions, &ptext(p), w);
                    if res.iter().any(|m| mutating(&actions[m.rule])) { muts.insert(Path::from(p.clone()), x); }
                    ms.extend(o.into_iter().map(|m| (m.rule as u32, m.path, m.rt.clone(), m.start as u32, m.end as u32, m.shift as i32)));
                }
                let names = |t: &str| match t { "None" => "none", "Placeholder" => "placeholder", "Hash" => "hash", "PartialStart" => "partial_beginning", "PartialEnd" => "partial_end", _ => "?" }.to_string();
                for m in ms.iter_mut() { if names(&m.2) != "?" { m.2 = names(&m.2); } }
                let want = if ms.is_empty() { None } else { Some((muts.into_iter().map(|(p, s)| (p.segments, s)).collect::<Vec<_>>(), ms)) };
                fn run<E: Encoding>(sc: &Scanner, b: &[u8], strict: bool) -> Option<Vec<u8>> { let mut e = BinaryEvent::<E>::new(b.to_vec(), strict); let m = sc.scan(&mut e, vec![]); encode_response(&e.storage, &m) }
                let g = r.call(|| match k { 0 => Ok(run::<Utf8Encoding>(&scanner, &bytes, strict)), 1 => Ok(run::<Units<16>>(&scanner, &bytes, strict)), 2 => Ok(run::<Units<32>>(&scanner, &bytes, strict)), _ => ffi.scan(&bytes) });
                let got = match &g { Ok(Ok(x)) => Ok(x.as_ref().map(|b| decode(b))), Ok(Err(m)) => Err(m.clone()), Err(m) => Err(m.clone()) };
                r.case(want.is_some(), || format!("{k} {input}"));
                if got != Ok(want.clone().map(Some)) { r.fail(if k == 3 { "ffi-scan" } else { "scan" }, json!({"in": input.clone(), "width": k}), format!("{want:?}"), format!("{got:?}")); break; }
            }
        }
        if r.stop() { break; }
    }
    // lengths that need every byte of the length field
    for strict in [true, false] {
        let t = T::Node(vec![(Seg::F(vec![b'k'; 0x0102_0304]), T::S(vec![b'z'; 0x0101_0101])), (Seg::I(0x8102_0304), T::S(b"after".to_vec()))]);
        let mut bytes = vec![];
        encode(&t, &mut bytes);
        let (mut ops, mut leaves) = (vec![], vec![]);
        expect(&t, &mut vec![], &mut ops, &mut leaves);
        let g = r.call(|| { let mut e = BinaryEvent::<Utf8Encoding>::new(bytes, strict); let mut rec = Rec { path: Path::root(), ops: vec![], might: vec![false], n: 0 }; e.visit_event(&mut rec); rec.ops });
        r.case(true, || "long field and string".into());
        if g.as_ref() != Ok(&ops) { r.fail("decode-long", json!({"field bytes": 0x0102_0304, "string bytes": 0x0101_0101, "strict": strict}), "both in full".into(), match g { Ok(o) => format!("{} operations, lengths {:?}", o.len(), o.iter().map(|x| match x { Op::Visit(v) => v.len(), Op::Push(PathSegment::Field(f)) => f.len(), _ => 0 }).take(8).collect::<Vec<_>>()), Err(m) => format!("{m:.300}") }); }
    }
    // a panic inside a scan is reported through the C interface and does not unwind into the caller
    let f = Ffi::new(&[("a".to_string(), MatchAction::None)]).unwrap();
    let g = r.call(|| f.scan(&[9, 9, 9]));
    r.case(true, || "malformed event".into());
    if !matches!(&g, Ok(Err(_))) { r.fail("ffi-panic", json!([9, 9, 9]), "an error".into(), format!("{g:?}")); }
    r.finish("encoded events; non-trivial = several strings or at least one match", "random events of depth <= 3, strings up to 66000 bytes incl. invalid UTF-8, three index encodings and the C interface")
}
