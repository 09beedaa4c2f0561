//! Metrics: counters and gauges say what really happened.
use dd_sds::*;
use drivers::rec::{Rec, HOLD, SLOW};
use drivers::Run;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Barrier};

/// what the metrics must say
#[derive(Default)]
struct Model { created: f64, dropped: f64, store: BTreeMap<String, usize>, since_gc: u64, sizes: BTreeMap<String, f64>, live: BTreeMap<String, usize> }
impl Model {
    /// a rule with this pattern was built (no keywords); returns whether its regex was not stored before
    fn build(&mut self, p: &str) -> bool {
        let stored = self.store.contains_key(p);
        let used = self.live.get(p).copied().unwrap_or(0) > 0;
        if !used {
            self.since_gc += 1;
            if self.since_gc >= 1000 { self.since_gc = 0; let live = self.live.clone(); self.store.retain(|k, _| live.get(k).copied().unwrap_or(0) > 0); }
            self.store.insert(p.to_string(), 1);
        }
        *self.live.entry(p.to_string()).or_insert(0) += 1;
        !used && !stored
    }
    fn drop(&mut self, p: &str) { *self.live.get_mut(p).unwrap() -= 1; }
}
fn pattern(i: usize) -> String { match i % 4 { 0 => format!("m{i}z"), 1 => format!("m{i}z[ab]{{{}}}", i % 7 + 1), 2 => format!("(?i)m{i}z"), _ => format!("m{i}z(x|y)+w") } }

fn histories(r: &mut Run, rec: &Rec) {
    let mut m = Model::default();
    let mut live: Vec<(Scanner, Vec<String>)> = vec![];
    let mut log: Vec<String> = vec![];
    let mut uniq = 1000;
    let steps = if r.thorough { 9000 } else { 2600 };
    for step in 0..steps {
        if r.stop() { return; }
        let what = match r.rng.below(10) {
            0..=5 => {
                let n = r.rng.below(4);
                let mut ps: Vec<String> = (0..n).map(|_| { if r.rng.chance(1, 3) { uniq += 1; pattern(uniq) } else { pattern(r.rng.below(60)) } }).collect();
                let bad = r.rng.chance(1, 8);
                if bad { let at = r.rng.below(ps.len() + 1); ps.insert(at, r.rng.pick(&["(", "a*", "[b", "a{5000}"]).to_string()); }
                let configs: Vec<Arc<dyn RuleConfig>> = ps.iter().map(|p| RegexRuleConfig::new(p).build() as Arc<dyn RuleConfig>).collect();
                let before = rec.get("scanner.total_regex_cache_size");
                let got = r.call(|| Scanner::builder(&configs).build().ok());
                let Ok(got) = got else { r.fail("build", json!({"patterns": ps}), "no panic".into(), format!("{:?}", got.err())); continue };
                if got.is_some() == bad { r.fail("build", json!({"patterns": ps}), format!("built: {}", !bad), format!("built: {bad}")); continue; }
                // rules are compiled in order up to the first invalid one
                let valid: Vec<String> = ps.iter().take_while(|p| p.starts_with('m') || p.starts_with("(?i)m")).cloned().collect();
                let mut fresh = vec![];
                for p in &valid { if m.build(p) { fresh.push(p.clone()); } }
                if got.is_none() { for p in &valid { m.drop(p); } }
                // the first time a pattern is stored alone, its size is learnt
                if fresh.len() == 1 && !m.sizes.contains_key(&fresh[0]) && m.since_gc > 0 && valid.len() == 1 {
                    let d = rec.get("scanner.total_regex_cache_size") - before;
                    if d <= 0.0 { r.fail("cache-size", json!({"patterns": ps}), "a positive size".into(), format!("{d}")); }
                    m.sizes.insert(fresh[0].clone(), d);
                }
                if let Some(s) = got { m.created += 1.0; live.push((s, valid)); }
                format!("build {ps:?}")
            }
            6..=8 if live.len() > 3 => {
                let i = r.rng.below(live.len());
                let (s, ps) = live.swap_remove(i);
                drop(s);
                for p in &ps { m.drop(p); }
                m.dropped += 1.0;
                format!("drop {ps:?}")
            }
            _ => { if let Some((s, _)) = live.last() { let mut t = "m1z m2z".to_string(); s.scan(&mut t, vec![]); } "scan".into() }
        };
        r.case(true, || format!("{step} {what}"));
        if log.len() < 60 { log.push(what.clone()); } else { log.remove(0); log.push(what.clone()); }
        let want = [("scanner.creations", m.created), ("scanner.deletions", m.dropped), ("scanner.total_count", live.len() as f64), ("scanner.total_regexes", m.store.len() as f64)];
        for (k, w) in want { if rec.get(k) != w { r.fail(k, json!({"step": step, "after": what, "history (tail)": log}), format!("{w}"), format!("{}", rec.get(k))); return; } }
        if m.store.keys().all(|p| m.sizes.contains_key(p)) {
            let w: f64 = m.store.keys().map(|p| m.sizes[p]).sum();
            if rec.get("scanner.total_regex_cache_size") != w { r.fail("cache-size", json!({"step": step, "after": what}), format!("{w}"), format!("{}", rec.get("scanner.total_regex_cache_size"))); return; }
        }
    }
    // everything goes; a clean-up later only the regexes stored since are left
    drop(live);
    let base = rec.get("scanner.total_regex_cache_size");
    let mut sizes: HashMap<String, f64> = HashMap::new();
    let mut after_gc = None;
    for i in 0..1001 {
        let p = format!("fresh{i}end");
        let n0 = rec.get("scanner.total_regexes");
        let before = rec.get("scanner.total_regex_cache_size");
        drop(Scanner::builder(&[RegexRuleConfig::new(&p).build()]).build().unwrap());
        let (n, size) = (rec.get("scanner.total_regexes"), rec.get("scanner.total_regex_cache_size"));
        r.case(true, || p.clone());
        if n < n0 { // a clean-up: only this one is left
            if n != 1.0 { r.fail("clean-up", json!({"after": p}), "1 regex".into(), format!("{n}")); }
            after_gc = Some(size);
        } else { if n != n0 + 1.0 { r.fail("count", json!({"after": p}), format!("{}", n0 + 1.0), format!("{n}")); } sizes.insert(p.clone(), size - before); }
        if r.stop() { return; }
    }
    let Some(g) = after_gc else { r.fail("clean-up", json!("1001 patterns, none in use"), "a clean-up".into(), "none".into()); return };
    // all of these patterns have the same shape: about the size of one of them is left
    let (lo, hi) = sizes.values().fold((f64::MAX, 0.0f64), |(a, b), x| (a.min(*x), b.max(*x)));
    if g < lo - 4096.0 || g > hi + 4096.0 { r.fail("cache-size", json!({"history": "everything dropped, 1001 patterns of one shape", "size before": base}), format!("between {lo} and {hi} after the clean-up"), format!("{g}")); }
}

fn threads(r: &mut Run, rec: &Rec) {
    for round in 0..r.n(4) {
        let start = rec.all();
        let base = |k: &str| start.get(k).copied().unwrap_or(0.0);
        SLOW.store(400, Ordering::Relaxed);
        let (n, per) = (8usize, 24usize);
        let bar = Arc::new(Barrier::new(n));
        let kept = Arc::new(AtomicI64::new(0));
        let hs: Vec<_> = (0..n).map(|k| { let (bar, kept) = (bar.clone(), kept.clone()); std::thread::spawn(move || {
            bar.wait();
            let mut live = vec![];
            for i in 0..per {
                let p = format!("t{round}k{k}i{i}z");
                live.push(Scanner::builder(&[RegexRuleConfig::new(&p).build()]).build().unwrap());
                if i % 3 > 0 { live.swap_remove(i % live.len()); }
            }
            kept.fetch_add(live.len() as i64, Ordering::SeqCst);
            live
        }) }).collect();
        let live: Vec<Vec<Scanner>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        let alive: usize = live.iter().map(|v| v.len()).sum();
        r.case(true, || format!("threads round {round}"));
        let total = (n * per) as f64;
        let want = [("scanner.creations", base("scanner.creations") + total), ("scanner.deletions", base("scanner.deletions") + total - alive as f64), ("scanner.total_count", base("scanner.total_count") + alive as f64)];
        for (k, w) in want { if rec.get(k) != w { r.fail(&format!("threads-{k}"), json!({"threads": n, "builds per thread": per, "alive": alive, "round": round, "exporter": "slow at times"}), format!("{w}"), format!("{}", rec.get(k))); } }
        // no clean-up in between: all patterns are new, so each build stores one
        if rec.get("scanner.total_regexes") >= base("scanner.total_regexes") && rec.get("scanner.total_regexes") != base("scanner.total_regexes") + total {
            r.fail("threads-regexes", json!({"threads": n, "builds per thread": per}), format!("{}", base("scanner.total_regexes") + total), format!("{}", rec.get("scanner.total_regexes")));
        }
        let hs: Vec<_> = live.into_iter().map(|v| std::thread::spawn(move || drop(v))).collect();
        for h in hs { h.join().unwrap(); }
        SLOW.store(0, Ordering::Relaxed);
        for (k, w) in [("scanner.total_count", base("scanner.total_count")), ("scanner.deletions", base("scanner.deletions") + total)] {
            if rec.get(k) != w { r.fail(&format!("threads-{k}"), json!({"threads": n, "all dropped in parallel": alive, "round": round, "exporter": "slow at times"}), format!("{w}"), format!("{}", rec.get(k))); }
        }
    }
}

/// one thread stalls while it sets a gauge; another one builds or drops a scanner in the meantime
fn stalls(r: &mut Run, rec: &Rec) {
    let mut n = 0;
    let mut new = || { n += 1; Scanner::builder(&[RegexRuleConfig::new(&format!("stall{n}z")).build()]).build().unwrap() };
    for round in 0..r.n(2) { for gauge in ["scanner.total_count", "scanner.total_regexes", "scanner.total_regex_cache_size"] { for (a, b) in [("build", "build"), ("build", "drop"), ("drop", "build"), ("drop", "drop")] {
        if gauge != "scanner.total_count" && (a == "drop" || b == "drop") { continue; }
        let spare = [new(), new()];
        let mut it = spare.into_iter();
        let p = |x: &str| RegexRuleConfig::new(&format!("stalled{round}{gauge}{a}{b}{x}")).build();
        let job = |what: &str, s: Option<Scanner>, x: &str| -> Box<dyn FnOnce() -> Option<Scanner> + Send> { let p = p(x); if what == "build" { Box::new(move || { drop(s); Some(Scanner::builder(&[p]).build().unwrap()) }) } else { Box::new(move || { drop(s); None }) } };
        let ja = job(a, if a == "drop" { it.next() } else { None }, "1");
        let jb = job(b, if b == "drop" { it.next() } else { None }, "2");
        let (count, regexes) = (rec.get("scanner.total_count"), rec.get("scanner.total_regexes"));
        *HOLD.lock().unwrap_or_else(|e| e.into_inner()) = Some(gauge.to_string());
        let ha = std::thread::spawn(ja);
        std::thread::sleep(std::time::Duration::from_millis(40));
        let hb = std::thread::spawn(jb);
        let (ra, rb) = (ha.join().unwrap(), hb.join().unwrap());
        HOLD.lock().unwrap_or_else(|e| e.into_inner()).take();
        let d = |x: &str| if x == "build" { 1.0 } else { -1.0 };
        let want = count + d(a) + d(b);
        let input = || json!({"first thread, stalled while setting the gauge": a, "second thread, meanwhile": b, "gauge": gauge});
        r.case(true, || input().to_string());
        let got = rec.get("scanner.total_count");
        if got != want { r.fail("stall-total_count", input(), format!("{want}"), format!("{got}")); }
        let got = rec.get("scanner.total_regexes");
        if a == "build" && b == "build" && got >= regexes && got != regexes + 2.0 { r.fail("stall-total_regexes", input(), format!("{}", regexes + 2.0), format!("{got}")); }
        if gauge == "scanner.total_regex_cache_size" && got >= regexes {
            // a third regex adds its own size to what the gauge should say
            let s0 = rec.get(gauge);
            let n0 = rec.get("scanner.total_regexes");
            let extra = Scanner::builder(&[p("3")]).build().unwrap();
            let one = rec.get(gauge) - s0;
            let s1 = rec.get(gauge);
            let extra2 = Scanner::builder(&[p("4")]).build().unwrap();
            let two = rec.get(gauge) - s1;
            drop((extra, extra2));
            // all of them have the same shape
            if rec.get("scanner.total_regexes") == n0 + 2.0 && (one - two).abs() > 4096.0 { r.fail("stall-cache_size", input(), format!("the size of one regex ({two})"), format!("{one}")); }
        }
        drop((ra, rb, it));
    } } }
}

fn scans(r: &mut Run, rec: &Rec) {
    for case in 0..r.n(500) {
        if r.stop() { return; }
        rec.clear();
        // rules for tokens q0.. q3; each excluded from some fields, some with an excluded keyword
        let n = r.rng.range(1, 4);
        let fields = ["a", "b", "c"];
        let mut excl: Vec<Vec<bool>> = vec![]; let mut kw = vec![]; let mut configs: Vec<Arc<dyn RuleConfig>> = vec![];
        for i in 0..n {
            let e: Vec<bool> = fields.iter().map(|_| r.rng.chance(1, 3)).collect();
            let k = r.rng.chance(1, 3);
            let mut c = RegexRuleConfig::new(&format!("q{i}[0-9]")).labels(Labels::new(&[("rule", format!("r{i}"))]))
                .scope(Scope::exclude(fields.iter().zip(&e).filter(|x| *x.1).map(|x| Path { segments: vec![PathSegment::Field((*x.0).into())] }).collect()));
            if k { c = c.proximity_keywords(ProximityKeywordsConfig { look_ahead_character_count: 50, included_keywords: vec![], excluded_keywords: vec![format!("bad{i}")] }); }
            if r.rng.chance(1, 3) { c = c.match_action(MatchAction::Redact { replacement: "x".into() }); }
            excl.push(e); kw.push(k); configs.push(c.build());
        }
        let multi = r.rng.chance(3, 4);
        let scanner = Scanner::builder(&configs).labels(Labels::new(&[("team", "t1")])).with_multipass_v0(multi).build().unwrap();
        let (mut events, mut matches) = (0.0, 0.0);
        let mut dropped = vec![0.0; n]; let mut near = vec![0.0; n];
        let mut desc = vec![];
        for _ in 0..r.rng.range(1, 3) {
            let blocked: Vec<usize> = if r.rng.chance(1, 4) { vec![r.rng.below(n)] } else { vec![] };
            let mut ev: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for f in fields { let k = r.rng.below(7); ev.insert(f.into(), (0..k).map(|_| if r.rng.chance(1, 6) { format!("bad{}", r.rng.below(n)) } else { format!("q{}{}", r.rng.below(n), r.rng.below(3)) }).collect()); }
            // raw matches per field and rule; which are near a keyword; which texts are remembered
            let mut remembered = std::collections::HashSet::new();
            let mut raw: Vec<(usize, String)> = vec![];
            for (fi, f) in fields.iter().enumerate() { for i in 0..n {
                if blocked.contains(&i) || (excl[i][fi] && !multi) { if blocked.contains(&i) { continue; } }
                let mut seen = false;
                for t in &ev[*f] {
                    if *t == format!("bad{i}") { seen = true; }
                    if t.starts_with(&format!("q{i}")) {
                        if kw[i] && seen { near[i] += 1.0; }
                        else if excl[i][fi] { remembered.insert(t.clone()); }
                        else { raw.push((i, t.clone())); }
                    }
                }
            } }
            let mut reported = 0.0;
            for (i, t) in &raw { if multi && remembered.contains(t) { dropped[*i] += 1.0; } else { reported += 1.0; } }
            let mut e = SimpleEvent::Map(ev.iter().map(|(k, v)| (k.clone(), SimpleEvent::String(v.join(" ")))).collect());
            let got = r.call(|| scanner.scan(&mut e, blocked.clone()).len() as f64);
            desc.push(json!({"event": ev, "blocked": blocked}));
            events += 1.0; matches += reported;
            if got != Ok(reported) { r.fail("matches", json!({"case": case, "scans": desc}), format!("{reported} matches"), format!("{got:?}")); }
        }
        r.case(matches > 0.0, || format!("{desc:?}"));
        let mut want: BTreeMap<String, f64> = BTreeMap::new();
        want.insert("scanned_events|team=t1".into(), events);
        want.insert("scanning.match_count|team=t1".into(), matches);
        for i in 0..n {
            want.insert(format!("false_positive.multipass.excluded_match|rule=r{i},team=t1"), dropped[i]);
            if kw[i] { want.insert(format!("false_positive.proximity_keywords|rule=r{i},team=t1,type=excluded_keywords"), near[i]); }
        }
        let all = rec.all();
        let got: BTreeMap<String, f64> = all.iter().filter(|(k, v)| (k.starts_with("scann") || k.starts_with("false")) && !k.starts_with("scanner.") && !k.starts_with("scanning.duration") && **v != 0.0).map(|(k, v)| (k.clone(), *v)).collect();
        want.retain(|_, v| *v != 0.0);
        if got != want { r.fail("scan-counters", json!({"rules": n, "excluded fields": excl, "with excluded keyword": kw, "multi-pass": multi, "scans": desc}), format!("{want:?}"), format!("{got:?}")); }
    }
}

fn main() {
    let rec = Rec::install();
    let mut r = Run::new();
    histories(&mut r, &rec);
    threads(&mut r, &rec);
    stalls(&mut r, &rec);
    scans(&mut r, &rec);
    r.finish("counters and gauges computed from the history of builds, drops and scans", "histories of 2600 steps with clean-ups; 8 threads with a slow exporter; pairs of threads of which one stalls in each gauge; 500 rule sets with up to 3 scans");
}
