use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- the exporter ------------------------------------------------------------------------------------
// Every counter, gauge, atomic and lock content is a cell; the world maps cells to their values. It is an
// extra parameter of the extracted functions (in the code these cells are shared global state).
#[verifier::external_body]
pub struct VpWorld { x: u8 }
impl VpWorld {
    pub uninterp spec fn view(&self) -> Map<int, int>;
    // the count found when the lock of Stats was taken (other threads may have changed it before that)
    pub uninterp spec fn locked(&self) -> int;
}
// The cell a metric of this name and these labels is exported from: metrics that differ in name or labels
// are different cells (the exporter's promise).
pub uninterp spec fn cell(name: Seq<char>, labels: Labels) -> int;
pub uninterp spec fn no_labels() -> Labels;
pub axiom fn axiom_cells(n: Seq<char>, l: Labels, m: Seq<char>, k: Labels)
    ensures cell(n, l) == cell(m, k) ==> n == m && l == k;
#[verifier::external_body]
pub struct Labels { x: u8 }
impl Labels {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Labels) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_counter(name: &str) -> (r: Counter) ensures r.id@ == cell(name@, no_labels()) { unimplemented!() }
#[verifier::external_body]
pub fn vp_counter_of(name: &str, labels: Labels) -> (r: Counter) ensures r.id@ == cell(name@, labels) { unimplemented!() }
#[verifier::external_body]
pub fn vp_gauge(name: &str) -> (r: Gauge) ensures r.id@ == cell(name@, no_labels()) { unimplemented!() }
pub open spec fn fresh_cell(id: int, w0: VpWorld, w: VpWorld, v: int) -> bool {
    &&& !w0@.dom().contains(id) && w@ == w0@.insert(id, v) && w.locked() == w0.locked()
    &&& forall|n: Seq<char>, l: Labels| #[trigger] cell(n, l) != id
}
// counts stay far below the limits of i64 and of the integers an f64 represents exactly
pub open spec fn sane(x: int) -> bool { -0x10_0000_0000_0000 < x < 0x10_0000_0000_0000 }
pub struct Counter { pub id: Ghost<int> }
impl Counter {
    #[verifier::external_body]
    pub fn increment(&self, n: u64, w: &mut VpWorld) ensures final(w)@ == old(w)@.insert(self.id@, old(w)@[self.id@] + n), final(w).locked() == old(w).locked() { unimplemented!() }
}
pub struct VpF64 { pub v: Ghost<int> }
#[verifier::external_body]
pub fn vp_f64(x: i64) -> (r: VpF64) requires sane(x as int) ensures r.v@ == x { unimplemented!() }
pub struct Gauge { pub id: Ghost<int> }
impl Gauge {
    #[verifier::external_body]
    pub fn set(&self, x: VpF64, w: &mut VpWorld) ensures final(w)@ == old(w)@.insert(self.id@, x.v@), final(w).locked() == old(w).locked() { unimplemented!() }
}
pub struct AtomicI64 { pub id: Ghost<int> }
impl AtomicI64 {
    // a new cell, different from every cell there is
    #[verifier::external_body]
    pub fn vp_new(v: i64, w: &mut VpWorld) -> (r: AtomicI64)
        ensures fresh_cell(r.id@, *old(w), *final(w), v as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, d: i64, w: &mut VpWorld) -> (r: i64)
        requires sane(old(w)@[self.id@]), sane(old(w)@[self.id@] + d),
        ensures r == old(w)@[self.id@], final(w)@ == old(w)@.insert(self.id@, old(w)@[self.id@] + d), final(w).locked() == old(w).locked(),
    { unimplemented!() }
}
// Mutex<i64>, with the lock invariant: the gauge shows the count
pub struct VpMutex { pub id: Ghost<int> }
impl VpMutex {
    #[verifier::external_body]
    pub fn vp_new(v: i64, w: &mut VpWorld) -> (r: VpMutex)
        ensures fresh_cell(r.id@, *old(w), *final(w), v as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_lock(&self, s: &Stats, w: &mut VpWorld) -> (r: i64)
        ensures
            // another thread may have held the lock before: only what it protects may have changed
            forall|c: int| c != self.id@ && c != s.total_scanners.id@ ==> #[trigger] final(w)@[c] == old(w)@[c], final(w)@.dom() == old(w)@.dom(),
            r == final(w)@[self.id@], final(w)@[s.total_scanners.id@] == r, final(w).locked() == r, sane(r - 1), sane(r + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_unlock(&self, s: &Stats, v: i64, w: &mut VpWorld)
        requires old(w)@[s.total_scanners.id@] == v,
        ensures final(w)@ == old(w)@.insert(self.id@, v as int), final(w).locked() == old(w).locked(),
    { unimplemented!() }
}
/*@extract
file = "sds/src/stats.rs"
item = "Stats"
kind = "struct"
[[rewrite]]
from = "total_scanners_count: Mutex<i64>"
to = "pub total_scanners_count: VpMutex"
[[rewrite]]
from = "total_scanners: Gauge"
to = "pub total_scanners: Gauge"
[[rewrite]]
from = "total_regexes: Gauge"
to = "pub total_regexes: Gauge"
[[rewrite]]
from = "total_regex_cache_size_count: AtomicI64"
to = "pub total_regex_cache_size_count: AtomicI64"
[[rewrite]]
from = "total_regex_cache_size: Gauge"
to = "pub total_regex_cache_size: Gauge"
@*/
pub proof fn lemma_names()
    ensures ({
        let a = cell("scanner.creations"@, no_labels()); let b = cell("scanner.deletions"@, no_labels()); let c = cell("scanner.total_count"@, no_labels());
        let d = cell("scanner.total_regexes"@, no_labels()); let e = cell("scanner.total_regex_cache_size"@, no_labels());
        a != b && a != c && a != d && a != e && b != c && b != d && b != e && c != d && c != e && d != e
    }),
{
    reveal_strlit("scanner.creations"); reveal_strlit("scanner.deletions"); reveal_strlit("scanner.total_count");
    reveal_strlit("scanner.total_regexes"); reveal_strlit("scanner.total_regex_cache_size");
    let l = no_labels();
    let (a, b, c, d, e) = ("scanner.creations"@, "scanner.deletions"@, "scanner.total_count"@, "scanner.total_regexes"@, "scanner.total_regex_cache_size"@);
    assert(a[8] == 'c' && b[8] == 'd' && c[8] == 't' && d[8] == 't' && e[8] == 't');
    assert(c.len() != d.len() && c.len() != e.len() && d.len() != e.len());
    axiom_cells(a, l, b, l); axiom_cells(a, l, c, l); axiom_cells(a, l, d, l); axiom_cells(a, l, e, l);
    axiom_cells(b, l, c, l); axiom_cells(b, l, d, l); axiom_cells(b, l, e, l);
    axiom_cells(c, l, d, l); axiom_cells(c, l, e, l); axiom_cells(d, l, e, l);
}
impl Stats {
    pub open spec fn apart(&self) -> bool {
        let a = self.scanner_creations.id@; let b = self.scanner_deletions.id@; let c = self.total_scanners_count.id@; let d = self.total_scanners.id@;
        let e = self.total_regexes.id@; let f = self.total_regex_cache_size_count.id@; let g = self.total_regex_cache_size.id@;
        a != b && a != c && a != d && a != e && a != f && a != g && b != c && b != d && b != e && b != f && b != g && c != d && c != e && c != f && c != g && d != e && d != f && d != g && e != f && e != g && f != g
    }
    // the number of scanners changed by d, and the gauge shows it
    pub open spec fn scanners_changed(&self, w0: VpWorld, w: VpWorld, d: int) -> bool {
        &&& w@[self.total_scanners_count.id@] == w.locked() + d && w@[self.total_scanners.id@] == w.locked() + d
        &&& forall|c: int| c != self.total_scanners_count.id@ && c != self.total_scanners.id@ ==> #[trigger] w@[c] == w0@[c]
    }
/*@extract
file = "sds/src/stats.rs"
item = "Stats::new"
contract = '''
    ensures
        r.apart(),
        r.scanner_creations.id@ == cell("scanner.creations"@, no_labels()),
        r.scanner_deletions.id@ == cell("scanner.deletions"@, no_labels()),
        r.total_scanners.id@ == cell("scanner.total_count"@, no_labels()),
        r.total_regexes.id@ == cell("scanner.total_regexes"@, no_labels()),
        r.total_regex_cache_size.id@ == cell("scanner.total_regex_cache_size"@, no_labels()),
        final(vp_w)@[r.total_scanners_count.id@] == 0,
        final(vp_w)@[r.total_regex_cache_size_count.id@] == 0,
'''
start = '''
proof { lemma_names(); }
'''
[[rewrite]]
from = "new() -> Self"
to = "new(vp_w: &mut VpWorld) -> (r: Stats)"
[[rewrite]]
from = "counter!($n)"
to = "vp_counter($n)"
all = true
[[rewrite]]
from = "gauge!($n)"
to = "vp_gauge($n)"
all = true
[[rewrite]]
from = "Mutex::new($n)"
to = "VpMutex::vp_new($n, vp_w)"
[[rewrite]]
from = "AtomicI64::new($n)"
to = "AtomicI64::vp_new($n, vp_w)"
@*/
/*@extract
file = "sds/src/stats.rs"
item = "Stats::update_total_scanners"
contract = '''
    requires self.apart(), delta == 1 || delta == -1,
    ensures self.scanners_changed(*old(vp_w), *final(vp_w), delta as int),
'''
[[rewrite]]
from = "delta: i64)"
to = "delta: i64, vp_w: &mut VpWorld)"
[[rewrite]]
from = "lock().unwrap_or_else(PoisonError::into_inner)"
to = "vp_lock(self, vp_w)"
[[rewrite]]
from = "*total_scanners_count +="
to = "total_scanners_count +="
[[rewrite]]
from = "set(*total_scanners_count as f64);"
to = "set(vp_f64(total_scanners_count), vp_w); self.total_scanners_count.vp_unlock(self, total_scanners_count, vp_w);"
@*/
/*@extract
file = "sds/src/stats.rs"
item = "Stats::increment_total_scanners"
contract = '''
    requires self.apart(),
    ensures self.scanners_changed(*old(vp_w), *final(vp_w), 1),
'''
[[rewrite]]
from = "(&self)"
to = "(&self, vp_w: &mut VpWorld)"
[[rewrite]]
from = "self.update_total_scanners($x)"
to = "self.update_total_scanners($x, vp_w)"
@*/
/*@extract
file = "sds/src/stats.rs"
item = "Stats::decrement_total_scanners"
contract = '''
    requires self.apart(),
    ensures self.scanners_changed(*old(vp_w), *final(vp_w), -1),
'''
[[rewrite]]
from = "(&self)"
to = "(&self, vp_w: &mut VpWorld)"
[[rewrite]]
from = "self.update_total_scanners($x)"
to = "self.update_total_scanners($x, vp_w)"
@*/
/*@extract
file = "sds/src/stats.rs"
item = "Stats::set_total_regexes"
contract = '''
    requires sane(total_regexes as int),
    ensures final(vp_w)@ == old(vp_w)@.insert(self.total_regexes.id@, total_regexes as int),
'''
[[rewrite]]
from = "total_regexes: usize)"
to = "total_regexes: usize, vp_w: &mut VpWorld)"
[[rewrite]]
from = "set(total_regexes as f64)"
to = "set(vp_f64(total_regexes as i64), vp_w)"
@*/
/*@extract
file = "sds/src/stats.rs"
item = "Stats::add_total_regex_cache"
contract = '''
    requires self.apart(), sane(old(vp_w)@[self.total_regex_cache_size_count.id@]), sane(old(vp_w)@[self.total_regex_cache_size_count.id@] + delta),
    ensures ({ let n = old(vp_w)@[self.total_regex_cache_size_count.id@] + delta;
        final(vp_w)@ == old(vp_w)@.insert(self.total_regex_cache_size_count.id@, n).insert(self.total_regex_cache_size.id@, n) }),
'''
[[rewrite]]
from = "delta: i64)"
to = "delta: i64, vp_w: &mut VpWorld)"
[[rewrite]]
from = "fetch_add(delta, Ordering::Relaxed)"
to = "fetch_add(delta, vp_w)"
[[rewrite]]
from = "set((prev_value + delta) as f64)"
to = "set(vp_f64(prev_value + delta), vp_w)"
@*/
}
// ---- building and dropping -----------------------------------------------------------------------------
pub open spec fn counted(s: Stats, w0: VpWorld, w: VpWorld, d: int) -> bool {
    &&& w@[s.scanner_creations.id@] == w0@[s.scanner_creations.id@] + (if d > 0 { 1int } else { 0 })
    &&& w@[s.scanner_deletions.id@] == w0@[s.scanner_deletions.id@] + (if d < 0 { 1int } else { 0 })
    &&& w@[s.total_scanners_count.id@] == w.locked() + d && w@[s.total_scanners.id@] == w.locked() + d
}
#[verifier::external_body]
pub struct VpError { x: u8 }
#[verifier::external_body]
pub fn vp_err() -> VpError { unimplemented!() }
// everything a scanner is made of, except its statistics (decided by C20)
#[verifier::external_body]
pub struct VpParts { x: u8 }
impl VpParts {
    #[verifier::external_body]
    pub fn vp_validators(&self) -> Result<u8, VpError> { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_compile_all(&self) -> Result<u8, VpError> { unimplemented!() }
}
pub struct ScannerBuilder { pub parts: VpParts }
impl ScannerBuilder {
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder::build"
nloops = 1
contract = '''
    requires vp_stats.apart(),
    ensures
        r is Ok ==> counted(*vp_stats, *old(vp_w), *final(vp_w), 1),
        r is Err ==> *final(vp_w) == *old(vp_w),
'''
[[rewrite]]
from = "build(self) -> Result<Scanner, CreateScannerError>"
to = "build(self, vp_stats: &Stats, vp_w: &mut VpWorld) -> (r: Result<Scanner, VpError>)"
[[rewrite]]
from = "let mut scanner_features = self.scanner_features.clone(); let mut match_validators_per_type = AHashMap::new(); for rule in self.rules.iter() { $body }"
to = "self.parts.vp_validators()?;"
[[rewrite]]
from = "let compiled_rules = self.rules.iter().enumerate().map($c).collect::<Result<Vec<Box<dyn CompiledRuleDyn>>, CreateScannerError>>()?;"
to = "self.parts.vp_compile_all()?;"
[[rewrite]]
from = "let mut group_configs: AHashMap<TypeId, Box<dyn Any + Send + Sync>> = AHashMap::new(); compiled_rules.iter().for_each($c);"
to = ""
[[rewrite]]
from = "let scoped_ruleset = ScopedRuleSet::new($a).with_implicit_index_wildcards($b).with_keywords_should_match_event_paths($c);"
to = ""
[[rewrite]]
from = "&*GLOBAL_STATS"
to = "vp_stats"
[[rewrite]]
from = "scanner_creations.increment($n)"
to = "scanner_creations.increment($n, vp_w)"
[[rewrite]]
from = "increment_total_scanners()"
to = "increment_total_scanners(vp_w)"
[[rewrite]]
from = "Ok(Scanner { $fields })"
to = "Ok(vp_scanner(self.parts))"
@*/
}
#[verifier::external_body]
pub fn vp_scanner(p: VpParts) -> Scanner { unimplemented!() }
// ---- scanning -------------------------------------------------------------------------------------------
/*@extract
file = "sds/src/scanner/metrics.rs"
item = "ScannerMetrics"
kind = "struct"
@*/
/*@extract
file = "sds/src/scanner/metrics.rs"
item = "RuleMetrics"
kind = "struct"
@*/
impl ScannerMetrics {
    // what ScannerMetrics::new ensures
    pub open spec fn made(&self, l: Labels) -> bool {
        &&& self.num_scanned_events.id@ == cell("scanned_events"@, l) && self.duration_ns.id@ == cell("scanning.duration"@, l)
        &&& self.match_count.id@ == cell("scanning.match_count"@, l) && self.apart()
    }
}
impl RuleMetrics {
    // what RuleMetrics::new ensures
    pub open spec fn made(&self, l: Labels) -> bool { self.false_positive_excluded_attributes.id@ == cell("false_positive.multipass.excluded_match"@, l) }
/*@extract
file = "sds/src/scanner/metrics.rs"
item = "RuleMetrics::new"
ret = "r"
contract = '''
    ensures r.made(*labels),
'''
[[rewrite]]
from = "counter!("
to = "vp_counter_of("
@*/
}
impl ScannerMetrics {
/*@extract
file = "sds/src/scanner/metrics.rs"
item = "ScannerMetrics::new"
contract = '''
    ensures r.made(*labels),
'''
ret = "r"
start = '''
proof {
    reveal_strlit("scanned_events"); reveal_strlit("scanning.duration"); reveal_strlit("scanning.match_count");
    axiom_cells("scanned_events"@, *labels, "scanning.duration"@, *labels);
    axiom_cells("scanned_events"@, *labels, "scanning.match_count"@, *labels);
    axiom_cells("scanning.duration"@, *labels, "scanning.match_count"@, *labels);
    assert("scanned_events"@.len() == 14 && "scanning.duration"@.len() == 17 && "scanning.match_count"@.len() == 20);
}
'''
[[rewrite]]
from = "counter!("
to = "vp_counter_of("
all = true
@*/
    pub open spec fn apart(&self) -> bool {
        self.num_scanned_events.id@ != self.duration_ns.id@ && self.num_scanned_events.id@ != self.match_count.id@ && self.duration_ns.id@ != self.match_count.id@
    }
}
pub struct RegexCompiledRule { pub metrics: RuleMetrics, pub vp_multipass: Ghost<bool> }
impl RegexCompiledRule {
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::on_excluded_match_multipass_v0"
contract = '''
    ensures final(vp_w)@ == old(vp_w)@.insert(self.metrics.false_positive_excluded_attributes.id@, old(vp_w)@[self.metrics.false_positive_excluded_attributes.id@] + 1),
'''
[[rewrite]]
from = "(&self)"
to = "(&self, vp_w: &mut VpWorld)"
[[rewrite]]
from = "increment($n)"
to = "increment($n, vp_w)"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::should_exclude_multipass_v0"
ret = "r"
contract = "ensures r,"
@*/
}
#[verifier::external_body]
pub struct VpText { x: u8 }
#[verifier::external_body]
pub struct VpSet { x: u8 }
pub uninterp spec fn remembered(set: VpSet, t: VpText, m: InternalRuleMatch) -> bool;
impl VpSet {
    #[verifier::external_body]
    pub fn new() -> VpSet { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_contains(&self, t: &VpText, m: &InternalRuleMatch) -> (r: bool) ensures r == remembered(*self, *t, *m) { unimplemented!() }
}
pub struct InternalRuleMatch { pub rule_index: usize, pub utf8_start: usize, pub utf8_end: usize }
#[verifier::external_body]
pub struct RuleMatch { x: u8 }
#[verifier::external_body]
pub struct VpPath { x: u8 }
#[verifier::external_body]
pub struct VpEvent { x: u8 }
pub struct ScannerFeatures { pub multipass_v0_enabled: bool }
pub struct Scanner { pub rules: Vec<RegexCompiledRule>, pub scanner_features: ScannerFeatures, pub metrics: ScannerMetrics }
// how many of the matches in v are dropped on account of rules that count in cell c
pub open spec fn drops(s: Scanner, v: Seq<InternalRuleMatch>, t: VpText, set: VpSet, c: int) -> int decreases v.len() {
    if v.len() == 0 { 0 } else {
        let m = v.last();
        drops(s, v.drop_last(), t, set, c) + (if remembered(set, t, m) && s.rules@[m.rule_index as int].metrics.false_positive_excluded_attributes.id@ == c { 1int } else { 0 })
    }
}
pub open spec fn good(s: Scanner, v: Seq<InternalRuleMatch>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).rule_index < s.rules@.len() }
// a rule's counter is not one of the scanner's
pub open spec fn own(s: Scanner) -> bool {
    &&& s.metrics.num_scanned_events.id@ != s.metrics.match_count.id@ && s.metrics.num_scanned_events.id@ != s.metrics.duration_ns.id@ && s.metrics.match_count.id@ != s.metrics.duration_ns.id@
    &&& forall|i: int| 0 <= i < s.rules@.len() ==> (#[trigger] s.rules@[i]).metrics.false_positive_excluded_attributes.id@ != s.metrics.num_scanned_events.id@ && s.rules@[i].metrics.false_positive_excluded_attributes.id@ != s.metrics.match_count.id@
}
// whatever the labels, a scanner whose metrics come from the two `new` functions keeps them apart
proof fn theorem_own(s: Scanner, l: Labels, rl: Seq<Labels>)
    requires s.metrics.made(l), rl.len() == s.rules@.len(), forall|i: int| 0 <= i < rl.len() ==> (#[trigger] s.rules@[i]).metrics.made(rl[i]),
    ensures own(s),
{
    reveal_strlit("scanned_events"); reveal_strlit("scanning.match_count"); reveal_strlit("false_positive.multipass.excluded_match");
    assert("false_positive.multipass.excluded_match"@.len() == 39 && "scanned_events"@.len() == 14 && "scanning.match_count"@.len() == 20);
    assert forall|i: int| 0 <= i < s.rules@.len() implies (#[trigger] s.rules@[i]).metrics.false_positive_excluded_attributes.id@ != s.metrics.num_scanned_events.id@ && s.rules@[i].metrics.false_positive_excluded_attributes.id@ != s.metrics.match_count.id@ by {
        axiom_cells("false_positive.multipass.excluded_match"@, rl[i], "scanned_events"@, l);
        axiom_cells("false_positive.multipass.excluded_match"@, rl[i], "scanning.match_count"@, l);
    }
}
proof fn lemma_drops(s: Scanner, v: Seq<InternalRuleMatch>, i: int, t: VpText, set: VpSet, c: int)
    requires 0 <= i < v.len(),
    ensures drops(s, v.take(i + 1), t, set, c) == drops(s, v.take(i), t, set, c) + (if remembered(set, t, v[i]) && s.rules@[v[i].rule_index as int].metrics.false_positive_excluded_attributes.id@ == c { 1int } else { 0 }),
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
proof fn lemma_no_drops(s: Scanner, v: Seq<InternalRuleMatch>, t: VpText, set: VpSet, c: int)
    requires good(s, v), forall|i: int| 0 <= i < s.rules@.len() ==> (#[trigger] s.rules@[i]).metrics.false_positive_excluded_attributes.id@ != c,
    ensures drops(s, v, t, set, c) == 0,
    decreases v.len(),
{ if v.len() > 0 { let m = v[v.len() - 1]; assert(m.rule_index < s.rules@.len()); assert(s.rules@[m.rule_index as int].metrics.false_positive_excluded_attributes.id@ != c); assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i]).rule_index < s.rules@.len() by { assert(v.drop_last()[i] == v[i]); } lemma_no_drops(s, v.drop_last(), t, set, c); } }
impl Scanner {
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::drop"
contract = '''
    requires vp_stats.apart(),
    ensures counted(*vp_stats, *old(vp_w), *final(vp_w), -1),
'''
[[rewrite]]
from = "drop(&mut self)"
to = "vp_drop(&mut self, vp_stats: &Stats, vp_w: &mut VpWorld)"
[[rewrite]]
from = "&*GLOBAL_STATS"
to = "vp_stats"
[[rewrite]]
from = "scanner_deletions.increment($n)"
to = "scanner_deletions.increment($n, vp_w)"
[[rewrite]]
from = "decrement_total_scanners()"
to = "decrement_total_scanners(vp_w)"
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::scan"
kind = "closure"
closure = "rule_matches.retain(|rule_match| $body);"
sig = "fn vp_keep(&self, rule_match: &InternalRuleMatch, content: &VpText, excluded_matches: &VpSet, vp_w: &mut VpWorld) -> (r: bool)"
contract = '''
    requires rule_match.rule_index < self.rules@.len(), self.scanner_features.multipass_v0_enabled,
    ensures
        r == !remembered(*excluded_matches, *content, *rule_match),
        ({ let c = self.rules@[rule_match.rule_index as int].metrics.false_positive_excluded_attributes.id@;
            final(vp_w)@ == (if r { old(vp_w)@ } else { old(vp_w)@.insert(c, old(vp_w)@[c] + 1) }) }),
'''
[[rewrite]]
from = "contains(&content[$a..$b])"
to = "vp_contains(content, rule_match)"
[[rewrite]]
from = "on_excluded_match_multipass_v0()"
to = "on_excluded_match_multipass_v0(vp_w)"
@*/
    // Vec::retain calls its closure once for each element, in order
    fn vp_retain(&self, v: &mut Vec<InternalRuleMatch>, content: &VpText, set: &VpSet, w: &mut VpWorld)
        requires good(*self, old(v)@), self.scanner_features.multipass_v0_enabled,
        ensures good(*self, final(v)@), forall|c: int| #[trigger] final(w)@[c] == old(w)@[c] + drops(*self, old(v)@, *content, *set, c),
    {
        let ghost v0 = v@;
        let mut i: usize = 0;
        while i < v.len()
            invariant v@ == v0, i <= v0.len(), good(*self, v0), self.scanner_features.multipass_v0_enabled,
                forall|c: int| #[trigger] w@[c] == old(w)@[c] + drops(*self, v0.take(i as int), *content, *set, c),
            decreases v0.len() - i,
        {
            let ghost w1 = w@;
            let _ = self.vp_keep(&v[i], content, set, w);
            proof { assert forall|c: int| #[trigger] w@[c] == old(w)@[c] + drops(*self, v0.take(i + 1), *content, *set, c) by { lemma_drops(*self, v0, i as int, *content, *set, c); assert(w1[c] == old(w)@[c] + drops(*self, v0.take(i as int), *content, *set, c)); } }
            i += 1;
        }
        proof { assert(v0.take(v0.len() as int) =~= v0); }
        vp_some_of(v);
    }
    #[verifier::external_body]
    fn sort_and_remove_overlapping_rules(&self, v: &mut Vec<InternalRuleMatch>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_any(&self, v: &Vec<InternalRuleMatch>) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn apply_match_actions(&self, content: &mut VpText, path: &VpPath, v: &mut Vec<InternalRuleMatch>, out: &mut Vec<RuleMatch>) { unimplemented!() }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::scan"
kind = "closure"
closure = "event.visit_string_mut(path, |content| $body);"
sig = "fn vp_edit(&self, content: &mut VpText, path: &VpPath, rule_matches: &mut Vec<InternalRuleMatch>, excluded_matches: &VpSet, output_rule_matches: &mut Vec<RuleMatch>, vp_w: &mut VpWorld) -> (r: bool)"
contract = '''
    requires good(*self, old(rule_matches)@),
    // each match dropped because its text was remembered is counted once, for its rule; nothing else is
    ensures forall|c: int| #[trigger] final(vp_w)@[c] == old(vp_w)@[c] + (if self.scanner_features.multipass_v0_enabled { drops(*self, old(rule_matches)@, *old(content), *excluded_matches, c) } else { 0 }),
'''
[[rewrite]]
from = "rule_matches.retain($c);"
to = "self.vp_retain(rule_matches, content, excluded_matches, vp_w);"
[[rewrite]]
from = "self.sort_and_remove_overlapping_rules::<E::Encoding>(rule_matches);"
to = "self.sort_and_remove_overlapping_rules(rule_matches);"
[[rewrite]]
from = "rule_matches.iter().any($c)"
to = "self.vp_any(rule_matches)"
[[rewrite]]
from = "&mut output_rule_matches"
to = "output_rule_matches"
@*/
    // Event::visit_string_mut calls its closure once (C17)
    fn vp_visit_string_mut(&self, event: &mut VpEvent, e: &mut (VpPath, Vec<InternalRuleMatch>), set: &VpSet, out: &mut Vec<RuleMatch>, w: &mut VpWorld)
        requires good(*self, old(e).1@), own(*self),
        ensures final(w)@[self.metrics.num_scanned_events.id@] == old(w)@[self.metrics.num_scanned_events.id@], final(w)@[self.metrics.match_count.id@] == old(w)@[self.metrics.match_count.id@],
    {
        let ghost v0 = e.1@;
        let mut c = vp_content(event, &e.0);
        let ghost t = c;
        self.vp_edit(&mut c, &e.0, &mut e.1, set, out, w);
        proof { lemma_no_drops(*self, v0, t, *set, self.metrics.num_scanned_events.id@); lemma_no_drops(*self, v0, t, *set, self.metrics.match_count.id@); }
    }
    // the search for matches (unit scan; what it counts: is_false_positive_match below)
    #[verifier::external_body]
    fn vp_visit(&self, event: &mut VpEvent, list: &mut Vec<(VpPath, Vec<InternalRuleMatch>)>, blocked: &Vec<usize>, set: &mut VpSet, w: &mut VpWorld)
        ensures forall|i: int| 0 <= i < final(list)@.len() ==> good(*self, (#[trigger] final(list)@[i]).1@),
            final(w)@[self.metrics.num_scanned_events.id@] == old(w)@[self.metrics.num_scanned_events.id@], final(w)@[self.metrics.match_count.id@] == old(w)@[self.metrics.match_count.id@],
    { unimplemented!() }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::scan"
ret = "r"
contract = '''
    requires own(*self),
    ensures
        final(vp_w)@[self.metrics.num_scanned_events.id@] == old(vp_w)@[self.metrics.num_scanned_events.id@] + 1,
        final(vp_w)@[self.metrics.match_count.id@] == old(vp_w)@[self.metrics.match_count.id@] + r@.len(),
'''
[[rewrite]]
from = "scan<E: Event>(&self, event: &mut E, blocked_rules_idx: Vec<usize>)"
to = "scan(&self, event: &mut VpEvent, blocked_rules_idx: Vec<usize>, vp_w: &mut VpWorld)"
[[rewrite]]
from = "let mut rule_matches_list = vec![];"
to = "let mut rule_matches_list: Vec<(VpPath, Vec<InternalRuleMatch>)> = Vec::new();"
[[rewrite]]
from = "AHashSet::new()"
to = "VpSet::new()"
[[rewrite]]
from = "let start = std::time::Instant::now();"
to = ""
[[rewrite]]
from = "access_regex_caches($c);"
to = "self.vp_visit(event, &mut rule_matches_list, &blocked_rules_idx, &mut excluded_matches, vp_w); let ghost list = rule_matches_list@;"
[[rewrite]]
from = "let mut output_rule_matches = vec![];"
to = "let mut output_rule_matches: Vec<RuleMatch> = Vec::new();"
[[rewrite]]
from = "for (path, rule_matches) in &mut rule_matches_list"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = "event.visit_string_mut(path, $c);"
to = "self.vp_visit_string_mut(event, &mut rule_matches_list[vp_i], &excluded_matches, &mut output_rule_matches, vp_w);"
[[rewrite]]
from = "start.elapsed().as_nanos() as u64"
to = "vp_elapsed(), vp_w"
[[rewrite]]
from = "num_scanned_events.increment($n)"
to = "num_scanned_events.increment($n, vp_w)"
[[rewrite]]
from = "match_count.increment($n)"
to = "match_count.increment($n, vp_w)"
[[loop]]
n = 0
kind = "for"
before = "let vp_n = rule_matches_list.len();"
spec = '''
    invariant
        vp_n == list.len(), rule_matches_list@.len() == list.len(), own(*self),
        forall|k: int| vp_i <= k < list.len() ==> #[trigger] rule_matches_list@[k] == list[k],
        forall|i: int| 0 <= i < list.len() ==> good(*self, (#[trigger] list[i]).1@),
        vp_w@[self.metrics.num_scanned_events.id@] == old(vp_w)@[self.metrics.num_scanned_events.id@], vp_w@[self.metrics.match_count.id@] == old(vp_w)@[self.metrics.match_count.id@],
'''
start = "proof { assert(rule_matches_list@[vp_i as int] == list[vp_i as int]); }"
@*/
}
#[verifier::external_body]
fn vp_some_of(v: &mut Vec<InternalRuleMatch>) ensures forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]) { unimplemented!() }
#[verifier::external_body]
fn vp_content(e: &VpEvent, p: &VpPath) -> VpText { unimplemented!() }
#[verifier::external_body]
fn vp_elapsed() -> u64 { unimplemented!() }
// ---- excluded keywords -----------------------------------------------------------------------------------
#[verifier::external_body]
pub struct ProximityKeywordsRegex { x: u8 }
pub uninterp spec fn near_keyword(t: VpText, at: usize, n: usize, k: ProximityKeywordsRegex) -> bool;
#[verifier::external_body]
fn contains_excluded_keyword_match(t: &VpText, at: usize, n: usize, k: &ProximityKeywordsRegex) -> (r: bool) ensures r == near_keyword(*t, at, n, *k) { unimplemented!() }
/*@extract
file = "sds/src/proximity_keywords/excluded_keywords.rs"
item = "CompiledExcludedProximityKeywords"
kind = "struct"
@*/
impl CompiledExcludedProximityKeywords {
/*@extract
file = "sds/src/proximity_keywords/excluded_keywords.rs"
item = "CompiledExcludedProximityKeywords::is_false_positive_match"
ret = "r"
contract = '''
    ensures final(vp_w)@ == (if r { old(vp_w)@.insert(self.false_positive_counter.id@, old(vp_w)@[self.false_positive_counter.id@] + 1) } else { old(vp_w)@ }),
'''
[[rewrite]]
from = "content: &str, match_start: usize)"
to = "content: &VpText, match_start: usize, vp_w: &mut VpWorld)"
[[rewrite]]
from = "increment($n)"
to = "increment($n, vp_w)"
@*/
}
// ---- stored regexes ----------------------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct RegexCacheKey { pub k: u64 }
#[verifier::external_body]
pub struct MetaRegex { x: u8 }
#[verifier::external_body]
pub struct VpCache { x: u8 }
impl VpCache {
    #[verifier::external_body]
    pub fn memory_usage(&self) -> (r: usize) ensures r < 0x1000_0000_0000 { unimplemented!() }
}
#[verifier::external_body]
pub struct VpArc { x: u8 }
impl VpArc {
    #[verifier::external_body]
    pub fn new(r: MetaRegex) -> VpArc { unimplemented!() }
    #[verifier::external_body]
    pub fn downgrade(a: &VpArc) -> VpWeak { unimplemented!() }
    #[verifier::external_body]
    pub fn create_cache(&self) -> VpCache { unimplemented!() }
}
#[verifier::external_body]
pub struct VpWeak { x: u8 }
impl VpWeak {
    #[verifier::external_body]
    pub fn strong_count(&self) -> usize { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_cache_struct_size() -> (r: usize) ensures r < 0x1_0000 { unimplemented!() }
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "WeakSharedRegex"
kind = "struct"
[[rewrite]]
from = "regex: Weak<MetaRegex>"
to = "pub regex: VpWeak"
[[rewrite]]
from = "cache_size: usize"
to = "pub cache_size: usize"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "SharedRegex"
kind = "struct"
[[rewrite]]
from = "pub(super) regex: Arc<MetaRegex>"
to = "pub regex: VpArc"
[[rewrite]]
from = "pub(super) cache_key"
to = "pub cache_key"
@*/
#[verifier::external_body]
pub struct VpSlots { x: u8 }
impl VpSlots {
    pub uninterp spec fn view(&self) -> Map<RegexCacheKey, WeakSharedRegex>;
    pub uninterp spec fn issued(&self) -> Set<RegexCacheKey>;
    #[verifier::external_body]
    pub fn get(&self, k: RegexCacheKey) -> (r: Option<&WeakSharedRegex>)
        ensures r is Some <==> self@.dom().contains(k), r is Some ==> *(r->0) == self@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: RegexCacheKey) -> (r: Option<WeakSharedRegex>)
        ensures final(self)@ == old(self)@.remove(k), final(self).issued() == old(self).issued(), r is Some <==> old(self)@.dom().contains(k), r is Some ==> r->0 == old(self)@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: WeakSharedRegex) -> (k: RegexCacheKey)
        ensures !old(self).issued().contains(k), final(self)@ == old(self)@.insert(k, v), final(self).issued() == old(self).issued().insert(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), sane(r as int) { unimplemented!() }
}
#[verifier::external_body]
pub struct VpIndex { x: u8 }
impl VpIndex {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, RegexCacheKey>;
    #[verifier::external_body]
    pub fn vp_insert(&mut self, p: &str, k: RegexCacheKey) -> (r: Option<RegexCacheKey>)
        ensures final(self)@ == old(self)@.insert(p@, k), r is Some <==> old(self)@.dom().contains(p@), r is Some ==> r->0 == old(self)@[p@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_entries(&self) -> (r: Vec<(String, RegexCacheKey)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0@) && self@[r@[i].0@] == r@[i].1,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_remove(&mut self, p: &String) ensures final(self)@ == old(self)@.remove(p@) { unimplemented!() }
}
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "GC_FREQUENCY"
kind = "const"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "RegexStore"
kind = "struct"
[[rewrite]]
from = "pattern_index: AHashMap<String, RegexCacheKey>"
to = "pub pattern_index: VpIndex"
[[rewrite]]
from = "key_map: SlotMap<RegexCacheKey, WeakSharedRegex>"
to = "pub key_map: VpSlots"
[[rewrite]]
from = "gc_counter: u64"
to = "pub gc_counter: u64"
@*/
// bytes of the caches of all stored regexes
pub open spec fn bytes(m: Map<RegexCacheKey, WeakSharedRegex>) -> int decreases m.dom().len() {
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); m[k].cache_size + bytes(m.remove(k)) }
}
proof fn lemma_bytes(m: Map<RegexCacheKey, WeakSharedRegex>, k: RegexCacheKey)
    requires m.dom().contains(k),
    ensures bytes(m) == m[k].cache_size + bytes(m.remove(k)),
    decreases m.dom().len(),
{
    let c = m.dom().choose();
    if c != k {
        assert(m.dom().len() > 0);
        assert(m.remove(c).dom() =~= m.dom().remove(c)); assert(m.remove(k).dom() =~= m.dom().remove(k));
        lemma_bytes(m.remove(c), k);
        assert(m.remove(k).dom().contains(c));
        lemma_bytes(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    } else { assert(m.dom().len() > 0); }
}
pub open spec fn shown(s: Stats, w: VpWorld, m: Map<RegexCacheKey, WeakSharedRegex>) -> bool {
    &&& w@[s.total_regexes.id@] == m.dom().len()
    &&& cache_shown(s, w, m)
}
pub open spec fn cache_shown(s: Stats, w: VpWorld, m: Map<RegexCacheKey, WeakSharedRegex>) -> bool {
    &&& w@[s.total_regex_cache_size_count.id@] == bytes(m) && w@[s.total_regex_cache_size.id@] == bytes(m)
}
proof fn lemma_bytes_nat(m: Map<RegexCacheKey, WeakSharedRegex>) ensures bytes(m) >= 0 decreases m.dom().len()
{ if m.dom().len() > 0 { let k = m.dom().choose(); assert(m.remove(k).dom() =~= m.dom().remove(k)); lemma_bytes_nat(m.remove(k)); } }
// a store that exists fits in memory
#[verifier::external_body]
proof fn vp_fits(s: VpSlots) ensures bytes(s@) < 0x10_0000_0000_0000 { }
proof fn lemma_remove(s: VpSlots, k: RegexCacheKey)
    requires s@.dom().contains(k),
    ensures bytes(s@) == s@[k].cache_size + bytes(s@.remove(k)), bytes(s@.remove(k)) >= 0, bytes(s@) < 0x10_0000_0000_0000,
{ lemma_bytes(s@, k); lemma_bytes_nat(s@.remove(k)); vp_fits(s); }
impl RegexStore {
    pub open spec fn inv(&self) -> bool {
        let ix = self.pattern_index@; let ks = self.key_map@;
        &&& forall|p: Seq<char>| #[trigger] ix.dom().contains(p) ==> ks.dom().contains(ix[p])
        &&& forall|p: Seq<char>, q: Seq<char>| #[trigger] ix.dom().contains(p) && #[trigger] ix.dom().contains(q) && p != q ==> ix[p] != ix[q]
        &&& forall|k: RegexCacheKey| #[trigger] ks.dom().contains(k) ==> self.key_map.issued().contains(k)
    }
    // (unit regex_store)
    #[verifier::external_body]
    pub fn get(&self, pattern: &str) -> Option<SharedRegex> { unimplemented!() }
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "RegexStore::gc"
contract = '''
    requires old(self).inv(), vp_stats.apart(), shown(*vp_stats, *old(vp_w), old(self).key_map@),
    ensures final(self).inv(), shown(*vp_stats, *final(vp_w), final(self).key_map@), final(self).gc_counter == 0,
'''
[[rewrite]]
from = "gc(&mut self)"
to = "gc(&mut self, vp_stats: &Stats, vp_w: &mut VpWorld)"
[[rewrite]]
from = "self.pattern_index.retain(|_, cache_key| {"
to = '''let vp_e = self.pattern_index.vp_entries(); let mut vp_i: usize = 0;
        while vp_i < vp_e.len()
            invariant
                vp_i <= vp_e@.len(), self.inv(), vp_stats.apart(), self.gc_counter == 0,
                cache_shown(*vp_stats, *vp_w, self.key_map@),
                forall|i: int, j: int| 0 <= i < j < vp_e@.len() ==> (#[trigger] vp_e@[i]).0@ != (#[trigger] vp_e@[j]).0@,
                forall|i: int| vp_i <= i < vp_e@.len() ==> self.pattern_index@.dom().contains((#[trigger] vp_e@[i]).0@) && self.pattern_index@[vp_e@[i].0@] == vp_e@[i].1,
            decreases vp_e@.len() - vp_i,
        {
            let ghost s0 = *self; let ghost p0 = vp_e@[vp_i as int].0@; let ghost k0 = vp_e@[vp_i as int].1;
            proof { assert(s0.pattern_index@.dom().contains(p0)); lemma_remove(s0.key_map, k0); }
            let cache_key = &vp_e[vp_i].1; let vp_keep = {'''
[[rewrite]]
from = "} });"
to = '''} };
            if !vp_keep { self.pattern_index.vp_remove(&vp_e[vp_i].0); }
            proof {
                if !vp_keep {
                    assert forall|p: Seq<char>| #[trigger] self.pattern_index@.dom().contains(p) implies self.key_map@.dom().contains(self.pattern_index@[p]) by { assert(s0.pattern_index@.dom().contains(p)); }
                }
            }
            vp_i += 1; }'''
[[rewrite]]
from = "GLOBAL_STATS.add_total_regex_cache($x)"
to = "vp_stats.add_total_regex_cache($x, vp_w)"
optional = true
all = true
[[rewrite]]
from = "GLOBAL_STATS.set_total_regexes($x)"
to = "vp_stats.set_total_regexes($x, vp_w)"
optional = true
all = true
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "RegexStore::insert"
contract = '''
    requires old(self).inv(), vp_stats.apart(), shown(*vp_stats, *old(vp_w), old(self).key_map@), old(self).gc_counter < GC_FREQUENCY,
    // whenever the store changes, the gauges show how many regexes it holds and how large their caches are
    ensures final(self).inv(), shown(*vp_stats, *final(vp_w), final(self).key_map@), final(self).gc_counter < GC_FREQUENCY,
'''
[[rewrite]]
from = "insert(&mut self, pattern: &str, regex: MetaRegex) -> SharedRegex"
to = "insert(&mut self, pattern: &str, regex: MetaRegex, vp_stats: &Stats, vp_w: &mut VpWorld) -> (r: SharedRegex)"
[[rewrite]]
from = "self.gc()"
to = "self.gc(vp_stats, vp_w)"
[[before]]
pattern = "if let Some(existing_regex) = self.get(pattern)"
text = "let ghost s1 = *self;"
[[rewrite]]
from = "Arc::new(regex)"
to = "VpArc::new(regex)"
[[rewrite]]
from = "Arc::downgrade(&shared_regex)"
to = "VpArc::downgrade(&shared_regex)"
[[rewrite]]
from = "std::mem::size_of::<Cache>()"
to = "vp_cache_struct_size()"
[[rewrite]]
from = "self.pattern_index.insert(pattern.to_owned(), cache_key)"
to = "self.pattern_index.vp_insert(pattern, cache_key)"
[[rewrite]]
from = "debug_assert!($x)"
to = ""
optional = true
[[rewrite]]
from = "GLOBAL_STATS.add_total_regex_cache(cache_size as i64)"
to = '''{ let ghost s2 = *self; proof { assert(!s1.key_map@.dom().contains(cache_key)); assert(s2.key_map@.dom().contains(cache_key)); lemma_remove(s2.key_map, cache_key); assert(s2.key_map@.remove(cache_key) =~= s1.key_map@); } vp_stats.add_total_regex_cache(cache_size as i64, vp_w)
; proof { if s1.pattern_index@.dom().contains(pattern@) { let o = s1.pattern_index@[pattern@]; assert(s1.key_map@.dom().contains(o)); assert(s2.key_map@.dom().contains(o)); lemma_remove(s2.key_map, o); } } }'''
[[rewrite]]
from = "GLOBAL_STATS.add_total_regex_cache(-$x)"
to = "vp_stats.add_total_regex_cache(-$x, vp_w)"
optional = true
[[rewrite]]
from = "GLOBAL_STATS.set_total_regexes($x)"
to = "vp_stats.set_total_regexes($x, vp_w)"
optional = true
@*/
}
}
fn main() {}
