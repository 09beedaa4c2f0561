//! A metrics recorder: counters and gauges by name (labels appended as sorted text).
use metrics::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
/// gauges wait up to this many microseconds before they are set (an exporter that is slow at times)
pub static SLOW: AtomicU64 = AtomicU64::new(0);
/// the next time this gauge is set, it waits for a while first (an exporter that stalls once)
pub static HOLD: Mutex<Option<String>> = Mutex::new(None);
static TICK: AtomicU64 = AtomicU64::new(0);
#[derive(Clone, Default)]
pub struct Rec(pub Arc<Mutex<BTreeMap<String, f64>>>);
struct Cell(Arc<Mutex<BTreeMap<String, f64>>>, String);
impl Cell { fn upd(&self, f: impl FnOnce(&mut f64)) { f(self.0.lock().unwrap_or_else(|e| e.into_inner()).entry(self.1.clone()).or_insert(0.0)) } }
impl CounterFn for Cell { fn increment(&self, v: u64) { self.upd(|x| *x += v as f64) } fn absolute(&self, v: u64) { self.upd(|x| *x = v as f64) } }
impl GaugeFn for Cell { fn increment(&self, v: f64) { self.upd(|x| *x += v) } fn decrement(&self, v: f64) { self.upd(|x| *x -= v) } fn set(&self, v: f64) {
    let hold = { let mut h = HOLD.lock().unwrap_or_else(|e| e.into_inner()); if h.as_deref() == Some(self.1.as_str()) { h.take(); true } else { false } };
    if hold { std::thread::sleep(std::time::Duration::from_millis(150)); }
    let d = SLOW.load(Ordering::Relaxed);
    if d > 0 { let t = TICK.fetch_add(1, Ordering::Relaxed).wrapping_mul(0x9E3779B97F4A7C15) >> 40; if t % 3 > 0 { std::thread::sleep(std::time::Duration::from_micros(t % d)); } }
    self.upd(|x| *x = v)
} }
fn name(k: &Key) -> String {
    let mut l: Vec<String> = k.labels().map(|l| format!("{}={}", l.key(), l.value())).collect();
    l.sort();
    if l.is_empty() { k.name().to_string() } else { format!("{}|{}", k.name(), l.join(",")) }
}
impl Recorder for Rec {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, k: &Key, _: &Metadata<'_>) -> Counter { Counter::from_arc(Arc::new(Cell(self.0.clone(), name(k)))) }
    fn register_gauge(&self, k: &Key, _: &Metadata<'_>) -> Gauge { Gauge::from_arc(Arc::new(Cell(self.0.clone(), name(k)))) }
    fn register_histogram(&self, _: &Key, _: &Metadata<'_>) -> Histogram { Histogram::noop() }
}
impl Rec {
    pub fn install() -> Rec { let r = Rec::default(); let _ = metrics::set_global_recorder(r.clone()); r }
    pub fn get(&self, n: &str) -> f64 { self.0.lock().unwrap_or_else(|e| e.into_inner()).get(n).copied().unwrap_or(0.0) }
    pub fn all(&self) -> BTreeMap<String, f64> { self.0.lock().unwrap_or_else(|e| e.into_inner()).clone() }
    pub fn clear(&self) { self.0.lock().unwrap_or_else(|e| e.into_inner()).clear() }
}
