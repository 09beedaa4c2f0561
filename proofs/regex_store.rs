use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- dependencies ----------------------------------------------------------------------------------
#[verifier::external_body]
pub struct MetaRegex { x: u8 }
pub uninterp spec fn source(r: MetaRegex) -> Seq<char>;                 // the pattern a regex was made for
#[verifier::external_body]
pub struct Cache { x: u8 }
pub uninterp spec fn made_for(c: Cache) -> MetaRegex;                    // the regex a cache belongs to
impl Cache {
    #[verifier::external_body]
    pub fn memory_usage(&self) -> (r: usize) ensures r < 0x1000_0000_0000 { unimplemented!() }
}
impl MetaRegex {
    #[verifier::external_body]
    pub fn create_cache(&self) -> (r: Cache) ensures made_for(r) == *self { unimplemented!() }
}
// Arc/Weak<MetaRegex>
#[verifier::external_body]
pub struct VpArc { x: u8 }
impl View for VpArc { type V = MetaRegex; uninterp spec fn view(&self) -> MetaRegex; }
#[verifier::external_body]
pub struct VpWeak { x: u8 }
impl View for VpWeak { type V = MetaRegex; uninterp spec fn view(&self) -> MetaRegex; }
// nobody holds the regex any more (at the end of the call that looks at it; once dead, always dead)
pub uninterp spec fn dead(w: VpWeak) -> bool;
impl VpArc {
    #[verifier::external_body]
    pub fn new(r: MetaRegex) -> (a: VpArc) ensures a@ == r { unimplemented!() }
    #[verifier::external_body]
    pub fn downgrade(a: &VpArc) -> (w: VpWeak) ensures w@ == a@ { unimplemented!() }
    #[verifier::external_body]
    pub fn create_cache(&self) -> (r: Cache) ensures made_for(r) == self@ { unimplemented!() }
}
impl VpWeak {
    #[verifier::external_body]
    pub fn upgrade(&self) -> (r: Option<VpArc>) ensures r is Some ==> (r->0)@ == self@, r is None ==> dead(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn strong_count(&self) -> (r: usize) ensures r == 0 ==> dead(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_cache_struct_size() -> (r: usize) ensures r < 0x1_0000 { core::mem::size_of::<Cache>() }
pub struct VpStats;
impl VpStats {
    #[verifier::external_body]
    pub fn add_total_regex_cache(&self, d: i64) { }
    #[verifier::external_body]
    pub fn set_total_regexes(&self, n: usize) { }
}
pub fn vp_stats() -> VpStats { VpStats }
// slotmap: a key is never issued twice
#[derive(Clone, Copy)]
pub struct RegexCacheKey { pub k: u64 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpSlots<T> { x: Vec<T> }
impl<T> VpSlots<T> {
    pub uninterp spec fn view(&self) -> Map<RegexCacheKey, T>;
    pub uninterp spec fn issued(&self) -> Set<RegexCacheKey>;
    #[verifier::external_body]
    pub fn with_key() -> (r: Self) ensures r@ == Map::<RegexCacheKey, T>::empty(), r.issued() == Set::<RegexCacheKey>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: RegexCacheKey) -> (r: Option<&T>)
        ensures r is Some <==> self@.dom().contains(k), r is Some ==> *(r->0) == self@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: RegexCacheKey) -> (r: Option<T>)
        ensures final(self)@ == old(self)@.remove(k), final(self).issued() == old(self).issued(), r is Some <==> old(self)@.dom().contains(k), r is Some ==> r->0 == old(self)@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: T) -> (k: RegexCacheKey)
        ensures !old(self).issued().contains(k), final(self)@ == old(self)@.insert(k, v), final(self).issued() == old(self).issued().insert(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize { unimplemented!() }
}
// AHashMap<String, RegexCacheKey>
#[verifier::external_body]
pub struct VpIndex { x: u8 }
impl VpIndex {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, RegexCacheKey>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, RegexCacheKey>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, p: &str) -> (r: Option<&RegexCacheKey>)
        ensures r is Some <==> self@.dom().contains(p@), r is Some ==> *(r->0) == self@[p@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_insert(&mut self, p: &str, k: RegexCacheKey) -> (r: Option<RegexCacheKey>)
        ensures final(self)@ == old(self)@.insert(p@, k), r is Some <==> old(self)@.dom().contains(p@), r is Some ==> r->0 == old(self)@[p@],
    { unimplemented!() }
    // the entries `retain` visits, each once
    #[verifier::external_body]
    pub fn vp_entries(&self) -> (r: Vec<(String, RegexCacheKey)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0@) && self@[r@[i].0@] == r@[i].1,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_remove(&mut self, p: &String) ensures final(self)@ == old(self)@.remove(p@) { unimplemented!() }
}
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "WeakSharedRegex"
kind = "struct"
[[rewrite]]
from = "regex: Weak<MetaRegex>"
to = "pub regex: VpWeak"
[[rewrite]]
from = "cache_size: usize"
to = "pub cache_size: usize"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "SharedRegex"
kind = "struct"
[[rewrite]]
from = "pub(super) regex: Arc<MetaRegex>"
to = "pub regex: VpArc"
[[rewrite]]
from = "pub(super) cache_key"
to = "pub cache_key"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "GC_FREQUENCY"
kind = "const"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "RegexStore"
kind = "struct"
[[rewrite]]
from = "pattern_index: AHashMap<String, RegexCacheKey>"
to = "pub pattern_index: VpIndex"
[[rewrite]]
from = "key_map: SlotMap<RegexCacheKey, WeakSharedRegex>"
to = "pub key_map: VpSlots<WeakSharedRegex>"
[[rewrite]]
from = "gc_counter: u64"
to = "pub gc_counter: u64"
@*/
// ---- invariant -------------------------------------------------------------------------------------
pub open spec fn entry_ok(ix: Map<Seq<char>, RegexCacheKey>, ks: Map<RegexCacheKey, WeakSharedRegex>, p: Seq<char>) -> bool {
    ks.dom().contains(ix[p]) && source(ks[ix[p]].regex@) == p && ks[ix[p]].cache_size < 0x7fff_ffff_ffff_ffff
}
pub open spec fn owned(ix: Map<Seq<char>, RegexCacheKey>, k: RegexCacheKey) -> bool { exists|p: Seq<char>| #[trigger] ix.dom().contains(p) && ix[p] == k }
impl RegexStore {
    pub open spec fn inv(&self) -> bool {
        let ix = self.pattern_index@; let ks = self.key_map@;
        // every pattern has a stored regex made for that pattern
        &&& forall|p: Seq<char>| #[trigger] ix.dom().contains(p) ==> entry_ok(ix, ks, p)
        // nothing is stored that no pattern refers to
        &&& forall|k: RegexCacheKey| #[trigger] ks.dom().contains(k) ==> owned(ix, k) && self.key_map.issued().contains(k)
        &&& self.gc_counter < GC_FREQUENCY
    }
    pub open spec fn held(&self, p: Seq<char>) -> bool { self.pattern_index@.dom().contains(p) && !dead(self.key_map@[self.pattern_index@[p]].regex) }
    // what o stores for a pattern that is in use is unchanged
    pub open spec fn keeps(&self, o: &RegexStore, p: Seq<char>) -> bool {
        self.pattern_index@.dom().contains(p) && self.pattern_index@[p] == o.pattern_index@[p] && self.key_map@[self.pattern_index@[p]] == o.key_map@[o.pattern_index@[p]]
    }
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "RegexStore::new"
ret = "r"
contract = '''
    ensures r.inv(),
'''
[[rewrite]]
from = "AHashMap::new()"
to = "VpIndex::new()"
[[rewrite]]
from = "SlotMap::with_key()"
to = "VpSlots::with_key()"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "RegexStore::gc"
contract = '''
    requires
        forall|p: Seq<char>| #[trigger] old(self).pattern_index@.dom().contains(p) ==> entry_ok(old(self).pattern_index@, old(self).key_map@, p),
        forall|k: RegexCacheKey| #[trigger] old(self).key_map@.dom().contains(k) ==> owned(old(self).pattern_index@, k) && old(self).key_map.issued().contains(k),
    ensures
        final(self).inv(), final(self).gc_counter == 0,
        final(self).key_map.issued() == old(self).key_map.issued(),
        // only regexes that are no longer used go
        forall|p: Seq<char>| #[trigger] old(self).held(p) ==> final(self).keeps(old(self), p),
        forall|p: Seq<char>| #[trigger] final(self).pattern_index@.dom().contains(p) ==> old(self).pattern_index@.dom().contains(p) && final(self).keeps(old(self), p),
'''
[[rewrite]]
from = "self.pattern_index.retain(|_, cache_key| {"
to = '''let vp_e = self.pattern_index.vp_entries(); let mut vp_i: usize = 0;
        while vp_i < vp_e.len()
            invariant
                vp_i <= vp_e@.len(), self.inv(), self.gc_counter == 0, self.key_map.issued() == old(self).key_map.issued(),
                forall|i: int, j: int| 0 <= i < j < vp_e@.len() ==> (#[trigger] vp_e@[i]).0@ != (#[trigger] vp_e@[j]).0@,
                forall|i: int| vp_i <= i < vp_e@.len() ==> self.pattern_index@.dom().contains((#[trigger] vp_e@[i]).0@) && self.pattern_index@[vp_e@[i].0@] == vp_e@[i].1,
                forall|p: Seq<char>| #[trigger] old(self).held(p) ==> self.keeps(old(self), p),
                forall|p: Seq<char>| #[trigger] self.pattern_index@.dom().contains(p) ==> old(self).pattern_index@.dom().contains(p) && self.keeps(old(self), p),
            decreases vp_e@.len() - vp_i,
        {
            let ghost s0 = *self; let ghost p0 = vp_e@[vp_i as int].0@; let ghost k0 = vp_e@[vp_i as int].1;
            proof { assert(s0.pattern_index@.dom().contains(p0)); assert(entry_ok(s0.pattern_index@, s0.key_map@, p0)); }
            let cache_key = &vp_e[vp_i].1; let vp_keep = {'''
[[rewrite]]
from = "} });"
to = '''} };
            if !vp_keep { self.pattern_index.vp_remove(&vp_e[vp_i].0); }
            proof {
                if !vp_keep {
                    assert(dead(s0.key_map@[k0].regex));
                    assert forall|p: Seq<char>| #[trigger] self.pattern_index@.dom().contains(p) implies entry_ok(self.pattern_index@, self.key_map@, p) by {
                        assert(s0.pattern_index@.dom().contains(p)); assert(entry_ok(s0.pattern_index@, s0.key_map@, p));
                        if s0.pattern_index@[p] == k0 { assert(source(s0.key_map@[k0].regex@) == p); assert(p == p0); }
                    }
                    assert forall|k: RegexCacheKey| #[trigger] self.key_map@.dom().contains(k) implies owned(self.pattern_index@, k) && self.key_map.issued().contains(k) by {
                        assert(s0.key_map@.dom().contains(k)); assert(owned(s0.pattern_index@, k));
                        let p = choose|p: Seq<char>| #[trigger] s0.pattern_index@.dom().contains(p) && s0.pattern_index@[p] == k;
                        assert(p != p0); assert(self.pattern_index@.dom().contains(p));
                    }
                    assert forall|p: Seq<char>| #[trigger] old(self).held(p) implies self.keeps(old(self), p) by { assert(s0.keeps(old(self), p)); assert(p != p0); assert(s0.pattern_index@.dom().contains(p)); if s0.pattern_index@[p] == k0 { assert(entry_ok(s0.pattern_index@, s0.key_map@, p)); } }
                    assert forall|p: Seq<char>| #[trigger] self.pattern_index@.dom().contains(p) implies old(self).pattern_index@.dom().contains(p) && self.keeps(old(self), p) by { assert(s0.pattern_index@.dom().contains(p)); assert(s0.keeps(old(self), p)); if s0.pattern_index@[p] == k0 { assert(entry_ok(s0.pattern_index@, s0.key_map@, p)); } }
                }
            }
            vp_i += 1; }'''
[[rewrite]]
from = "GLOBAL_STATS."
to = "vp_stats()."
all = true
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "RegexStore::get"
ret = "r"
contract = '''
    requires self.inv(),
    ensures
        // what is returned was made for this very pattern, and is the stored one
        r is Some ==> self.pattern_index@.dom().contains(pattern@) && (r->0).cache_key == self.pattern_index@[pattern@]
            && (r->0).regex@ == self.key_map@[(r->0).cache_key].regex@ && source((r->0).regex@) == pattern@,
        // and nothing is returned only if nothing is stored or nobody uses it any more
        r is None ==> !self.held(pattern@),
'''
start = "proof { if self.pattern_index@.dom().contains(pattern@) { assert(entry_ok(self.pattern_index@, self.key_map@, pattern@)); } }"
[[rewrite]]
from = "self.pattern_index.get(pattern).and_then(|cache_key| { self.key_map.get(*cache_key).and_then(|x| $up).map(|regex| $mk) })"
to = "match self.pattern_index.get(pattern) { None => None, Some(cache_key) => match self.key_map.get(*cache_key) { None => None, Some(x) => match $up { None => None, Some(regex) => Some($mk) } } }"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "RegexStore::insert"
ret = "r"
contract = '''
    requires old(self).inv(), source(regex) == pattern@,
    ensures
        final(self).inv(),
        // the regex to use was made for this pattern, and is the one stored from now on
        final(self).pattern_index@.dom().contains(pattern@), r.cache_key == final(self).pattern_index@[pattern@],
        r.regex@ == final(self).key_map@[r.cache_key].regex@, source(r.regex@) == pattern@,
        // its key is new, or was and is the key of this very regex
        !old(self).key_map.issued().contains(r.cache_key)
            || (old(self).key_map@.dom().contains(r.cache_key) && old(self).key_map@[r.cache_key].regex@ == r.regex@),
        forall|k: RegexCacheKey| #[trigger] old(self).key_map.issued().contains(k) ==> final(self).key_map.issued().contains(k),
        // regexes in use stay what they are
        forall|p: Seq<char>| #[trigger] old(self).held(p) ==> final(self).keeps(old(self), p),
'''
[[after]]
pattern = "self.gc_counter += 1;"
text = "let ghost s0 = *self;"
[[before]]
pattern = "if let Some(existing_regex) = self.get(pattern)"
text = "let ghost s1 = *self; proof { assert forall|p: Seq<char>| #[trigger] old(self).held(p) implies s1.keeps(old(self), p) && s1.held(p) by { assert(s0.held(p)); assert(s1.keeps(&s0, p)); } }"
[[rewrite]]
from = "Arc::new(regex)"
to = "VpArc::new(regex)"
[[rewrite]]
from = "Arc::downgrade(&shared_regex)"
to = "VpArc::downgrade(&shared_regex)"
[[rewrite]]
from = "std::mem::size_of::<Cache>()"
to = "vp_cache_struct_size()"
[[rewrite]]
from = "self.pattern_index.insert(pattern.to_owned(), cache_key)"
to = "self.pattern_index.vp_insert(pattern, cache_key)"
[[rewrite]]
from = "debug_assert!($x)"
to = ""
optional = true
[[rewrite]]
from = "GLOBAL_STATS."
to = "vp_stats()."
all = true
[[before]]
pattern = "SharedRegex { regex: shared_regex, cache_key, }"
text = '''proof {
    let ix = self.pattern_index@; let ks = self.key_map@; let ix1 = s1.pattern_index@; let ks1 = s1.key_map@;
    assert(!s1.held(pattern@));
    assert forall|p: Seq<char>| #[trigger] ix.dom().contains(p) implies entry_ok(ix, ks, p) by {
        if p != pattern@ { assert(ix1.dom().contains(p)); assert(entry_ok(ix1, ks1, p)); assert(ks1.dom().contains(ix1[p])); if ix1.dom().contains(pattern@) { assert(entry_ok(ix1, ks1, pattern@)); } }
    }
    assert forall|k: RegexCacheKey| #[trigger] ks.dom().contains(k) implies owned(ix, k) && self.key_map.issued().contains(k) by {
        if k == cache_key { assert(ix.dom().contains(pattern@)); assert(ix[pattern@] == k); }
        else { assert(ks1.dom().contains(k)); assert(owned(ix1, k)); let p = choose|p: Seq<char>| #[trigger] ix1.dom().contains(p) && ix1[p] == k; assert(p != pattern@); assert(ix.dom().contains(p)); assert(ix[p] == k); }
    }
    assert forall|p: Seq<char>| #[trigger] old(self).held(p) implies self.keeps(old(self), p) by {
        assert(s1.held(p)); assert(p != pattern@); assert(ix1.dom().contains(p)); assert(entry_ok(ix1, ks1, p)); if ix1.dom().contains(pattern@) { assert(entry_ok(ix1, ks1, pattern@)); }
    }
}'''
@*/
}
// ---- memoisation: the store behind its lock -----------------------------------------------------------
// The lock invariant: whoever holds the lock finds a store that satisfies inv (whatever other threads did
// before) and must leave one that does. The guard is taken by value and given back by vp_unlock.
#[verifier::external_body]
pub struct VpMutex { x: u8 }
#[verifier::external_body]
pub fn vp_lock(m: &VpMutex) -> (r: RegexStore) ensures r.inv() { unimplemented!() }
#[verifier::external_body]
pub fn vp_unlock(m: &VpMutex, s: RegexStore) requires s.inv() { unimplemented!() }
// a factory (validate_and_create_regex, or the keyword builder): what it returns is made for its argument
#[verifier::external_body]
pub struct VpFactory { x: u8 }
impl VpFactory {
    #[verifier::external_body]
    pub fn call<T>(self, p: &str) -> (r: Result<MetaRegex, T>) ensures r is Ok ==> source(r->Ok_0) == p@, r is Err <==> rejected(self, p@) { unimplemented!() }
}
pub uninterp spec fn rejected(f: VpFactory, p: Seq<char>) -> bool;
/*@extract
file = "sds/src/scanner/regex_rule/regex_store.rs"
item = "get_memoized_regex_with_custom_store"
ret = "r"
contract = '''
    ensures
        // whatever was built before, by whomever: the regex returned was made for this pattern
        r is Ok ==> source((r->Ok_0).regex@) == pattern@,
        r is Err ==> rejected(regex_factory, pattern@),
'''
[[rewrite]]
from = "regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>"
to = "regex_factory: VpFactory"
[[rewrite]]
from = "store: &Mutex<RegexStore>"
to = "store: &VpMutex"
[[rewrite]]
from = "store.lock().unwrap()"
to = "vp_lock(store)"
all = true
[[rewrite]]
from = "regex_factory(pattern)?"
to = "regex_factory.call(pattern)?"
[[rewrite]]
from = "Ok(regex_store.insert(pattern, regex))"
to = "{ let vp_r = regex_store.insert(pattern, regex); vp_unlock(store, regex_store); Ok(vp_r) }"
@*/
// ---- per-thread caches ---------------------------------------------------------------------------------
// the regex a key stands for: a function of the key, because insert never gives a key to two regexes
pub uninterp spec fn regex_of(k: RegexCacheKey) -> MetaRegex;
// slotmap::SecondaryMap; entry(k) is None only if a newer key of the same slot has been used, that is,
// if the regex of k has been removed from the store - which insert and gc only do when nobody holds it
#[verifier::external_body]
pub struct VpCacheMap { x: u8 }
impl VpCacheMap {
    pub uninterp spec fn view(&self) -> Map<RegexCacheKey, Cache>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<RegexCacheKey, Cache>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_entry_or(&mut self, k: RegexCacheKey, make: Ghost<Cache>, regex: &MetaRegex) -> (r: &mut Cache)
        requires made_for(make@) == *regex,
        ensures
            *r == (if old(self)@.dom().contains(k) { old(self)@[k] } else { make@ }),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
/*@extract
file = "sds/src/scanner/regex_rule/regex_cache_store.rs"
item = "RegexCaches"
kind = "struct"
[[rewrite]]
from = "map: SecondaryMap<RegexCacheKey, regex_automata::meta::Cache>"
to = "pub map: VpCacheMap"
@*/
impl RegexCaches {
    pub open spec fn inv(&self) -> bool { forall|k: RegexCacheKey| #[trigger] self.map@.dom().contains(k) ==> made_for(self.map@[k]) == regex_of(k) }
/*@extract
file = "sds/src/scanner/regex_rule/regex_cache_store.rs"
item = "RegexCaches::new"
ret = "r"
contract = '''
    ensures r.inv(),
'''
[[rewrite]]
from = "SecondaryMap::new()"
to = "VpCacheMap::new()"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_cache_store.rs"
item = "RegexCaches::raw_get"
ret = "r"
contract = '''
    requires old(self).inv(), *regex == regex_of(key),
    ensures made_for(*r) == *regex, made_for(*final(r)) == *regex ==> final(self).inv(),
'''
[[rewrite]]
from = "&mut regex_automata::meta::Cache"
to = "&mut Cache"
[[rewrite]]
from = "self.map.entry(key).unwrap().or_insert_with(|| regex.create_cache())"
to = "{ let vp_n = regex.create_cache(); self.map.vp_entry_or(key, Ghost(vp_n), regex) }"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/regex_cache_store.rs"
item = "RegexCaches::get"
ret = "r"
contract = '''
    requires old(self).inv(), shared_regex.regex@ == regex_of(shared_regex.cache_key),
    ensures made_for(*r) == shared_regex.regex@, made_for(*final(r)) == shared_regex.regex@ ==> final(self).inv(),
'''
[[rewrite]]
from = "&mut regex_automata::meta::Cache"
to = "&mut Cache"
[[rewrite]]
from = "&shared_regex.regex"
to = "shared_regex.regex.vp_deref()"
@*/
}
impl VpArc {
    #[verifier::external_body]
    pub fn vp_deref(&self) -> (r: &MetaRegex) ensures *r == self@ { unimplemented!() }
}
}
fn main() {}
