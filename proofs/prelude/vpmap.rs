// ---- AHashMap: a finite map with an arbitrary but fixed enumeration order of its keys ------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VpMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> VpMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    pub uninterp spec fn keys(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    // number of entries; the enumeration lists every key exactly once
    #[verifier::external_body]
    pub fn vp_len(&self) -> (r: usize)
        ensures r == self.keys().len(), self.keys().no_duplicates(), forall|k: K| #[trigger] self@.contains_key(k) <==> self.keys().contains(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
    // the i-th element of values_mut()
    #[verifier::external_body]
    pub fn vp_value_mut(&mut self, i: usize) -> (r: &mut V)
        requires i < old(self).keys().len(),
        ensures *r == old(self)@[old(self).keys()[i as int]], final(self).keys() == old(self).keys(),
            final(self)@ == old(self)@.insert(old(self).keys()[i as int], *final(r)),
    { unimplemented!() }
    // entry(k).or_insert_with(|| d)
    #[verifier::external_body]
    pub fn vp_entry_or_insert(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
