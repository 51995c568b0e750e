// HashMap / HashSet: maps and sets of the keys' views (key equality of the real types is equality of views).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: std::marker::PhantomData<(K,V)> }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), r is Some <==> old(self)@.contains_key(k@), r is Some ==> r->0 == old(self)@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some <==> old(self)@.contains_key(k@), r is Some ==> r->0 == old(self)@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(k@), r is Some ==> *(r->0) == self@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains_key(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, Q: View<V = K::V> + ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>)
        ensures
           r is Some <==> old(self)@.contains_key(k@),
           r is None ==> final(self)@ == old(self)@,
           r is Some ==> *(r->0) == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(r->0)),
    { unimplemented!() }
    /// `entry(k).or_insert(v)` / `.or_insert_with(|| v)`; v must be free of effects
    #[verifier::external_body]
    pub fn vx_entry_or_insert<'a>(&'a mut self, k: K, v: V) -> (r: &'a mut V)
        ensures
           *r == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { v }),
           final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: K::V| !#[trigger] self@.contains_key(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::V, V>::empty() { unimplemented!() }
    /// the keys, each once
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: VIter<K>) ensures r.pos() == 0, lists_keys(r.seq(), self@) { unimplemented!() }
    /// the pairs, each once
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VIter<(&K, &V)>) ensures r.pos() == 0, lists_pairs(r.seq(), self@) { unimplemented!() }
}
pub open spec fn lists_keys<K: View, V>(s: Seq<K>, m: Map<K::V, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i])@)
    &&& forall|k: K::V| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@
}
pub open spec fn lists_pairs<'a, K: View, V>(s: Seq<(&'a K, &'a V)>, m: Map<K::V, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && m[s[i].0@] == *s[i].1
    &&& forall|k: K::V| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: std::marker::PhantomData<K> }
impl<K: View> View for HashSet<K> { type V = Set<K::V>; uninterp spec fn view(&self) -> Set<K::V>; }
impl<K: View> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k@), r == old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn contains<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<K::V>::empty() { unimplemented!() }
}
impl<K: View> VxIter for HashSet<K> { type It = K;
    open spec fn vx_iter_of(&self, r: VIter<K>) -> bool {
        &&& forall|i: int| 0 <= i < r.seq().len() ==> self@.contains((#[trigger] r.seq()[i])@)
        &&& forall|x: K::V| self@.contains(x) ==> exists|i: int| 0 <= i < r.seq().len() && (#[trigger] r.seq()[i])@ == x
        &&& forall|i: int, j: int| 0 <= i < r.seq().len() && 0 <= j < r.seq().len() && (#[trigger] r.seq()[i])@ == (#[trigger] r.seq()[j])@ ==> i == j
    }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<K>) { unimplemented!() }
}
