// ---- hash maps: contents as a map; the order of iteration is not known
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct HashMap<V> { x: core::marker::PhantomData<V> }
impl<V> HashMap<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    /// the entries in the order in which `for` goes through them
    #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(&String, &V)>)
        ensures self@.dom().finite(), r@.len() == self@.dom().len(), forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0@) && self@[r@[i].0@] == *r@[i].1,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
            forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
    { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures (r is Some) == self@.contains_key(k@), r is Some ==> *r->0 == self@[k@] { unimplemented!() }
}
