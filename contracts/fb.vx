// ---- FlatBuffers vectors and strings: ghost contents, creation and access (assumed)
#[verifier::external_body] pub struct FlatBufferBuilder { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct WIPOffset<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Vector<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct FbStr { x: u8 }
impl<T> WIPOffset<Vector<T>> { pub uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Vector<T> { pub uninterp spec fn view(&self) -> Seq<T>; }
impl WIPOffset<FbStr> { pub uninterp spec fn view(&self) -> Seq<char>; }
impl FbStr { pub uninterp spec fn view(&self) -> Seq<char>; }
pub open spec fn wv<T>(o: Option<WIPOffset<Vector<T>>>) -> Option<Seq<T>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn ws(o: Option<WIPOffset<FbStr>>) -> Option<Seq<char>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn ov<T>(o: Option<Vector<T>>) -> Option<Seq<T>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn fs(o: Option<FbStr>) -> Option<Seq<char>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn vs<T>(o: Option<Vec<T>>) -> Option<Seq<T>> { match o { Some(v) => Some(v@), None => None } }
impl FlatBufferBuilder {
    #[verifier::external_body] pub fn create_vector<T>(&mut self, v: &Vec<T>) -> (r: WIPOffset<Vector<T>>) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn create_string(&mut self, s: &String) -> (r: WIPOffset<FbStr>) ensures r@ == s@ { unimplemented!() }
}
/// v.map(|v| v.iter().collect::<Vec<_>>()).unwrap_or_default()
#[verifier::external_body] pub fn ints(v: Option<Vector<u32>>) -> (r: Vec<u32>) ensures r@ == (match v { Some(v) => v@, None => Seq::empty() }) { unimplemented!() }
/// v.iter().collect::<Vec<_>>()
#[verifier::external_body] pub fn all<T>(v: Vector<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn opt_string(v: Option<FbStr>) -> (r: Option<String>) ensures os(r) == fs(v) { unimplemented!() }
impl Vector<u32> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: u32) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}
