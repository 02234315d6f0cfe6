// ---- columns
pub ghost struct ColT { pub name: Seq<char>, pub index: u16, pub type_: ColumnType }
#[verifier::external_body] pub struct Column { x: u8 }
pub struct ColumnArgs { pub name: Option<WIPOffset<FbStr>>, pub index: u16, pub type_: ColumnType }
impl WIPOffset<Column> { pub uninterp spec fn view(&self) -> ColT; }
impl Column {
    pub uninterp spec fn view(&self) -> ColT;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &ColumnArgs) -> (r: WIPOffset<Column>) requires a.name is Some ensures r@ == (ColT { name: a.name->0@, index: a.index, type_: a.type_ }) { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: FbStr) ensures r@ == self@.name { unimplemented!() }
    #[verifier::external_body] pub fn index(&self) -> (r: u16) ensures r == self@.index { unimplemented!() }
    #[verifier::external_body] pub fn type_(&self) -> (r: ColumnType) ensures r == self@.type_ { unimplemented!() }
}
impl FbStr { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
impl Vector<u8> {
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl Vector<Column> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// iter().find(|c| c.index() == i)
    #[verifier::external_body] pub fn find_index(&self, i: u16) -> (r: Option<Column>)
        ensures match r { Some(c) => exists|j: int| 0 <= j < self@.len() && #[trigger] self@[j] == c && c@.index == i, None => forall|j: int| 0 <= j < self@.len() ==> (#[trigger] self@[j])@.index != i } { unimplemented!() }
}
pub open spec fn colts(s: Seq<Column>) -> Seq<ColT> { s.map_values(|c: Column| c@) }
pub open spec fn wcolts(s: Seq<WIPOffset<Column>>) -> Seq<ColT> { s.map_values(|c: WIPOffset<Column>| c@) }
/// what the reader is given
#[verifier::external_body] pub fn read_columns(w: WIPOffset<Vector<WIPOffset<Column>>>) -> (r: Vector<Column>) ensures colts(r@) == wcolts(w@) { unimplemented!() }
#[verifier::external_body] pub fn read_bytes(w: WIPOffset<Vector<u8>>) -> (r: Vector<u8>) ensures r@ == w@ { unimplemented!() }
pub open spec fn cols_ok(s: SM, c: Seq<ColT>) -> bool { c.len() == s.dom().len() && forall|i: int| 0 <= i < c.len() ==> s.contains_key((#[trigger] c[i]).name) && s[c[i].name] == (c[i].index, c[i].type_) && c[i].index == i }
