// ---- JSON values (crate serde_json, assumed)
pub ghost enum Num { P(u64), N(i64), F(f64) }
#[verifier::external_body] pub struct Number { x: u8 }
#[verifier::external_body] pub struct JArr { x: u8 }
#[verifier::external_body] pub struct JMap { x: u8 }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(JArr), Object(JMap) }
pub uninterp spec fn finite(f: f64) -> bool;
/// the nearest double
pub uninterp spec fn dbl(i: int) -> f64;
pub uninterp spec fn f32_of(f: f64) -> f32;
pub uninterp spec fn f64_of(f: f32) -> f64;
pub open spec fn num_of(i: int) -> Num { if i >= 0 { Num::P(i as u64) } else { Num::N(i as i64) } }
pub open spec fn flt(n: Num) -> f64 { match n { Num::P(u) => dbl(u as int), Num::N(i) => dbl(i as int), Num::F(f) => f } }
impl Number {
    pub uninterp spec fn view(&self) -> Num;
    #[verifier::external_body] pub fn is_f64(&self) -> (r: bool) ensures r == (self@ is F) { unimplemented!() }
    #[verifier::external_body] pub fn is_u64(&self) -> (r: bool) ensures r == (self@ is P) { unimplemented!() }
    #[verifier::external_body] pub fn is_i64(&self) -> (r: bool) ensures r == (int_of(self@) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == int_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r == (match self@ { Num::P(u) => Some(u), _ => None }) { unimplemented!() }
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<f64>) ensures r == Some(flt(self@)), finite(flt(self@)) { unimplemented!() }
    #[verifier::external_body] pub fn from<T: Int>(x: T) -> (r: Self) ensures r@ == num_of(x.z()) { unimplemented!() }
    #[verifier::external_body] pub fn from_f64(f: f64) -> (r: Option<Self>) ensures finite(f) ==> r is Some, r is Some ==> r->0@ == Num::F(f) { unimplemented!() }
}
/// a number is non-negative in its unsigned form, negative in its signed form, finite in its float form
#[verifier::external_body] pub broadcast proof fn axiom_num(n: Number) ensures match #[trigger] n@ { Num::N(i) => i < 0, Num::F(f) => finite(f), _ => true } {}
#[verifier::external_body] pub broadcast proof fn axiom_num_eq(a: Number, b: Number) ensures #[trigger] a@ == #[trigger] b@ ==> a == b {}
pub open spec fn int_of(n: Num) -> Option<i64> { match n { Num::P(u) => if u <= i64::MAX { Some(u as i64) } else { None }, Num::N(i) => Some(i), _ => None } }
pub trait Int: Sized { spec fn z(self) -> int; }
impl Int for i16 { open spec fn z(self) -> int { self as int } }
impl Int for u16 { open spec fn z(self) -> int { self as int } }
impl Int for i32 { open spec fn z(self) -> int { self as int } }
impl Int for u32 { open spec fn z(self) -> int { self as int } }
impl Int for i64 { open spec fn z(self) -> int { self as int } }
impl Int for u64 { open spec fn z(self) -> int { self as int } }
#[verifier::external_body] pub fn to_f32(f: f64) -> (r: f32) ensures r == f32_of(f) { f as f32 }
#[verifier::external_body] pub fn to_f64(f: f32) -> (r: f64) ensures r == f64_of(f) { f as f64 }
impl Value {
    pub open spec fn map(self) -> Map<Seq<char>, Value> { self->Object_0@ }
    pub fn is_object(&self) -> (r: bool) ensures r == (self is Object) { matches!(self, Value::Object(_)) }
    pub fn is_null(&self) -> (r: bool) ensures r == (self is Null) { matches!(self, Value::Null) }
    pub fn as_object(&self) -> (r: Option<&JMap>) ensures (r is Some) == (self is Object), r is Some ==> *r->0 == self->Object_0 { match self { Value::Object(m) => Some(m), _ => None } }
    pub fn as_bool(&self) -> (r: Option<bool>) ensures r == (match *self { Value::Bool(b) => Some(b), _ => None }) { match self { Value::Bool(b) => Some(*b), _ => None } }
    pub fn as_str(&self) -> (r: Option<&str>) ensures ostr(r) == (match *self { Value::String(s) => Some(s@), _ => None }) { match self { Value::String(s) => Some(s.as_str()), _ => None } }
    pub fn as_i64(&self) -> (r: Option<i64>) ensures r == (match *self { Value::Number(n) => int_of(n@), _ => None }) { match self { Value::Number(n) => n.as_i64(), _ => None } }
    pub fn as_u64(&self) -> (r: Option<u64>) ensures r == (match *self { Value::Number(n) => match n@ { Num::P(u) => Some(u), _ => None }, _ => None }) { match self { Value::Number(n) => n.as_u64(), _ => None } }
    pub fn as_f64(&self) -> (r: Option<f64>) ensures r == (match *self { Value::Number(n) => Some(flt(n@)), _ => None }), self is Number ==> finite(flt(self->Number_0@)) { match self { Value::Number(n) => n.as_f64(), _ => None } }
}
impl JMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Value>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Value>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: Seq<char>| !#[trigger] self@.contains_key(k)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: Value) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    /// iter().find(|(k, _)| *k == name)
    #[verifier::external_body] pub fn entry_of(&self, name: &String) -> (r: Option<(&String, &Value)>)
        ensures (r is Some) == self@.contains_key(name@), r is Some ==> (r->0).0@ == name@ && *(r->0).1 == self@[name@] { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, name: &String) -> (r: Option<&Value>)
        ensures (r is Some) == self@.contains_key(name@), r is Some ==> *r->0 == self@[name@] { unimplemented!() }
    /// the entries in the order of iter()
    #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(&String, &Value)>)
        ensures self@.dom().finite(), r@.len() == self@.dom().len(), forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0@) && self@[r@[i].0@] == *r@[i].1,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
            forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
    { unimplemented!() }
}
/// the text of a value: to_string, and from_str reads it back
pub uninterp spec fn jtext(v: Value) -> Seq<char>;
#[verifier::external_body] pub fn json_text(v: &Value) -> (r: String) ensures r@ == jtext(*v) { unimplemented!() }
#[verifier::external_body] pub fn parse_json(s: &String) -> (r: Value) requires exists|v: Value| jtext(v) == s@ ensures forall|v: Value| #[trigger] jtext(v) == s@ ==> r == v { unimplemented!() }
/// chrono::DateTime::parse_from_rfc3339(s).is_ok()
pub uninterp spec fn rfc3339(s: Seq<char>) -> bool;
#[verifier::external_body] pub fn is_rfc3339(s: &String) -> (r: bool) ensures r == rfc3339(s@) { unimplemented!() }
