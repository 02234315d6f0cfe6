// unit header: the header of a file and what is read back from it (P13)
use vstd::prelude::*;
%%include omap.vx
verus! {
global size_of usize == 8;
%%include fb.vx
%%include strs.vx
%%include hmap.vx
%%include json.vx
%%include schema.vx
%%include cols.vx
#[verifier::external_body] pub struct Unparsed { x: u8 }
pub enum Error { MissingRequiredField(String), Other(Unparsed) }
pub type Result<T, E = Error> = core::result::Result<T, E>;
// ---- numbers as text (assumed: what is printed parses to the same number)
pub uninterp spec fn dec(i: int) -> Seq<char>;
pub uninterp spec fn parsed(s: Seq<char>) -> Option<int>;
pub broadcast proof fn axiom_dec(i: int) ensures parsed(#[trigger] dec(i)) == Some(i) { admit(); }
/// s.parse::<i32>().unwrap_or(0)
#[verifier::external_body] pub fn parse_i32(s: &String) -> (r: i32) ensures r == (match parsed(s@) { Some(i) => if i32::MIN <= i <= i32::MAX { i } else { 0 }, None => 0 }) { unimplemented!() }
/// s.parse::<i64>().ok()
#[verifier::external_body] pub fn parse_i64(s: &FbStr) -> (r: Option<i64>) ensures r == (match parsed(s@) { Some(i) => if i64::MIN <= i <= i64::MAX { Some(i as i64) } else { None }, None => None }) { unimplemented!() }
#[verifier::external_body] pub fn text32(i: &i32) -> (r: String) ensures r@ == dec(*i as int) { unimplemented!() }
#[verifier::external_body] pub fn text64(i: &i64) -> (r: String) ensures r@ == dec(*i as int) { unimplemented!() }
#[verifier::external_body] pub fn same_text(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn text_of(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body] pub fn text_or_empty(a: Option<FbStr>) -> (r: String) ensures r@ == (match a { Some(a) => a@, None => Seq::empty() }) { unimplemented!() }
// ---- CityJSON values (crate cjseq, restated)
#[verifier::external_body] pub struct CjGeometry { x: u8 }
#[verifier::external_body] pub struct CjAppearance { x: u8 }
#[verifier::external_body] pub struct Extensions { x: u8 }
pub struct CjTransform { pub scale: Vec<f64>, pub translate: Vec<f64> }
pub struct CjReferenceSystem { pub base_url: String, pub authority: String, pub version: String, pub code: String }
pub uninterp spec fn default_base() -> Seq<char>;
impl CjReferenceSystem { #[verifier::external_body] pub fn new(base: Option<String>, authority: String, version: String, code: String) -> (r: Self) ensures r.authority == authority, r.version == version, r.code == code, r.base_url@ == (match base { Some(b) => b@, None => default_base() }) { unimplemented!() } }
pub struct CjAddress { pub thoroughfare_number: i64, pub thoroughfare_name: String, pub locality: String, pub postal_code: String, pub country: String }
pub struct CjPointOfContact { pub contact_name: String, pub contact_type: Option<String>, pub role: Option<String>, pub phone: Option<String>, pub email_address: String, pub website: Option<String>, pub address: Option<CjAddress> }
pub struct CjMetadata { pub geographical_extent: Option<[f64; 6]>, pub identifier: Option<String>, pub point_of_contact: Option<CjPointOfContact>, pub reference_date: Option<String>, pub reference_system: Option<CjReferenceSystem>, pub title: Option<String> }
pub struct CjGeometryTemplates { pub templates: Vec<CjGeometry>, pub vertices_templates: Vec<[f64; 3]> }
pub struct CityJSON { pub thetype: String, pub version: String, pub transform: CjTransform, pub metadata: Option<CjMetadata>, pub appearance: Option<CjAppearance>, pub geometry_templates: Option<CjGeometryTemplates>, pub extensions: Option<Extensions> }
impl CityJSON { #[verifier::external_body] pub fn new() -> (r: Self) ensures r.metadata is None, r.appearance is None, r.geometry_templates is None, r.extensions is None { unimplemented!() } }
// ---- tables of the file
pub struct Vec3 { pub a: f64, pub b: f64, pub c: f64 }
impl Clone for Vec3 { fn clone(&self) -> (r: Self) ensures r == *self { Vec3 { a: self.a, b: self.b, c: self.c } } }
impl Copy for Vec3 {}
impl Vec3 {
    pub fn new(x: f64, y: f64, z: f64) -> (r: Self) ensures r.a == x, r.b == y, r.c == z { Vec3 { a: x, b: y, c: z } }
    pub fn x(&self) -> (r: f64) ensures r == self.a { self.a }
    pub fn y(&self) -> (r: f64) ensures r == self.b { self.b }
    pub fn z(&self) -> (r: f64) ensures r == self.c { self.c }
}
pub type DoubleVertex = Vec3;
#[derive(Clone, Copy)] pub struct GeographicalExtent { pub lo: Vec3, pub hi: Vec3 }
impl GeographicalExtent {
    pub fn new(min: &Vec3, max: &Vec3) -> (r: Self) ensures r.lo == *min, r.hi == *max { GeographicalExtent { lo: *min, hi: *max } }
    pub fn min(&self) -> (r: &Vec3) ensures *r == self.lo { &self.lo }
    pub fn max(&self) -> (r: &Vec3) ensures *r == self.hi { &self.hi }
}
#[derive(Clone, Copy)] pub struct Transform { pub s: Vec3, pub t: Vec3 }
impl Transform {
    pub fn new(scale: &Vec3, translate: &Vec3) -> (r: Self) ensures r.s == *scale, r.t == *translate { Transform { s: *scale, t: *translate } }
    pub fn scale(&self) -> (r: &Vec3) ensures *r == self.s { &self.s }
    pub fn translate(&self) -> (r: &Vec3) ensures *r == self.t { &self.t }
}
#[derive(Clone, Copy)] pub struct AttributeIndex { pub i: u16, pub l: u32, pub b: u16, pub n: u32 }
impl AttributeIndex { pub fn new(index: u16, length: u32, branching_factor: u16, num_unique_items: u32) -> (r: Self) ensures r == (AttributeIndex { i: index, l: length, b: branching_factor, n: num_unique_items }) { AttributeIndex { i: index, l: length, b: branching_factor, n: num_unique_items } } }
%%pubitem writer/serializer.rs pub(super) struct AttributeIndexInfo
%%isub `pub(super)` => `pub`
%%pubitem writer/header_writer.rs pub struct HeaderWriterOptions
pub ghost struct RsT { pub authority: Option<Seq<char>>, pub version: i32, pub code: i32, pub code_string: Option<Seq<char>> }
pub ghost struct PocT { pub contact_name: Option<Seq<char>>, pub contact_type: Option<Seq<char>>, pub role: Option<Seq<char>>, pub phone: Option<Seq<char>>, pub email: Option<Seq<char>>, pub website: Option<Seq<char>>, pub number: Option<Seq<char>>, pub name: Option<Seq<char>>, pub locality: Option<Seq<char>>, pub postcode: Option<Seq<char>>, pub country: Option<Seq<char>> }
pub ghost struct HdrT { pub transform: Option<Transform>, pub columns: Option<Seq<ColT>>, pub semantic: Option<Seq<ColT>>, pub count: u64, pub node_size: u16, pub attr_index: Option<Seq<AttributeIndex>>, pub extent: Option<GeographicalExtent>, pub rs: Option<RsT>, pub identifier: Option<Seq<char>>, pub date: Option<Seq<char>>, pub title: Option<Seq<char>>, pub templates: Option<Seq<GeomT>>, pub tverts: Option<Seq<Vec3>>, pub poc: PocT, pub version: Seq<char>, pub ext: bool, pub app: bool }
#[verifier::external_body] pub struct GeomT { x: u8 }
#[verifier::external_body] pub struct Geometry { x: u8 }
impl Geometry { pub uninterp spec fn view(&self) -> GeomT; }
impl WIPOffset<Geometry> { pub uninterp spec fn view(&self) -> GeomT; }
#[verifier::external_body] pub struct Appearance { x: u8 }
#[verifier::external_body] pub struct Extension { x: u8 }
#[verifier::external_body] pub struct ReferenceSystem { x: u8 }
pub struct ReferenceSystemArgs { pub authority: Option<WIPOffset<FbStr>>, pub version: i32, pub code: i32, pub code_string: Option<WIPOffset<FbStr>> }
impl WIPOffset<ReferenceSystem> { pub uninterp spec fn view(&self) -> RsT; }
impl ReferenceSystem {
    pub uninterp spec fn view(&self) -> RsT;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &ReferenceSystemArgs) -> (r: WIPOffset<ReferenceSystem>) ensures r@ == (RsT { authority: ws(a.authority), version: a.version, code: a.code, code_string: ws(a.code_string) }) { unimplemented!() }
    #[verifier::external_body] pub fn authority(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.authority { unimplemented!() }
    #[verifier::external_body] pub fn code_string(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.code_string { unimplemented!() }
    #[verifier::external_body] pub fn version(&self) -> (r: i32) ensures r == self@.version { unimplemented!() }
    #[verifier::external_body] pub fn code(&self) -> (r: i32) ensures r == self@.code { unimplemented!() }
}
#[verifier::external_body] pub struct Header { x: u8 }
impl WIPOffset<Header> { pub uninterp spec fn view(&self) -> HdrT; }
pub open spec fn ocol(o: Option<WIPOffset<Vector<WIPOffset<Column>>>>) -> Option<Seq<ColT>> { match o { Some(v) => Some(wcolts(v@)), None => None } }
pub open spec fn geoms(s: Seq<WIPOffset<Geometry>>) -> Seq<GeomT> { s.map_values(|x: WIPOffset<Geometry>| x@) }
pub open spec fn dref<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
type Str = Option<WIPOffset<FbStr>>;
pub struct HeaderArgs<'a> { pub transform: Option<&'a Transform>, pub appearance: Option<WIPOffset<Appearance>>, pub columns: Option<WIPOffset<Vector<WIPOffset<Column>>>>, pub semantic_columns: Option<WIPOffset<Vector<WIPOffset<Column>>>>, pub features_count: u64, pub index_node_size: u16, pub attribute_index: Option<WIPOffset<Vector<AttributeIndex>>>, pub geographical_extent: Option<&'a GeographicalExtent>, pub reference_system: Option<WIPOffset<ReferenceSystem>>,
    pub identifier: Str, pub reference_date: Str, pub title: Str, pub templates: Option<WIPOffset<Vector<WIPOffset<Geometry>>>>, pub templates_vertices: Option<WIPOffset<Vector<DoubleVertex>>>, pub extensions: Option<WIPOffset<Vector<WIPOffset<Extension>>>>,
    pub poc_contact_name: Str, pub poc_contact_type: Str, pub poc_role: Str, pub poc_phone: Str, pub poc_email: Str, pub poc_website: Str, pub poc_address_thoroughfare_number: Str, pub poc_address_thoroughfare_name: Str, pub poc_address_locality: Str, pub poc_address_postcode: Str, pub poc_address_country: Str, pub attributes: Option<WIPOffset<Vector<u8>>>, pub version: Str }
/// HeaderArgs::default() of the generated code
pub fn no_args<'a>() -> (r: HeaderArgs<'a>)
    ensures r.transform is None, r.appearance is None, r.columns is None, r.semantic_columns is None, r.features_count == 0, r.index_node_size == 16, r.attribute_index is None, r.geographical_extent is None, r.reference_system is None, r.identifier is None, r.reference_date is None, r.title is None, r.templates is None, r.templates_vertices is None, r.extensions is None,
        r.poc_contact_name is None, r.poc_contact_type is None, r.poc_role is None, r.poc_phone is None, r.poc_email is None, r.poc_website is None, r.poc_address_thoroughfare_number is None, r.poc_address_thoroughfare_name is None, r.poc_address_locality is None, r.poc_address_postcode is None, r.poc_address_country is None, r.attributes is None, r.version is None,
{ HeaderArgs { transform: None, appearance: None, columns: None, semantic_columns: None, features_count: 0, index_node_size: 16, attribute_index: None, geographical_extent: None, reference_system: None, identifier: None, reference_date: None, title: None, templates: None, templates_vertices: None, extensions: None, poc_contact_name: None, poc_contact_type: None, poc_role: None, poc_phone: None, poc_email: None, poc_website: None, poc_address_thoroughfare_number: None, poc_address_thoroughfare_name: None, poc_address_locality: None, poc_address_postcode: None, poc_address_country: None, attributes: None, version: None } }
impl Header {
    pub uninterp spec fn view(&self) -> HdrT;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &HeaderArgs) -> (r: WIPOffset<Header>) requires a.version is Some
        ensures r@ == (HdrT { transform: dref(a.transform), columns: ocol(a.columns), semantic: ocol(a.semantic_columns), count: a.features_count, node_size: a.index_node_size, attr_index: wv(a.attribute_index), extent: dref(a.geographical_extent),
            rs: match a.reference_system { Some(x) => Some(x@), None => None }, identifier: ws(a.identifier), date: ws(a.reference_date), title: ws(a.title), templates: match a.templates { Some(v) => Some(geoms(v@)), None => None }, tverts: wv(a.templates_vertices),
            poc: PocT { contact_name: ws(a.poc_contact_name), contact_type: ws(a.poc_contact_type), role: ws(a.poc_role), phone: ws(a.poc_phone), email: ws(a.poc_email), website: ws(a.poc_website), number: ws(a.poc_address_thoroughfare_number), name: ws(a.poc_address_thoroughfare_name), locality: ws(a.poc_address_locality), postcode: ws(a.poc_address_postcode), country: ws(a.poc_address_country) },
            version: a.version->0@, ext: a.extensions is Some, app: a.appearance is Some }) { unimplemented!() }
    #[verifier::external_body] pub fn transform(&self) -> (r: Option<&Transform>) ensures dref(r) == self@.transform { unimplemented!() }
    #[verifier::external_body] pub fn semantic_columns(&self) -> (r: Option<Vector<Column>>) ensures (match r { Some(v) => Some(colts(v@)), None => None }) == self@.semantic { unimplemented!() }
    #[verifier::external_body] pub fn geographical_extent(&self) -> (r: Option<&GeographicalExtent>) ensures dref(r) == self@.extent { unimplemented!() }
    #[verifier::external_body] pub fn reference_system(&self) -> (r: Option<ReferenceSystem>) ensures (match r { Some(x) => Some(x@), None => None }) == self@.rs { unimplemented!() }
    #[verifier::external_body] pub fn version(&self) -> (r: FbStr) ensures r@ == self@.version { unimplemented!() }
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.identifier { unimplemented!() }
    #[verifier::external_body] pub fn reference_date(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.date { unimplemented!() }
    #[verifier::external_body] pub fn title(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.title { unimplemented!() }
    #[verifier::external_body] pub fn templates(&self) -> (r: Option<Vector<Geometry>>) ensures (match r { Some(v) => Some(v@.map_values(|x: Geometry| x@)), None => None }) == self@.templates { unimplemented!() }
    #[verifier::external_body] pub fn templates_vertices(&self) -> (r: Option<Vector<DoubleVertex>>) ensures ov(r) == self@.tverts { unimplemented!() }
    #[verifier::external_body] pub fn poc_contact_name(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.contact_name { unimplemented!() }
    #[verifier::external_body] pub fn poc_contact_type(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.contact_type { unimplemented!() }
    #[verifier::external_body] pub fn poc_role(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.role { unimplemented!() }
    #[verifier::external_body] pub fn poc_phone(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.phone { unimplemented!() }
    #[verifier::external_body] pub fn poc_email(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.email { unimplemented!() }
    #[verifier::external_body] pub fn poc_website(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.website { unimplemented!() }
    #[verifier::external_body] pub fn poc_address_thoroughfare_number(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.number { unimplemented!() }
    #[verifier::external_body] pub fn poc_address_thoroughfare_name(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.name { unimplemented!() }
    #[verifier::external_body] pub fn poc_address_locality(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.locality { unimplemented!() }
    #[verifier::external_body] pub fn poc_address_postcode(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.postcode { unimplemented!() }
    #[verifier::external_body] pub fn poc_address_country(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.poc.country { unimplemented!() }
}
// ---- what other units decide: geometries (P10), columns (P09), appearance (P11); extensions need the network and are out of scope
pub uninterp spec fn geom_in(g: CjGeometry, sem: Option<SM>, t: GeomT) -> bool;
pub uninterp spec fn geom_ok(g: CjGeometry) -> bool;
pub uninterp spec fn same_geometry(a: CjGeometry, b: CjGeometry) -> bool;
pub open spec fn osm(o: Option<&AttributeSchema>) -> Option<SM> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn cols_match(s: Option<SM>, c: Option<Vector<Column>>) -> bool { match (s, c) { (Some(s), Some(c)) => cols_ok(s, colts(c@)), (None, None) => true, _ => false } }
#[verifier::external_body] pub fn to_geometry(fbb: &mut FlatBufferBuilder, g: &CjGeometry, sem: Option<&AttributeSchema>) -> (r: WIPOffset<Geometry>) ensures geom_in(*g, osm(sem), r@) { unimplemented!() }
#[verifier::external_body] pub fn decode_geometry(g: &Geometry, sem: &Option<Vector<Column>>) -> (r: Result<CjGeometry, Error>)
    ensures forall|c: CjGeometry, s: Option<SM>| #[trigger] geom_in(c, s, g@) && geom_ok(c) && cols_match(s, *sem) ==> r is Ok && same_geometry(c, r->Ok_0) { unimplemented!() }
/// unit attr
#[verifier::external_body] pub fn to_columns(fbb: &mut FlatBufferBuilder, schema: &AttributeSchema) -> (r: WIPOffset<Vector<WIPOffset<Column>>>) requires wf(schema@) ensures cols_ok(schema@, wcolts(r@)) { unimplemented!() }
#[verifier::external_body] pub fn to_appearance(fbb: &mut FlatBufferBuilder, a: &CjAppearance) -> (r: WIPOffset<Appearance>) { unimplemented!() }
#[verifier::external_body] pub fn extensions_of(fbb: &mut FlatBufferBuilder, e: &Option<Extensions>) -> (r: Result<Option<WIPOffset<Vector<WIPOffset<Extension>>>>>) ensures *e is None ==> r is Ok && r->Ok_0 is None { unimplemented!() }

%%fn writer/serializer.rs "-" to_geographical_extent
%%ret r
%%sub `Vector::new` => `Vec3::new`
%%spec
    ensures r == ext_of(*geographical_extent),
%%done
pub open spec fn ext_of(e: [f64; 6]) -> GeographicalExtent { GeographicalExtent { lo: Vec3 { a: e[0], b: e[1], c: e[2] }, hi: Vec3 { a: e[3], b: e[4], c: e[5] } } }
pub open spec fn transform_of(t: CjTransform) -> Transform { Transform { s: Vec3 { a: t.scale@[0], b: t.scale@[1], c: t.scale@[2] }, t: Vec3 { a: t.translate@[0], b: t.translate@[1], c: t.translate@[2] } } }
%%fn writer/serializer.rs "-" to_transform
%%ret r
%%sub `Vector::new` => `Vec3::new`
%%spec
    requires transform.scale@.len() == 3, transform.translate@.len() == 3,
    ensures r == transform_of(*transform),
%%done
pub open spec fn rs_in(c: CjReferenceSystem, t: RsT) -> bool {
    t.authority == Some(c.authority@) && (parsed(c.version@) is Some && i32::MIN <= parsed(c.version@)->0 <= i32::MAX ==> t.version == parsed(c.version@)->0) && (match t.code_string { Some(s) => s == c.code@, None => dec(t.code as int) == c.code@ })
}
%%fn writer/serializer.rs "-" to_reference_system
%%ret r
%%sig `<'a>` => ``
%%sig `&mut FlatBufferBuilder` => `&mut FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<ReferenceSystem>` => `WIPOffset<ReferenceSystem>`
%%sub `ref_system.version.parse::<i32>().unwrap_or_else(|e| { 0 })` => `parse_i32(&ref_system.version)`
%%sub `ref_system.code.parse::<i32>().unwrap_or(0)` => `parse_i32(&ref_system.code)`
%%sub `code.to_string() == ref_system.code` => `same_text(&text32(&code), &ref_system.code)`
%%spec
    ensures rs_in(*ref_system, r@),
%%done

%%pubitem writer/serializer.rs struct FcbPointOfContact
%%isub `flatbuffers::WIPOffset<&'a str>` => `WIPOffset<FbStr>`
%%isub `FcbPointOfContact<'a>` => `FcbPointOfContact`
pub open spec fn addr_in(a: Option<CjAddress>, t: PocT) -> bool {
    match a {
        Some(a) => t.number == Some(dec(a.thoroughfare_number as int)) && t.name == Some(a.thoroughfare_name@) && t.locality == Some(a.locality@) && t.postcode == Some(a.postal_code@) && t.country == Some(a.country@),
        None => t.number is None && t.name is None && t.locality is None && t.postcode is None && t.country is None,
    }
}
pub open spec fn poc_in(p: Option<CjPointOfContact>, t: PocT) -> bool {
    match p {
        Some(p) => t.contact_name == Some(p.contact_name@) && t.contact_type == os(p.contact_type) && t.role == os(p.role) && t.phone == os(p.phone) && t.email == Some(p.email_address@) && t.website == os(p.website) && addr_in(p.address, t),
        None => t.contact_name is None,
    }
}
impl FcbPointOfContact { pub open spec fn t(self) -> PocT { PocT { contact_name: ws(self.poc_contact_name), contact_type: ws(self.poc_contact_type), role: ws(self.poc_role), phone: ws(self.poc_phone), email: ws(self.poc_email), website: ws(self.poc_website), number: ws(self.poc_address_thoroughfare_number), name: ws(self.poc_address_thoroughfare_name), locality: ws(self.poc_address_locality), postcode: ws(self.poc_address_postcode), country: ws(self.poc_address_country) } } }
%%fn writer/serializer.rs "-" to_point_of_contact
%%ret r
%%omap
%%sig `<'a>` => ``
%%sub `a.thoroughfare_number.to_string()` => `text64(&a.thoroughfare_number)`
%%spec
    ensures poc_in(Some(*poc), r.t()),
%%done
pub open spec fn v3(a: [f64; 3], b: Vec3) -> bool { b.a == a[0] && b.b == a[1] && b.c == a[2] }
pub open spec fn tverts_in(v: Seq<[f64; 3]>, t: Seq<Vec3>) -> bool { t.len() == v.len() && forall|i: int| 0 <= i < t.len() ==> v3(v[i], #[trigger] t[i]) }
%%fn writer/serializer.rs "-" to_templates_vertices
%%ret r
%%sig `<'a>` => ``
%%sig `flatbuffers::WIPOffset<flatbuffers::Vector<'a, DoubleVertex>>` => `WIPOffset<Vector<DoubleVertex>>`
%%loops 1
%%sub `let vertices_vec = vertices .iter() .map(|v|` => `let mut vertices_vec: Vec<DoubleVertex> = Vec::new(); let mut _i: usize = 0; while _i < vertices.len() { let v = &vertices[_i]; let _o =`
%%sub `) .collect::<Vec<_>>();` => `; vertices_vec.push(_o); _i += 1; }`
%%spec
    ensures tverts_in(vertices@, r@),
%%loop 0
    invariant 0 <= _i <= vertices@.len(), vertices_vec@.len() == _i, forall|i: int| 0 <= i < _i ==> v3(vertices@[i], #[trigger] vertices_vec@[i]),
    decreases vertices@.len() - _i
%%done
/// what the header table holds
pub open spec fn index_in(a: Option<Seq<AttributeIndexInfo>>, t: Option<Seq<AttributeIndex>>) -> bool {
    match (a, t) { (Some(a), Some(t)) => t.len() == a.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == (AttributeIndex { i: a[i].index, l: a[i].length, b: a[i].branching_factor, n: a[i].num_unique_items }), (None, None) => true, _ => false }
}
pub open spec fn templates_in(g: Option<CjGeometryTemplates>, sem: Option<SM>, t: HdrT) -> bool {
    match g {
        Some(g) => t.templates is Some && t.tverts is Some && tverts_in(g.vertices_templates@, t.tverts->0) && t.templates->0.len() == g.templates@.len() && forall|i: int| 0 <= i < t.templates->0.len() ==> geom_in(g.templates@[i], sem, #[trigger] t.templates->0[i]),
        None => t.templates is None && t.tverts is None,
    }
}
pub open spec fn oext(o: Option<[f64; 6]>) -> Option<GeographicalExtent> { match o { Some(e) => Some(ext_of(e)), None => None } }
pub open spec fn meta_in(m: Option<CjMetadata>, given: Option<[f64; 6]>, t: HdrT) -> bool {
    match m {
        Some(m) => {
            &&& t.extent == oext(if given is Some { given } else { m.geographical_extent })
            &&& t.identifier == os(m.identifier) && t.date == os(m.reference_date) && t.title == os(m.title) && poc_in(m.point_of_contact, t.poc)
            &&& match (m.reference_system, t.rs) { (Some(a), Some(b)) => rs_in(a, b), (None, None) => true, _ => false }
        },
        None => t.extent == oext(given) && t.identifier is None && t.date is None && t.title is None && t.rs is None && t.poc.contact_name is None,
    }
}
pub open spec fn hdr_in(cj: CityJSON, o: HeaderWriterOptions, schema: SM, sem: Option<SM>, info: Option<Seq<AttributeIndexInfo>>, t: HdrT) -> bool {
    &&& t.transform == Some(transform_of(cj.transform)) && t.version == cj.version@ && t.count == o.feature_count && t.node_size == o.index_node_size
    &&& t.columns is Some && cols_ok(schema, t.columns->0)
    &&& match (sem, t.semantic) { (Some(s), Some(c)) => cols_ok(s, c), (None, None) => true, _ => false }
    &&& index_in(info, t.attr_index) && templates_in(cj.geometry_templates, sem, t) && meta_in(cj.metadata, o.geographical_extent, t)
    &&& t.app == cj.appearance is Some && (cj.extensions is None ==> !t.ext)
}
pub open spec fn oinfo(o: Option<&[AttributeIndexInfo]>) -> Option<Seq<AttributeIndexInfo>> { match o { Some(x) => Some(x@), None => None } }
%%fn writer/serializer.rs "-" to_fcb_header
%%ret r
%%omap
%%loops 2
%%sig `<'a>` => ``
%%sig `flatbuffers::FlatBufferBuilder` => `FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<Header>` => `WIPOffset<Header>`
%%replstmt `let extensions = if let Some` => `let extensions = extensions_of(fbb, &cj.extensions)?;`
%%sub `let attribute_indices_info_vec = attribute_indices_info .iter() .map(|info| {` => `let mut attribute_indices_info_vec: Vec<AttributeIndex> = Vec::new(); let mut _i: usize = 0; while _i < attribute_indices_info.len() { let info = &attribute_indices_info[_i]; let _o = {`
%%sub `}) .collect::<Vec<_>>(); Some(fbb.create_vector(&attribute_indices_info_vec))` => `}; attribute_indices_info_vec.push(_o); _i += 1; } Some(fbb.create_vector(&attribute_indices_info_vec))`
%%sub `let gm_vec = gm .templates .iter() .map(|g|` => `let mut gm_vec: Vec<WIPOffset<Geometry>> = Vec::new(); let mut _i: usize = 0; while _i < gm.templates.len() { let g = &gm.templates[_i]; let _o =`
%%sub `) .collect::<Vec<_>>(); (Some(fbb.create_vector(&gm_vec))` => `; gm_vec.push(_o); _i += 1; } (Some(fbb.create_vector(&gm_vec))`
%%sub `poc_fields.map_or(` => `omapor!(poc_fields, `
%%sub `..Default::default()` => `..no_args()`
%%spec
    requires
        wf(attr_schema@), semantic_attr_schema is Some ==> wf(semantic_attr_schema->0@), cj.transform.scale@.len() == 3, cj.transform.translate@.len() == 3,
    ensures
        r is Ok ==> hdr_in(*cj, header_options, attr_schema@, osm(semantic_attr_schema), oinfo(attribute_indices_info), (r->Ok_0)@),
        cj.extensions is None ==> r is Ok,
%%loop 0
    invariant 0 <= _i <= attribute_indices_info@.len(), attribute_indices_info_vec@.len() == _i, forall|i: int| 0 <= i < _i ==> #[trigger] attribute_indices_info_vec@[i] == (AttributeIndex { i: attribute_indices_info@[i].index, l: attribute_indices_info@[i].length, b: attribute_indices_info@[i].branching_factor, n: attribute_indices_info@[i].num_unique_items }),
    decreases attribute_indices_info@.len() - _i
%%loop 1
    invariant 0 <= _i <= gm.templates@.len(), gm_vec@.len() == _i, forall|i: int| 0 <= i < _i ==> geom_in(gm.templates@[i], osm(semantic_attr_schema), #[trigger] gm_vec@[i]@),
    decreases gm.templates@.len() - _i
%%done
impl Vector<DoubleVertex> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Vec3) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}
impl Vector<Geometry> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Geometry) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}
// ---- what is read back equals what was written
pub open spec fn same_rs(a: CjReferenceSystem, b: CjReferenceSystem) -> bool { a.authority@ == b.authority@ && a.version@ == b.version@ && a.code@ == b.code@ && a.base_url@ == b.base_url@ }
pub open spec fn same_addr(a: Option<CjAddress>, b: Option<CjAddress>) -> bool { match (a, b) { (Some(a), Some(b)) => a.thoroughfare_number == b.thoroughfare_number && a.thoroughfare_name@ == b.thoroughfare_name@ && a.locality@ == b.locality@ && a.postal_code@ == b.postal_code@ && a.country@ == b.country@, (None, None) => true, _ => false } }
pub open spec fn same_poc(a: CjPointOfContact, b: CjPointOfContact) -> bool { a.contact_name@ == b.contact_name@ && os(a.contact_type) == os(b.contact_type) && os(a.role) == os(b.role) && os(a.phone) == os(b.phone) && a.email_address@ == b.email_address@ && os(a.website) == os(b.website) && same_addr(a.address, b.address) }
pub open spec fn same_extent(a: Option<[f64; 6]>, b: Option<[f64; 6]>) -> bool { match (a, b) { (Some(a), Some(b)) => a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5], (None, None) => true, _ => false } }
/// metadata without any member is the same as no metadata
pub open spec fn same_meta(m: Option<CjMetadata>, given: Option<[f64; 6]>, b: CjMetadata) -> bool {
    match m {
        Some(m) => {
            &&& same_extent(if given is Some { given } else { m.geographical_extent }, b.geographical_extent)
            &&& os(m.identifier) == os(b.identifier) && os(m.reference_date) == os(b.reference_date) && os(m.title) == os(b.title)
            &&& match (m.point_of_contact, b.point_of_contact) { (Some(x), Some(y)) => same_poc(x, y), (None, None) => true, _ => false }
            &&& match (m.reference_system, b.reference_system) { (Some(x), Some(y)) => same_rs(x, y), (None, None) => true, _ => false }
        },
        None => same_extent(given, b.geographical_extent) && b.identifier is None && b.reference_date is None && b.title is None && b.point_of_contact is None && b.reference_system is None,
    }
}
pub open spec fn same_templates(a: Option<CjGeometryTemplates>, b: Option<CjGeometryTemplates>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.templates@.len() == b.templates@.len() && a.vertices_templates@.len() == b.vertices_templates@.len() && (forall|i: int| 0 <= i < a.templates@.len() ==> same_geometry(a.templates@[i], #[trigger] b.templates@[i]))
            && forall|i: int| 0 <= i < a.vertices_templates@.len() ==> a.vertices_templates@[i][0] == (#[trigger] b.vertices_templates@[i])[0] && a.vertices_templates@[i][1] == b.vertices_templates@[i][1] && a.vertices_templates@[i][2] == b.vertices_templates@[i][2],
        (None, None) => true,
        _ => false,
    }
}
pub open spec fn same_vec3(a: Seq<f64>, b: Seq<f64>) -> bool { a.len() == 3 && b.len() == 3 && a[0] == b[0] && a[1] == b[1] && a[2] == b[2] }
pub open spec fn same_header(a: CityJSON, given: Option<[f64; 6]>, b: CityJSON) -> bool {
    &&& same_vec3(a.transform.scale@, b.transform.scale@) && same_vec3(a.transform.translate@, b.transform.translate@)
    &&& a.version@ == b.version@ && b.thetype@ == "CityJSON"@
    &&& b.metadata is Some && same_meta(a.metadata, given, b.metadata->0)
    &&& same_templates(a.geometry_templates, b.geometry_templates)
}
/// the headers of the property: the known finding crs-base-and-version and extensions (network) are left out
pub open spec fn rs_ok(r: CjReferenceSystem) -> bool { r.base_url@ == default_base() && parsed(r.version@) is Some && i32::MIN <= parsed(r.version@)->0 <= i32::MAX && dec(parsed(r.version@)->0) == r.version@ }
pub open spec fn hdr_ok(a: CityJSON) -> bool {
    &&& a.transform.scale@.len() == 3 && a.transform.translate@.len() == 3
    &&& a.metadata is Some && a.metadata->0.reference_system is Some ==> rs_ok(a.metadata->0.reference_system->0)
    &&& a.geometry_templates is Some ==> forall|i: int| 0 <= i < a.geometry_templates->0.templates@.len() ==> geom_ok(#[trigger] a.geometry_templates->0.templates@[i])
}
%%fn reader/deserializer.rs "-" to_cj_address
%%ret r
%%omap
%%sub `n.parse::<i64>().ok()` => `parse_i64(&n)`
%%spec
    ensures
        forall|a: Option<CjAddress>| addr_in(a, header@.poc) ==> #[trigger] same_addr(a, r),
%%start
    broadcast use axiom_dec;
%%done
%%fn reader/deserializer.rs "-" to_cj_point_of_contact
%%ret r
%%omap
%%spec
    ensures
        forall|p: CjPointOfContact| #[trigger] poc_in(Some(p), header@.poc) ==> r is Ok && same_poc(p, r->Ok_0),
%%done
%%fn reader/deserializer.rs "-" to_cj_metadata
%%ret r
%%omap
%%loops 2
%%replstmt `if let Some(extensions_vec) = header.extensions()` => ``
%%sub `rs.authority().unwrap_or_default().to_string()` => `text_or_empty(rs.authority())`
%%sub? `String::from(` => `text_of(`
%%sub `rs.version().to_string()` => `text32(&rs.version())`
%%sub `rs.code().to_string()` => `text32(&rs.code())`
%%sub `let templates = fb_templates .iter() .map(|g| decode_geometry(g, semantic_attr_schema)) .collect::<Result<Vec<_>, _>>()?;` => `let mut templates: Vec<CjGeometry> = Vec::new(); let mut _i: usize = 0; while _i < fb_templates.len() { let g = fb_templates.get(_i); assert(header@.templates->0[_i as int] == g@); let _o = decode_geometry(&g, &semantic_attr_schema)?; templates.push(_o); _i += 1; }`
%%sub `let vertices_templates = fb_vertices .iter() .map(|v|` => `let mut vertices_templates: Vec<[f64; 3]> = Vec::new(); let mut _i: usize = 0; while _i < fb_vertices.len() { let v = fb_vertices.get(_i); let _o =`
%%sub `) .collect::<Vec<_>>();` => `; vertices_templates.push(_o); _i += 1; }`
%%spec
    ensures
        forall|c: CityJSON, o: HeaderWriterOptions, schema: SM, sem: Option<SM>, info: Option<Seq<AttributeIndexInfo>>| #[trigger] hdr_in(c, o, schema, sem, info, header@) && hdr_ok(c) ==> r is Ok && same_header(c, o.geographical_extent, r->Ok_0),
%%loop 0
    invariant 0 <= _i <= fb_templates@.len(), templates@.len() == _i, header@.templates == Some(fb_templates@.map_values(|x: Geometry| x@)), (match semantic_attr_schema { Some(v) => Some(colts(v@)), None => None }) == header@.semantic,
        forall|i: int, c: CjGeometry, s: Option<SM>| 0 <= i < _i && #[trigger] geom_in(c, s, header@.templates->0[i]) && geom_ok(c) && cols_match(s, semantic_attr_schema) ==> same_geometry(c, templates@[i]),
    decreases fb_templates@.len() - _i
%%loop 1
    invariant 0 <= _i <= fb_vertices@.len(), vertices_templates@.len() == _i, forall|i: int| 0 <= i < _i ==> v3(#[trigger] vertices_templates@[i], fb_vertices@[i]),
    decreases fb_vertices@.len() - _i
%%after `templates.push(_o);`
    assert(header@.templates->0[_i as int] == g@);
%%end
    proof {
        assert forall|c: CityJSON, o: HeaderWriterOptions, schema: SM, sem: Option<SM>, info: Option<Seq<AttributeIndexInfo>>| #[trigger] hdr_in(c, o, schema, sem, info, header@) && hdr_ok(c) implies same_header(c, o.geographical_extent, cj) by {
            if c.geometry_templates is Some {
                let a = c.geometry_templates->0;
                assert(header@.templates is Some);
                assert(cj.geometry_templates is Some);
                let b = cj.geometry_templates->0;
                assert forall|i: int| 0 <= i < a.templates@.len() implies same_geometry(a.templates@[i], #[trigger] b.templates@[i]) by {
                    assert(geom_in(a.templates@[i], sem, header@.templates->0[i]));
                }
                assert forall|i: int| 0 <= i < a.vertices_templates@.len() implies a.vertices_templates@[i][0] == (#[trigger] b.vertices_templates@[i])[0] && a.vertices_templates@[i][1] == b.vertices_templates@[i][1] && a.vertices_templates@[i][2] == b.vertices_templates@[i][2] by {
                    assert(v3(a.vertices_templates@[i], header@.tverts->0[i]));
                }
            }
            assert(same_templates(c.geometry_templates, cj.geometry_templates));
            assert(cj.thetype@ == "CityJSON"@);
            assert(same_meta(c.metadata, o.geographical_extent, cj.metadata->0));
        }
    }
%%done
fn main() {}
} // verus!
