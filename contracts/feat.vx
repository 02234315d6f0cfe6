// unit feat: features and their objects as tables (P11 appearance, P14, P15 bounding box)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
%%include fb.vx
%%include strs.vx
%%include hmap.vx
%%include typenames.vx
%%include txtypes.vx
#[derive(PartialEq, Eq, Structural)]
pub enum CjGeometryType { MultiPoint, MultiLineString, MultiSurface, CompositeSurface, Solid, MultiSolid, CompositeSolid, GeometryInstance }
%%pubitem packed_rtree/mod.rs struct NodeItem
%%fn packed_rtree/mod.rs "impl NodeItem" bounds
%%ret r
%%spec
    ensures r.min_x == min_x, r.min_y == min_y, r.max_x == max_x, r.max_y == max_y,
%%done
%%fn packed_rtree/mod.rs "impl NodeItem" new
%%ret r
%%spec
    ensures r.min_x == min_x, r.min_y == min_y, r.max_x == max_x, r.max_y == max_y,
%%done

// ---- the CityJSON values (crate cjseq, restated)
#[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body] pub struct Value { x: u8 }
#[verifier::external_body] pub struct AttributeSchema { x: u8 }
pub struct CjGeometry { pub thetype: CjGeometryType, pub rest: GeometryRest }
#[verifier::external_body] pub struct GeometryRest { x: u8 }
pub struct CjMaterial { pub name: String, pub ambient_intensity: Option<f64>, pub diffuse_color: Option<[f64; 3]>, pub emissive_color: Option<[f64; 3]>, pub specular_color: Option<[f64; 3]>, pub shininess: Option<f64>, pub transparency: Option<f64>, pub is_smooth: Option<bool> }
pub struct CjTexture { pub texture_format: CjTextFormat, pub image: String, pub wrap_mode: Option<CjWrapMode>, pub texture_type: Option<CjTextType>, pub border_color: Option<[f64; 4]> }
pub struct CjAppearance { pub materials: Option<Vec<CjMaterial>>, pub textures: Option<Vec<CjTexture>>, pub vertices_texture: Option<Vec<[f64; 2]>>, pub default_theme_texture: Option<String>, pub default_theme_material: Option<String> }
pub struct CjCityObject { pub thetype: String, pub geographical_extent: Option<[f64; 6]>, pub attributes: Option<Value>, pub geometry: Option<Vec<CjGeometry>>, pub children: Option<Vec<String>>, pub children_roles: Option<Vec<String>>, pub parents: Option<Vec<String>> }
impl CjCityObject {
    /// CityObject::new of cjseq (the last argument is the members this library does not store)
    pub fn new(thetype: String, geographical_extent: Option<[f64; 6]>, attributes: Option<Value>, geometry: Option<Vec<CjGeometry>>, children: Option<Vec<String>>, children_roles: Option<Vec<String>>, parents: Option<Vec<String>>, other: Option<u8>) -> (r: Self)
        ensures r == (CjCityObject { thetype, geographical_extent, attributes, geometry, children, children_roles, parents })
    { CjCityObject { thetype, geographical_extent, attributes, geometry, children, children_roles, parents } }
}
pub struct CityJSONFeature { pub id: String, pub city_objects: HashMap<CjCityObject>, pub vertices: Vec<Vec<i64>>, pub appearance: Option<CjAppearance> }
impl CityJSONFeature { #[verifier::external_body] pub fn new() -> (r: Self) ensures r.city_objects@ == Map::<Seq<char>, CjCityObject>::empty(), r.vertices@.len() == 0, r.appearance is None { unimplemented!() } }
impl Value {
    pub uninterp spec fn obj(&self) -> bool;
    #[verifier::external_body] pub fn is_object(&self) -> (r: bool) ensures r == self.obj() { unimplemented!() }
}

// ---- the tables of the file
pub ghost struct MatlT { pub name: Seq<char>, pub ambient: Option<f64>, pub diffuse: Option<Seq<f64>>, pub emissive: Option<Seq<f64>>, pub specular: Option<Seq<f64>>, pub shininess: Option<f64>, pub transparency: Option<f64>, pub smooth: Option<bool> }
pub ghost struct TexT { pub type_: TextureFormat, pub image: Seq<char>, pub wrap: Option<WrapMode>, pub texture_type: Option<TextureType>, pub border: Option<Seq<f64>> }
pub ghost struct AppT { pub materials: Option<Seq<MatlT>>, pub textures: Option<Seq<TexT>>, pub vertices: Option<Seq<Vec2>>, pub dtt: Option<Seq<char>>, pub dtm: Option<Seq<char>> }
pub ghost struct ObjT { pub id: Seq<char>, pub type_: CityObjectType, pub ext: Option<Seq<char>>, pub extent: Option<GeographicalExtent>, pub geometry: Option<Seq<GeomT>>, pub instances: Option<Seq<InstT>>, pub attributes: Option<Seq<u8>>, pub columns: Option<Seq<Column>>, pub children: Option<Seq<Seq<char>>>, pub roles: Option<Seq<Seq<char>>>, pub parents: Option<Seq<Seq<char>>> }
pub ghost struct FeatT { pub id: Seq<char>, pub objects: Option<Seq<ObjT>>, pub vertices: Option<Seq<Vertex>>, pub appearance: Option<AppT> }
#[verifier::external_body] pub struct GeomT { x: u8 }
#[verifier::external_body] pub struct InstT { x: u8 }
#[verifier::external_body] pub struct Column { x: u8 }
#[verifier::external_body] pub struct Material { x: u8 }
#[verifier::external_body] pub struct Texture { x: u8 }
#[verifier::external_body] pub struct Appearance { x: u8 }
#[verifier::external_body] pub struct Geometry { x: u8 }
#[verifier::external_body] pub struct GeometryInstance { x: u8 }
#[verifier::external_body] pub struct CityObject { x: u8 }
#[verifier::external_body] pub struct CityFeature { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Columns { x: u8 }
impl Columns { pub uninterp spec fn view(&self) -> Seq<Column>; }
impl WIPOffset<Columns> { pub uninterp spec fn view(&self) -> Seq<Column>; }
pub open spec fn wcols(o: Option<WIPOffset<Columns>>) -> Option<Seq<Column>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn ocols(o: Option<Columns>) -> Option<Seq<Column>> { match o { Some(v) => Some(v@), None => None } }
#[derive(Clone, Copy)] pub struct Vec2 { pub a: f64, pub b: f64 }
impl Vec2 {
    pub fn new(u: f64, v: f64) -> (r: Self) ensures r.a == u, r.b == v { Vec2 { a: u, b: v } }
    pub fn u(&self) -> (r: f64) ensures r == self.a { self.a }
    pub fn v(&self) -> (r: f64) ensures r == self.b { self.b }
}
#[derive(Clone, Copy)] pub struct Vertex { pub a: i32, pub b: i32, pub c: i32 }
impl Vertex {
    pub fn new(x: i32, y: i32, z: i32) -> (r: Self) ensures r.a == x, r.b == y, r.c == z { Vertex { a: x, b: y, c: z } }
    pub fn x(&self) -> (r: i32) ensures r == self.a { self.a }
    pub fn y(&self) -> (r: i32) ensures r == self.b { self.b }
    pub fn z(&self) -> (r: i32) ensures r == self.c { self.c }
}
/// the struct Vector of the format (three coordinates)
#[derive(Clone, Copy)] pub struct Vec3 { pub a: f64, pub b: f64, pub c: f64 }
impl Vec3 {
    pub fn new(x: f64, y: f64, z: f64) -> (r: Self) ensures r.a == x, r.b == y, r.c == z { Vec3 { a: x, b: y, c: z } }
    pub fn x(&self) -> (r: f64) ensures r == self.a { self.a }
    pub fn y(&self) -> (r: f64) ensures r == self.b { self.b }
    pub fn z(&self) -> (r: f64) ensures r == self.c { self.c }
}
#[derive(Clone, Copy)] pub struct GeographicalExtent { pub lo: Vec3, pub hi: Vec3 }
impl GeographicalExtent {
    pub fn new(min: &Vec3, max: &Vec3) -> (r: Self) ensures r.lo == *min, r.hi == *max { GeographicalExtent { lo: *min, hi: *max } }
    pub fn min(&self) -> (r: &Vec3) ensures *r == self.lo { &self.lo }
    pub fn max(&self) -> (r: &Vec3) ensures *r == self.hi { &self.hi }
}
pub struct MaterialArgs { pub name: Option<WIPOffset<FbStr>>, pub ambient_intensity: Option<f64>, pub diffuse_color: Option<WIPOffset<Vector<f64>>>, pub emissive_color: Option<WIPOffset<Vector<f64>>>, pub specular_color: Option<WIPOffset<Vector<f64>>>, pub shininess: Option<f64>, pub transparency: Option<f64>, pub is_smooth: Option<bool> }
pub struct TextureArgs { pub type_: TextureFormat, pub image: Option<WIPOffset<FbStr>>, pub wrap_mode: Option<WrapMode>, pub texture_type: Option<TextureType>, pub border_color: Option<WIPOffset<Vector<f64>>> }
pub struct AppearanceArgs { pub materials: Option<WIPOffset<Vector<WIPOffset<Material>>>>, pub textures: Option<WIPOffset<Vector<WIPOffset<Texture>>>>, pub vertices_texture: Option<WIPOffset<Vector<Vec2>>>, pub default_theme_texture: Option<WIPOffset<FbStr>>, pub default_theme_material: Option<WIPOffset<FbStr>> }
pub struct CityObjectArgs<'a> { pub id: Option<WIPOffset<FbStr>>, pub type_: CityObjectType, pub extension_type: Option<WIPOffset<FbStr>>, pub geographical_extent: Option<&'a GeographicalExtent>, pub geometry: Option<WIPOffset<Vector<WIPOffset<Geometry>>>>, pub geometry_instances: Option<WIPOffset<Vector<WIPOffset<GeometryInstance>>>>, pub attributes: Option<WIPOffset<Vector<u8>>>, pub columns: Option<WIPOffset<Columns>>, pub children: Option<WIPOffset<Vector<WIPOffset<FbStr>>>>, pub children_roles: Option<WIPOffset<Vector<WIPOffset<FbStr>>>>, pub parents: Option<WIPOffset<Vector<WIPOffset<FbStr>>>> }
pub struct CityFeatureArgs { pub id: Option<WIPOffset<FbStr>>, pub objects: Option<WIPOffset<Vector<WIPOffset<CityObject>>>>, pub vertices: Option<WIPOffset<Vector<Vertex>>>, pub appearance: Option<WIPOffset<Appearance>> }
impl WIPOffset<Material> { pub uninterp spec fn view(&self) -> MatlT; }
impl WIPOffset<Texture> { pub uninterp spec fn view(&self) -> TexT; }
impl WIPOffset<Appearance> { pub uninterp spec fn view(&self) -> AppT; }
impl WIPOffset<Geometry> { pub uninterp spec fn view(&self) -> GeomT; }
impl WIPOffset<GeometryInstance> { pub uninterp spec fn view(&self) -> InstT; }
impl WIPOffset<CityObject> { pub uninterp spec fn view(&self) -> ObjT; }
impl WIPOffset<CityFeature> { pub uninterp spec fn view(&self) -> FeatT; }
impl FbStr { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub open spec fn strs_of(s: Seq<WIPOffset<FbStr>>) -> Seq<Seq<char>> { s.map_values(|x: WIPOffset<FbStr>| x@) }
pub open spec fn wstrs(o: Option<WIPOffset<Vector<WIPOffset<FbStr>>>>) -> Option<Seq<Seq<char>>> { match o { Some(v) => Some(strs_of(v@)), None => None } }
pub open spec fn a3(o: Option<[f64; 3]>) -> Option<Seq<f64>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn a4(o: Option<[f64; 4]>) -> Option<Seq<f64>> { match o { Some(v) => Some(v@), None => None } }
impl Material {
    pub uninterp spec fn view(&self) -> MatlT;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &MaterialArgs) -> (r: WIPOffset<Material>) requires a.name is Some
        ensures r@ == (MatlT { name: a.name->0@, ambient: a.ambient_intensity, diffuse: wv(a.diffuse_color), emissive: wv(a.emissive_color), specular: wv(a.specular_color), shininess: a.shininess, transparency: a.transparency, smooth: a.is_smooth }) { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self@.name { unimplemented!() }
    #[verifier::external_body] pub fn ambient_intensity(&self) -> (r: Option<f64>) ensures r == self@.ambient { unimplemented!() }
    #[verifier::external_body] pub fn diffuse_color(&self) -> (r: Option<Vector<f64>>) ensures ov(r) == self@.diffuse { unimplemented!() }
    #[verifier::external_body] pub fn emissive_color(&self) -> (r: Option<Vector<f64>>) ensures ov(r) == self@.emissive { unimplemented!() }
    #[verifier::external_body] pub fn specular_color(&self) -> (r: Option<Vector<f64>>) ensures ov(r) == self@.specular { unimplemented!() }
    #[verifier::external_body] pub fn shininess(&self) -> (r: Option<f64>) ensures r == self@.shininess { unimplemented!() }
    #[verifier::external_body] pub fn transparency(&self) -> (r: Option<f64>) ensures r == self@.transparency { unimplemented!() }
    #[verifier::external_body] pub fn is_smooth(&self) -> (r: Option<bool>) ensures r == self@.smooth { unimplemented!() }
}
impl Texture {
    pub uninterp spec fn view(&self) -> TexT;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &TextureArgs) -> (r: WIPOffset<Texture>) requires a.image is Some
        ensures r@ == (TexT { type_: a.type_, image: a.image->0@, wrap: a.wrap_mode, texture_type: a.texture_type, border: wv(a.border_color) }) { unimplemented!() }
    #[verifier::external_body] pub fn image(&self) -> (r: &str) ensures r@ == self@.image { unimplemented!() }
    #[verifier::external_body] pub fn type_(&self) -> (r: TextureFormat) ensures r == self@.type_ { unimplemented!() }
    #[verifier::external_body] pub fn wrap_mode(&self) -> (r: Option<WrapMode>) ensures r == self@.wrap { unimplemented!() }
    #[verifier::external_body] pub fn texture_type(&self) -> (r: Option<TextureType>) ensures r == self@.texture_type { unimplemented!() }
    #[verifier::external_body] pub fn border_color(&self) -> (r: Option<Vector<f64>>) ensures ov(r) == self@.border { unimplemented!() }
}
pub open spec fn matls(o: Seq<WIPOffset<Material>>) -> Seq<MatlT> { o.map_values(|x: WIPOffset<Material>| x@) }
pub open spec fn texs(o: Seq<WIPOffset<Texture>>) -> Seq<TexT> { o.map_values(|x: WIPOffset<Texture>| x@) }
impl Appearance {
    pub uninterp spec fn view(&self) -> AppT;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &AppearanceArgs) -> (r: WIPOffset<Appearance>)
        ensures r@ == (AppT { materials: match a.materials { Some(v) => Some(matls(v@)), None => None }, textures: match a.textures { Some(v) => Some(texs(v@)), None => None }, vertices: wv(a.vertices_texture), dtt: ws(a.default_theme_texture), dtm: ws(a.default_theme_material) }) { unimplemented!() }
    #[verifier::external_body] pub fn materials(&self) -> (r: Option<Vector<Material>>) ensures (match r { Some(v) => Some(v@.map_values(|x: Material| x@)), None => None }) == self@.materials { unimplemented!() }
    #[verifier::external_body] pub fn textures(&self) -> (r: Option<Vector<Texture>>) ensures (match r { Some(v) => Some(v@.map_values(|x: Texture| x@)), None => None }) == self@.textures { unimplemented!() }
    #[verifier::external_body] pub fn vertices_texture(&self) -> (r: Option<Vector<Vec2>>) ensures ov(r) == self@.vertices { unimplemented!() }
    #[verifier::external_body] pub fn default_theme_texture(&self) -> (r: Option<&str>) ensures ostr(r) == self@.dtt { unimplemented!() }
    #[verifier::external_body] pub fn default_theme_material(&self) -> (r: Option<&str>) ensures ostr(r) == self@.dtm { unimplemented!() }
}
impl Geometry { pub uninterp spec fn view(&self) -> GeomT; }
impl GeometryInstance { pub uninterp spec fn view(&self) -> InstT; }
impl CityObject {
    pub uninterp spec fn view(&self) -> ObjT;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &CityObjectArgs) -> (r: WIPOffset<CityObject>) requires a.id is Some
        ensures r@ == (ObjT { id: a.id->0@, type_: a.type_, ext: ws(a.extension_type), extent: match a.geographical_extent { Some(e) => Some(*e), None => None },
            geometry: match a.geometry { Some(v) => Some(v@.map_values(|x: WIPOffset<Geometry>| x@)), None => None }, instances: match a.geometry_instances { Some(v) => Some(v@.map_values(|x: WIPOffset<GeometryInstance>| x@)), None => None },
            attributes: wv(a.attributes), columns: wcols(a.columns), children: wstrs(a.children), roles: wstrs(a.children_roles), parents: wstrs(a.parents) }) { unimplemented!() }
    #[verifier::external_body] pub fn id(&self) -> (r: &str) ensures r@ == self@.id { unimplemented!() }
    #[verifier::external_body] pub fn type_(&self) -> (r: CityObjectType) ensures r == self@.type_ { unimplemented!() }
    #[verifier::external_body] pub fn extension_type(&self) -> (r: Option<&str>) ensures ostr(r) == self@.ext { unimplemented!() }
    #[verifier::external_body] pub fn geographical_extent(&self) -> (r: Option<&GeographicalExtent>) ensures (match r { Some(e) => Some(*e), None => None }) == self@.extent { unimplemented!() }
    #[verifier::external_body] pub fn geometry(&self) -> (r: Option<Vector<Geometry>>) ensures (match r { Some(v) => Some(v@.map_values(|x: Geometry| x@)), None => None }) == self@.geometry { unimplemented!() }
    #[verifier::external_body] pub fn geometry_instances(&self) -> (r: Option<Vector<GeometryInstance>>) ensures (match r { Some(v) => Some(v@.map_values(|x: GeometryInstance| x@)), None => None }) == self@.instances { unimplemented!() }
    #[verifier::external_body] pub fn attributes(&self) -> (r: Option<Vector<u8>>) ensures ov(r) == self@.attributes { unimplemented!() }
    #[verifier::external_body] pub fn columns(&self) -> (r: Option<Columns>) ensures ocols(r) == self@.columns { unimplemented!() }
    #[verifier::external_body] pub fn children(&self) -> (r: Option<Vector<FbStr>>) ensures (match r { Some(v) => Some(v@.map_values(|x: FbStr| x@)), None => None }) == self@.children { unimplemented!() }
    #[verifier::external_body] pub fn children_roles(&self) -> (r: Option<Vector<FbStr>>) ensures (match r { Some(v) => Some(v@.map_values(|x: FbStr| x@)), None => None }) == self@.roles { unimplemented!() }
    #[verifier::external_body] pub fn parents(&self) -> (r: Option<Vector<FbStr>>) ensures (match r { Some(v) => Some(v@.map_values(|x: FbStr| x@)), None => None }) == self@.parents { unimplemented!() }
}
impl CityFeature {
    pub uninterp spec fn view(&self) -> FeatT;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &CityFeatureArgs) -> (r: WIPOffset<CityFeature>) requires a.id is Some
        ensures r@ == (FeatT { id: a.id->0@, objects: match a.objects { Some(v) => Some(v@.map_values(|x: WIPOffset<CityObject>| x@)), None => None }, vertices: wv(a.vertices), appearance: match a.appearance { Some(v) => Some(v@), None => None } }) { unimplemented!() }
    #[verifier::external_body] pub fn id(&self) -> (r: &str) ensures r@ == self@.id { unimplemented!() }
    #[verifier::external_body] pub fn objects(&self) -> (r: Option<Vector<CityObject>>) ensures (match r { Some(v) => Some(v@.map_values(|x: CityObject| x@)), None => None }) == self@.objects { unimplemented!() }
    #[verifier::external_body] pub fn vertices(&self) -> (r: Option<Vector<Vertex>>) ensures ov(r) == self@.vertices { unimplemented!() }
    #[verifier::external_body] pub fn appearance(&self) -> (r: Option<Appearance>) ensures (match r { Some(v) => Some(v@), None => None }) == self@.appearance { unimplemented!() }
}
impl FlatBufferBuilder {
    #[verifier::external_body] pub fn create_array<T, const N: usize>(&mut self, v: &[T; N]) -> (r: WIPOffset<Vector<T>>) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn create_str(&mut self, s: &str) -> (r: WIPOffset<FbStr>) ensures r@ == s@ { unimplemented!() }
}

// ---- what other units decide: geometries (P10, P11) and attributes (P09)
/// the table holds the geometry
pub uninterp spec fn geom_in(g: CjGeometry, sem: Option<AttributeSchema>, t: GeomT) -> bool;
pub uninterp spec fn inst_in(g: CjGeometry, t: InstT) -> bool;
pub uninterp spec fn geom_ok(g: CjGeometry) -> bool;
pub uninterp spec fn same_geometry(a: CjGeometry, b: CjGeometry) -> bool;
/// the bytes hold the attributes by the columns of the schema or of the own schema
pub uninterp spec fn attrs_in(v: Value, s: AttributeSchema, own: Option<AttributeSchema>, bytes: Seq<u8>) -> bool;
pub uninterp spec fn attrs_ok(v: Value, s: AttributeSchema) -> bool;
pub uninterp spec fn same_attributes(a: Value, b: Value) -> bool;
pub uninterp spec fn cols_of(s: AttributeSchema) -> Seq<Column>;
#[verifier::external_body] pub fn to_geometry(fbb: &mut FlatBufferBuilder, g: &CjGeometry, sem: Option<&AttributeSchema>) -> (r: WIPOffset<Geometry>) requires !(g.thetype is GeometryInstance) ensures geom_in(*g, osch(sem), r@) { unimplemented!() }
#[verifier::external_body] pub fn to_geometry_instance(fbb: &mut FlatBufferBuilder, g: &CjGeometry) -> (r: WIPOffset<GeometryInstance>) requires g.thetype is GeometryInstance ensures inst_in(*g, r@) { unimplemented!() }
#[verifier::external_body] pub fn decode_geometry(g: Geometry, sem: Option<Columns>) -> (r: Result<CjGeometry, Error>)
    ensures forall|c: CjGeometry, s: Option<AttributeSchema>| #[trigger] geom_in(c, s, g@) && geom_ok(c) && cols_match(s, sem) ==> r is Ok && same_geometry(c, r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn decode_geometry_instance(g: &GeometryInstance) -> (r: Result<CjGeometry, Error>)
    ensures forall|c: CjGeometry| #[trigger] inst_in(c, g@) && geom_ok(c) ==> r is Ok && same_geometry(c, r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn to_fcb_attribute(fbb: &mut FlatBufferBuilder, attr: &Value, schema: &AttributeSchema) -> (r: (WIPOffset<Vector<u8>>, Option<AttributeSchema>)) requires attr.obj() ensures attrs_in(*attr, *schema, r.1, r.0@) { unimplemented!() }
#[verifier::external_body] pub fn to_columns(fbb: &mut FlatBufferBuilder, schema: &AttributeSchema) -> (r: WIPOffset<Columns>) ensures r@ == cols_of(*schema) { unimplemented!() }
#[verifier::external_body] pub fn decode_attributes(columns: &Columns, attributes: Vector<u8>) -> (r: Value)
    ensures forall|v: Value, s: AttributeSchema, own: Option<AttributeSchema>| #[trigger] attrs_in(v, s, own, attributes@) && attrs_ok(v, s) && columns@ == cols_of(match own { Some(o) => o, None => s }) ==> same_attributes(v, r) { unimplemented!() }
pub open spec fn osch(o: Option<&AttributeSchema>) -> Option<AttributeSchema> { match o { Some(x) => Some(*x), None => None } }
pub open spec fn cols_match(s: Option<AttributeSchema>, c: Option<Columns>) -> bool { match (s, c) { (Some(s), Some(c)) => c@ == cols_of(s), (None, None) => true, _ => false } }

// ---- what a table holds
pub open spec fn matl_in(m: CjMaterial, t: MatlT) -> bool {
    t.name == m.name@ && t.ambient == m.ambient_intensity && t.diffuse == a3(m.diffuse_color) && t.emissive == a3(m.emissive_color) && t.specular == a3(m.specular_color) && t.shininess == m.shininess && t.transparency == m.transparency && t.smooth == m.is_smooth
}
pub open spec fn tex_in(x: CjTexture, t: TexT) -> bool {
    &&& t.image == x.image@ && t.type_ == format_of(x.texture_format) && t.border == a4(x.border_color)
    &&& t.wrap == (match x.wrap_mode { Some(w) => Some(wrap_of(w)), None => None })
    &&& t.texture_type == (match x.texture_type { Some(w) => Some(texture_of(w)), None => None })
}
pub open spec fn app_in(a: CjAppearance, t: AppT) -> bool {
    &&& (a.materials is Some) == (t.materials is Some) && (a.materials is Some ==> a.materials->0@.len() == t.materials->0.len() && forall|i: int| 0 <= i < t.materials->0.len() ==> matl_in(a.materials->0@[i], #[trigger] t.materials->0[i]))
    &&& (a.textures is Some) == (t.textures is Some) && (a.textures is Some ==> a.textures->0@.len() == t.textures->0.len() && forall|i: int| 0 <= i < t.textures->0.len() ==> tex_in(a.textures->0@[i], #[trigger] t.textures->0[i]))
    &&& (a.vertices_texture is Some) == (t.vertices is Some) && (a.vertices_texture is Some ==> a.vertices_texture->0@.len() == t.vertices->0.len() && forall|i: int| 0 <= i < t.vertices->0.len() ==> (#[trigger] t.vertices->0[i]).a == a.vertices_texture->0@[i][0] && t.vertices->0[i].b == a.vertices_texture->0@[i][1])
    &&& t.dtt == os(a.default_theme_texture) && t.dtm == os(a.default_theme_material)
}
// ---- when two values are the same
pub open spec fn same_material(a: CjMaterial, b: CjMaterial) -> bool {
    a.name@ == b.name@ && a.ambient_intensity == b.ambient_intensity && a3(a.diffuse_color) == a3(b.diffuse_color) && a3(a.emissive_color) == a3(b.emissive_color) && a3(a.specular_color) == a3(b.specular_color) && a.shininess == b.shininess && a.transparency == b.transparency && a.is_smooth == b.is_smooth
}
pub open spec fn same_texture(a: CjTexture, b: CjTexture) -> bool { a.image@ == b.image@ && a.texture_format == b.texture_format && a.wrap_mode == b.wrap_mode && a.texture_type == b.texture_type && a4(a.border_color) == a4(b.border_color) }
pub open spec fn same_appearance(a: CjAppearance, b: CjAppearance) -> bool {
    &&& (a.materials is Some) == (b.materials is Some) && (a.materials is Some ==> a.materials->0@.len() == b.materials->0@.len() && forall|i: int| 0 <= i < b.materials->0@.len() ==> same_material(a.materials->0@[i], #[trigger] b.materials->0@[i]))
    &&& (a.textures is Some) == (b.textures is Some) && (a.textures is Some ==> a.textures->0@.len() == b.textures->0@.len() && forall|i: int| 0 <= i < b.textures->0@.len() ==> same_texture(a.textures->0@[i], #[trigger] b.textures->0@[i]))
    &&& (a.vertices_texture is Some) == (b.vertices_texture is Some) && (a.vertices_texture is Some ==> a.vertices_texture->0@.len() == b.vertices_texture->0@.len() && forall|i: int| 0 <= i < b.vertices_texture->0@.len() ==> a.vertices_texture->0@[i]@ == (#[trigger] b.vertices_texture->0@[i])@)
    &&& os(a.default_theme_texture) == os(b.default_theme_texture) && os(a.default_theme_material) == os(b.default_theme_material)
}

%%fn writer/serializer.rs "-" to_geographical_extent
%%ret r
%%sub `Vector::new` => `Vec3::new`
%%spec
    ensures r.lo.a == geographical_extent[0], r.lo.b == geographical_extent[1], r.lo.c == geographical_extent[2], r.hi.a == geographical_extent[3], r.hi.b == geographical_extent[4], r.hi.c == geographical_extent[5],
%%done

%%fn writer/serializer.rs "-" to_appearance
%%ret r
%%loops 3
%%sig `to_appearance<'a>` => `to_appearance`
%%sig `&mut FlatBufferBuilder<'a>` => `&mut FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<Appearance<'a>>` => `WIPOffset<Appearance>`
%%sub `appearance.materials.as_ref().map(|materials| {` => `match appearance.materials.as_ref() { None => None, Some(materials) => { Some({`
%%sub `let material_offsets: Vec<_> = materials .iter() .map(|m| {` => `let mut material_offsets: Vec<WIPOffset<Material>> = Vec::new(); let mut _i: usize = 0; while _i < materials.len() { let m = &materials[_i]; let _o = {`
%%sub `}) .collect(); fbb.create_vector(&material_offsets) });` => `}; material_offsets.push(_o); _i += 1; } fbb.create_vector(&material_offsets) }) } };`
%%sub `m.diffuse_color.map(|c| fbb.create_vector(&c))` => `match m.diffuse_color { Some(c) => Some(fbb.create_array(&c)), None => None }`
%%sub `m.emissive_color.map(|c| fbb.create_vector(&c))` => `match m.emissive_color { Some(c) => Some(fbb.create_array(&c)), None => None }`
%%sub `m.specular_color.map(|c| fbb.create_vector(&c))` => `match m.specular_color { Some(c) => Some(fbb.create_array(&c)), None => None }`
%%sub `appearance.textures.as_ref().map(|textures| {` => `match appearance.textures.as_ref() { None => None, Some(textures) => { Some({`
%%sub `let texture_offsets: Vec<_> = textures .iter() .map(|t| {` => `let mut texture_offsets: Vec<WIPOffset<Texture>> = Vec::new(); let mut _i: usize = 0; while _i < textures.len() { let t = &textures[_i]; let _o = {`
%%sub `t.border_color.map(|c| fbb.create_vector(&c))` => `match t.border_color { Some(c) => Some(fbb.create_array(&c)), None => None }`
%%sub `t.wrap_mode.as_ref().map(|w| match w {` => `match t.wrap_mode.as_ref() { None => None, Some(w) => Some(match w {`
%%sub `}); let texture_type =` => `}) }; let texture_type =`
%%sub `t.texture_type.as_ref().map(|t| match t {` => `match t.texture_type.as_ref() { None => None, Some(t) => Some(match t {`
%%sub `}); Texture::create(` => `}) }; Texture::create(`
%%sub `}) .collect(); fbb.create_vector(&texture_offsets) });` => `}; texture_offsets.push(_o); _i += 1; } fbb.create_vector(&texture_offsets) }) } };`
%%sub `appearance.vertices_texture.as_ref().map(|vertices| {` => `match appearance.vertices_texture.as_ref() { None => None, Some(vertices) => { Some({`
%%sub `fbb.create_vector( &vertices .iter() .map(|v|` => `let mut _vs: Vec<Vec2> = Vec::new(); let mut _i: usize = 0; while _i < vertices.len() { let v = &vertices[_i]; let _o =`
%%sub `) .collect::<Vec<_>>(), ) });` => `; _vs.push(_o); _i += 1; } fbb.create_vector(&_vs) }) } };`
%%sub `appearance .default_theme_texture .as_ref() .map(|t| fbb.create_string(t))` => `match appearance.default_theme_texture.as_ref() { Some(t) => Some(fbb.create_string(t)), None => None }`
%%sub `appearance .default_theme_material .as_ref() .map(|m| fbb.create_string(m))` => `match appearance.default_theme_material.as_ref() { Some(m) => Some(fbb.create_string(m)), None => None }`
%%spec
    ensures app_in(*appearance, r@),
%%loop 0
    invariant 0 <= _i <= materials@.len(), material_offsets@.len() == _i, forall|i: int| 0 <= i < _i ==> matl_in(materials@[i], #[trigger] material_offsets@[i]@),
    decreases materials@.len() - _i
%%loop 1
    invariant 0 <= _i <= textures@.len(), texture_offsets@.len() == _i, forall|i: int| 0 <= i < _i ==> tex_in(textures@[i], #[trigger] texture_offsets@[i]@),
    decreases textures@.len() - _i
%%loop 2
    invariant 0 <= _i <= vertices@.len(), _vs@.len() == _i, forall|i: int| 0 <= i < _i ==> (#[trigger] _vs@[i]).a == vertices@[i][0] && _vs@[i].b == vertices@[i][1],
    decreases vertices@.len() - _i
%%done

// ---- lists
/// c.iter().map(|s| fbb.create_string(s)).collect::<Vec<_>>()
pub fn strings(fbb: &mut FlatBufferBuilder, c: &Vec<String>) -> (r: Vec<WIPOffset<FbStr>>)
    ensures strs_of(r@) == strs(c@),
{
    let mut r: Vec<WIPOffset<FbStr>> = Vec::new(); let mut i: usize = 0;
    while i < c.len()
        invariant i <= c@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k])@ == c@[k]@,
        decreases c.len() - i
    { let o = fbb.create_string(&c[i]); r.push(o); i += 1; }
    assert(strs_of(r@) =~= strs(c@));
    r
}
pub open spec fn strs(c: Seq<String>) -> Seq<Seq<char>> { c.map_values(|x: String| x@) }
pub open spec fn ostrs(o: Option<Vec<String>>) -> Option<Seq<Seq<char>>> { match o { Some(v) => Some(strs(v@)), None => None } }
/// o.map(|c| c.iter().map(|s| s.to_string()).collect())
pub fn read_strings(o: Option<Vector<FbStr>>) -> (r: Option<Vec<String>>)
    ensures ostrs(r) == (match o { Some(v) => Some(v@.map_values(|x: FbStr| x@)), None => None }),
{
    match o { None => None, Some(v) => {
        let c = all(v); let mut r: Vec<String> = Vec::new(); let mut i: usize = 0;
        while i < c.len()
            invariant i <= c@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k])@ == c@[k]@,
            decreases c.len() - i
        { r.push(c[i].to_string()); i += 1; }
        assert(strs(r@) =~= c@.map_values(|x: FbStr| x@));
        Some(r)
    } }
}
/// v.iter().filter(f).collect::<Vec<_>>()
pub fn filter_refs<'a, T, F: Fn(&T) -> bool>(v: &'a Vec<T>, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: Vec<&'a T>)
    requires forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == p(*x),
    ensures deref(r@) == v@.filter(p),
{
    let mut r: Vec<&'a T> = Vec::new(); let mut i: usize = 0;
    proof { reveal(Seq::filter); assert(deref(r@) =~= v@.take(0).filter(p)); }
    while i < v.len()
        invariant i <= v@.len(), forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == p(*x), deref(r@) == v@.take(i as int).filter(p),
        decreases v.len() - i
    {
        let ghost r0 = r@;
        proof { reveal(Seq::filter); assert(v@.take(i + 1).drop_last() =~= v@.take(i as int)); assert(v@.take(i + 1).last() == v@[i as int]); }
        if f(&v[i]) { r.push(&v[i]); assert(deref(r@) =~= deref(r0).push(v@[i as int])); }
        i += 1;
    }
    assert(v@.take(i as int) =~= v@);
    r
}
pub open spec fn deref<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
pub open spec fn plain() -> spec_fn(CjGeometry) -> bool { |g: CjGeometry| g.thetype != CjGeometryType::GeometryInstance }
pub open spec fn inst() -> spec_fn(CjGeometry) -> bool { |g: CjGeometry| g.thetype == CjGeometryType::GeometryInstance }
pub proof fn lemma_filtered<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]),
    decreases s.len(),
{ reveal(Seq::filter); if s.len() > 0 { lemma_filtered(s.drop_last(), p); } }

// ---- objects
pub open spec fn extent_in(e: Option<[f64; 6]>, t: Option<GeographicalExtent>) -> bool {
    match (e, t) { (Some(a), Some(g)) => g.lo.a == a[0] && g.lo.b == a[1] && g.lo.c == a[2] && g.hi.a == a[3] && g.hi.b == a[4] && g.hi.c == a[5], (None, None) => true, _ => false }
}
pub open spec fn geoms_in(s: Seq<CjGeometry>, sem: Option<AttributeSchema>, t: Seq<GeomT>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < t.len() ==> geom_in(s[i], sem, #[trigger] t[i]) }
pub open spec fn insts_in(s: Seq<CjGeometry>, t: Seq<InstT>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < t.len() ==> inst_in(s[i], #[trigger] t[i]) }
pub open spec fn stored_attrs(v: Value, s: AttributeSchema, own: Option<AttributeSchema>, bytes: Seq<u8>, cols: Option<Seq<Column>>) -> bool { attrs_in(v, s, own, bytes) && cols == (match own { Some(o) => Some(cols_of(o)), None => None }) }
pub open spec fn obj_in(id: Seq<char>, co: CjCityObject, s: AttributeSchema, sem: Option<AttributeSchema>, t: ObjT) -> bool {
    &&& t.id == id && co_code(co.thetype@, t.type_, t.ext) && extent_in(co.geographical_extent, t.extent)
    &&& (t.geometry is Some) == (co.geometry is Some) && (t.instances is Some) == (co.geometry is Some)
    &&& co.geometry is Some ==> geoms_in(co.geometry->0@.filter(plain()), sem, t.geometry->0) && insts_in(co.geometry->0@.filter(inst()), t.instances->0)
    &&& co.attributes is None ==> t.attributes is None
    &&& co.attributes is Some && co.attributes->0.obj() ==> t.attributes is Some && exists|own: Option<AttributeSchema>| #[trigger] stored_attrs(co.attributes->0, s, own, t.attributes->0, t.columns)
    &&& t.children == ostrs(co.children) && t.roles == ostrs(co.children_roles) && t.parents == ostrs(co.parents)
}
pub open spec fn obj_ok(co: CjCityObject, s: AttributeSchema) -> bool {
    &&& plus(co.thetype@) || co_vocab(co.thetype@)
    &&& co.attributes is Some ==> co.attributes->0.obj() && attrs_ok(co.attributes->0, s)
    &&& co.geometry is Some ==> forall|i: int| 0 <= i < co.geometry->0@.len() ==> geom_ok(#[trigger] co.geometry->0@[i])
}
pub open spec fn same_geometries(a: Seq<CjGeometry>, b: Seq<CjGeometry>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> same_geometry(a[i], #[trigger] b[i]) }
/// the geometries come back with the instances at the end; an empty list comes back as none
pub open spec fn same_object(a: CjCityObject, b: CjCityObject) -> bool {
    &&& a.thetype@ == b.thetype@ && (a.geographical_extent is Some) == (b.geographical_extent is Some) && (a.geographical_extent is Some ==> a.geographical_extent->0@ == b.geographical_extent->0@)
    &&& (a.attributes is Some) == (b.attributes is Some) && (a.attributes is Some ==> same_attributes(a.attributes->0, b.attributes->0))
    &&& b.geometry is Some == (a.geometry is Some && a.geometry->0@.len() > 0)
    &&& b.geometry is Some ==> same_geometries(a.geometry->0@.filter(plain()) + a.geometry->0@.filter(inst()), b.geometry->0@)
    &&& ostrs(a.children) == ostrs(b.children) && ostrs(a.children_roles) == ostrs(b.children_roles) && ostrs(a.parents) == ostrs(b.parents)
}
%%fn writer/serializer.rs "-" to_city_object
%%ret r
%%loops 2
%%sig `to_city_object<'a>` => `to_city_object`
%%sig `&mut flatbuffers::FlatBufferBuilder<'a>` => `&mut FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<CityObject<'a>>` => `WIPOffset<CityObject>`
%%sub `Some(fbb.create_string(id))` => `Some(fbb.create_str(id))`
%%sub `extension_type.as_ref().map(|et| fbb.create_string(et))` => `match extension_type.as_ref() { Some(et) => Some(fbb.create_string(et)), None => None }`
%%sub `co.geographical_extent.as_ref().map(to_geographical_extent)` => `match co.geographical_extent.as_ref() { Some(e) => Some(to_geographical_extent(e)), None => None }`
%%sub `let geometry_without_instances = co.geometry.as_ref().map(|gs| { gs.iter() .filter(|g| ` => `let geometry_without_instances = match co.geometry.as_ref() { None => None, Some(gs) => { Some(filter_refs(gs, |g: &CjGeometry| -> (o: bool) ensures o == plain()(*g) { `
%%sub `let geometry_instances = co.geometry.as_ref().map(|gs| { gs.iter() .filter(|g| ` => `let geometry_instances = match co.geometry.as_ref() { None => None, Some(gs) => { Some(filter_refs(gs, |g: &CjGeometry| -> (o: bool) ensures o == inst()(*g) { `
%%sub `) .collect::<Vec<_>>() }); let geometry_instances =` => ` }, Ghost(plain()))) } }; let geometry_instances =`
%%sub `) .collect::<Vec<_>>() }); let geometries =` => ` }, Ghost(inst()))) } }; let geometries =`
%%sub `geometry_without_instances.map(|gs| { gs.iter() .map(|g| ` => `match geometry_without_instances { None => None, Some(gs) => { let mut _v: Vec<WIPOffset<Geometry>> = Vec::new(); let mut _i: usize = 0; while _i < gs.len() { let g = gs[_i]; let _o = `
%%sub `) .collect::<Vec<_>>() }); geometries.map(|geometries| fbb.create_vector(&geometries))` => `; _v.push(_o); _i += 1; } Some(_v) } }; match geometries { Some(geometries) => Some(fbb.create_vector(&geometries)), None => None }`
%%sub `geometry_instances.map(|gs| { gs.iter() .map(|g| ` => `match geometry_instances { None => None, Some(gs) => { let mut _v: Vec<WIPOffset<GeometryInstance>> = Vec::new(); let mut _i: usize = 0; while _i < gs.len() { let g = gs[_i]; let _o = `
%%sub `) .collect::<Vec<_>>() }); geometry_instances.map(|geometry_instances| fbb.create_vector(&geometry_instances))` => `; _v.push(_o); _i += 1; } Some(_v) } }; match geometry_instances { Some(geometry_instances) => Some(fbb.create_vector(&geometry_instances)), None => None }`
%%sub `co .attributes .as_ref() .map(|attr| {` => `match co.attributes.as_ref() { None => (None, None), Some(attr) => {`
%%sub `if !attr.is_object() { return (None, None); }` => `if !attr.is_object() { (None, None) } else {`
%%sub `own_schema.map(|schema| to_columns(fbb, &schema))` => `match own_schema { Some(schema) => Some(to_columns(fbb, &schema)), None => None }`
%%sub `}) .unwrap_or((None, None));` => `} } };`
%%sub `co .children .as_ref() .map(|c| c.iter().map(|s| fbb.create_string(s)).collect::<Vec<_>>())` => `match co.children.as_ref() { Some(c) => Some(strings(fbb, c)), None => None }`
%%sub `co .children_roles .as_ref() .map(|c| c.iter().map(|r| fbb.create_string(r)).collect::<Vec<_>>())` => `match co.children_roles.as_ref() { Some(c) => Some(strings(fbb, c)), None => None }`
%%sub `co .parents .as_ref() .map(|p| p.iter().map(|s| fbb.create_string(s)).collect::<Vec<_>>())` => `match co.parents.as_ref() { Some(p) => Some(strings(fbb, p)), None => None }`
%%sub `children.map(|c| fbb.create_vector(&c))` => `match children { Some(c) => Some(fbb.create_vector(&c)), None => None }`
%%sub `children_roles_strings.map(|c| fbb.create_vector(&c))` => `match children_roles_strings { Some(c) => Some(fbb.create_vector(&c)), None => None }`
%%sub `parents.map(|p| fbb.create_vector(&p))` => `match parents { Some(p) => Some(fbb.create_vector(&p)), None => None }`
%%sub `CityObject::create(` => `let _r = CityObject::create(`
%%sub `parents, }, )` => `parents, }, ); proof { if co.attributes is Some && co.attributes->0.obj() { assert(stored_attrs(co.attributes->0, *attr_schema, own, _r@.attributes->0, _r@.columns)); } } _r`
%%spec
    ensures obj_in(id@, *co, *attr_schema, osch(semantic_attr_schema), r@),
%%loop 0
    invariant 0 <= _i <= gs@.len(), deref(gs@) == co.geometry->0@.filter(plain()), _v@.len() == _i, forall|i: int| 0 <= i < _i ==> geom_in(*gs@[i], osch(semantic_attr_schema), #[trigger] _v@[i]@),
    decreases gs@.len() - _i
%%loopstart 0
    proof { lemma_filtered(co.geometry->0@, plain()); assert(deref(gs@)[_i as int] == *gs@[_i as int]); }
%%loop 1
    invariant 0 <= _i <= gs@.len(), deref(gs@) == co.geometry->0@.filter(inst()), _v@.len() == _i, forall|i: int| 0 <= i < _i ==> inst_in(*gs@[i], #[trigger] _v@[i]@),
    decreases gs@.len() - _i
%%loopstart 1
    proof { lemma_filtered(co.geometry->0@, inst()); assert(deref(gs@)[_i as int] == *gs@[_i as int]); }
%%start
    let ghost mut own: Option<AttributeSchema> = None;
%%pre `let columns = match own_schema`
    proof { own = own_schema; }
%%pre `(Some(attr_vec), columns)`
    proof { assert(attrs_in(*attr, *attr_schema, own, attr_vec@)); assert(wcols(columns) == (match own { Some(o) => Some(cols_of(o)), None => None })); }
%%pre `let _r = CityObject::create(`
    proof {
        if co.geometry is Some {
            let a = geometries->0@.map_values(|x: WIPOffset<Geometry>| x@); let b = geometry_instances->0@.map_values(|x: WIPOffset<GeometryInstance>| x@);
            assert(geoms_in(co.geometry->0@.filter(plain()), osch(semantic_attr_schema), a)); assert(insts_in(co.geometry->0@.filter(inst()), b));
        }
        assert(extent_in(co.geographical_extent, match geographical_extent { Some(e) => Some(e), None => None }));
        assert(wstrs(children) == ostrs(co.children)); assert(wstrs(children_roles) == ostrs(co.children_roles)); assert(wstrs(parents) == ostrs(co.parents));
        if co.attributes is Some && co.attributes->0.obj() { assert(attributes is Some); assert(stored_attrs(co.attributes->0, *attr_schema, own, attributes->0@, wcols(columns))); assert(wv(attributes) == Some(attributes->0@)); }
    }
%%done

// ---- features
/// i64 as f64
pub uninterp spec fn float_of(x: i64) -> f64;
#[verifier::external_body] pub fn as_float(x: i64) -> (r: f64) ensures r == float_of(x) { x as f64 }
/// i64::try_into::<i32>().unwrap()
pub trait Narrow { spec fn v(self) -> int; fn to_i32(self) -> (r: i32) requires i32::MIN <= self.v() <= i32::MAX ensures r == self.v(); }
impl Narrow for i64 { open spec fn v(self) -> int { self as int } fn to_i32(self) -> (r: i32) { self as i32 } }
pub trait Extremes { spec fn l(self) -> Seq<i64>; fn least_or_0(self) -> (r: i64) ensures least(self.l(), r); fn greatest_or_0(self) -> (r: i64) ensures greatest(self.l(), r); }
impl Extremes for Vec<i64> { open spec fn l(self) -> Seq<i64> { self@ } fn least_or_0(self) -> (r: i64) { least_or_0(self) } fn greatest_or_0(self) -> (r: i64) { greatest_or_0(self) } }
/// one coordinate of the vertices
pub open spec fn coord(v: Seq<Vec<i64>>, k: int) -> Seq<i64> { v.map_values(|x: Vec<i64>| x@[k]) }
pub open spec fn least(s: Seq<i64>, m: i64) -> bool { if s.len() == 0 { m == 0 } else { s.contains(m) && forall|i: int| 0 <= i < s.len() ==> m <= #[trigger] s[i] } }
pub open spec fn greatest(s: Seq<i64>, m: i64) -> bool { if s.len() == 0 { m == 0 } else { s.contains(m) && forall|i: int| 0 <= i < s.len() ==> m >= #[trigger] s[i] } }
/// v.iter().map(|v| v[k])
pub fn coords(v: &Vec<Vec<i64>>, k: usize) -> (r: Vec<i64>)
    requires forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@.len() > k,
    ensures r@ == coord(v@, k as int),
{
    let mut r: Vec<i64> = Vec::new(); let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@.len() > k, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == v@[j]@[k as int],
        decreases v.len() - i
    { r.push(v[i][k]); i += 1; }
    assert(r@ =~= coord(v@, k as int));
    r
}
/// .min().unwrap_or(0)
pub fn least_or_0(v: Vec<i64>) -> (r: i64) ensures least(v@, r),
{
    if v.len() == 0 { return 0; }
    let mut m = v[0]; let mut i: usize = 1;
    while i < v.len() invariant 1 <= i <= v@.len(), v@.contains(m), forall|j: int| 0 <= j < i ==> m <= #[trigger] v@[j], decreases v.len() - i
    { if v[i] < m { m = v[i]; } i += 1; }
    m
}
/// .max().unwrap_or(0)
pub fn greatest_or_0(v: Vec<i64>) -> (r: i64) ensures greatest(v@, r),
{
    if v.len() == 0 { return 0; }
    let mut m = v[0]; let mut i: usize = 1;
    while i < v.len() invariant 1 <= i <= v@.len(), v@.contains(m), forall|j: int| 0 <= j < i ==> m >= #[trigger] v@[j], decreases v.len() - i
    { if v[i] > m { m = v[i]; } i += 1; }
    m
}
pub open spec fn small_vertex(v: Vec<i64>) -> bool { v@.len() == 3 && forall|k: int| 0 <= k < 3 ==> i32::MIN <= #[trigger] v@[k] <= i32::MAX }
pub open spec fn vertex_in(v: Seq<i64>, t: Vertex) -> bool { v == seq![t.a as i64, t.b as i64, t.c as i64] }
/// the objects of the map, each as one table
pub open spec fn objs_in(m: Map<Seq<char>, CjCityObject>, s: AttributeSchema, sem: Option<AttributeSchema>, t: Seq<ObjT>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> m.contains_key((#[trigger] t[i]).id) && obj_in(t[i].id, m[t[i].id], s, sem, t[i])
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).id != (#[trigger] t[j]).id
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).id == k
}
pub open spec fn feat_in(id: Seq<char>, f: CityJSONFeature, s: AttributeSchema, sem: Option<AttributeSchema>, t: FeatT) -> bool {
    &&& t.id == id && t.objects is Some && objs_in(f.city_objects@, s, sem, t.objects->0)
    &&& t.vertices is Some && t.vertices->0.len() == f.vertices@.len() && forall|i: int| 0 <= i < t.vertices->0.len() ==> vertex_in(f.vertices@[i]@, #[trigger] t.vertices->0[i])
    &&& (t.appearance is Some) == (f.appearance is Some) && (f.appearance is Some ==> app_in(f.appearance->0, t.appearance->0))
}
/// the box is that of the vertices of the feature
pub open spec fn box_of(v: Seq<Vec<i64>>, b: NodeItem) -> bool {
    &&& exists|m: i64| #[trigger] least(coord(v, 0), m) && b.min_x == float_of(m)
    &&& exists|m: i64| #[trigger] least(coord(v, 1), m) && b.min_y == float_of(m)
    &&& exists|m: i64| #[trigger] greatest(coord(v, 0), m) && b.max_x == float_of(m)
    &&& exists|m: i64| #[trigger] greatest(coord(v, 1), m) && b.max_y == float_of(m)
}
%%fn writer/serializer.rs "-" to_fcb_city_feature
%%ret r
%%loops 2
%%sig `to_fcb_city_feature<'a>` => `to_fcb_city_feature`
%%sig `&mut flatbuffers::FlatBufferBuilder<'a>` => `&mut FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<CityFeature<'a>>` => `WIPOffset<CityFeature>`
%%sub `let id = Some(fbb.create_string(id));` => `let id = Some(fbb.create_str(id));`
%%sub `let city_objects: Vec<_> = city_feature .city_objects .iter() .map(|(id, co)| ` => `let mut city_objects: Vec<WIPOffset<CityObject>> = Vec::new(); let _es = city_feature.city_objects.entries(); let mut _i: usize = 0; while _i < _es.len() { let (id, co) = _es[_i]; let _o = `
%%sub `) .collect(); let objects` => `; city_objects.push(_o); _i += 1; } let objects`
%%sub `fbb.create_vector( &city_feature .vertices .iter() .map(|v| {` => `{ let mut _vs: Vec<Vertex> = Vec::new(); let mut _i: usize = 0; while _i < city_feature.vertices.len() { let v = &city_feature.vertices[_i]; let _o = {`
%%sub `}) .collect::<Vec<_>>(), )` => `}; _vs.push(_o); _i += 1; } fbb.create_vector(&_vs) }`
%%sub `city_feature .appearance .as_ref() .map(|app| to_appearance(fbb, app))` => `match city_feature.appearance.as_ref() { Some(app) => Some(to_appearance(fbb, app)), None => None }`
%%sub `.try_into().unwrap()` => `.to_i32()`
%%sub `city_feature .vertices .iter() .map(|v| v[` => `as_float(coords(&city_feature.vertices, `
%%sub `]) .min() .unwrap_or(0) as f64` => `).least_or_0())`
%%sub `]) .max() .unwrap_or(0) as f64` => `).greatest_or_0())`
%%sub `( CityFeature::create(` => `let _r = ( CityFeature::create(`
%%sub `bbox, )` => `bbox, ); proof { let t = _r.0@; assert(objs_in(m, *attr_schema, osch(semantic_attr_schema), t.objects->0)); } _r`
%%spec
    requires
        forall|i: int| 0 <= i < city_feature.vertices@.len() ==> small_vertex(#[trigger] city_feature.vertices@[i]),
    ensures
        feat_in(id@, *city_feature, *attr_schema, osch(semantic_attr_schema), r.0@), box_of(city_feature.vertices@, r.1),
%%start
    let ghost m = city_feature.city_objects@;
%%loop 0
    invariant 0 <= _i <= _es@.len(), city_objects@.len() == _i, m == city_feature.city_objects@,
        forall|i: int| 0 <= i < _es@.len() ==> m.contains_key((#[trigger] _es@[i]).0@) && m[_es@[i].0@] == *_es@[i].1,
        forall|i: int| 0 <= i < _i ==> (#[trigger] city_objects@[i])@.id == _es@[i].0@ && obj_in(_es@[i].0@, *_es@[i].1, *attr_schema, osch(semantic_attr_schema), city_objects@[i]@),
    decreases _es@.len() - _i
%%post 0
    proof {
        let t = city_objects@.map_values(|x: WIPOffset<CityObject>| x@);
        assert forall|i: int| 0 <= i < t.len() implies m.contains_key((#[trigger] t[i]).id) && obj_in(t[i].id, m[t[i].id], *attr_schema, osch(semantic_attr_schema), t[i]) by { assert(city_objects@[i]@.id == _es@[i].0@); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).id != (#[trigger] t[j]).id by { assert(city_objects@[i]@.id == _es@[i].0@); assert(city_objects@[j]@.id == _es@[j].0@); }
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).id == k by { let i = choose|i: int| 0 <= i < _es@.len() && (#[trigger] _es@[i]).0@ == k; assert(city_objects@[i]@.id == _es@[i].0@); assert(t[i].id == k); }
        assert(objs_in(m, *attr_schema, osch(semantic_attr_schema), t));
    }
%%loop 1
    invariant 0 <= _i <= city_feature.vertices@.len(), _vs@.len() == _i,
        forall|i: int| 0 <= i < city_feature.vertices@.len() ==> small_vertex(#[trigger] city_feature.vertices@[i]),
        forall|i: int| 0 <= i < _i ==> vertex_in(city_feature.vertices@[i]@, #[trigger] _vs@[i]),
    decreases city_feature.vertices@.len() - _i
%%loopstart 1
    proof { assert(small_vertex(city_feature.vertices@[_i as int])); }
%%loopend 1
    proof { let o = _vs@[_i - 1]; assert(city_feature.vertices@[_i - 1]@ =~= seq![o.a as i64, o.b as i64, o.c as i64]); }
%%post 1
    proof { assert forall|i: int| 0 <= i < city_feature.vertices@.len() implies (#[trigger] city_feature.vertices@[i])@.len() > 1 by { assert(small_vertex(city_feature.vertices@[i])); } }
%%done

%%fn reader/deserializer.rs "-" to_cj_vertices
%%ret r
%%loops 1
%%sig `Vec<&Vertex>` => `Vec<Vertex>`
%%sub `vertices .iter() .map(|v| ` => `let mut _r: Vec<Vec<i64>> = Vec::new(); let mut _i: usize = 0; while _i < vertices.len() { let v = &vertices[_i]; let _o = `
%%sub `) .collect()` => `; _r.push(_o); _i += 1; } _r`
%%spec
    ensures r@.len() == vertices@.len(), forall|i: int| 0 <= i < r@.len() ==> vertex_in((#[trigger] r@[i])@, vertices@[i]),
%%loop 0
    invariant 0 <= _i <= vertices@.len(), _r@.len() == _i, forall|i: int| 0 <= i < _i ==> vertex_in((#[trigger] _r@[i])@, vertices@[i]),
    decreases vertices@.len() - _i
%%loopend 0
    proof { let o = vertices@[_i - 1]; assert(_r@[_i - 1]@ =~= seq![o.a as i64, o.b as i64, o.c as i64]); }
%%done
pub open spec fn same_feature(a: CityJSONFeature, b: CityJSONFeature) -> bool {
    &&& a.id@ == b.id@
    &&& forall|k: Seq<char>| #[trigger] b.city_objects@.contains_key(k) == a.city_objects@.contains_key(k)
    &&& forall|k: Seq<char>| #[trigger] b.city_objects@.contains_key(k) ==> same_object(a.city_objects@[k], b.city_objects@[k])
    &&& a.vertices@.len() == b.vertices@.len() && forall|i: int| 0 <= i < b.vertices@.len() ==> a.vertices@[i]@ == (#[trigger] b.vertices@[i])@
    &&& (a.appearance is Some) == (b.appearance is Some) && (a.appearance is Some ==> same_appearance(a.appearance->0, b.appearance->0))
}
pub open spec fn feat_ok(f: CityJSONFeature, s: AttributeSchema) -> bool {
    forall|k: Seq<char>| #[trigger] f.city_objects@.contains_key(k) ==> obj_ok(f.city_objects@[k], s)
}
%%fn reader/deserializer.rs "-" to_cj_feature
%%ret r
%%loops 6
%%sig `feature: CityFeature,` => `feature: CityFeature, Ghost(src): Ghost<CityJSONFeature>, Ghost(sch): Ghost<AttributeSchema>, Ghost(sem): Ghost<Option<AttributeSchema>>,`
%%sig `root_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>` => `root_attr_schema: Option<Columns>`
%%sig `semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>` => `semantic_attr_schema: Option<Columns>`
%%sub `let city_objects_result: Result<HashMap<String, CjCityObject>, Error> = objects .iter() .map(|co| {` => `let _os = all(objects); let mut _map: HashMap<CjCityObject> = HashMap::new(); let mut _i: usize = 0; while _i < _os.len() { let co = &_os[_i]; let (_k, _v) = {`
%%sub `Ok((co.id().to_string(), cjco)) }) .collect();` => `(co.id().to_string(), cjco) }; _map.insert(_k, _v); _i += 1; }`
%%sub `let city_objects = city_objects_result?;` => `let city_objects = _map;`
%%sub `co.geographical_extent().map(|extent| {` => `match co.geographical_extent() { None => None, Some(extent) => { Some(`
%%sub `extent.max().z(), ] });` => `extent.max().z(), ]) } };`
%%sub `let mut all_geometries: Vec<cjseq::Geometry>` => `let mut all_geometries: Vec<CjGeometry>`
%%sub `let decoded_standard = standard_geometries .iter() .map(|g| ` => `let _gs = items(standard_geometries); let mut decoded_standard: Vec<CjGeometry> = Vec::new(); let mut _j: usize = 0; while _j < _gs.len() { let g = copy_geometry(&_gs[_j]); let _o = `
%%sub `) .collect::<Result<Vec<_>, _>>()?; all_geometries.extend(decoded_standard);` => `?; decoded_standard.push(_o); _j += 1; } all_geometries.append(&mut decoded_standard);`
%%sub `let decoded_instances = instances .iter() .map(|inst| ` => `let _gs = all(instances); let mut decoded_instances: Vec<CjGeometry> = Vec::new(); let mut _j: usize = 0; while _j < _gs.len() { let inst = &_gs[_j]; let _o = `
%%sub `decode_geometry_instance(&inst)` => `decode_geometry_instance(inst)`
%%sub `) .collect::<Result<Vec<_>, _>>()?; all_geometries.extend(decoded_instances);` => `?; decoded_instances.push(_o); _j += 1; } all_geometries.append(&mut decoded_instances);`
%%sub `all_geometries.is_empty()` => `(all_geometries.len() == 0)`
%%sub `co.attributes().map(|a| { decode_attributes(` => `match co.attributes() { None => None, Some(a) => { Some(decode_attributes(`
%%sub `&co.columns().unwrap_or(root_attr_schema.unwrap()), a) })` => `&co.columns().unwrap_or(root_attr_schema.unwrap()), a)) } }`
%%sub `co .children_roles() .map(|c| c.iter().map(|s| s.to_string()).collect())` => `read_strings(co.children_roles())`
%%sub `co.children() .map(|c| c.iter().map(|s| s.to_string()).collect())` => `read_strings(co.children())`
%%sub `co.parents() .map(|p| p.iter().map(|s| s.to_string()).collect())` => `read_strings(co.parents())`
%%sub `feature .vertices() .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()))` => `match feature.vertices() { None => Vec::new(), Some(v) => to_cj_vertices(all(v)) }`
%%sub `let cj_materials = materials .iter() .map(|m| {` => `let _ms = all(materials); let mut cj_materials: Vec<CjMaterial> = Vec::new(); let mut _i: usize = 0; while _i < _ms.len() { let m = &_ms[_i]; let _o = {`
%%sub `}) .collect(); cj_appearance.materials` => `}; cj_materials.push(_o); _i += 1; } cj_appearance.materials`
%%sub `|color_opt: Option<flatbuffers::Vector<'_, f64>>| { color_opt.map(|c| {` => `|color_opt: Option<Vector<f64>>| -> (o: Option<[f64; 3]>) requires color_opt is Some ==> color_opt->0@.len() == 3 ensures a3(o) == ov(color_opt) { match color_opt { None => None, Some(c) => { let ghost c0 = c@; let _o =`
%%sub `}) }; CjMaterial {` => `; proof { assert(_o@ =~= c0); } Some(_o) } } }; CjMaterial {`
%%sub `let color_vec: Vec<f64> = c.iter().collect(); assert!(color_vec.len() == 3, "color must be a vector of 3 elements");` => `{ let color_vec: Vec<f64> = all(c); if !(color_vec.len() == 3) { panic!() }`
%%sub `[color_vec[0], color_vec[1], color_vec[2]]` => `[color_vec[0], color_vec[1], color_vec[2]] }`
%%sub `let cj_textures = textures .iter() .map(|t| {` => `let _ts = all(textures); let mut cj_textures: Vec<CjTexture> = Vec::new(); let mut _i: usize = 0; while _i < _ts.len() { let t = &_ts[_i]; let _o = {`
%%sub `t.wrap_mode().map(|w| match w {` => `match t.wrap_mode() { None => None, Some(w) => Some(match w {`
%%sub `}), texture_type:` => `}) }, texture_type:`
%%sub `t.texture_type().map(|t| match t {` => `match t.texture_type() { None => None, Some(t) => Some(match t {`
%%sub `}), border_color:` => `}) }, border_color:`
%%sub `t.border_color().map(|c| { let color_vec: Vec<f64> = c.iter().collect(); assert!(color_vec.len() == 4, "color must be a vector of 4 elements");` => `match t.border_color() { None => None, Some(c) => { let ghost c0 = c@; let _o = { let color_vec: Vec<f64> = all(c); if !(color_vec.len() == 4) { panic!() }`
%%sub `}), } }) .collect::<Vec<_>>(); cj_appearance.textures` => `}; proof { assert(_o@ =~= c0); } Some(_o) } }, } }; cj_textures.push(_o); _i += 1; } cj_appearance.textures`
%%sub `cj_appearance.vertices_texture = Some( vertices_texture .iter() .map(|v| ` => `let _vs = all(vertices_texture); let mut _vt: Vec<[f64; 2]> = Vec::new(); let mut _i: usize = 0; while _i < _vs.len() { let v = &_vs[_i]; let _o = `
%%sub `) .collect::<Vec<_>>(), );` => `; _vt.push(_o); _i += 1; } cj_appearance.vertices_texture = Some(_vt);`
%%spec
    requires
        feat_in(src.id@, src, sch, sem, feature@), feat_ok(src, sch), cols_match(sem, semantic_attr_schema), root_attr_schema is Some, root_attr_schema->0@ == cols_of(sch),
    ensures
        r is Ok && same_feature(src, r->Ok_0),
%%start
    let ghost t = feature@; let ghost m = src.city_objects@;
%%loop 0
    invariant
        0 <= _i <= _os@.len(), t == feature@, m == src.city_objects@, objs_in(m, sch, sem, t.objects->0), _os@.map_values(|x: CityObject| x@) == t.objects->0,
        feat_ok(src, sch), cols_match(sem, semantic_attr_schema), root_attr_schema is Some, root_attr_schema->0@ == cols_of(sch),
        forall|k: Seq<char>| #[trigger] _map@.contains_key(k) ==> exists|i: int| 0 <= i < _i && (#[trigger] t.objects->0[i]).id == k,
        forall|i: int| 0 <= i < _i ==> _map@.contains_key((#[trigger] t.objects->0[i]).id) && same_object(m[t.objects->0[i].id], _map@[t.objects->0[i].id]),
    decreases _os@.len() - _i
%%loopstart 0
    let ghost o = t.objects->0[_i as int]; let ghost c = m[o.id]; let ghost map0 = _map@;
    proof { assert(_os@[_i as int]@ == o); assert(obj_in(o.id, c, sch, sem, o)); assert(obj_ok(c, sch)); if c.geometry is Some { lemma_parts(c.geometry->0@); } }
%%pre `(co.id().to_string(), cjco)`
    proof {
        if cjco.geographical_extent is Some { assert(cjco.geographical_extent->0@ =~= c.geographical_extent->0@); }
        if c.geometry is Some && cjco.geometry is Some { let x = c.geometry->0@.filter(plain()); let y = c.geometry->0@.filter(inst()); assert forall|q: int| 0 <= q < cjco.geometry->0@.len() implies same_geometry((x + y)[q], #[trigger] cjco.geometry->0@[q]) by { } }
        assert(same_object(c, cjco));
    }
%%loopend 0
    proof {
        assert(_map@ == map0.insert(o.id, _map@[o.id]));
        assert forall|q: int| 0 <= q < _i implies _map@.contains_key((#[trigger] t.objects->0[q]).id) && same_object(m[t.objects->0[q].id], _map@[t.objects->0[q].id]) by { if q < _i - 1 { assert(t.objects->0[q].id != t.objects->0[_i - 1].id); } }
    }
%%loop 1
    invariant
        0 <= _j <= _gs@.len(), decoded_standard@.len() == _j, cols_match(sem, semantic_attr_schema), c.geometry is Some,
        geoms_in(c.geometry->0@.filter(plain()), sem, _gs@.map_values(|x: Geometry| x@)), forall|i: int| 0 <= i < c.geometry->0@.filter(plain()).len() ==> geom_ok(#[trigger] c.geometry->0@.filter(plain())[i]),
        forall|i: int| 0 <= i < _j ==> same_geometry(c.geometry->0@.filter(plain())[i], #[trigger] decoded_standard@[i]),
    decreases _gs@.len() - _j
%%loopstart 1
    proof { let v = _gs@.map_values(|x: Geometry| x@); assert(v[_j as int] == _gs@[_j as int]@); assert(geom_in(c.geometry->0@.filter(plain())[_j as int], sem, v[_j as int])); }
%%loop 2
    invariant
        0 <= _j <= _gs@.len(), decoded_instances@.len() == _j, c.geometry is Some,
        insts_in(c.geometry->0@.filter(inst()), _gs@.map_values(|x: GeometryInstance| x@)), forall|i: int| 0 <= i < c.geometry->0@.filter(inst()).len() ==> geom_ok(#[trigger] c.geometry->0@.filter(inst())[i]),
        forall|i: int| 0 <= i < _j ==> same_geometry(c.geometry->0@.filter(inst())[i], #[trigger] decoded_instances@[i]),
    decreases _gs@.len() - _j
%%loopstart 2
    proof { let v = _gs@.map_values(|x: GeometryInstance| x@); assert(v[_j as int] == _gs@[_j as int]@); assert(inst_in(c.geometry->0@.filter(inst())[_j as int], v[_j as int])); }
%%loop 3
    invariant
        0 <= _i <= _ms@.len(), cj_materials@.len() == _i, src.appearance is Some, app_in(src.appearance->0, t.appearance->0), t.appearance->0.materials is Some, _ms@.map_values(|x: Material| x@) == t.appearance->0.materials->0,
        forall|i: int| 0 <= i < _i ==> same_material(src.appearance->0.materials->0@[i], #[trigger] cj_materials@[i]),
    decreases _ms@.len() - _i
%%loopstart 3
    proof { assert(_ms@[_i as int]@ == t.appearance->0.materials->0[_i as int]); assert(matl_in(src.appearance->0.materials->0@[_i as int], t.appearance->0.materials->0[_i as int])); }
%%loop 4
    invariant
        0 <= _i <= _ts@.len(), cj_textures@.len() == _i, src.appearance is Some, app_in(src.appearance->0, t.appearance->0), t.appearance->0.textures is Some, _ts@.map_values(|x: Texture| x@) == t.appearance->0.textures->0,
        forall|i: int| 0 <= i < _i ==> same_texture(src.appearance->0.textures->0@[i], #[trigger] cj_textures@[i]),
    decreases _ts@.len() - _i
%%loopstart 4
    proof { assert(_ts@[_i as int]@ == t.appearance->0.textures->0[_i as int]); assert(tex_in(src.appearance->0.textures->0@[_i as int], t.appearance->0.textures->0[_i as int])); }
%%loop 5
    invariant
        0 <= _i <= _vs@.len(), _vt@.len() == _i, src.appearance is Some, app_in(src.appearance->0, t.appearance->0), t.appearance->0.vertices is Some, _vs@ == t.appearance->0.vertices->0,
        forall|i: int| 0 <= i < _i ==> src.appearance->0.vertices_texture->0@[i]@ == (#[trigger] _vt@[i])@,
    decreases _vs@.len() - _i
%%loopend 5
    proof { assert(src.appearance->0.vertices_texture->0@[_i - 1]@ =~= _vt@[_i - 1]@); }
%%done
/// every geometry is in one of the two parts
pub proof fn lemma_parts(s: Seq<CjGeometry>)
    ensures s.filter(plain()).len() + s.filter(inst()).len() == s.len(),
        forall|i: int| 0 <= i < s.filter(plain()).len() ==> s.contains(#[trigger] s.filter(plain())[i]),
        forall|i: int| 0 <= i < s.filter(inst()).len() ==> s.contains(#[trigger] s.filter(inst())[i]),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last(); lemma_parts(d);
        assert forall|x: CjGeometry| #[trigger] d.contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); }
        assert(s.contains(s.last()));
    }
}
#[verifier::external_body] pub fn copy_geometry(g: &Geometry) -> (r: Geometry) ensures r == *g { unimplemented!() }
pub fn items(v: Vector<Geometry>) -> (r: Vec<Geometry>) ensures r@ == v@ { all(v) }
#[verifier::external_body] pub fn stored(o: WIPOffset<CityFeature>) -> (f: CityFeature) ensures f@ == o@ { unimplemented!() }
// ---- the property: a feature written and read back is the same (P14; its appearance: P11)
fn feature_round_trip(fbb: &mut FlatBufferBuilder, f: &CityJSONFeature, schema: &AttributeSchema, semantic_schema: Option<&AttributeSchema>, columns: Columns, semantic_columns: Option<Columns>) -> (r: Result<CityJSONFeature, Error>)
    requires
        feat_ok(*f, *schema), forall|i: int| 0 <= i < f.vertices@.len() ==> small_vertex(#[trigger] f.vertices@[i]),
        columns@ == cols_of(*schema), cols_match(osch(semantic_schema), semantic_columns),
    ensures
        r is Ok && same_feature(*f, r->Ok_0),
{
    let (o, _b) = to_fcb_city_feature(fbb, f.id.as_str(), f, schema, semantic_schema);
    to_cj_feature(stored(o), Ghost(*f), Ghost(*schema), Ghost(osch(semantic_schema)), Some(columns), semantic_columns)
}
fn main() {}
} // verus!
