// unit names: type names and their codes (P12)
use vstd::prelude::*;
verus! {
%%include strs.vx
%%include typenames.vx
%%expr reader/geom_decoder.rs "-" decode_semantics_surfaces `match s.type_() {` as `pub fn semantic_surface_name(c: SemanticSurfaceType, e: Option<&str>) -> (r: String)`
%%sub `match s.type_() {` => `match c {`
%%sub `s.extension_type().unwrap_or("GenericSurface").to_string()` => `(match e { Some(x) => x, None => "GenericSurface" }).to_string()`
    ensures forall|s: Seq<char>| (plus(s) || ss_vocab(s)) && #[trigger] ss_code(s, c, ostr(e)) ==> r@ == s,
%%done

// ---- geometry types
pub enum CjGeometryType { MultiPoint, MultiLineString, MultiSurface, CompositeSurface, Solid, MultiSolid, CompositeSolid, GeometryInstance }
%%fbenum fb/geometry_generated.rs GeometryType
pub open spec fn type_of(t: CjGeometryType) -> GeometryType {
    match t {
        CjGeometryType::MultiPoint => GeometryType::MultiPoint, CjGeometryType::MultiLineString => GeometryType::MultiLineString, CjGeometryType::MultiSurface => GeometryType::MultiSurface,
        CjGeometryType::CompositeSurface => GeometryType::CompositeSurface, CjGeometryType::Solid => GeometryType::Solid, CjGeometryType::MultiSolid => GeometryType::MultiSolid,
        CjGeometryType::CompositeSolid => GeometryType::CompositeSolid, CjGeometryType::GeometryInstance => GeometryType::GeometryInstance,
    }
}
%%fn writer/serializer.rs "-" to_geom_type
%%ret r
%%spec
    ensures !(geometry_type is GeometryInstance) ==> r == type_of(*geometry_type),
%%done
%%fn reader/geom_decoder.rs "impl GeometryType" to_cj
%%ret r
%%spec
    ensures forall|t: CjGeometryType| self == #[trigger] type_of(t) && !(t is GeometryInstance) ==> r == t,
%%done

// ---- texture formats, types and wrap modes
%%include txtypes.vx
%%expr writer/serializer.rs "-" to_appearance `match t.texture_format {` as `pub fn format_code(f: CjTextFormat) -> (r: TextureFormat)`
%%sub `match t.texture_format {` => `match f {`
    ensures r == format_of(f),
%%done
%%expr writer/serializer.rs "-" to_appearance `match w {` as `pub fn wrap_code(w: &CjWrapMode) -> (r: WrapMode)`
    ensures r == wrap_of(*w),
%%done
%%expr writer/serializer.rs "-" to_appearance `match t {` as `pub fn texture_code(t: &CjTextType) -> (r: TextureType)`
    ensures r == texture_of(*t),
%%done
%%expr reader/deserializer.rs "-" to_cj_feature `match t.type_() {` as `pub fn format_name(c: TextureFormat) -> (r: CjTextFormat)`
%%sub `match t.type_() {` => `match c {`
    ensures forall|f: CjTextFormat| c == #[trigger] format_of(f) ==> r == f,
%%done
%%expr reader/deserializer.rs "-" to_cj_feature `match w {` as `pub fn wrap_name(w: WrapMode) -> (r: CjWrapMode)`
    ensures forall|f: CjWrapMode| w == #[trigger] wrap_of(f) ==> r == f,
%%done
%%expr reader/deserializer.rs "-" to_cj_feature `match t {` as `pub fn texture_name(t: TextureType) -> (r: CjTextType)`
    ensures forall|f: CjTextType| t == #[trigger] texture_of(f) ==> r == f,
%%done

// ---- the property: a name written and read back is itself
fn co_round_trip(s: &str) -> (r: String)
    requires plus(s@) || co_vocab(s@),
    ensures r@ == s@,
{ let (c, e) = to_co_type(s); let x = match &e { Some(x) => Some(x.as_str()), None => None }; assert(ostr(x) == os(e)); to_cj_co_type(c, x) }
fn ss_round_trip(s: &str) -> (r: String)
    requires plus(s@) || ss_vocab(s@),
    ensures r@ == s@,
{ let (c, e) = to_semantic_surface_type(s); let x = match &e { Some(x) => Some(x.as_str()), None => None }; assert(ostr(x) == os(e)); semantic_surface_name(c, x) }
fn geom_round_trip(t: CjGeometryType) -> (r: CjGeometryType)
    requires !(t is GeometryInstance),
    ensures r == t,
{ to_geom_type(&t).to_cj() }
fn texture_round_trip(f: CjTextFormat, w: CjWrapMode, t: CjTextType) -> (r: (CjTextFormat, CjWrapMode, CjTextType))
    ensures r == (f, w, t),
{ (format_name(format_code(f)), wrap_name(wrap_code(&w)), texture_name(texture_code(&t))) }
fn main() {}
} // verus!
