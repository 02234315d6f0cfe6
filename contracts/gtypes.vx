// ---- geometry types
%%fbenum fb/geometry_generated.rs GeometryType
pub enum CjGeometryType { MultiPoint, MultiLineString, MultiSurface, CompositeSurface, Solid, MultiSolid, CompositeSolid, GeometryInstance }
pub open spec fn is_multi(t: GeometryType) -> bool { t == GeometryType::MultiSolid || t == GeometryType::CompositeSolid }
pub open spec fn type_of(t: CjGeometryType) -> GeometryType {
    match t {
        CjGeometryType::MultiPoint => GeometryType::MultiPoint, CjGeometryType::MultiLineString => GeometryType::MultiLineString, CjGeometryType::MultiSurface => GeometryType::MultiSurface,
        CjGeometryType::CompositeSurface => GeometryType::CompositeSurface, CjGeometryType::Solid => GeometryType::Solid, CjGeometryType::MultiSolid => GeometryType::MultiSolid,
        CjGeometryType::CompositeSolid => GeometryType::CompositeSolid, CjGeometryType::GeometryInstance => GeometryType::GeometryInstance,
    }
}
%%fn writer/serializer.rs "-" to_geom_type
%%ret r
%%spec
    ensures !(geometry_type is GeometryInstance) ==> r == type_of(*geometry_type),
%%done
%%fn reader/geom_decoder.rs "impl GeometryType" to_cj
%%ret r
%%spec
    ensures forall|t: CjGeometryType| self == #[trigger] type_of(t) && !(t is GeometryInstance) ==> r == t,
%%done
/// nesting depth of the boundaries of a geometry type
pub open spec fn depth_of(t: GeometryType) -> int {
    if t == GeometryType::MultiPoint { 1 } else if t == GeometryType::MultiLineString { 2 } else if t == GeometryType::MultiSurface || t == GeometryType::CompositeSurface { 3 }
    else if t == GeometryType::Solid { 4 } else if is_multi(t) { 5 } else { 0 }
}
