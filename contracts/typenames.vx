// ---- the CityJSON vocabulary of type names and the codes that stand for them
%%fbenum fb/feature_generated.rs CityObjectType
%%fbenum fb/geometry_generated.rs SemanticSurfaceType
/// two &str with the same characters are the same value (which is how Verus compares them in a match)
#[verifier::external_body]
pub broadcast proof fn axiom_str(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b {}
/// s.starts_with(c)
#[verifier::external_body]
pub fn starts_with(s: &str, c: char) -> (r: bool) ensures r == plus_of(s@, c) { s.starts_with(c) }
pub open spec fn plus_of(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
/// an extension name
pub open spec fn plus(s: Seq<char>) -> bool { plus_of(s, '+') }
/// the city object types of CityJSON 2.0
pub open spec fn co_vocab(s: Seq<char>) -> bool {
    ||| s == "Bridge"@
    ||| s == "BridgePart"@
    ||| s == "BridgeInstallation"@
    ||| s == "BridgeConstructiveElement"@
    ||| s == "BridgeRoom"@
    ||| s == "BridgeFurniture"@
    ||| s == "Building"@
    ||| s == "BuildingPart"@
    ||| s == "BuildingInstallation"@
    ||| s == "BuildingConstructiveElement"@
    ||| s == "BuildingFurniture"@
    ||| s == "BuildingStorey"@
    ||| s == "BuildingRoom"@
    ||| s == "BuildingUnit"@
    ||| s == "CityFurniture"@
    ||| s == "CityObjectGroup"@
    ||| s == "GenericCityObject"@
    ||| s == "LandUse"@
    ||| s == "OtherConstruction"@
    ||| s == "PlantCover"@
    ||| s == "SolitaryVegetationObject"@
    ||| s == "TINRelief"@
    ||| s == "Road"@
    ||| s == "Railway"@
    ||| s == "Waterway"@
    ||| s == "TransportSquare"@
    ||| s == "Tunnel"@
    ||| s == "TunnelPart"@
    ||| s == "TunnelInstallation"@
    ||| s == "TunnelConstructiveElement"@
    ||| s == "TunnelHollowSpace"@
    ||| s == "TunnelFurniture"@
    ||| s == "WaterBody"@
}
/// the semantic surface types of CityJSON 2.0
pub open spec fn ss_vocab(s: Seq<char>) -> bool {
    ||| s == "RoofSurface"@
    ||| s == "GroundSurface"@
    ||| s == "WallSurface"@
    ||| s == "ClosureSurface"@
    ||| s == "OuterCeilingSurface"@
    ||| s == "OuterFloorSurface"@
    ||| s == "Window"@
    ||| s == "Door"@
    ||| s == "InteriorWallSurface"@
    ||| s == "CeilingSurface"@
    ||| s == "FloorSurface"@
    ||| s == "WaterSurface"@
    ||| s == "WaterGroundSurface"@
    ||| s == "WaterClosureSurface"@
    ||| s == "TrafficArea"@
    ||| s == "AuxiliaryTrafficArea"@
    ||| s == "TransportationMarking"@
    ||| s == "TransportationHole"@
}
/// the name that a code stands for
pub open spec fn co_name(c: CityObjectType) -> Seq<char> {
    if c == CityObjectType::Bridge { "Bridge"@ }
    else if c == CityObjectType::BridgePart { "BridgePart"@ }
    else if c == CityObjectType::BridgeInstallation { "BridgeInstallation"@ }
    else if c == CityObjectType::BridgeConstructiveElement { "BridgeConstructiveElement"@ }
    else if c == CityObjectType::BridgeRoom { "BridgeRoom"@ }
    else if c == CityObjectType::BridgeFurniture { "BridgeFurniture"@ }
    else if c == CityObjectType::Building { "Building"@ }
    else if c == CityObjectType::BuildingPart { "BuildingPart"@ }
    else if c == CityObjectType::BuildingInstallation { "BuildingInstallation"@ }
    else if c == CityObjectType::BuildingConstructiveElement { "BuildingConstructiveElement"@ }
    else if c == CityObjectType::BuildingFurniture { "BuildingFurniture"@ }
    else if c == CityObjectType::BuildingStorey { "BuildingStorey"@ }
    else if c == CityObjectType::BuildingRoom { "BuildingRoom"@ }
    else if c == CityObjectType::BuildingUnit { "BuildingUnit"@ }
    else if c == CityObjectType::CityFurniture { "CityFurniture"@ }
    else if c == CityObjectType::CityObjectGroup { "CityObjectGroup"@ }
    else if c == CityObjectType::GenericCityObject { "GenericCityObject"@ }
    else if c == CityObjectType::LandUse { "LandUse"@ }
    else if c == CityObjectType::OtherConstruction { "OtherConstruction"@ }
    else if c == CityObjectType::PlantCover { "PlantCover"@ }
    else if c == CityObjectType::SolitaryVegetationObject { "SolitaryVegetationObject"@ }
    else if c == CityObjectType::TINRelief { "TINRelief"@ }
    else if c == CityObjectType::Road { "Road"@ }
    else if c == CityObjectType::Railway { "Railway"@ }
    else if c == CityObjectType::Waterway { "Waterway"@ }
    else if c == CityObjectType::TransportSquare { "TransportSquare"@ }
    else if c == CityObjectType::Tunnel { "Tunnel"@ }
    else if c == CityObjectType::TunnelPart { "TunnelPart"@ }
    else if c == CityObjectType::TunnelInstallation { "TunnelInstallation"@ }
    else if c == CityObjectType::TunnelConstructiveElement { "TunnelConstructiveElement"@ }
    else if c == CityObjectType::TunnelHollowSpace { "TunnelHollowSpace"@ }
    else if c == CityObjectType::TunnelFurniture { "TunnelFurniture"@ }
    else if c == CityObjectType::WaterBody { "WaterBody"@ }
    else { seq!['?'] }
}
/// a code that stands for a name of the vocabulary
pub open spec fn co_known(c: CityObjectType) -> bool {
    ||| c == CityObjectType::Bridge
    ||| c == CityObjectType::BridgePart
    ||| c == CityObjectType::BridgeInstallation
    ||| c == CityObjectType::BridgeConstructiveElement
    ||| c == CityObjectType::BridgeRoom
    ||| c == CityObjectType::BridgeFurniture
    ||| c == CityObjectType::Building
    ||| c == CityObjectType::BuildingPart
    ||| c == CityObjectType::BuildingInstallation
    ||| c == CityObjectType::BuildingConstructiveElement
    ||| c == CityObjectType::BuildingFurniture
    ||| c == CityObjectType::BuildingStorey
    ||| c == CityObjectType::BuildingRoom
    ||| c == CityObjectType::BuildingUnit
    ||| c == CityObjectType::CityFurniture
    ||| c == CityObjectType::CityObjectGroup
    ||| c == CityObjectType::GenericCityObject
    ||| c == CityObjectType::LandUse
    ||| c == CityObjectType::OtherConstruction
    ||| c == CityObjectType::PlantCover
    ||| c == CityObjectType::SolitaryVegetationObject
    ||| c == CityObjectType::TINRelief
    ||| c == CityObjectType::Road
    ||| c == CityObjectType::Railway
    ||| c == CityObjectType::Waterway
    ||| c == CityObjectType::TransportSquare
    ||| c == CityObjectType::Tunnel
    ||| c == CityObjectType::TunnelPart
    ||| c == CityObjectType::TunnelInstallation
    ||| c == CityObjectType::TunnelConstructiveElement
    ||| c == CityObjectType::TunnelHollowSpace
    ||| c == CityObjectType::TunnelFurniture
    ||| c == CityObjectType::WaterBody
}
pub open spec fn ss_name(c: SemanticSurfaceType) -> Seq<char> {
    if c == SemanticSurfaceType::RoofSurface { "RoofSurface"@ }
    else if c == SemanticSurfaceType::GroundSurface { "GroundSurface"@ }
    else if c == SemanticSurfaceType::WallSurface { "WallSurface"@ }
    else if c == SemanticSurfaceType::ClosureSurface { "ClosureSurface"@ }
    else if c == SemanticSurfaceType::OuterCeilingSurface { "OuterCeilingSurface"@ }
    else if c == SemanticSurfaceType::OuterFloorSurface { "OuterFloorSurface"@ }
    else if c == SemanticSurfaceType::Window { "Window"@ }
    else if c == SemanticSurfaceType::Door { "Door"@ }
    else if c == SemanticSurfaceType::InteriorWallSurface { "InteriorWallSurface"@ }
    else if c == SemanticSurfaceType::CeilingSurface { "CeilingSurface"@ }
    else if c == SemanticSurfaceType::FloorSurface { "FloorSurface"@ }
    else if c == SemanticSurfaceType::WaterSurface { "WaterSurface"@ }
    else if c == SemanticSurfaceType::WaterGroundSurface { "WaterGroundSurface"@ }
    else if c == SemanticSurfaceType::WaterClosureSurface { "WaterClosureSurface"@ }
    else if c == SemanticSurfaceType::TrafficArea { "TrafficArea"@ }
    else if c == SemanticSurfaceType::AuxiliaryTrafficArea { "AuxiliaryTrafficArea"@ }
    else if c == SemanticSurfaceType::TransportationMarking { "TransportationMarking"@ }
    else if c == SemanticSurfaceType::TransportationHole { "TransportationHole"@ }
    else { seq!['?'] }
}
/// a code that stands for a name of the vocabulary
pub open spec fn ss_known(c: SemanticSurfaceType) -> bool {
    ||| c == SemanticSurfaceType::RoofSurface
    ||| c == SemanticSurfaceType::GroundSurface
    ||| c == SemanticSurfaceType::WallSurface
    ||| c == SemanticSurfaceType::ClosureSurface
    ||| c == SemanticSurfaceType::OuterCeilingSurface
    ||| c == SemanticSurfaceType::OuterFloorSurface
    ||| c == SemanticSurfaceType::Window
    ||| c == SemanticSurfaceType::Door
    ||| c == SemanticSurfaceType::InteriorWallSurface
    ||| c == SemanticSurfaceType::CeilingSurface
    ||| c == SemanticSurfaceType::FloorSurface
    ||| c == SemanticSurfaceType::WaterSurface
    ||| c == SemanticSurfaceType::WaterGroundSurface
    ||| c == SemanticSurfaceType::WaterClosureSurface
    ||| c == SemanticSurfaceType::TrafficArea
    ||| c == SemanticSurfaceType::AuxiliaryTrafficArea
    ||| c == SemanticSurfaceType::TransportationMarking
    ||| c == SemanticSurfaceType::TransportationHole
}
/// the code (and extension name) c, e is what the name s is stored as
pub open spec fn co_code(s: Seq<char>, c: CityObjectType, e: Option<Seq<char>>) -> bool {
    if plus(s) { c == CityObjectType::ExtensionObject && e == Some(s) } else { co_vocab(s) ==> co_known(c) && co_name(c) == s && e is None }
}
pub open spec fn ss_code(s: Seq<char>, c: SemanticSurfaceType, e: Option<Seq<char>>) -> bool {
    if plus(s) { c == SemanticSurfaceType::ExtraSemanticSurface && e == Some(s) } else { ss_vocab(s) ==> ss_known(c) && ss_name(c) == s && e is None }
}
%%fn writer/serializer.rs "-" to_co_type
%%ret r
%%sub `co_type.starts_with('+')` => `starts_with(co_type, '+')`
%%spec
    ensures co_code(co_type@, r.0, os(r.1)),
%%start
    broadcast use axiom_str;
%%done
%%fn reader/deserializer.rs "-" to_cj_co_type
%%ret r
%%spec
    ensures forall|s: Seq<char>| (plus(s) || co_vocab(s)) && #[trigger] co_code(s, co_type, ostr(extension_type)) ==> r@ == s,
%%done
%%fn writer/serializer.rs "-" to_semantic_surface_type
%%ret r
%%sub `ss_type.starts_with('+')` => `starts_with(ss_type, '+')`
%%spec
    ensures ss_code(ss_type@, r.0, os(r.1)),
%%start
    broadcast use axiom_str;
%%done
