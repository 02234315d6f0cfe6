//! random CityJSON files: header, features, attributes, geometry; writing and reading them; comparison
use crate::util::*;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::fb::ColumnType;
use fcb_core::{FcbReader, FcbWriter};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek};

pub const CO_TYPES: [&str; 33] = [
    "Bridge", "BridgePart", "BridgeInstallation", "BridgeConstructiveElement", "BridgeRoom", "BridgeFurniture", "Building", "BuildingPart",
    "BuildingInstallation", "BuildingConstructiveElement", "BuildingFurniture", "BuildingStorey", "BuildingRoom", "BuildingUnit", "CityFurniture",
    "CityObjectGroup", "GenericCityObject", "LandUse", "OtherConstruction", "PlantCover", "SolitaryVegetationObject", "TINRelief", "Road", "Railway",
    "Waterway", "TransportSquare", "Tunnel", "TunnelPart", "TunnelInstallation", "TunnelConstructiveElement", "TunnelHollowSpace", "TunnelFurniture",
    "WaterBody",
];
pub const SEM_TYPES: [&str; 18] = [
    "RoofSurface", "GroundSurface", "WallSurface", "ClosureSurface", "OuterCeilingSurface", "OuterFloorSurface", "Window", "Door",
    "InteriorWallSurface", "CeilingSurface", "FloorSurface", "WaterSurface", "WaterGroundSurface", "WaterClosureSurface", "TrafficArea",
    "AuxiliaryTrafficArea", "TransportationMarking", "TransportationHole",
];
pub const GEOM: [(&str, usize); 7] =
    [("MultiPoint", 1), ("MultiLineString", 2), ("MultiSurface", 3), ("CompositeSurface", 3), ("Solid", 4), ("MultiSolid", 5), ("CompositeSolid", 5)];

pub fn word(r: &mut Rng) -> String {
    let n = r.us(0, 6);
    (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '0', ' ', '_', '\u{e9}', '\u{4e2d}', '"', '\\', '\n'])).collect()
}
pub fn co_type(r: &mut Rng) -> String {
    if r.chance(1, 8) { format!("+{}", *r.pick(&["GenericCityObject", "Shed", "A.B", "", "+x", " y "])) } else { r.pick(&CO_TYPES).to_string() }
}
pub fn sem_type(r: &mut Rng) -> String {
    if r.chance(1, 6) { format!("+{}", *r.pick(&["Thermal", "Roof", "", "+Roof", " +"])) } else { r.pick(&SEM_TYPES).to_string() }
}

/// nesting of a geometry: counts only; the leaves are rings (or the point list)
#[derive(Clone, Debug)]
pub enum Nest {
    Leaf(usize),
    Node(Vec<Nest>),
}
pub fn nest(r: &mut Rng, depth: usize, top: bool) -> Nest {
    if depth == 1 {
        return Nest::Leaf(if r.chance(1, 40) { 0 } else { r.us(1, 5) });
    }
    let n = if top { *r.pick(&[1usize, 1, 2, 2, 3, 4]) } else { *r.pick(&[1usize, 1, 1, 2, 2, 3]) };
    Nest::Node((0..n).map(|_| nest(r, depth - 1, false)).collect())
}
pub fn fill(n: &Nest, f: &mut dyn FnMut() -> Value) -> Value {
    match n {
        Nest::Leaf(k) => Value::Array((0..*k).map(|_| f()).collect()),
        Nest::Node(v) => Value::Array(v.iter().map(|x| fill(x, f)).collect()),
    }
}
/// one value for every surface: cuts the nesting two levels above the points
fn per_surface(n: &Nest, depth: usize, f: &mut dyn FnMut() -> Value) -> Value {
    match n {
        Nest::Node(v) if depth > 3 => Value::Array(v.iter().map(|x| per_surface(x, depth - 1, f)).collect()),
        Nest::Node(v) => Value::Array(v.iter().map(|_| f()).collect()),
        Nest::Leaf(k) => Value::Array((0..*k).map(|_| f()).collect()),
    }
}
fn per_ring(n: &Nest, f: &mut dyn FnMut(usize) -> Value) -> Value {
    match n {
        Nest::Leaf(k) => f(*k),
        Nest::Node(v) => Value::Array(v.iter().map(|x| per_ring(x, f)).collect()),
    }
}
fn themes(r: &mut Rng) -> Vec<String> {
    let mut v = vec!["summer".to_string(), "theme".into(), "".into(), "w\u{e9}".into()];
    while v.len() > r.us(1, 3) {
        let k = r.below(v.len() as u64) as usize;
        v.remove(k);
    }
    v
}

pub struct GOpt {
    pub sem: bool,
    pub app: bool,
    pub attrs: Vec<(String, u64)>,
    pub nv: usize,
}
pub fn geometry(r: &mut Rng, o: &GOpt) -> Value {
    let (t, depth) = *r.pick(&GEOM);
    let n = nest(r, depth, true);
    let nv = o.nv.max(1) as i64;
    let mut g = Map::new();
    g.insert("type".into(), json!(t));
    if r.chance(5, 6) {
        g.insert("lod".into(), json!(*r.pick(&["0", "1.2", "2", "2.2", "3", ""])));
    }
    let b = fill(&n, &mut || json!(if r.chance(1, 20) { r.below(u32::MAX as u64 + 1) as i64 } else { r.int(0, nv - 1) }));
    g.insert("boundaries".into(), b);
    if o.sem && r.chance(2, 3) {
        let ns = r.us(0, 4);
        let surfaces: Vec<Value> = (0..ns)
            .map(|_| {
                let mut s = Map::new();
                s.insert("type".into(), json!(sem_type(r)));
                if r.chance(1, 3) {
                    s.insert("parent".into(), json!(r.below(5)));
                }
                if r.chance(1, 3) {
                    let c: Vec<u64> = (0..r.us(0, 3)).map(|_| r.below(9)).collect();
                    s.insert("children".into(), json!(c));
                }
                for (k, t) in &o.attrs {
                    if r.chance(1, 2) {
                        s.insert(k.clone(), attr_value(r, *t));
                    }
                }
                Value::Object(s)
            })
            .collect();
        let values = per_surface(&n, depth, &mut || if ns == 0 || r.chance(1, 5) { Value::Null } else { json!(r.below(ns as u64)) });
        g.insert("semantics".into(), json!({"surfaces": surfaces, "values": values}));
    }
    if o.app && depth >= 3 {
        if r.chance(1, 2) {
            let mut m = Map::new();
            for th in themes(r) {
                let v = if r.chance(1, 3) {
                    json!({"value": r.below(5)})
                } else {
                    json!({"values": per_surface(&n, depth, &mut || if r.chance(1, 5) { Value::Null } else { json!(r.below(6)) })})
                };
                m.insert(th, v);
            }
            g.insert("material".into(), Value::Object(m));
        }
        if r.chance(1, 2) {
            let mut m = Map::new();
            for th in themes(r) {
                let v = per_ring(&n, &mut |k| {
                    if r.chance(1, 4) { json!([null]) } else { Value::Array((0..k + 1).map(|_| json!(r.below(9))).collect()) }
                });
                m.insert(th, json!({ "values": v }));
            }
            g.insert("texture".into(), Value::Object(m));
        }
    }
    Value::Object(g)
}

/// kinds of attribute values: 0 bool 1 u64 2 i64 3 f64 4 string 5 datetime 6 array 7 object 8 mixed numbers 9 mixed strings 10 anything
pub fn attr_value(r: &mut Rng, kind: u64) -> Value {
    match kind {
        0 => json!(r.chance(1, 2)),
        1 => r.pick(&[json!(0u64), json!(1u64), json!(7u64), json!(u64::MAX), json!(i64::MAX as u64), json!(i64::MAX as u64 + 1), json!(4294967296u64)]).clone(),
        2 => r.pick(&[json!(-1i64), json!(i64::MIN), json!(-7i64), json!(0), json!(5), json!(i64::MAX), json!(i32::MIN as i64 - 1)]).clone(),
        3 => r.pick(&[json!(0.5), json!(-2.25), json!(1e300), json!(0.1), json!(-0.0), json!(3.0), json!(5e-324), json!(-1e10)]).clone(),
        4 => match r.below(4) {
            0 => json!(word(r)),
            1 => json!(format!("NL.{}", r.below(30))),
            2 => json!("x".repeat(*r.pick(&[0usize, 1, 49, 50, 51, 200]))),
            _ => json!(*r.pick(&["", "a", "ab", "b", "\u{e9}", "2010-13-13"])),
        },
        5 => json!(*r.pick(&["2010-10-13T12:29:24Z", "1950-01-01T00:00:00+02:00", "2010-10-13T12:29:24.5Z", "2010-10-13T12:29:24.123456789-05:30", "0001-01-01T00:00:00Z"])),
        6 => json!([r.below(9), null, word(r), [true]]),
        7 => json!({ "k": r.below(9), "n": { "x": word(r) } }),
        8 => {
            let k = *r.pick(&[1u64, 2, 3]);
            let v = attr_value(r, k);
            if v.as_u64().is_some_and(|x| x > i64::MAX as u64) { json!(4) } else { v }
        }
        9 => {
            let k = *r.pick(&[4u64, 5]);
            attr_value(r, k)
        }
        _ => {
            let k = *r.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7]);
            let v = attr_value(r, k);
            if v.as_u64().is_some_and(|x| x > i64::MAX as u64) { json!(4) } else { v }
        }
    }
    .clone()
}
pub fn attr_names(r: &mut Rng) -> Vec<(String, u64)> {
    let n = r.us(0, 7);
    let mut v: Vec<(String, u64)> = vec![];
    for i in 0..n {
        let base = *r.pick(&["h", "b3_dak", "id", "naam", "json", "\u{e9}t\u{e9}", "x"]);
        v.push((format!("{base}{i}"), r.below(11)));
    }
    v
}
pub fn attrs(r: &mut Rng, names: &[(String, u64)]) -> Value {
    let mut m = Map::new();
    for (k, t) in names {
        match r.below(8) {
            0 => {}
            1 => {
                m.insert(k.clone(), Value::Null);
            }
            _ => {
                m.insert(k.clone(), attr_value(r, *t));
            }
        }
    }
    Value::Object(m)
}

pub fn appearance(r: &mut Rng) -> Value {
    let mut a = Map::new();
    let f = |r: &mut Rng| *r.pick(&[0.0, 0.25, 1.0, 0.1]);
    if r.chance(2, 3) {
        let v: Vec<Value> = (0..r.us(0, 3))
            .map(|_| {
                let mut m = Map::new();
                m.insert("name".into(), json!(word(r)));
                for k in ["ambientIntensity", "shininess", "transparency"] {
                    if r.chance(1, 2) {
                        m.insert(k.into(), json!(f(r)));
                    }
                }
                for k in ["diffuseColor", "emissiveColor", "specularColor"] {
                    if r.chance(1, 2) {
                        m.insert(k.into(), json!([f(r), f(r), f(r)]));
                    }
                }
                if r.chance(1, 2) {
                    m.insert("isSmooth".into(), json!(r.chance(1, 2)));
                }
                Value::Object(m)
            })
            .collect();
        a.insert("materials".into(), json!(v));
    }
    if r.chance(2, 3) {
        let v: Vec<Value> = (0..r.us(0, 3))
            .map(|_| {
                let mut m = Map::new();
                m.insert("type".into(), json!(*r.pick(&["PNG", "JPG"])));
                m.insert("image".into(), json!(word(r)));
                if r.chance(2, 3) {
                    m.insert("wrapMode".into(), json!(*r.pick(&["none", "wrap", "mirror", "clamp", "border"])));
                }
                if r.chance(2, 3) {
                    m.insert("textureType".into(), json!(*r.pick(&["unknown", "specific", "typical"])));
                }
                if r.chance(1, 2) {
                    m.insert("borderColor".into(), json!([f(r), f(r), f(r), f(r)]));
                }
                Value::Object(m)
            })
            .collect();
        a.insert("textures".into(), json!(v));
    }
    if r.chance(1, 2) {
        let v: Vec<Value> = (0..r.us(0, 4)).map(|_| json!([f(r), f(r)])).collect();
        a.insert("vertices-texture".into(), json!(v));
    }
    if r.chance(1, 2) {
        a.insert("default-theme-texture".into(), json!(word(r)));
    }
    if r.chance(1, 2) {
        a.insert("default-theme-material".into(), json!(word(r)));
    }
    Value::Object(a)
}

pub struct Opt {
    pub geom: bool,
    pub app: bool,
    pub inst: bool,
    pub sem_attrs: Vec<(String, u64)>,
    pub names: Vec<(String, u64)>,
    pub spread: i64,
    pub max_obj: usize,
    pub free_types: bool,
}
fn vertex(r: &mut Rng, spread: i64, c: (i64, i64)) -> Value {
    if spread < 0 {
        let e = [i32::MIN as i64, i32::MAX as i64, 0, -1];
        return json!([*r.pick(&e), *r.pick(&e), *r.pick(&e)]);
    }
    json!([c.0 + r.int(0, 9), c.1 + r.int(0, 9), r.int(-50, 50)])
}
pub fn feature(r: &mut Rng, i: usize, o: &Opt) -> CityJSONFeature {
    let s = o.spread.max(1);
    let c = (r.int(-s, s), r.int(-s, s));
    let nv = r.us(1, 6);
    let verts: Vec<Value> = (0..nv).map(|_| vertex(r, o.spread, c)).collect();
    let id = if r.chance(1, 10) { format!("{}#{i}", word(r)) } else { format!("f{i}") };
    let no = if o.max_obj == 0 { 1 } else { r.us(1, o.max_obj) };
    let mut objs = Map::new();
    for k in 0..no {
        let mut co = Map::new();
        co.insert("type".into(), json!(if o.free_types { co_type(r) } else { "Building".into() }));
        if r.chance(1, 3) {
            co.insert("geographicalExtent".into(), json!([0.5, -1.25, 0.0, 9.0, 1e6, r.int(0, 99) as f64]));
        }
        if !o.names.is_empty() && r.chance(9, 10) {
            co.insert("attributes".into(), attrs(r, &o.names));
        }
        if o.geom && r.chance(4, 5) {
            let g = GOpt { sem: true, app: o.app, attrs: o.sem_attrs.clone(), nv };
            let mut gs: Vec<Value> = (0..r.us(0, 3)).map(|_| geometry(r, &g)).collect();
            if o.inst {
                for _ in 0..r.us(0, 2) {
                    let m: Vec<f64> = (0..16).map(|_| r.int(-8, 8) as f64 / 4.0).collect();
                    gs.push(json!({"type": "GeometryInstance", "template": r.below(3), "boundaries": [r.below(nv as u64)], "transformationMatrix": m}));
                }
            }
            co.insert("geometry".into(), json!(gs));
        }
        if r.chance(1, 3) {
            let v: Vec<String> = (0..r.us(0, 3)).map(|j| format!("c{j}")).collect();
            co.insert("children".into(), json!(v));
        }
        if r.chance(1, 4) {
            let v: Vec<String> = (0..r.us(0, 3)).map(|_| word(r)).collect();
            co.insert("children_roles".into(), json!(v));
        }
        if r.chance(1, 3) {
            co.insert("parents".into(), json!([format!("p{k}")]));
        }
        objs.insert(format!("{id}-{k}"), Value::Object(co));
    }
    let mut f = Map::new();
    f.insert("type".into(), json!("CityJSONFeature"));
    f.insert("id".into(), json!(id));
    f.insert("CityObjects".into(), Value::Object(objs));
    f.insert("vertices".into(), json!(verts));
    if o.app && r.chance(1, 2) {
        f.insert("appearance".into(), appearance(r));
    }
    serde_json::from_value(Value::Object(f)).unwrap()
}

pub fn header(r: &mut Rng, templates: bool, sem_attrs: &[(String, u64)]) -> CityJSON {
    let mut h = Map::new();
    h.insert("type".into(), json!("CityJSON"));
    h.insert("version".into(), json!(*r.pick(&["2.0", "1.1", "2.0.1"])));
    let sc = *r.pick(&[1.0, 0.001, 0.5, 2.0]);
    h.insert("transform".into(), json!({"scale": [sc, *r.pick(&[sc, 0.25]), 0.001], "translate": [*r.pick(&[0.0, 84000.125, -3.5]), *r.pick(&[0.0, 447000.0]), 1.0]}));
    h.insert("CityObjects".into(), json!({}));
    h.insert("vertices".into(), json!([]));
    if r.chance(2, 3) {
        let mut m = Map::new();
        if r.chance(1, 2) {
            m.insert("geographicalExtent".into(), json!([-1.5, 0.0, 2.0, 9.25, 1e9, 3.0]));
        }
        for k in ["identifier", "referenceDate", "title"] {
            if r.chance(1, 2) {
                m.insert(k.into(), json!(word(r)));
            }
        }
        if r.chance(1, 2) {
            m.insert("referenceSystem".into(), {
                let code = if r.chance(1, 4) { (*r.pick(&["CRS84", "07", "99999999999", "-0"])).to_string() } else { r.below(9999).to_string() };
                let (base, version) = if r.chance(1, 8) { ("http:", "9.9.1") } else { ("https:", if r.chance(1, 2) { "0" } else { "2" }) };
                json!(format!("{base}//www.opengis.net/def/crs/{}/{version}/{code}", *r.pick(&["EPSG", "OGC"])))
            });
        }
        if r.chance(1, 2) {
            let mut p = Map::new();
            p.insert("contactName".into(), json!(word(r)));
            p.insert("emailAddress".into(), json!(word(r)));
            for k in ["contactType", "role", "phone", "website"] {
                if r.chance(1, 2) {
                    p.insert(k.into(), json!(word(r)));
                }
            }
            if r.chance(1, 2) {
                p.insert("address".into(), json!({"thoroughfareNumber": r.int(-3, 900), "thoroughfareName": word(r), "locality": word(r), "postalCode": word(r), "country": word(r)}));
            }
            m.insert("pointOfContact".into(), Value::Object(p));
        }
        h.insert("metadata".into(), Value::Object(m));
    }
    if templates {
        let g = GOpt { sem: true, app: true, attrs: sem_attrs.to_vec(), nv: 5 };
        let ts: Vec<Value> = (0..r.us(0, 3)).map(|_| geometry(r, &g)).collect();
        let vs: Vec<Value> = (0..r.us(0, 4)).map(|_| json!([r.int(-9, 9) as f64 / 8.0, 0.1, -0.5])).collect();
        h.insert("geometry-templates".into(), json!({"templates": ts, "vertices-templates": vs}));
    }
    let cj: CityJSON = serde_json::from_value(Value::Object(h)).unwrap();
    cj
}

pub fn schema_of(feats: &[CityJSONFeature]) -> AttributeSchema {
    let mut s = AttributeSchema::new();
    for f in feats {
        let objs: BTreeMap<_, _> = f.city_objects.iter().collect();
        for co in objs.values() {
            if let Some(a) = &co.attributes {
                s.add_attributes(a);
            }
        }
    }
    s
}
pub fn sem_schema_of(feats: &[CityJSONFeature], cj: &CityJSON) -> AttributeSchema {
    let mut s = AttributeSchema::new();
    let t = cj.geometry_templates.iter().flat_map(|t| t.templates.iter());
    for g in feats.iter().flat_map(|f| f.city_objects.values()).flat_map(|c| c.geometry.iter().flatten()).chain(t) {
        for x in g.semantics.iter().flat_map(|s| s.surfaces.iter()) {
            if let Some(o) = &x.other {
                s.add_attributes(o);
            }
        }
    }
    s
}

pub struct File {
    pub cj: CityJSON,
    pub feats: Vec<CityJSONFeature>,
    pub schema: AttributeSchema,
    pub sem: Option<AttributeSchema>,
    pub indexed: Vec<(String, Option<u16>)>,
    pub write_index: bool,
    pub bytes: Vec<u8>,
}
pub fn write(cj: &CityJSON, feats: &[CityJSONFeature], schema: &AttributeSchema, sem: &Option<AttributeSchema>, indexed: &[(String, Option<u16>)], write_index: bool, ge: Option<[f64; 6]>) -> Result<Vec<u8>, String> {
    let opt = HeaderWriterOptions {
        write_index,
        feature_count: 3,
        index_node_size: 16,
        attribute_indices: if indexed.is_empty() { None } else { Some(indexed.to_vec()) },
        geographical_extent: ge,
    };
    let mut w = FcbWriter::new(cj.clone(), Some(opt), Some(schema.clone()), sem.clone()).map_err(|e| format!("FcbWriter::new: {e}"))?;
    for f in feats {
        w.add_feature(f).map_err(|e| format!("add_feature: {e}"))?;
    }
    let mut out = vec![];
    w.write(&mut out).map_err(|e| format!("write: {e}"))?;
    Ok(out)
}

/// numbers by value (an integer in a Double column comes back as a float), null attributes dropped
pub fn same(a: &Value, b: &Value, path: &str) -> Result<(), String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let ok = if x.is_f64() || y.is_f64() {
                let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                x == y
            } else {
                x == y
            };
            if ok { Ok(()) } else { Err(format!("{path}: {a} became {b}")) }
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Err(format!("{path}: {a} became {b}"));
            }
            x.iter().zip(y).enumerate().try_for_each(|(i, (p, q))| same(p, q, &format!("{path}[{i}]")))
        }
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => same(v, w, &format!("{path}.{k}"))?,
                    None => return Err(format!("{path}.{k}: {v} is missing")),
                }
            }
            for (k, w) in y {
                if !x.contains_key(k) {
                    return Err(format!("{path}.{k}: {w} appeared"));
                }
            }
            Ok(())
        }
        _ => {
            if a == b { Ok(()) } else { Err(format!("{path}: {a} became {b}")) }
        }
    }
}
/// what a feature is expected to come back as
pub fn norm(f: &CityJSONFeature) -> Value {
    let mut v = serde_json::to_value(f).unwrap();
    let objs = v["CityObjects"].as_object_mut().unwrap();
    for co in objs.values_mut() {
        let co = co.as_object_mut().unwrap();
        if let Some(a) = co.get_mut("attributes").and_then(|a| a.as_object_mut()) {
            let nulls: Vec<String> = a.iter().filter(|(_, v)| v.is_null()).map(|(k, _)| k.clone()).collect();
            for k in nulls {
                a.remove(&k);
            }
        }
        if co.get("geometry").and_then(|g| g.as_array()).is_some_and(|g| g.is_empty()) {
            co.remove("geometry");
        }
        for g in co.get_mut("geometry").and_then(|g| g.as_array_mut()).into_iter().flatten() {
            norm_geometry(g);
        }
    }
    v
}
pub fn norm_geometry(g: &mut Value) {
    let surfaces = g.get_mut("semantics").and_then(|s| s.get_mut("surfaces")).and_then(|s| s.as_array_mut());
    for s in surfaces.into_iter().flatten() {
        let s = s.as_object_mut().unwrap();
        let nulls: Vec<String> = s.iter().filter(|(_, v)| v.is_null()).map(|(k, _)| k.clone()).collect();
        for k in nulls {
            s.remove(&k);
        }
    }
}
pub fn check_feature(want: &CityJSONFeature, got: &CityJSONFeature) -> R {
    same(&norm(want), &norm(got), &format!("feature {}", want.id))
}

pub enum Sel {
    All,
    Spatial(fcb_core::SpatialQuery),
    Attr(fcb_core::AttrQuery),
}
pub fn clone_sel(s: &Sel) -> Sel {
    use fcb_core::SpatialQuery as Q;
    match s {
        Sel::All => Sel::All,
        Sel::Spatial(q) => Sel::Spatial(match q {
            Q::BBox(a, b, c, d) => Q::BBox(*a, *b, *c, *d),
            Q::PointIntersects(a, b) => Q::PointIntersects(*a, *b),
            Q::PointNearest(a, b) => Q::PointNearest(*a, *b),
        }),
        Sel::Attr(q) => Sel::Attr(q.clone()),
    }
}
struct Slow<'a>(Cursor<&'a [u8]>, u64);
impl Read for Slow<'_> {
    // short reads, as a pipe gives them
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let n = b.len().min(1 + (self.1 >> 40) as usize % 700);
        self.0.read(&mut b[..n])
    }
}
type Read1 = Result<(Vec<CityJSONFeature>, Option<usize>), String>;
pub fn read_seek(bytes: &[u8], s: Sel) -> Read1 {
    fn go<R: Read + Seek>(r: FcbReader<R>, s: Sel) -> Read1 {
        let e = |e: fcb_core::error::Error| format!("error: {e}");
        let mut it = match s {
            Sel::All => r.select_all().map_err(e)?,
            Sel::Spatial(q) => r.select_query(q).map_err(e)?,
            Sel::Attr(q) => r.select_attr_query(q).map_err(e)?,
        };
        let n = it.features_count();
        let mut v = vec![];
        while let Some(f) = it.next().map_err(|e| format!("error: {e}"))? {
            v.push(f.cur_cj_feature().map_err(|e| format!("error: {e}"))?);
        }
        Ok((v, n))
    }
    go(FcbReader::open(Cursor::new(bytes)).map_err(|e| format!("error: {e}"))?, s)
}
pub fn read_seq(bytes: &[u8], s: Sel) -> Read1 {
    let e = |e: fcb_core::error::Error| format!("error: {e}");
    let r = FcbReader::open(Slow(Cursor::new(bytes), 7)).map_err(e)?;
    let mut it = match s {
        Sel::All => r.select_all_seq().map_err(e)?,
        Sel::Spatial(q) => r.select_query_seq(q).map_err(e)?,
        Sel::Attr(q) => r.select_attr_query_seq(q).map_err(e)?,
    };
    let n = it.features_count();
    let mut v = vec![];
    while let Some(f) = it.next().map_err(|e| format!("error: {e}"))? {
        v.push(f.cur_cj_feature().map_err(|e| format!("error: {e}"))?);
    }
    Ok((v, n))
}
pub fn read_http(bytes: &[u8], s: Sel) -> Read1 {
    block_on(async {
        let e = |e: fcb_core::error::Error| format!("error: {e}");
        let r = fcb_core::HttpFcbReader::new(client(bytes.to_vec())).await.map_err(e)?;
        let mut it = match s {
            Sel::All => r.select_all().await.map_err(e)?,
            Sel::Spatial(q) => r.select_query(q).await.map_err(e)?,
            Sel::Attr(q) => r.select_attr_query(&q).await.map_err(e)?,
        };
        let n = it.features_count();
        let mut v = vec![];
        while let Some(f) = it.next().await.map_err(|e| format!("error: {e}"))? {
            v.push(f.cj_feature().map_err(|e| format!("error: {e}"))?);
        }
        Ok((v, n))
    })
}
pub fn ids(v: &[CityJSONFeature]) -> Vec<String> {
    v.iter().map(|f| f.id.clone()).collect()
}
pub fn column_of(s: &AttributeSchema, k: &str) -> Option<ColumnType> {
    s.get(k).map(|x| x.1)
}
