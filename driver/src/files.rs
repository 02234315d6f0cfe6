//! whole files: writer against reader (sequential, seeking, over range requests)
use crate::gen::*;
use crate::util::*;
use cjseq::CityJSONFeature;
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::fb::ColumnType;
use fcb_core::{FcbReader, FixedStringKey, KeyType, Operator, SpatialQuery};
use ordered_float::OrderedFloat;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;

pub const RULE09: &str = "features whose objects and semantic surfaces carry random attributes (all JSON kinds, nulls, missing, mixed kinds under one name, hand-made schemas with small integer and float columns, keys outside the schema); every non-null value must come back equal; non-trivial: at least 3 values";
pub const RULE10: &str = "features with random geometries of the seven boundary types (nesting, several solids, shells, surfaces, rings, holes), geometry instances and semantics with nulls; compared field by field; non-trivial: at least two geometries";
pub const RULE11: &str = "as for geometry, with material and texture references (single values, nulls, several themes) and appearances of features; compared field by field; non-trivial: some material or texture values";
pub const RULE12: &str = "every CityObject type, semantic surface type, geometry type and extension type, texture and wrap mode, written and read back; non-trivial: all";
pub const RULE13: &str = "random headers (transform, extent, metadata, contact, reference system, geometry templates); decoded header compared field by field, columns compared with the schema; non-trivial: metadata present";
pub const RULE14: &str = "files of 0..400 features with every part of a feature random; each reader must give each feature once, equal to what was written, all readers in the same order; non-trivial: more than 16 features";
pub const RULE15: &str = "files of 1..400 features; box, point and nearest queries through each reader compared with a scan of the features' boxes; non-trivial: some but not all features match";
pub const RULE16: &str = "files of 1..150 features with indexed attributes of every inferred and several hand-made types; queries of 1..3 conditions through each reader compared with a scan of the attribute values; non-trivial: some but not all features match";
pub const RULE17: &str = "damaged copies of written files: magic bytes, version, header size, header contents, cut at any byte; opening must fail with an error where the damage is one the format detects, and reading never panics or yields a feature that was not written; non-trivial: the header was damaged or the file was cut inside the features";
pub const RULE18: &str = "written files read over range requests in every way, compared with the local reader; no request starts at or past the end of the file; non-trivial: more than one feature";

fn names_for(r: &mut Rng) -> Vec<(String, u64)> {
    attr_names(r)
}
fn opts(r: &mut Rng, geom: bool, app: bool) -> Opt {
    Opt { geom, app, inst: geom && r.chance(1, 3), sem_attrs: vec![], names: vec![], spread: *r.pick(&[5i64, 50, 1000, 100000]), max_obj: 3, free_types: true }
}
fn readers(bytes: &[u8], sel: &dyn Fn() -> Sel) -> Result<Vec<(&'static str, Vec<CityJSONFeature>, Option<usize>)>, String> {
    let mut v = vec![];
    for (n, f) in [("seek", read_seek as fn(&[u8], Sel) -> _), ("seq", read_seq), ("http", read_http)] {
        let (a, c) = f(bytes, sel()).map_err(|e| format!("{n} reader: {e}"))?;
        v.push((n, a, c));
    }
    Ok(v)
}
/// every feature exactly once, equal to what was written
fn same_set(name: &str, want: &[&CityJSONFeature], got: &[CityJSONFeature]) -> R {
    let mut by: BTreeMap<&str, &CityJSONFeature> = want.iter().map(|f| (f.id.as_str(), *f)).collect();
    if by.len() != want.len() {
        return Err("generator: duplicate id".into());
    }
    for g in got {
        match by.remove(g.id.as_str()) {
            None => return Err(format!("{name} reader gives feature {:?}, which should not be there (or comes twice)", g.id)),
            Some(w) => check_feature(w, g).map_err(|e| format!("{name} reader: {e}"))?,
        }
    }
    if let Some(k) = by.keys().next() {
        return Err(format!("{name} reader does not give feature {k:?} ({} of {} given)", got.len(), want.len()));
    }
    Ok(())
}
fn roundtrip(cj: &cjseq::CityJSON, feats: &[CityJSONFeature], schema: &AttributeSchema, sem: &Option<AttributeSchema>) -> R {
    let bytes = write(cj, feats, schema, sem, &[], true, None)?;
    let want: Vec<&CityJSONFeature> = feats.iter().collect();
    let (got, _) = read_seek(&bytes, Sel::All)?;
    same_set("seek", &want, &got)
}
fn show(feats: &[CityJSONFeature]) -> String {
    let mut s = serde_json::to_string(&feats).unwrap();
    if s.len() > 6000 {
        let mut k = 6000;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
    }
    s
}

/// hand-made columns and values that fit them
fn hand(r: &mut Rng, f: &mut [CityJSONFeature]) -> AttributeSchema {
    let types = [ColumnType::Int, ColumnType::UInt, ColumnType::Short, ColumnType::UShort, ColumnType::Float, ColumnType::Bool, ColumnType::Double, ColumnType::Json, ColumnType::Long, ColumnType::ULong, ColumnType::String, ColumnType::DateTime];
    let n = r.us(1, 8);
    let cols: Vec<(String, ColumnType)> = (0..n).map(|i| (format!("c{i}"), *r.pick(&types))).collect();
    let mut ix: Vec<u16> = (0..n as u16).collect();
    for i in (1..n).rev() {
        ix.swap(i, r.us(0, i));
    }
    for x in f.iter_mut() {
        for co in x.city_objects.values_mut() {
            let mut m = serde_json::Map::new();
            for (k, t) in &cols {
                if r.chance(1, 5) {
                    continue;
                }
                m.insert(k.clone(), hand_value(r, *t));
            }
            co.attributes = Some(Value::Object(m));
        }
    }
    cols.iter().enumerate().map(|(i, (k, t))| (k.clone(), (ix[i], *t))).collect()
}
pub fn hand_value(r: &mut Rng, t: ColumnType) -> Value {
    match t {
        ColumnType::Int => json!(*r.pick(&[i32::MIN, -1, 0, 1, 77, i32::MAX])),
        ColumnType::UInt => json!(*r.pick(&[0u32, 1, 99, 65536, u32::MAX])),
        ColumnType::Short => json!(*r.pick(&[i16::MIN, -1, 0, 300, i16::MAX])),
        ColumnType::UShort => json!(*r.pick(&[0u16, 1, 256, u16::MAX])),
        ColumnType::Float => json!(*r.pick(&[0.5f32, -1.25, 3.0, 1e30, f32::MIN]) as f64),
        ColumnType::Bool => attr_value(r, 0),
        ColumnType::Double => attr_value(r, 3),
        ColumnType::Json => attr_value(r, 10),
        ColumnType::Long => attr_value(r, 2),
        ColumnType::ULong => attr_value(r, 1),
        ColumnType::String => attr_value(r, 4),
        _ => attr_value(r, 5),
    }
}

pub fn p09(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let mut o = opts(r, false, false);
    o.names = names_for(r);
    o.sem_attrs = if r.chance(1, 2) { names_for(r) } else { vec![] };
    o.geom = !o.sem_attrs.is_empty();
    o.inst = false;
    let n = r.us(1, 6);
    let mut feats: Vec<CityJSONFeature> = (0..n).map(|k| feature(r, k, &o)).collect();
    let cj = header(r, false, &[]);
    let mode = i % 3;
    let schema = match mode {
        0 => schema_of(&feats),
        1 => hand(r, &mut feats),
        // some keys are not in the schema: such objects carry their own columns
        _ => {
            let full = schema_of(&feats);
            let mut keep: Vec<(String, (u16, ColumnType))> = full.into_iter().filter(|_| r.chance(1, 2)).collect();
            keep.sort_by_key(|x| x.1 .0);
            keep.into_iter().enumerate().map(|(i, (k, (_, t)))| (k, (i as u16, t))).collect()
        }
    };
    let sem = if o.sem_attrs.is_empty() { None } else { Some(sem_schema_of(&feats, &cj)) };
    cx.trace = format!("schema {schema:?} features {}", show(&feats));
    let cnt: usize = feats.iter().flat_map(|f| f.city_objects.values()).map(|c| c.attributes.as_ref().and_then(|a| a.as_object()).map_or(0, |m| m.values().filter(|v| !v.is_null()).count())).sum();
    cx.eval(&cx.trace.clone(), cnt >= 3);
    cx.sample(|| format!("{cnt} values in {n} features, {} columns, mode {mode}", schema.len()));
    // inference: every value fits the column it gets
    if mode == 0 {
        let mut ix: Vec<u16> = schema.values().map(|x| x.0).collect();
        ix.sort();
        if ix != (0..schema.len() as u16).collect::<Vec<_>>() {
            return Err(format!("inferred columns have indexes {ix:?}"));
        }
    }
    // an inferred integer column that met both huge and negative values cannot hold both
    if mode == 0 || mode == 2 {
        let huge_and_neg = |name: &str| {
            let mut h = false;
            let mut neg = false;
            for v in feats.iter().flat_map(|f| f.city_objects.values()).filter_map(|c| c.attributes.as_ref().and_then(|a| a.get(name))) {
                h |= v.as_u64().is_some_and(|x| x > i64::MAX as u64);
                neg |= v.as_i64().is_some_and(|x| x < 0);
            }
            h && neg
        };
        if schema.keys().any(|k| huge_and_neg(k)) {
            return Ok(());
        }
    }
    roundtrip(&cj, &feats, &schema, &sem)
}
pub fn p10(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    geom_case(r, i, cx, false)
}
pub fn p11(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    geom_case(r, i, cx, true)
}
fn geom_case(r: &mut Rng, _i: u64, cx: &mut Ctx, app: bool) -> R {
    let mut o = opts(r, true, app);
    if r.chance(1, 12) {
        o.spread = -1;
    }
    let n = r.us(1, 3);
    let feats: Vec<CityJSONFeature> = (0..n).map(|k| feature(r, k, &o)).collect();
    let cj = header(r, false, &[]);
    cx.trace = show(&feats);
    let ng: usize = feats.iter().flat_map(|f| f.city_objects.values()).map(|c| c.geometry.as_ref().map_or(0, |g| g.len())).sum();
    let na = feats.iter().flat_map(|f| f.city_objects.values()).flat_map(|c| c.geometry.iter().flatten()).filter(|g| g.material.is_some() || g.texture.is_some()).count();
    cx.eval(&cx.trace.clone(), if app { na > 0 } else { ng > 1 });
    cx.sample(|| cx_short(&feats));
    roundtrip(&cj, &feats, &AttributeSchema::new(), &None)
}
fn cx_short(f: &[CityJSONFeature]) -> String {
    let mut s = show(f);
    let mut k = s.len().min(390);
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    s.truncate(k);
    s
}
pub fn p12(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    // case i writes one feature with one object per type, in a rotated order, plus random extension names
    let mut objs = serde_json::Map::new();
    let mut types: Vec<String> = CO_TYPES.iter().map(|s| s.to_string()).collect();
    types.push("+Shed".into());
    types.push(format!("+{}", word(r)));
    types.push(format!("++{}", word(r)));
    types.push(format!("+ {} ", word(r)));
    types.push("+Bridge".into());
    let mut sems: Vec<String> = SEM_TYPES.iter().map(|s| s.to_string()).collect();
    sems.push("+Thermal".into());
    sems.push(format!("+{}", word(r)));
    sems.push(format!("++{}", word(r)));
    sems.push(format!("+ {} ", word(r)));
    sems.push("+RoofSurface".into());
    let k = types.len();
    for (j, t) in types.iter().enumerate() {
        let (gt, d) = GEOM[(j + i as usize) % GEOM.len()];
        let surf: Vec<Value> = sems.iter().map(|s| json!({ "type": s })).collect();
        let nst = nest(r, d, true);
        let b = fill(&nst, &mut || json!(0));
        let mut g = json!({"type": gt, "lod": "1", "boundaries": b});
        if d == 3 {
            let m = g["boundaries"].as_array().unwrap().len();
            let vals: Vec<Value> = (0..m).map(|x| json!((x + j) % sems.len())).collect();
            g["semantics"] = json!({"surfaces": surf, "values": vals});
        }
        objs.insert(format!("o{}", (j + i as usize) % k), json!({"type": t, "geometry": [g]}));
    }
    let mut mats = vec![];
    for (a, b, c) in [("PNG", "none", "unknown"), ("JPG", "wrap", "specific"), ("PNG", "mirror", "typical"), ("JPG", "clamp", "unknown"), ("PNG", "border", "specific")] {
        mats.push(json!({"type": a, "image": word(r), "wrapMode": b, "textureType": c}));
    }
    let f: CityJSONFeature = serde_json::from_value(json!({"type": "CityJSONFeature", "id": "f", "CityObjects": objs, "vertices": [[0, 0, 0]], "appearance": {"textures": mats}})).unwrap();
    let cj = header(r, false, &[]);
    cx.trace = format!("{types:?} {sems:?}");
    cx.eval(&(cx.trace.clone(), i), true);
    cx.sample(|| format!("{} object types, {} surface types", types.len(), sems.len()));
    roundtrip(&cj, &[f], &AttributeSchema::new(), &None)
}
pub fn p13(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let templates = i % 2 == 0;
    let sem_attrs = if r.chance(1, 2) { attr_names(r) } else { vec![] };
    let cj = header(r, templates, &sem_attrs);
    let mut schema = AttributeSchema::new();
    let names = attr_names(r);
    for _ in 0..3 {
        schema.add_attributes(&attrs(r, &names));
    }
    let sem = if sem_attrs.is_empty() { None } else { Some(sem_schema_of(&[], &cj)) };
    let ge = if r.chance(1, 3) { Some([1.0, 2.0, 3.5, 4.0, 5.0, -6.25]) } else { None };
    let o = Opt { geom: false, app: false, inst: false, sem_attrs: vec![], names: vec![], spread: 10, max_obj: 0, free_types: false };
    let nf = r.us(0, 20);
    let feats: Vec<CityJSONFeature> = (0..nf).map(|k| feature(r, k, &o)).collect();
    cx.trace = format!("ge={ge:?} schema={schema:?} {}", serde_json::to_string(&cj).unwrap());
    cx.eval(&cx.trace.clone(), cj.metadata.is_some());
    cx.sample(|| serde_json::to_string(&cj).unwrap().chars().take(300).collect());
    let wi = r.chance(2, 3);
    let bytes = write(&cj, &feats, &schema, &sem, &[], wi, ge)?;
    let rd = FcbReader::open(Cursor::new(&bytes)).map_err(|e| format!("open: {e}"))?;
    let h = rd.header();
    let got = fcb_core::deserializer::to_cj_metadata(&h).map_err(|e| format!("to_cj_metadata: {e}"))?;
    let mut w = serde_json::to_value(&cj).unwrap();
    let mut g = serde_json::to_value(&got).unwrap();
    for v in [&mut w, &mut g] {
        let m = v.as_object_mut().unwrap();
        for k in ["CityObjects", "vertices"] {
            m.remove(k);
        }
        m.entry("metadata").or_insert(json!({}));
        for t in v.get_mut("geometry-templates").and_then(|t| t.get_mut("templates")).and_then(|t| t.as_array_mut()).into_iter().flatten() {
            norm_geometry(t);
        }
    }
    if let Some(e) = ge {
        w["metadata"]["geographicalExtent"] = json!(e);
    }
    // known: the format has no place for another base than https and for a version that is not an integer
    if let Some(c) = w["metadata"].get("referenceSystem").and_then(|c| c.as_str()).filter(|c| c.starts_with("http:")).map(|c| c.to_string()) {
        let lost = c.replacen("http:", "https:", 1).replacen("/9.9.1/", "/0/", 1);
        if g["metadata"].get("referenceSystem") == Some(&json!(lost)) {
            cx.known("crs-base-and-version", format!("{c} is read back as {lost}"));
            w["metadata"]["referenceSystem"] = json!(lost);
        }
    }
    same(&w, &g, "header")?;
    if h.features_count() != nf as u64 {
        return Err(format!("the header counts {} features, {nf} were written", h.features_count()));
    }
    if (h.index_node_size() > 0) != wi {
        return Err(format!("index_node_size {} with write_index {wi}", h.index_node_size()));
    }
    for (what, cols, s) in [("columns", h.columns(), Some(&schema)), ("semantic columns", h.semantic_columns(), sem.as_ref())] {
        let got: Vec<(String, u16, ColumnType)> = cols.map(|c| c.iter().map(|c| (c.name().to_string(), c.index(), c.type_())).collect()).unwrap_or_default();
        let mut want: Vec<(String, u16, ColumnType)> = s.map(|s| s.iter().map(|(k, (i, t))| (k.clone(), *i, *t)).collect()).unwrap_or_default();
        want.sort_by_key(|x| x.1);
        if got != want {
            return Err(format!("{what} {got:?} instead of {want:?}"));
        }
    }
    Ok(())
}

fn count(r: &mut Rng, i: u64, max: usize) -> usize {
    if i < 6 {
        i as usize
    } else {
        match r.below(6) {
            0 => *r.pick(&[15usize, 16, 17, 255, 256, 257, 272, 273]).min(&max),
            1 => r.us(1, max),
            _ => r.us(1, 40),
        }
    }
}
pub fn p14(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let n = count(r, i, 400);
    let mut o = opts(r, n < 60, n < 60);
    o.names = names_for(r);
    let (feats, f) = make_file(r, n, &o)?;
    cx.trace = format!("n={n} index={} attr={:?} {}", f.write_index, f.indexed, show(&feats));
    cx.eval(&cx.trace.clone(), n > 16);
    cx.sample(|| format!("{n} features, {} bytes, spatial index {}, indexed {:?}", f.bytes.len(), f.write_index, f.indexed));
    let want: Vec<&CityJSONFeature> = feats.iter().collect();
    let rs = readers(&f.bytes, &|| Sel::All)?;
    for (name, got, c) in &rs {
        same_set(name, &want, got)?;
        if ids(got) != ids(&rs[0].1) {
            return Err(format!("{name} reader gives the features in another order than the seek reader"));
        }
        if c.unwrap_or(0) != n {
            return Err(format!("{name} reader announces {c:?} features, {n} were written"));
        }
    }
    // skipping the verification changes nothing
    let mut it = unsafe { FcbReader::open_unchecked(Cursor::new(&f.bytes)) }.map_err(|e| e.to_string())?.select_all().map_err(|e| e.to_string())?;
    let mut k = 0;
    while let Some(x) = it.next().map_err(|e| e.to_string())? {
        if rs[0].1.get(k).map(|f| f.id.as_str()) != Some(x.cur_feature().id()) {
            return Err("the unchecked reader gives other features".into());
        }
        k += 1;
    }
    if k != n {
        return Err(format!("the unchecked reader gives {k} of {n} features"));
    }
    Ok(())
}
fn make_file(r: &mut Rng, n: usize, o: &Opt) -> Result<(Vec<CityJSONFeature>, File), String> {
    let feats: Vec<CityJSONFeature> = (0..n).map(|k| feature(r, k, o)).collect();
    let t = r.chance(1, 4);
    let cj = header(r, t, &[]);
    let schema = schema_of(&feats);
    let mut indexed: Vec<(String, Option<u16>)> = vec![];
    let mut names: Vec<&String> = schema.iter().filter(|(_, (_, t))| !matches!(*t, ColumnType::Json | ColumnType::String)).map(|x| x.0).collect();
    names.sort();
    let all = r.chance(1, 3);
    for k in names {
        if all || r.chance(1, 3) {
            indexed.push((k.clone(), if r.chance(1, 2) { None } else { Some(*r.pick(&[2u16, 3, 4, 16])) }));
        }
    }
    for i in (1..indexed.len()).rev() {
        indexed.swap(i, r.us(0, i));
    }
    let write_index = r.chance(3, 4);
    let bytes = write(&cj, &feats, &schema, &None, &indexed, write_index, None)?;
    Ok((feats.clone(), File { cj, feats, schema, sem: None, indexed, write_index, bytes }))
}
/// the box a feature is indexed under: its vertices, transformed
fn bbox(f: &CityJSONFeature, cj: &cjseq::CityJSON) -> [f64; 4] {
    let t = &cj.transform;
    let m = |k: usize, lo: bool| {
        let it = f.vertices.iter().map(|v| v[k]);
        let x = if lo { it.min() } else { it.max() }.unwrap_or(0);
        x as f64 * t.scale[k] + t.translate[k]
    };
    [m(0, true), m(1, true), m(0, false), m(1, false)]
}
pub fn p15(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let n = count(r, i, 400).max(1);
    let mut o = opts(r, false, false);
    o.names = if r.chance(1, 2) { names_for(r) } else { vec![] };
    let (feats, mut f) = make_file(r, n, &o)?;
    if !f.write_index {
        f.bytes = write(&f.cj, &feats, &f.schema, &None, &f.indexed, true, None)?;
    }
    let boxes: Vec<[f64; 4]> = feats.iter().map(|x| bbox(x, &f.cj)).collect();
    cx.trace = format!("boxes (in the order written) {:?}", feats.iter().map(|f| &f.id).zip(&boxes).collect::<Vec<_>>());
    let order = ids(&read_seek(&f.bytes, Sel::All)?.0);
    for q in 0..6 {
        let b = *r.pick(&boxes);
        let c = *r.pick(&boxes);
        let d = [0.0, 0.0, 0.5, -0.5, 1e-9][r.below(5) as usize];
        let kind = q % 3;
        let (a0, a1, a2, a3) = match r.below(4) {
            0 => (b[0], b[1], b[2], b[3]),
            1 => (b[2] + d, b[3] + d, b[2] + d + 3.0, b[3] + d + 50.0),
            2 => (b[0].min(c[0]), b[1].min(c[1]), b[0].max(c[2]), b[1].max(c[3])),
            _ => (b[0] - 1e6, b[1] - d, b[0] + 1e6, b[1] + d.abs()),
        };
        let (px, py) = *r.pick(&[(b[0], b[1]), (b[2], b[3]), ((b[0] + b[2]) / 2.0, b[1]), (c[0] + d, c[3]), (a0, a1)]);
        let sel = || {
            Sel::Spatial(match kind {
                0 => SpatialQuery::BBox(a0, a1, a2, a3),
                1 => SpatialQuery::PointIntersects(px, py),
                _ => SpatialQuery::PointNearest(px, py),
            })
        };
        let what = match kind {
            0 => format!("box ({a0}, {a1}, {a2}, {a3})"),
            1 => format!("point ({px}, {py})"),
            _ => format!("nearest ({px}, {py})"),
        };
        let dist = |b: &[f64; 4]| {
            let (x, y) = ((b[0] + b[2]) / 2.0 - px, (b[1] + b[3]) / 2.0 - py);
            x * x + y * y
        };
        let best = boxes.iter().map(dist).fold(f64::INFINITY, f64::min);
        let hit = |b: &[f64; 4]| match kind {
            0 => b[0] <= a2 && b[2] >= a0 && b[1] <= a3 && b[3] >= a1,
            1 => b[0] <= px && b[2] >= px && b[1] <= py && b[3] >= py,
            _ => dist(b) <= best,
        };
        let want: Vec<&CityJSONFeature> = feats.iter().zip(&boxes).filter(|(_, b)| hit(b)).map(|x| x.0).collect();
        cx.eval(&(cx.trace.clone(), what.clone()), !want.is_empty() && want.len() < n);
        cx.sample(|| format!("{n} features, {what}: {} match", want.len()));
        for (name, got, cnt) in readers(&f.bytes, &sel)? {
            if kind == 2 {
                let w: BTreeSet<&str> = want.iter().map(|x| x.id.as_str()).collect();
                if got.len() != 1 || !w.contains(got[0].id.as_str()) {
                    return Err(format!("{what}, {name} reader: gives {:?}, nearest are {w:?}", ids(&got)));
                }
                check_feature(feats.iter().find(|f| f.id == got[0].id).unwrap(), &got[0]).map_err(|e| format!("{what}, {name}: {e}"))?;
            } else {
                same_set(name, &want, &got).map_err(|e| format!("{what}: {e}"))?;
            }
            let g: BTreeSet<String> = ids(&got).into_iter().collect();
            let exp: Vec<&String> = order.iter().filter(|x| g.contains(*x)).collect();
            if exp.iter().map(|s| s.to_string()).collect::<Vec<_>>() != ids(&got) {
                return Err(format!("{what}, {name} reader: features are not in file order"));
            }
            if cnt.unwrap_or(0) != got.len() {
                return Err(format!("{what}, {name} reader announces {cnt:?} features and gives {}", got.len()));
            }
        }
    }
    Ok(())
}

#[derive(Clone, PartialEq, PartialOrd, Debug)]
enum Val {
    B(bool),
    I(i64),
    U(u64),
    F(f64),
    S(Vec<u8>),
    T(chrono::DateTime<chrono::Utc>),
}
fn val(t: ColumnType, v: &Value) -> Option<Val> {
    Some(match t {
        ColumnType::Bool => Val::B(v.as_bool()?),
        ColumnType::Int | ColumnType::Long => Val::I(v.as_i64()?),
        ColumnType::UInt | ColumnType::ULong => Val::U(v.as_u64()?),
        ColumnType::Float => Val::F(v.as_f64()? as f32 as f64),
        ColumnType::Double => Val::F(v.as_f64()?),
        ColumnType::String => Val::S(v.as_str()?.as_bytes().to_vec()),
        ColumnType::DateTime => Val::T(chrono::DateTime::parse_from_rfc3339(v.as_str()?).ok()?.with_timezone(&chrono::Utc)),
        _ => return None,
    })
}
fn key(t: ColumnType, v: &Val) -> KeyType {
    match (t, v) {
        (_, Val::B(b)) => KeyType::Bool(*b),
        (ColumnType::Int, Val::I(x)) => KeyType::Int32(*x as i32),
        (_, Val::I(x)) => KeyType::Int64(*x),
        (ColumnType::UInt, Val::U(x)) => KeyType::UInt32(*x as u32),
        (_, Val::U(x)) => KeyType::UInt64(*x),
        (ColumnType::Float, Val::F(x)) => KeyType::Float32(OrderedFloat(*x as f32)),
        (_, Val::F(x)) => KeyType::Float64(OrderedFloat(*x)),
        (_, Val::S(s)) => KeyType::StringKey50(FixedStringKey::from_str(std::str::from_utf8(s).unwrap())),
        (_, Val::T(x)) => KeyType::DateTime(*x),
    }
}
const OPS: [Operator; 6] = [Operator::Eq, Operator::Ne, Operator::Gt, Operator::Lt, Operator::Ge, Operator::Le];
fn ok(v: &Val, op: Operator, k: &Val) -> bool {
    match op {
        Operator::Eq => v == k,
        Operator::Ne => v != k,
        Operator::Gt => v > k,
        Operator::Lt => v < k,
        Operator::Ge => v >= k,
        Operator::Le => v <= k,
    }
}
fn idx_value(r: &mut Rng, t: ColumnType, pool: i64) -> Value {
    let x = r.int(-pool, pool);
    match t {
        ColumnType::Bool => json!(x > 0),
        ColumnType::Int => json!(if r.chance(1, 12) { *r.pick(&[i32::MIN, i32::MAX]) } else { x as i32 }),
        ColumnType::Long => json!(if r.chance(1, 12) { *r.pick(&[i64::MIN, i64::MAX]) } else { x * 1_000_000_007 }),
        ColumnType::UInt => json!(if r.chance(1, 12) { u32::MAX } else { x.unsigned_abs() as u32 }),
        ColumnType::ULong => json!(if r.chance(1, 12) { u64::MAX } else { x.unsigned_abs() }),
        ColumnType::Float => json!(x as f64 / 4.0),
        ColumnType::Double => json!(if r.chance(1, 12) { *r.pick(&[f64::MIN, f64::MAX, 0.0, 1e-300]) } else { x as f64 / 8.0 }),
        ColumnType::String => json!(match x.rem_euclid(4) {
            0 => format!("NL.{x}"),
            1 => "a".repeat((x.unsigned_abs() % 51) as usize),
            2 => format!("\u{e9}{x}"),
            _ => String::new(),
        }),
        _ => {
            let d = chrono::DateTime::from_timestamp(x * 86_400 * 37, (x.unsigned_abs() % 1000) as u32 * 1_000_000).unwrap();
            json!(d.to_rfc3339())
        }
    }
}
pub fn attr_file(r: &mut Rng, n: usize, multi: bool) -> Result<(File, Vec<(String, ColumnType)>), String> {
    let types = [ColumnType::Bool, ColumnType::Int, ColumnType::Long, ColumnType::UInt, ColumnType::ULong, ColumnType::Float, ColumnType::Double, ColumnType::String, ColumnType::DateTime];
    let k = r.us(1, 4);
    let cols: Vec<(String, ColumnType)> = (0..k).map(|i| (format!("c{i}"), *r.pick(&types))).collect();
    let mut ix: Vec<u16> = (0..k as u16).collect();
    for i in (1..k).rev() {
        ix.swap(i, r.us(0, i));
    }
    let schema: AttributeSchema = cols.iter().enumerate().map(|(i, (k, t))| (k.clone(), (ix[i], *t))).collect();
    let pool = *r.pick(&[1i64, 3, 20, 500]);
    let o = Opt { geom: false, app: false, inst: false, sem_attrs: vec![], names: vec![], spread: *r.pick(&[10i64, 1000]), max_obj: 3, free_types: true };
    let mut feats: Vec<CityJSONFeature> = (0..n).map(|k| feature(r, k, &o)).collect();
    for f in feats.iter_mut() {
        let mut used: BTreeSet<usize> = BTreeSet::new();
        let mut keys: Vec<String> = f.city_objects.keys().cloned().collect();
        keys.sort();
        for id in keys {
            let mut m = serde_json::Map::new();
            for (j, (c, t)) in cols.iter().enumerate() {
                if r.chance(1, 6) || (!multi && used.contains(&j)) {
                    if r.chance(1, 2) {
                        m.insert(c.clone(), Value::Null);
                    }
                    continue;
                }
                used.insert(j);
                m.insert(c.clone(), idx_value(r, *t, pool));
            }
            f.city_objects.get_mut(&id).unwrap().attributes = Some(Value::Object(m));
        }
    }
    let cj = header(r, false, &[]);
    let mut indexed: Vec<(String, Option<u16>)> = vec![];
    for (c, _) in &cols {
        if indexed.is_empty() || r.chance(3, 4) {
            indexed.push((c.clone(), if r.chance(1, 2) { None } else { Some(*r.pick(&[2u16, 3, 4, 16])) }));
        }
    }
    for i in (1..indexed.len()).rev() {
        indexed.swap(i, r.us(0, i));
    }
    let write_index = r.chance(2, 3);
    let bytes = write(&cj, &feats, &schema, &None, &indexed, write_index, None)?;
    // only columns some feature has a value for get an index
    let has = |c: &String| feats.iter().flat_map(|f| f.city_objects.values()).any(|o| o.attributes.as_ref().is_some_and(|a| a.get(c).is_some_and(|v| !v.is_null())));
    let usable = cols.iter().filter(|(c, _)| indexed.iter().any(|(i, _)| i == c) && has(c)).cloned().collect();
    Ok((File { cj, feats, schema, sem: None, indexed, write_index, bytes }, usable))
}
pub fn p16(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let n = count(r, i, 150).max(1);
    let multi = r.chance(1, 5);
    let (f, cols) = attr_file(r, n, multi)?;
    let feats = &f.feats;
    let vals: BTreeMap<String, Vec<Vec<Val>>> = cols
        .iter()
        .map(|(c, t)| (c.clone(), feats.iter().map(|f| f.city_objects.values().filter_map(|o| o.attributes.as_ref().and_then(|a| a.get(c)).and_then(|v| val(*t, v))).collect()).collect()))
        .collect();
    cx.trace = format!("indexed {:?} types {cols:?} values {vals:?}", f.indexed);
    if cols.is_empty() {
        return match (read_seek(&f.bytes, Sel::Attr(vec![("c0".into(), Operator::Eq, KeyType::Int32(1))])), 0) {
            (Err(_), _) => Ok(()),
            _ => Err("a query is answered without an index".into()),
        };
    }
    let order = ids(&read_seek(&f.bytes, Sel::All)?.0);
    for _ in 0..6 {
        let nc = *r.pick(&[1usize, 1, 2, 3]);
        let mut q: fcb_core::AttrQuery = vec![];
        let mut want = vec![true; n];
        let mut excuse = vec![false; n];
        let mut what = vec![];
        for _ in 0..nc {
            let (c, t) = r.pick(&cols).clone();
            let op = *r.pick(&OPS);
            let fv: Vec<&Val> = vals[&c].iter().flatten().collect();
            let kv = if r.chance(2, 3) { (*r.pick(&fv)).clone() } else { val(t, &idx_value(r, t, 30)).unwrap() };
            for k in 0..n {
                want[k] &= vals[&c][k].iter().any(|v| ok(v, op, &kv));
                excuse[k] |= matches!(op, Operator::Gt | Operator::Lt | Operator::Ne) && vals[&c][k].len() > 1 && vals[&c][k].contains(&kv);
            }
            what.push(format!("{c} {op:?} {kv:?}"));
            q.push((c, op, key(t, &kv)));
        }
        let what = what.join(" and ");
        let cnt = want.iter().filter(|x| **x).count();
        cx.eval(&(cx.trace.clone(), what.clone()), cnt > 0 && cnt < n);
        cx.sample(|| format!("{n} features, {what}: {cnt} match"));
        for (name, got, c) in readers(&f.bytes, &|| Sel::Attr(q.clone()))? {
            let g: BTreeSet<String> = ids(&got).into_iter().collect();
            for k in 0..n {
                let has = g.contains(&feats[k].id);
                if has == want[k] {
                    continue;
                }
                if want[k] && excuse[k] && multi {
                    cx.known("multi-value-complement", format!("{name} {what} leaves out feature {}", feats[k].id));
                    continue;
                }
                return Err(format!("{what}, {name} reader {} feature {}", if has { "gives" } else { "does not give" }, feats[k].id));
            }
            let w: Vec<&CityJSONFeature> = feats.iter().filter(|f| g.contains(&f.id)).collect();
            same_set(name, &w, &got).map_err(|e| format!("{what}: {e}"))?;
            let exp: Vec<String> = order.iter().filter(|x| g.contains(*x)).cloned().collect();
            if exp != ids(&got) {
                return Err(format!("{what}, {name} reader: features are not in file order"));
            }
            if c.unwrap_or(0) != got.len() {
                return Err(format!("{what}, {name} reader announces {c:?} features and gives {}", got.len()));
            }
        }
    }
    Ok(())
}

pub fn p17(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let n = r.us(0, 12);
    let mut o = opts(r, true, true);
    o.names = names_for(r);
    let (_, f) = make_file(r, n, &o)?;
    let orig = read_seek(&f.bytes, Sel::All)?.0;
    let good = &f.bytes;
    let hs = u32::from_le_bytes(good[8..12].try_into().unwrap()) as usize;
    let body = 12 + hs;
    let open = |b: &[u8]| FcbReader::open(Cursor::new(b)).map(|_| ()).map_err(|e| format!("{e:?}"));
    let hopen = |b: &[u8]| block_on(fcb_core::HttpFcbReader::new(client(b.to_vec()))).map(|_| ()).map_err(|e| format!("{e:?}"));
    for k in 0..8 {
        let mut b = good.clone();
        let kind = (i + k) % 6;
        let what;
        let must_fail;
        match kind {
            0 => {
                let at = *r.pick(&[0usize, 1, 2, 4, 5, 6]);
                let x = 1 + r.below(255) as u8;
                b[at] ^= x;
                what = format!("magic byte {at} xor {x}");
                must_fail = true;
            }
            1 => {
                let v = r.below(256) as u8;
                b[3] = v;
                what = format!("version byte {v}");
                must_fail = v > fcb_core::VERSION;
                if !must_fail && (open(&b).is_err() || hopen(&b).is_err()) {
                    return Err(format!("{what} is rejected, the version is {}", fcb_core::VERSION));
                }
            }
            2 => {
                let s = *r.pick(&[0u32, 1, 7, 512 * 1024 * 1024 + 1, u32::MAX, 1 << 31]);
                b[8..12].copy_from_slice(&s.to_le_bytes());
                what = format!("header size {s}");
                must_fail = true;
            }
            3 => {
                let cut = r.us(0, body - 1);
                b.truncate(cut);
                what = format!("cut at byte {cut} of a header that ends at {body}");
                must_fail = true;
            }
            4 => {
                let m = r.us(1, 4);
                let mut w = vec![];
                for _ in 0..m {
                    let at = 12 + r.us(0, hs - 1);
                    let x = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 4, 8]);
                    w.push((at, x));
                    b[at] = x;
                }
                what = format!("header bytes set {w:?}");
                must_fail = fcb_core::size_prefixed_root_as_header(&b[8..body]).is_err();
            }
            _ => {
                let cut = r.us(body, good.len());
                b.truncate(cut);
                what = format!("cut at byte {cut} of {}", good.len());
                must_fail = false;
            }
        }
        cx.trace = format!("{n} features, {what}; file {:?}", if good.len() < 3000 { format!("{good:?}") } else { String::new() });
        cx.eval(&(what.clone(), good.len()), must_fail || kind == 5);
        cx.sample(|| format!("{n} features, {} bytes, {what}: must fail {must_fail}", good.len()));
        let (l, h) = (open(&b), if b.is_empty() { Err("empty".into()) } else { hopen(&b) });
        for (name, x) in [("local", &l), ("http", &h)] {
            if must_fail && x.is_ok() {
                return Err(format!("{what}: the {name} reader opens it"));
            }
        }
        if kind == 0 && (l != Err("MissingMagicBytes".into()) || h != Err("MissingMagicBytes".into())) {
            return Err(format!("{what}: {l:?} / {h:?}"));
        }
        if kind == 5 {
            // the features before the cut, then the end or an error; never another feature
            for seek in [true, false] {
                let got = prefix(&b, seek)?;
                for (j, g) in got.iter().enumerate() {
                    if orig.get(j).map(norm) != Some(norm(g)) {
                        return Err(format!("{what}: feature {j} differs from the one written"));
                    }
                }
            }
        }
        if kind == 1 && !must_fail {
            let got = read_seek(&b, Sel::All)?.0;
            if got.iter().map(norm).collect::<Vec<_>>() != orig.iter().map(norm).collect::<Vec<_>>() {
                return Err(format!("{what}: other features"));
            }
        }
    }
    Ok(())
}
fn prefix(b: &[u8], seek: bool) -> Result<Vec<CityJSONFeature>, String> {
    let rd = FcbReader::open(Cursor::new(b)).map_err(|e| format!("open: {e}"))?;
    let mut v = vec![];
    if seek {
        let Ok(mut it) = rd.select_all() else { return Ok(v) };
        while let Ok(Some(f)) = it.next() {
            v.push(f.cur_cj_feature().map_err(|e| e.to_string())?);
        }
    } else {
        let Ok(mut it) = rd.select_all_seq() else { return Ok(v) };
        while let Ok(Some(f)) = it.next() {
            v.push(f.cur_cj_feature().map_err(|e| e.to_string())?);
        }
    }
    Ok(v)
}

pub fn p18(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let n = count(r, i, 300).max(1);
    let (f, cols) = attr_file(r, n, false)?;
    let mut bytes = f.bytes.clone();
    // large features make the reader split its requests; several of them make several batches
    if r.chance(1, 3) {
        let mut feats = f.feats.clone();
        let several = r.chance(1, 2);
        for _ in 0..(if several { r.us(2, 6) } else { 1 }) {
            let k = r.us(0, feats.len() - 1);
            let m = if several { r.us(21000, 24000) } else { r.us(1, 30000) };
            if feats[k].vertices.len() > 20000 {
                continue;
            }
            for _ in 0..m {
                let v = feats[k].vertices[0].clone();
                feats[k].vertices.push(v);
            }
        }
        bytes = write(&f.cj, &feats, &f.schema, &None, &f.indexed, f.write_index, None)?;
    }
    cx.trace = format!("{n} features, {} bytes, indexed {:?}, spatial index {}", bytes.len(), f.indexed, f.write_index);
    let mut sels: Vec<(String, Sel)> = vec![("all".into(), Sel::All)];
    let boxes: Vec<[f64; 4]> = f.feats.iter().map(|x| bbox(x, &f.cj)).collect();
    if f.write_index {
        for _ in 0..4 {
            let (b, c) = (*r.pick(&boxes), *r.pick(&boxes));
            let q = (b[0].min(c[0]), b[1].min(c[1]), b[2].max(c[2]), b[3].max(c[3]));
            sels.push((format!("box {q:?}"), Sel::Spatial(SpatialQuery::BBox(q.0, q.1, q.2, q.3))));
            sels.push((format!("point {b:?}"), Sel::Spatial(SpatialQuery::PointIntersects(b[0], b[3]))));
            sels.push((format!("nearest {b:?}"), Sel::Spatial(SpatialQuery::PointNearest(b[0], b[3]))));
        }
    }
    for (c, t) in &cols {
        for _ in 0..3 {
            let op = *r.pick(&OPS);
            let k = val(*t, &idx_value(r, *t, 10)).unwrap();
            sels.push((format!("{c} {op:?} {k:?}"), Sel::Attr(vec![(c.clone(), op, key(*t, &k))])));
        }
    }
    for (what, sel) in sels {
        let local = read_seek(&bytes, clone_sel(&sel))?;
        cx.eval(&(cx.trace.clone(), what.clone()), local.0.len() > 1);
        cx.sample(|| format!("{n} features, {what}: {}", local.0.len()));
        let mem = Mem::new(bytes.clone());
        let log = mem.log.clone();
        let got: Result<Vec<CityJSONFeature>, String> = block_on(async {
            let e = |e: fcb_core::error::Error| format!("{e}");
            let rd = fcb_core::HttpFcbReader::new(http_range_client::AsyncBufferedHttpRangeClient::with(mem, "mem")).await.map_err(e)?;
            let mut it = match sel {
                Sel::All => rd.select_all().await.map_err(e)?,
                Sel::Spatial(q) => rd.select_query(q).await.map_err(e)?,
                Sel::Attr(q) => rd.select_attr_query(&q).await.map_err(e)?,
            };
            let mut v = vec![];
            while let Some(f) = it.next().await.map_err(e)? {
                v.push(f.cj_feature().map_err(e)?);
            }
            Ok(v)
        });
        let got = got.map_err(|e| format!("{what}: over range requests: {e}"))?;
        let kind = what.starts_with("nearest");
        if !(kind && local.0.len() == got.len()) && ids(&got) != ids(&local.0) {
            return Err(format!("{what}: range requests give {:?}, the local reader {:?}", ids(&got), ids(&local.0)));
        }
        if !kind {
            for (a, b) in local.0.iter().zip(&got) {
                check_feature(a, b).map_err(|e| format!("{what}: {e}"))?;
            }
        }
        let bad = log.lock().unwrap().iter().find(|x| x.0 >= bytes.len() || x.1 < x.0).cloned();
        if let Some(x) = bad {
            return Err(format!("{what}: request {x:?} of a file of {} bytes", bytes.len()));
        }
    }
    Ok(())
}
