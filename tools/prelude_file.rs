// ---- writing and reading whole files
#[allow(unused_imports)]
use fcb_core::{attribute::{AttributeSchema, AttributeSchemaMethods}, header_writer::HeaderWriterOptions, fb::ColumnType, *};
#[allow(unused_imports)]
use cjseq::{CityJSON, CityJSONFeature};
#[allow(unused_imports)]
use serde_json::{json, Value};
#[allow(unused_imports)]
use fallible_streaming_iterator::FallibleStreamingIterator;
#[allow(dead_code)]
fn header(extra: Value) -> CityJSON {
    let mut h = json!({"type": "CityJSON", "version": "2.0", "transform": {"scale": [1.0, 1.0, 1.0], "translate": [0.0, 0.0, 0.0]}, "CityObjects": {}, "vertices": []});
    for (k, v) in extra.as_object().unwrap() { h[k] = v.clone(); }
    serde_json::from_value(h).unwrap()
}
#[allow(dead_code)]
fn feat(id: &str, v: Value, vertices: Value) -> CityJSONFeature {
    serde_json::from_value(json!({"type": "CityJSONFeature", "id": id, "CityObjects": {id: v}, "vertices": vertices})).unwrap()
}
#[allow(dead_code)]
fn schemas(fs: &[CityJSONFeature]) -> (AttributeSchema, Option<AttributeSchema>) {
    let (mut a, mut s) = (AttributeSchema::new(), AttributeSchema::new());
    for f in fs { for o in f.city_objects.values() {
        if let Some(x) = &o.attributes { a.add_attributes(x); }
        for g in o.geometry.iter().flatten() { for x in g.semantics.iter().flat_map(|x| x.surfaces.iter()) { if let Some(o) = &x.other { s.add_attributes(o); } } }
    } }
    let s = if s.is_empty() { None } else { Some(s) };
    (a, s)
}
#[allow(dead_code)]
fn write_opt(cj: &CityJSON, fs: &[CityJSONFeature], index: bool, indexed: &[(&str, Option<u16>)], node: u16) -> Vec<u8> {
    let (a, s) = schemas(fs);
    let opt = HeaderWriterOptions { write_index: index, feature_count: fs.len() as u64, index_node_size: node,
        attribute_indices: if indexed.is_empty() { None } else { Some(indexed.iter().map(|x| (x.0.to_string(), x.1)).collect()) }, geographical_extent: None };
    let mut w = FcbWriter::new(cj.clone(), Some(opt), Some(a), s).unwrap();
    for f in fs { w.add_feature(f).unwrap(); }
    let mut out = vec![];
    w.write(&mut out).unwrap();
    out
}
#[allow(dead_code)]
fn write(cj: &CityJSON, fs: &[CityJSONFeature]) -> Vec<u8> { write_opt(cj, fs, true, &[], 16) }
#[allow(dead_code)]
fn read_all(b: &[u8]) -> Vec<CityJSONFeature> {
    let mut it = FcbReader::open(std::io::Cursor::new(b)).unwrap().select_all().unwrap();
    let mut v = vec![];
    while let Some(f) = it.next().unwrap() { v.push(f.cur_cj_feature().unwrap()); }
    v
}
#[allow(dead_code)]
fn read_seq(b: &[u8]) -> Vec<CityJSONFeature> {
    let mut it = FcbReader::open(b).unwrap().select_all_seq().unwrap();
    let mut v = vec![];
    while let Some(f) = it.next().unwrap() { v.push(f.cur_cj_feature().unwrap()); }
    v
}
#[allow(dead_code)]
fn js<T: serde::Serialize>(x: &T) -> Value { serde_json::to_value(x).unwrap() }
