// unit tex: materials and textures of geometries (P11)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
%%include trees.vx
%%include flat.vx
%%include fb.vx
%%include strs.vx
%%include gtypes.vx

%%include hmap.vx
/// o.map_or(none, f)
pub fn map_or<T, U, F: Fn(T) -> U>(o: Option<T>, none: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> r == none, o is Some ==> f.ensures((o->0,), r),
{ match o { Some(x) => f(x), None => none } }
/// v.map(|v| v.iter().collect::<Vec<_>>())
#[verifier::external_body] pub fn opt_all<T>(v: Option<Vector<T>>) -> (r: Option<Vec<T>>) ensures vs(r) == ov(v) { unimplemented!() }
/// the clone of a nested array
#[verifier::external_body] pub fn copy_values(v: &NestedArray<Option<usize>>) -> (r: NestedArray<Option<usize>>) ensures r == *v { unimplemented!() }
/// v.unwrap_or_default()
pub fn or_empty(v: Option<Vec<u32>>) -> (r: Vec<u32>) ensures r@ == or_none(vs(v)) { match v { Some(x) => x, None => Vec::new() } }
pub open spec fn or_none(o: Option<Seq<u32>>) -> Seq<u32> { match o { Some(v) => v, None => Seq::empty() } }
#[verifier::external_body] pub fn copy_string(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }

pub type CjTextureValues = NestedArray<Option<usize>>;
pub type CjMaterialValues = NestedArray<Option<usize>>;
pub struct CjTextureReference { pub values: CjTextureValues }
pub struct CjMaterialReference { pub value: Option<usize>, pub values: Option<CjMaterialValues> }

// ---- textures: flattening
%%pubitem writer/geom_encoder.rs struct TextureMapping
%%isub `TextureMapping` => `GMTextureMapping`
%%pubitem writer/geom_encoder.rs struct MaterialValues
%%pubitem writer/geom_encoder.rs struct MaterialValue
%%pubitem writer/geom_encoder.rs enum MaterialMapping
%%isub `MaterialMapping` => `GMMaterialMapping`
impl GMTextureMapping {
    pub open spec fn lv(self) -> Arr { arrs(self.solids@, self.shells@, self.surfaces@, self.strings@, self.vertices@) }
}
%%fn writer/geom_encoder.rs "-" encode_texture_values
%%ret r
%%sig `TextureMapping` => `GMTextureMapping`
%%loops 1
%%sub `mapping .vertices .extend(indices.iter().map(|i| i.map_or(` => `let _m = map_vec(indices, |i: &Option<usize>| -> (o: u32) ensures o == (*i).code() { map_or(*i, `
%%sub `, |v|` => `, |v: usize| -> (o: u32) ensures o == v as u32 {`
%%sub `)));` => `}) }); extend_u32(&mut mapping.vertices, &_m);`
%%sub `for sub in nested {` => `let mut _i: usize = 0; while _i < nested.len() { let sub = &nested[_i];`
%%sub `max_depth = max_depth.max(d);` => `max_depth = maxu(max_depth, d);`
%%sub `let mut max_depth = 0;` => `let mut max_depth: usize = 0;`
%%spec
    requires
        depth_ok(tv(*values), dep(tv(*values))), dep(tv(*values)) <= 5,
    ensures
        r == dep(tv(*values)), adds(old(mapping).lv(), final(mapping).lv(), tv(*values), r as int), final(mapping).theme == old(mapping).theme,
    decreases values
%%start
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    let ghost t = tv(*values); let ghost a = mapping.lv();
%%after `extend_u32(&mut mapping.vertices, &_m);`
    proof { let b = mapping.lv(); assert(codes(indices@) =~= _m@); lemma_adds_leaf(a, b, _m@); }
%%pre `let mut max_depth`
    let ghost k = tvs(nested@); let ghost d1 = dep(t) - 1;
    proof { assert(k.len() == nested@.len()); assert(0 < k.len()); lemma_dep_kids(k, 0); assert(d1 >= 1); lemma_adds_nil(a, d1); assert(k.take(0) =~= Seq::empty()); }
%%loop 0
    invariant
        0 <= _i <= nested@.len(), t == Tree::Nest(k), k == tvs(nested@), k.len() == nested@.len(), k.len() > 0, depth_ok(t, dep(t)), d1 == dep(t) - 1, 1 <= d1 <= 4,
        values is Nested, *nested == values->Nested_0, mapping.theme == old(mapping).theme,
        max_depth == if _i == 0 { 0 } else { d1 }, adds_all(a, mapping.lv(), k.take(_i as int), d1),
    decreases nested@.len() - _i
%%loopstart 0
    let ghost b = mapping.lv();
    proof { lemma_dep_kids(k, _i as int); assert(tv(nested@[_i as int]) == k[_i as int]); assert(decreases_to!(nested@ => nested@[_i as int])); }
%%loopend 0
    proof { lemma_adds_push(a, b, mapping.lv(), k.take(_i as int), k[_i as int], d1); assert(k.take(_i as int).push(k[_i as int]) =~= k.take(_i + 1)); }
    _i += 1;
%%post 0
    let ghost b = mapping.lv();
    proof { assert(k.take(_i as int) =~= k); }
%%pre `max_depth + 1`
    proof {
        assert forall|i: int| 0 <= i < k.len() implies depth_ok(#[trigger] k[i], d1) by { lemma_dep_kids(k, i); }
        lemma_adds_close(a, b, mapping.lv(), k, d1 + 1);
    }
%%done

/// the entries of a map, each made into one element of a list; e(x, y): y is what x is made into
pub open spec fn listed<V, M>(m: Map<Seq<char>, V>, l: Seq<M>, key: spec_fn(M) -> Seq<char>, e: spec_fn(V, M) -> bool) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key(key(#[trigger] l[i])) && e(m[key(l[i])], l[i])
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> key(#[trigger] l[i]) != key(#[trigger] l[j])
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < l.len() && key(#[trigger] l[i]) == k
}
pub open spec fn texture_ok(t: CjTextureReference) -> bool { depth_ok(tv(t.values), dep(tv(t.values))) && dep(tv(t.values)) <= 5 }
pub open spec fn tkey() -> spec_fn(GMTextureMapping) -> Seq<char> { |m: GMTextureMapping| m.theme@ }
pub open spec fn tenc() -> spec_fn(CjTextureReference, GMTextureMapping) -> bool { |t: CjTextureReference, m: GMTextureMapping| flattened(tv(t.values), m.lv()) }
%%fn writer/geom_encoder.rs "-" encode_texture
%%ret r
%%sig `&HashMap<String, CjTextureReference>` => `&HashMap<CjTextureReference>`
%%sig `TextureMapping` => `GMTextureMapping`
%%loops 1
%%sub `let mut texture_mappings = Vec::new();` => `let mut texture_mappings: Vec<GMTextureMapping> = Vec::new();`
%%sub `for (theme, texture) in texture_map {` => `let _es = texture_map.entries(); let mut _i: usize = 0; while _i < _es.len() { let (theme, texture) = _es[_i];`
%%sub `let mut texture_mapping = TextureMapping` => `let mut texture_mapping = GMTextureMapping`
%%sub `theme.clone()` => `copy_string(theme)`
%%spec
    requires
        forall|k: Seq<char>| #[trigger] texture_map@.contains_key(k) ==> texture_ok(texture_map@[k]),
    ensures
        listed(texture_map@, r@, tkey(), tenc()),
%%loop 0
    invariant
        0 <= _i <= _es@.len(), texture_mappings@.len() == _i,
        forall|k: Seq<char>| #[trigger] texture_map@.contains_key(k) ==> texture_ok(texture_map@[k]),
        forall|i: int| 0 <= i < _es@.len() ==> texture_map@.contains_key((#[trigger] _es@[i]).0@) && texture_map@[_es@[i].0@] == *_es@[i].1,
        forall|i: int| 0 <= i < _i ==> (#[trigger] texture_mappings@[i]).theme@ == _es@[i].0@ && flattened(tv(_es@[i].1.values), texture_mappings@[i].lv()),
    decreases _es@.len() - _i
%%pre `let _ = encode_texture_values(`
    let ghost a0 = texture_mapping.lv(); let ghost t = tv(texture.values);
%%pre `texture_mappings.push(texture_mapping)`
    proof { let b = texture_mapping.lv(); assert forall|l: int| 0 <= l <= 4 implies #[trigger] b[l] == cnt(t, dep(t), l) by { assert(b[l] == a0[l] + cnt(t, dep(t), l)); assert(a0[l] =~= Seq::<u32>::empty()); assert(Seq::<u32>::empty() + cnt(t, dep(t), l) =~= cnt(t, dep(t), l)); } }
%%loopend 0
    _i += 1;
%%post 0
    proof {
        let l = texture_mappings@; let m = texture_map@;
        assert forall|i: int| 0 <= i < l.len() implies m.contains_key(tkey()(#[trigger] l[i])) && tenc()(m[tkey()(l[i])], l[i]) by { assert(m.contains_key(_es@[i].0@)); }
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies tkey()(#[trigger] l[i]) != tkey()(#[trigger] l[j]) by { assert(_es@[i].0@ != _es@[j].0@); }
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < l.len() && tkey()(#[trigger] l[i]) == k by { let i = choose|i: int| 0 <= i < _es@.len() && (#[trigger] _es@[i]).0@ == k; assert(tkey()(l[i]) == k); }
    }
%%done
// ---- materials: flattening
/// values per surface, surfaces per shell, shells per solid
pub open spec fn marr(vertices: Seq<u32>, shells: Seq<u32>, solids: Seq<u32>) -> Arr { seq![vertices, shells, solids] }
pub open spec fn mcur(v: usize, s: usize, o: usize) -> Cur { seq![v as int, s as int, o as int] }
impl MaterialValues { pub open spec fn lv(self) -> Arr { marr(self.vertices@, self.shells@, self.solids@) } }
/// a is the flattened form of material values: those of surfaces, of the shells of a solid, of the solids of a collection
pub open spec fn mat_flat(t: Tree, a: Arr) -> bool {
    match t {
        Tree::Leaf(v) => a[0] == v && a[1].len() == 0 && a[2].len() == 0,
        Tree::Nest(k) => forall|l: int| 0 <= l <= 2 ==> #[trigger] a[l] == cat(solids_of(t), 2, l),
    }
}
pub open spec fn solids_of(t: Tree) -> Seq<Tree> { if dep(t) == 3 { t->Nest_0 } else { seq![t] } }
pub open spec fn material_ok(m: CjMaterialReference) -> bool {
    match m.value { Some(v) => v <= u32::MAX, None => m.values is Some && depth_ok(tv(m.values->0), dep(tv(m.values->0))) && dep(tv(m.values->0)) <= 3 }
}
pub open spec fn mkey() -> spec_fn(GMMaterialMapping) -> Seq<char> { |m: GMMaterialMapping| match m { GMMaterialMapping::Value(v) => v.theme@, GMMaterialMapping::Values(v) => v.theme@ } }
pub open spec fn menc() -> spec_fn(CjMaterialReference, GMMaterialMapping) -> bool { |t: CjMaterialReference, m: GMMaterialMapping| match m {
    GMMaterialMapping::Value(v) => t.value is Some && v.value == t.value->0,
    GMMaterialMapping::Values(v) => t.value is None && t.values is Some && mat_flat(tv(t.values->0), v.lv()),
} }
/// nested.iter().any(|v| matches!(v, CjMaterialValues::Nested(_)))
pub fn any_nested(v: &Vec<CjMaterialValues>) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] is Nested,
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> !(#[trigger] v@[j] is Nested),
        decreases v.len() - i,
    { if let CjMaterialValues::Nested(_) = &v[i] { return true; } i += 1; }
    false
}
pub proof fn lemma_cat_take(k: Seq<Tree>, i: int, d: int, l: int)
    requires 0 <= i < k.len(), d >= 1,
    ensures cat(k.take(i + 1), d, l) == cat(k.take(i), d, l) + cnt(k[i], d, l),
{ assert(k.take(i + 1) =~= k.take(i).push(k[i])); lemma_cat_push(k.take(i), k[i], d, l); }
%%fn writer/geom_encoder.rs "-" encode_material
%%ret r
%%sig `&HashMap<String, CjMaterialReference>` => `&HashMap<CjMaterialReference>`
%%sig `MaterialMapping` => `GMMaterialMapping`
%%loops 4
%%sub `let mut material_mappings = Vec::new();` => `let mut material_mappings: Vec<GMMaterialMapping> = Vec::new();`
%%sub `for (theme, material) in materials {` => `let _es = materials.entries(); let mut _i: usize = 0; while _i < _es.len() { let (theme, material) = _es[_i]; _i += 1;`
%%sub `MaterialMapping::` => `GMMaterialMapping::`
%%sub `theme.clone()` => `copy_string(theme)`
%%sub `nested .iter() .any(|v| matches!(v, CjMaterialValues::Nested(_)))` => `any_nested(nested)`
%%sub `for solid in nested {` => `let mut _j: usize = 0; while _j < nested.len() { let solid = &nested[_j]; _j += 1;`
%%sub `for shell in shells_array {` => `let mut _k: usize = 0; while _k < shells_array.len() { let shell = &shells_array[_k]; _k += 1;`
%%sub `for shell in nested {` => `let mut _k: usize = 0; while _k < nested.len() { let shell = &nested[_k]; _k += 1;`
%%sub `material_values .vertices .extend( indices .iter() .map(|i| i.map_or(` => `let _m = map_vec(indices, |i: &Option<usize>| -> (o: u32) ensures o == (*i).code() { map_or(*i, `
%%sub `, |v|` => `, |v: usize| -> (o: u32) ensures o == v as u32 {`
%%sub? `v as u32)), );` => `v as u32)));`
%%sub `)));` => `}) }); proof { assert(_m@ =~= codes(indices@)); } extend_u32(&mut material_values.vertices, &_m);`
%%spec
    requires
        forall|k: Seq<char>| #[trigger] materials@.contains_key(k) ==> material_ok(materials@[k]),
    ensures
        listed(materials@, r@, mkey(), menc()),
%%loop 0
    invariant
        0 <= _i <= _es@.len(), material_mappings@.len() == _i,
        forall|k: Seq<char>| #[trigger] materials@.contains_key(k) ==> material_ok(materials@[k]),
        forall|i: int| 0 <= i < _es@.len() ==> materials@.contains_key((#[trigger] _es@[i]).0@) && materials@[_es@[i].0@] == *_es@[i].1,
        forall|i: int| 0 <= i < _i ==> mkey()(#[trigger] material_mappings@[i]) == _es@[i].0@ && menc()(*_es@[i].1, material_mappings@[i]),
    decreases _es@.len() - _i
%%pre `match values {`
    let ghost t = tv(*values); let ghost k = t->Nest_0; let ghost e = Seq::<u32>::empty(); let ghost mt = material_values.theme;
%%pre `let is_composite_solid`
    proof {
        assert(t == Tree::Nest(tvs(nested@))); assert(k.len() == nested@.len());
        assert forall|i: int| 0 <= i < k.len() implies depth_ok(#[trigger] k[i], dep(t) - 1) && k[i] == tv(nested@[i]) && (k[i] is Nest) == (nested@[i] is Nested) by { lemma_dep_kids(k, i); }
        assert(dep(t) == 3 || dep(t) == 2) by { assert(depth_ok(k[0], dep(t) - 1)); }
    }
%%before 1
    proof { let i = choose|i: int| 0 <= i < nested@.len() && #[trigger] nested@[i] is Nested; assert(depth_ok(k[i], dep(t) - 1)); assert(dep(t) == 3); assert(k.take(0) =~= Seq::empty()); }
%%loop 1
    invariant
        0 <= _j <= nested@.len(), k == tvs(nested@), k.len() == nested@.len(), forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], 2) && k[i] == tv(nested@[i]) && (k[i] is Nest) == (nested@[i] is Nested),
        material_values.theme == mt, forall|l: int| 0 <= l <= 2 ==> #[trigger] material_values.lv()[l] == cat(k.take(_j as int), 2, l),
    decreases nested@.len() - _j
%%loopstart 1
    let ghost j = _j as int; let ghost b = material_values.lv();
    proof { assert(depth_ok(k[j], 2)); assert forall|l: int| 0 <= l <= 2 implies #[trigger] cat(k.take(j + 1), 2, l) == b[l] + cnt(k[j], 2, l) by { lemma_cat_take(k, j, 2, l); assert(b[l] == cat(k.take(j), 2, l)); } }
%%after `material_values.solids.push(shells_array.len() as u32);`
    let ghost m = tvs(shells_array@);
    proof { assert(k[j] == Tree::Nest(m)); assert(m.len() == shells_array@.len()); assert(m.take(0) =~= Seq::empty()); assert(b[2].push(m.len() as u32) =~= b[2] + seq![m.len() as u32]); assert(b[0] + Seq::<u32>::empty() =~= b[0]); assert(b[1] + Seq::<u32>::empty() =~= b[1]); }
%%loop 2
    invariant
        0 <= _k <= shells_array@.len(), m == tvs(shells_array@), m.len() == shells_array@.len(), forall|i: int| 0 <= i < m.len() ==> depth_ok(#[trigger] m[i], 1),
        material_values.theme == mt, material_values.solids@ == b[2].push(m.len() as u32), material_values.shells@ == b[1] + cat(m.take(_k as int), 1, 1), material_values.vertices@ == b[0] + cat(m.take(_k as int), 1, 0),
    decreases shells_array@.len() - _k
%%loopstart 2
    let ghost q = _k as int; let ghost b1 = material_values.shells@; let ghost b0 = material_values.vertices@;
    proof { assert(depth_ok(m[q], 1)); assert(m[q] == tv(shells_array@[q])); lemma_cat_take(m, q, 1, 0); lemma_cat_take(m, q, 1, 1); }
%%loopend 2
    proof {
        let v = m[q]->Leaf_0;
        assert(material_values.shells@ =~= b1 + seq![v.len() as u32]); assert(material_values.vertices@ =~= b0 + v);
        assert(material_values.shells@ =~= b[1] + cat(m.take(q + 1), 1, 1)); assert(material_values.vertices@ =~= b[0] + cat(m.take(q + 1), 1, 0));
    }
%%post 2
    proof { assert(m.take(_k as int) =~= m); }
%%loopend 1
    proof {
        assert forall|l: int| 0 <= l <= 2 implies #[trigger] material_values.lv()[l] == cat(k.take(j + 1), 2, l) by {
            let m = k[j]->Nest_0;
            if l == 2 { assert(cnt(k[j], 2, 2) == seq![m.len() as u32]); } else { assert(cnt(k[j], 2, l) == cat(m, 1, l)); }
            assert(material_values.lv()[l] =~= b[l] + cnt(k[j], 2, l));
        }
    }
%%post 1
    proof { assert(k.take(_j as int) =~= k); }
%%after `material_values.solids.push(nested.len() as u32);`
    proof {
        assert(dep(t) == 2) by { if dep(t) == 3 { assert(k[0] is Nest) by { assert(depth_ok(k[0], 2)); } } }
        assert(k.take(0) =~= Seq::empty()); assert(e + e =~= e); assert(e.push(k.len() as u32) =~= seq![k.len() as u32]);
    }
%%loop 3
    invariant
        0 <= _k <= nested@.len(), k == tvs(nested@), k.len() == nested@.len(), forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], 1),
        material_values.theme == mt, material_values.solids@ == seq![k.len() as u32], material_values.shells@ == cat(k.take(_k as int), 1, 1), material_values.vertices@ == cat(k.take(_k as int), 1, 0),
    decreases nested@.len() - _k
%%loopstart 3
    let ghost q = _k as int; let ghost b1 = material_values.shells@; let ghost b0 = material_values.vertices@;
    proof { assert(depth_ok(k[q], 1)); assert(k[q] == tv(nested@[q])); lemma_cat_take(k, q, 1, 0); lemma_cat_take(k, q, 1, 1); }
%%loopend 3
    proof {
        let v = k[q]->Leaf_0;
        assert(material_values.shells@ =~= b1 + seq![v.len() as u32]); assert(material_values.vertices@ =~= b0 + v);
    }
%%post 3
    proof { assert(k.take(_k as int) =~= k); }
%%pre `material_mappings.push(GMMaterialMapping::Values(`
    proof {
        let a = material_values.lv();
        match t {
            Tree::Leaf(v) => { assert(a[0] =~= v); },
            Tree::Nest(k) => {
                if dep(t) == 2 {
                    assert forall|l: int| 0 <= l <= 2 implies #[trigger] a[l] == cat(solids_of(t), 2, l) by { lemma_single(t, 2, l); if l < 2 { assert(cnt(t, 2, l) == cat(k, 1, l)); } else { assert(cnt(t, 2, 2) == seq![k.len() as u32]); } }
                } else {
                    assert forall|l: int| 0 <= l <= 2 implies #[trigger] a[l] == cat(solids_of(t), 2, l) by { assert(solids_of(t) == k); }
                }
            },
        }
        assert(mat_flat(t, a));
    }
%%post 0
    proof {
        let l = material_mappings@; let m = materials@;
        assert forall|i: int| 0 <= i < l.len() implies m.contains_key(mkey()(#[trigger] l[i])) && menc()(m[mkey()(l[i])], l[i]) by { assert(m.contains_key(_es@[i].0@)); }
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies mkey()(#[trigger] l[i]) != mkey()(#[trigger] l[j]) by { assert(_es@[i].0@ != _es@[j].0@); }
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < l.len() && mkey()(#[trigger] l[i]) == k by { let i = choose|i: int| 0 <= i < _es@.len() && (#[trigger] _es@[i]).0@ == k; assert(mkey()(l[i]) == k); }
    }
%%done


// ---- the tables of mappings in the file
pub ghost struct TexTable { pub theme: Option<Seq<char>>, pub solids: Option<Seq<u32>>, pub shells: Option<Seq<u32>>, pub surfaces: Option<Seq<u32>>, pub strings: Option<Seq<u32>>, pub vertices: Option<Seq<u32>> }
pub ghost struct MatTable { pub theme: Option<Seq<char>>, pub solids: Option<Seq<u32>>, pub shells: Option<Seq<u32>>, pub vertices: Option<Seq<u32>>, pub value: Option<u32> }
#[verifier::external_body] pub struct TextureMapping { x: u8 }
#[verifier::external_body] pub struct MaterialMapping { x: u8 }
pub struct TextureMappingArgs { pub theme: Option<WIPOffset<FbStr>>, pub solids: Option<WIPOffset<Vector<u32>>>, pub shells: Option<WIPOffset<Vector<u32>>>, pub surfaces: Option<WIPOffset<Vector<u32>>>, pub strings: Option<WIPOffset<Vector<u32>>>, pub vertices: Option<WIPOffset<Vector<u32>>> }
pub struct MaterialMappingArgs { pub theme: Option<WIPOffset<FbStr>>, pub solids: Option<WIPOffset<Vector<u32>>>, pub shells: Option<WIPOffset<Vector<u32>>>, pub vertices: Option<WIPOffset<Vector<u32>>>, pub value: Option<u32> }
impl WIPOffset<TextureMapping> { pub uninterp spec fn view(&self) -> TexTable; }
impl WIPOffset<MaterialMapping> { pub uninterp spec fn view(&self) -> MatTable; }
impl TextureMapping {
    pub uninterp spec fn view(&self) -> TexTable;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &TextureMappingArgs) -> (r: WIPOffset<TextureMapping>) ensures r@ == (TexTable { theme: ws(a.theme), solids: wv(a.solids), shells: wv(a.shells), surfaces: wv(a.surfaces), strings: wv(a.strings), vertices: wv(a.vertices) }) { unimplemented!() }
    #[verifier::external_body] pub fn theme(&self) -> (r: Option<&str>) ensures ostr(r) == self@.theme { unimplemented!() }
    #[verifier::external_body] pub fn solids(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.solids { unimplemented!() }
    #[verifier::external_body] pub fn shells(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.shells { unimplemented!() }
    #[verifier::external_body] pub fn surfaces(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.surfaces { unimplemented!() }
    #[verifier::external_body] pub fn strings(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.strings { unimplemented!() }
    #[verifier::external_body] pub fn vertices(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.vertices { unimplemented!() }
}
impl MaterialMapping {
    pub uninterp spec fn view(&self) -> MatTable;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &MaterialMappingArgs) -> (r: WIPOffset<MaterialMapping>) ensures r@ == (MatTable { theme: ws(a.theme), solids: wv(a.solids), shells: wv(a.shells), vertices: wv(a.vertices), value: a.value }) { unimplemented!() }
    #[verifier::external_body] pub fn theme(&self) -> (r: Option<&str>) ensures ostr(r) == self@.theme { unimplemented!() }
    #[verifier::external_body] pub fn solids(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.solids { unimplemented!() }
    #[verifier::external_body] pub fn shells(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.shells { unimplemented!() }
    #[verifier::external_body] pub fn vertices(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.vertices { unimplemented!() }
    #[verifier::external_body] pub fn value(&self) -> (r: Option<u32>) ensures r == self@.value { unimplemented!() }
}
pub open spec fn theme_of(t: Option<Seq<char>>) -> Seq<char> { match t { Some(x) => x, None => "theme"@ } }
impl TexTable { pub open spec fn lv(self) -> Arr { arrs(or_none(self.solids), or_none(self.shells), or_none(self.surfaces), or_none(self.strings), or_none(self.vertices)) } }
impl MatTable { pub open spec fn lv(self) -> Arr { marr(or_none(self.vertices), or_none(self.shells), or_none(self.solids)) } }
pub open spec fn tts(s: Seq<TextureMapping>) -> Seq<TexTable> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn mts(s: Seq<MaterialMapping>) -> Seq<MatTable> { Seq::new(s.len(), |i: int| s[i]@) }

// ---- textures: rebuilding
/// the value read from a table; a texture of lines (depth 2) is told from that of surfaces only when it has several lines
pub open spec fn tex_read(t: TexTable, v: Tree) -> bool {
    forall|x: Tree, d: int| #[trigger] encodes(x, d, t.lv()) && (d == 2 ==> t.lv()[1].len() > 1) ==> v == if d == 5 && t.lv()[4].len() == 1 { x->Nest_0[0] } else { x }
}
/// a null or a number
pub open spec fn opt_code(v: u32, o: Option<usize>) -> bool { o == if v == u32::MAX { None } else { Some(v as usize) } }

%%fn reader/geom_decoder.rs "-" decode_textures
%%ret r
%%sig `HashMap<String, CjTextureReference>` => `HashMap<CjTextureReference>`
%%loops 16
%%sub `texture_mappings.is_empty()` => `texture_mappings.len() == 0`
%%sub `let mut textures = HashMap::new();` => `let mut textures: HashMap<CjTextureReference> = HashMap::new();`
%%sub `for mapping in texture_mappings {` => `let mut _t: usize = 0; while _t < texture_mappings.len() { let mapping = &texture_mappings[_t]; _t += 1;`
%%sub `mapping.theme().unwrap_or("theme").to_string()` => `(match mapping.theme() { Some(x) => x, None => "theme" }).to_string()`
%%sub `mapping .solids() .map(|s| s.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(mapping.solids())`
%%sub `mapping .shells() .map(|s| s.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(mapping.shells())`
%%sub `mapping .surfaces() .map(|s| s.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(mapping.surfaces())`
%%sub `mapping .strings() .map(|s| s.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(mapping.strings())`
%%sub `mapping .vertices() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(mapping.vertices())`
%%sub `for &solid_size in &solids {` => `let mut _i: usize = 0; while _i < solids.len() { let solid_size = solids[_i];`
%%sub `for &surface_size in &surfaces {` => `let mut _i: usize = 0; while _i < surfaces.len() { let surface_size = surfaces[_i];`
%%sub `for &string_size in &strings {` => `let mut _i: usize = 0; while _i < strings.len() { let string_size = strings[_i];`
%%sub `for _ in 0..solid_size` => `for _j in 0..solid_size`
%%sub `for _ in 0..shell_size` => `for _k in 0..shell_size`
%%sub `for _ in 0..surface_size` => `for _l in 0..surface_size`
%%sub `for _ in 0..string_size` => `for _m in 0..string_size`
%%sub `for _ in 0..shells[0]` => `for _k in 0..shells[0]`
%%sub `for _ in 0..surfaces[0]` => `for _l in 0..surfaces[0]`
%%sub `vertices.is_empty()` => `vertices.len() == 0`
%%sub `!solids.is_empty()` => `solids.len() > 0`
%%sub `!shells.is_empty()` => `shells.len() > 0`
%%sub `!surfaces.is_empty()` => `surfaces.len() > 0`
%%sub `!strings.is_empty()` => `strings.len() > 0`
%%sub `solid_values[0].clone()` => `copy_values(&solid_values[0])`
%%sub `vertices .iter() .map(|&v| {` => `map_vec(&vertices, |_v: &u32| -> (o: Option<usize>) ensures o.code() == *_v { let v = *_v;`
%%sub `}) .collect();` => `});`
%%spec
    requires
        forall|i: int| 0 <= i < tts(texture_mappings@).len() ==> fits((#[trigger] tts(texture_mappings@)[i]).lv(), top_a(tts(texture_mappings@)[i].lv())) && tts(texture_mappings@)[i].lv()[0].len() > 0,
        forall|i: int, j: int| 0 <= i < j < tts(texture_mappings@).len() ==> theme_of((#[trigger] tts(texture_mappings@)[i]).theme) != theme_of((#[trigger] tts(texture_mappings@)[j]).theme),
    ensures
        (r is Some) == (texture_mappings@.len() > 0),
        forall|i: int| 0 <= i < texture_mappings@.len() ==> r->0@.contains_key(theme_of((#[trigger] tts(texture_mappings@)[i]).theme)) && tex_read(tts(texture_mappings@)[i], tv(r->0@[theme_of(tts(texture_mappings@)[i].theme)].values)),
        r is Some ==> forall|k: Seq<char>| #[trigger] r->0@.contains_key(k) ==> exists|i: int| 0 <= i < texture_mappings@.len() && theme_of((#[trigger] tts(texture_mappings@)[i]).theme) == k,
%%start
    let ghost ts = tts(texture_mappings@);
%%loop 0
    invariant
        0 <= _t <= texture_mappings@.len(), ts == tts(texture_mappings@), ts.len() == texture_mappings@.len(),
        forall|i: int| 0 <= i < ts.len() ==> fits((#[trigger] ts[i]).lv(), top_a(ts[i].lv())) && ts[i].lv()[0].len() > 0,
        forall|i: int, j: int| 0 <= i < j < ts.len() ==> theme_of((#[trigger] ts[i]).theme) != theme_of((#[trigger] ts[j]).theme),
        forall|i: int| 0 <= i < _t ==> textures@.contains_key(theme_of((#[trigger] ts[i]).theme)) && tex_read(ts[i], tv(textures@[theme_of(ts[i].theme)].values)),
        forall|k: Seq<char>| #[trigger] textures@.contains_key(k) ==> exists|i: int| 0 <= i < _t && theme_of((#[trigger] ts[i]).theme) == k,
    decreases texture_mappings@.len() - _t
%%pre `let values = if`
    let ghost a = ts[_t - 1].lv(); let ghost top = top_a(a); let ghost z = cur(0, 0, 0, 0, 0); let ghost old_ = textures@;
    proof { assert(a == arrs(solids@, shells@, surfaces@, strings@, vertices@)); assert(theme@ == theme_of(ts[_t - 1].theme));
        if top == 3 { lemma_sum_ge(a[3]); assert(sum(a[3]) == a[2].len()); }
    }
%%before 1
    proof { assert(tvs(solid_values@) =~= Seq::<Tree>::empty()); lemma_start(4, a, z, cur(vertex_index, string_index, surface_index, shell_index, _i)); }
%%loop 1
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), top == 4, top == top_a(a), fits(a, top), z == cur(0, 0, 0, 0, 0), 0 <= _i <= a[4].len(), solid_values@.len() == _i, part(tvs(solid_values@), 4, a, z, cur(vertex_index, string_index, surface_index, shell_index, _i)),
    decreases a[4].len() - _i
%%loopstart 1
    let ghost o4 = solid_values@; let ghost m4 = cur(vertex_index, string_index, surface_index, shell_index, _i);
    proof { lemma_top(tvs(o4), 4, a, z, m4); }
%%loopend 1
    proof {
        let now = cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize); let b = solid_values@.last();
        assert(solid_values@ == o4.push(b)); lemma_tvs_push(o4, b);
        lemma_close(tvs(shell_values@), tvs(o4), 4, a, z, m4, now);
    }
    _i += 1;
%%post 1
    proof { lemma_done(tvs(solid_values@), 4, a, z, cur(vertex_index, string_index, surface_index, shell_index, _i)); if solid_values@.len() == 1 { assert(tvs(solid_values@)[0] == tv(solid_values@[0])); } }
%%before 2
    proof { assert(tvs(shell_values@) =~= Seq::<Tree>::empty()); lemma_start(3, a, m4, cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize)); }
%%loop 2
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), top == 4, top == top_a(a), fits(a, top), z == cur(0, 0, 0, 0, 0), aligned(a, m4, 4), 0 <= m4[4] < a[4].len(), a[4][m4[4]] == solid_size, shell_values@.len() == _j, part(tvs(shell_values@), 3, a, m4, cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize)),
%%loopstart 2
    let ghost o3 = shell_values@; let ghost m3 = cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize);
    proof { lemma_room(tvs(o3), 4, top, a, m4, m3); }
%%loopend 2
    proof {
        let now = cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize); let b = shell_values@.last();
        assert(shell_values@ == o3.push(b)); lemma_tvs_push(o3, b);
        let x = b->Nested_0@; lemma_close(tvs(x), tvs(o3), 3, a, m4, m3, now);
    }
%%before 3
    proof { assert(tvs(surface_values@) =~= Seq::<Tree>::empty()); lemma_start(2, a, m3, cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize)); }
%%loop 3
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), top == 4, top == top_a(a), fits(a, top), z == cur(0, 0, 0, 0, 0), aligned(a, m3, 3), 0 <= m3[3] < a[3].len(), a[3][m3[3]] == shell_size, surface_values@.len() == _k, part(tvs(surface_values@), 2, a, m3, cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize)),
%%loopstart 3
    let ghost o2 = surface_values@; let ghost m2 = cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize);
    proof { lemma_room(tvs(o2), 3, top, a, m3, m2); }
%%loopend 3
    proof {
        let now = cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize); let b = surface_values@.last();
        assert(surface_values@ == o2.push(b)); lemma_tvs_push(o2, b);
        let x = b->Nested_0@; lemma_close(tvs(x), tvs(o2), 2, a, m3, m2, now);
    }
%%before 4
    proof { assert(tvs(string_values@) =~= Seq::<Tree>::empty()); lemma_start(1, a, m2, cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize)); }
%%loop 4
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), top == 4, top == top_a(a), fits(a, top), z == cur(0, 0, 0, 0, 0), aligned(a, m2, 2), 0 <= m2[2] < a[2].len(), a[2][m2[2]] == surface_size, string_values@.len() == _l, part(tvs(string_values@), 1, a, m2, cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize)),
%%loopstart 4
    let ghost o1 = string_values@; let ghost m1 = cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize);
    proof { lemma_room(tvs(o1), 2, top, a, m2, m1); lemma_room0(top, a, m1); }
%%loopend 4
    proof {
        let now = cur(vertex_index, string_index, surface_index, shell_index, (_i + 1) as usize); let b = string_values@.last();
        assert(string_values@ == o1.push(b)); lemma_tvs_push(o1, b);
        let w = codes(b->Indices_0@); lemma_ring(w, tvs(o1), a, m2, m1, now);
    }
%%loop 5
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), 0 <= m1[0], vertex_index == m1[0] + _m, m1[0] + string_size <= a[0].len(), indices@.len() == _m, codes(indices@) == a[0].subrange(m1[0], vertex_index as int),
%%loopend 5
    proof { assert(codes(indices@) =~= a[0].subrange(m1[0], vertex_index as int)); }
%%before 6
    proof { assert(tvs(surface_values@) =~= Seq::<Tree>::empty()); lemma_aligned0(a, z, 3); lemma_start(2, a, z, cur(vertex_index, string_index, surface_index, 0, 0)); }
%%loop 6
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), top == 3, top == top_a(a), fits(a, top), z == cur(0, 0, 0, 0, 0), aligned(a, z, 3), 0 <= z[3] < a[3].len(), a[3][z[3]] == shells[0], surface_values@.len() == _k, part(tvs(surface_values@), 2, a, z, cur(vertex_index, string_index, surface_index, 0, 0)),
%%loopstart 6
    let ghost o2 = surface_values@; let ghost m2 = cur(vertex_index, string_index, surface_index, 0, 0);
    proof { lemma_room(tvs(o2), 3, top, a, z, m2); }
%%loopend 6
    proof {
        let now = cur(vertex_index, string_index, surface_index, 0, 0); let b = surface_values@.last();
        assert(surface_values@ == o2.push(b)); lemma_tvs_push(o2, b);
        let x = b->Nested_0@; lemma_close(tvs(x), tvs(o2), 2, a, z, m2, now);
    }
%%post 6
    proof {
        let now = cur(vertex_index, string_index, surface_index, 1, 0); let k = tvs(surface_values@);
        assert(part(k, 2, a, z, now)) by { reveal(segs); let e = cur(vertex_index, string_index, surface_index, 0, 0); assert forall|l: int| 0 <= l <= 2 implies 0 <= #[trigger] z[l] <= now[l] <= a[l].len() && a[l].subrange(z[l], now[l]) == cat(k, 2, l) by { assert(0 <= z[l] <= e[l]); } }
        lemma_start(3, a, z, z); lemma_close(k, Seq::empty(), 3, a, z, z, now);
        let f = Seq::<Tree>::empty().push(Tree::Nest(k)); assert(f[0] == Tree::Nest(k));
        lemma_done(f, 3, a, z, now);
    }
%%before 7
    proof { assert(tvs(string_values@) =~= Seq::<Tree>::empty()); lemma_start(1, a, m2, cur(vertex_index, string_index, surface_index, 0, 0)); }
%%loop 7
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), top == 3, top == top_a(a), fits(a, top), z == cur(0, 0, 0, 0, 0), aligned(a, m2, 2), 0 <= m2[2] < a[2].len(), a[2][m2[2]] == surface_size, string_values@.len() == _l, part(tvs(string_values@), 1, a, m2, cur(vertex_index, string_index, surface_index, 0, 0)),
%%loopstart 7
    let ghost o1 = string_values@; let ghost m1 = cur(vertex_index, string_index, surface_index, 0, 0);
    proof { lemma_room(tvs(o1), 2, top, a, m2, m1); lemma_room0(top, a, m1); }
%%loopend 7
    proof {
        let now = cur(vertex_index, string_index, surface_index, 0, 0); let b = string_values@.last();
        assert(string_values@ == o1.push(b)); lemma_tvs_push(o1, b);
        let w = codes(b->Indices_0@); lemma_ring(w, tvs(o1), a, m2, m1, now);
    }
%%loop 8
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), 0 <= m1[0], vertex_index == m1[0] + _m, m1[0] + string_size <= a[0].len(), indices@.len() == _m, codes(indices@) == a[0].subrange(m1[0], vertex_index as int),
%%loopend 8
    proof { assert(codes(indices@) =~= a[0].subrange(m1[0], vertex_index as int)); }
%%before 9
    proof { assert(tvs(string_values@) =~= Seq::<Tree>::empty()); lemma_aligned0(a, z, 2); lemma_start(1, a, z, cur(vertex_index, string_index, 0, 0, 0)); }
%%loop 9
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), top == 2, top == top_a(a), fits(a, top), z == cur(0, 0, 0, 0, 0), aligned(a, z, 2), 0 <= z[2] < a[2].len(), a[2][z[2]] == surfaces[0], string_values@.len() == _l, part(tvs(string_values@), 1, a, z, cur(vertex_index, string_index, 0, 0, 0)),
%%loopstart 9
    let ghost o1 = string_values@; let ghost m1 = cur(vertex_index, string_index, 0, 0, 0);
    proof { lemma_room(tvs(o1), 2, top, a, z, m1); lemma_room0(top, a, m1); }
%%loopend 9
    proof {
        let now = cur(vertex_index, string_index, 0, 0, 0); let b = string_values@.last();
        assert(string_values@ == o1.push(b)); lemma_tvs_push(o1, b);
        let w = codes(b->Indices_0@); lemma_ring(w, tvs(o1), a, z, m1, now);
    }
%%post 9
    proof {
        let now = cur(vertex_index, string_index, 1, 0, 0); let k = tvs(string_values@);
        assert(part(k, 1, a, z, now)) by { reveal(segs); let e = cur(vertex_index, string_index, 0, 0, 0); assert forall|l: int| 0 <= l <= 1 implies 0 <= #[trigger] z[l] <= now[l] <= a[l].len() && a[l].subrange(z[l], now[l]) == cat(k, 1, l) by { assert(0 <= z[l] <= e[l]); } }
        lemma_start(2, a, z, z); lemma_close(k, Seq::empty(), 2, a, z, z, now);
        let f = Seq::<Tree>::empty().push(Tree::Nest(k)); assert(f[0] == Tree::Nest(k));
        lemma_done(f, 2, a, z, now);
    }
%%loop 10
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, vertices@), 0 <= m1[0], vertex_index == m1[0] + _m, m1[0] + string_size <= a[0].len(), indices@.len() == _m, codes(indices@) == a[0].subrange(m1[0], vertex_index as int),
%%loopend 10
    proof { assert(codes(indices@) =~= a[0].subrange(m1[0], vertex_index as int)); }
%%loop 11
    invariant
        0 <= _i <= surfaces@.len(), 0 <= string_index <= strings@.len(), 0 <= vertex_index <= vertices@.len(),
    decreases surfaces@.len() - _i
%%loopend 11
    _i += 1;
%%loop 12
    invariant
        0 <= string_index <= strings@.len(), 0 <= vertex_index <= vertices@.len(),
%%loop 13
    invariant
        0 <= vertex_index <= vertices@.len(),
%%loop 14
    invariant
        0 <= _i <= strings@.len(), 0 <= vertex_index <= vertices@.len(),
    decreases strings@.len() - _i
%%loopend 14
    _i += 1;
%%loop 15
    invariant
        0 <= vertex_index <= vertices@.len(),
%%pre `textures.insert(theme`
    let ghost v = tv(values);
    proof {
        assert forall|x: Tree, d: int| #[trigger] encodes(x, d, a) && (d == 2 ==> a[1].len() > 1) implies v == if d == 5 && a[4].len() == 1 { x->Nest_0[0] } else { x } by {
            lemma_encodes(x, d, a);
            if d < 5 { assert(a[d].len() == 1); }
            if d == 1 { assert(values is Indices); assert(codes(values->Indices_0@) =~= a[0]); assert(x->Leaf_0 == cnt(x, 1, 0)); assert(a[0] == cnt(x, 1, 0)); }
        }
        assert(tex_read(ts[_t - 1], v));
    }
%%loopend 0
    proof {
        assert forall|i: int| 0 <= i < _t implies textures@.contains_key(theme_of((#[trigger] ts[i]).theme)) && tex_read(ts[i], tv(textures@[theme_of(ts[i].theme)].values)) by { if i < _t - 1 { assert(theme_of(ts[i].theme) != theme_of(ts[_t - 1].theme)); } }
        assert forall|k: Seq<char>| #[trigger] textures@.contains_key(k) implies exists|i: int| 0 <= i < _t && theme_of((#[trigger] ts[i]).theme) == k by { if old_.contains_key(k) { let i = choose|i: int| 0 <= i < _t - 1 && theme_of((#[trigger] ts[i]).theme) == k; assert(theme_of(ts[i].theme) == k); } else { assert(theme_of(ts[_t - 1].theme) == k); } }
    }
%%done


// ---- materials: rebuilding
/// what a table of values is read as: a single solid of several shells without the level of solids
pub open spec fn mat_nest(k: Seq<Tree>) -> Tree { if k.len() == 1 && k[0]->Nest_0.len() > 1 { k[0] } else { Tree::Nest(k) } }
pub open spec fn mat_read(t: MatTable, m: CjMaterialReference) -> bool {
    match t.value {
        Some(v) => m.value == Some(v as usize) && m.values is None,
        None => m.value is None && m.values is Some && if t.lv()[2].len() == 0 { tv(m.values->0) == Tree::Leaf(t.lv()[0]) }
            else { forall|k: Seq<Tree>| #[trigger] listed_as(k, 2, t.lv()) && smalls(k, 2) ==> tv(m.values->0) == mat_nest(k) },
    }
}
pub open spec fn mat_table_ok(t: MatTable) -> bool { t.value is None ==> t.vertices is Some && (t.lv()[2].len() > 0 ==> fits(t.lv(), 2)) }
pub proof fn lemma_solid_shells(k: Seq<Tree>, a: Arr)
    requires listed_as(k, 2, a), smalls(k, 2), a[2].len() == 1,
    ensures k.len() == 1, k[0] is Nest, k[0]->Nest_0.len() == a[2][0], cat(k, 2, 1) == cat(k[0]->Nest_0, 1, 1), cat(k, 2, 0) == cat(k[0]->Nest_0, 1, 0),
{
    lemma_cat_sum(k, 2, 2); assert(a[2] == cat(k, 2, 2)); assert(k =~= seq![k[0]]);
    lemma_single(k[0], 2, 2); lemma_single(k[0], 2, 1); lemma_single(k[0], 2, 0);
    assert(depth_ok(k[0], 2)); assert(small(k[0], 2)); assert(cnt(k[0], 2, 2) == seq![k[0]->Nest_0.len() as u32]);
}
%%fn reader/geom_decoder.rs "-" decode_materials
%%ret r
%%sig `HashMap<String, CjMaterialReference>` => `HashMap<CjMaterialReference>`
%%loops 6
%%sub `material_mappings.is_empty()` => `material_mappings.len() == 0`
%%sub `let mut materials = HashMap::new();` => `let mut materials: HashMap<CjMaterialReference> = HashMap::new();`
%%sub `for mapping in material_mappings {` => `let mut _t: usize = 0; while _t < material_mappings.len() { let mapping = &material_mappings[_t]; _t += 1;`
%%sub `mapping.theme().unwrap_or("theme").to_string()` => `(match mapping.theme() { Some(x) => x, None => "theme" }).to_string()`
%%sub `mapping.solids().map(|s| s.iter().collect::<Vec<_>>())` => `opt_all(mapping.solids())`
%%sub `mapping.shells().map(|s| s.iter().collect::<Vec<_>>())` => `opt_all(mapping.shells())`
%%sub `mapping.vertices().map(|v| v.iter().collect::<Vec<_>>())` => `opt_all(mapping.vertices())`
%%sub `shells.unwrap_or_default()` => `or_empty(shells)`
%%sub `!solids.is_empty()` => `solids.len() > 0`
%%sub `shells.is_empty()` => `shells.len() == 0`
%%sub `for _ in 0..solids[0]` => `for _k in 0..solids[0]`
%%sub `for &solid_count in &solids {` => `let mut _i: usize = 0; while _i < solids.len() { let solid_count = solids[_i];`
%%sub `for _ in 0..solid_count` => `for _k in 0..solid_count`
%%sub `for _ in 0..shell_size` => `for _m in 0..shell_size`
%%sub `vertices .iter() .map(|&v| {` => `map_vec(&vertices, |_v: &u32| -> (o: Option<usize>) ensures o.code() == *_v { let v = *_v;`
%%sub `}) .collect();` => `});`
%%spec
    requires
        forall|i: int| 0 <= i < mts(material_mappings@).len() ==> mat_table_ok(#[trigger] mts(material_mappings@)[i]),
        forall|i: int, j: int| 0 <= i < j < mts(material_mappings@).len() ==> theme_of((#[trigger] mts(material_mappings@)[i]).theme) != theme_of((#[trigger] mts(material_mappings@)[j]).theme),
    ensures
        (r is Some) == (material_mappings@.len() > 0),
        forall|i: int| 0 <= i < material_mappings@.len() ==> r->0@.contains_key(theme_of((#[trigger] mts(material_mappings@)[i]).theme)) && mat_read(mts(material_mappings@)[i], r->0@[theme_of(mts(material_mappings@)[i].theme)]),
        r is Some ==> forall|k: Seq<char>| #[trigger] r->0@.contains_key(k) ==> exists|i: int| 0 <= i < material_mappings@.len() && theme_of((#[trigger] mts(material_mappings@)[i]).theme) == k,
%%start
    let ghost ts = mts(material_mappings@);
%%loop 0
    invariant
        0 <= _t <= material_mappings@.len(), ts == mts(material_mappings@), ts.len() == material_mappings@.len(),
        forall|i: int| 0 <= i < ts.len() ==> mat_table_ok(#[trigger] ts[i]),
        forall|i: int, j: int| 0 <= i < j < ts.len() ==> theme_of((#[trigger] ts[i]).theme) != theme_of((#[trigger] ts[j]).theme),
        forall|i: int| 0 <= i < _t ==> materials@.contains_key(theme_of((#[trigger] ts[i]).theme)) && mat_read(ts[i], materials@[theme_of(ts[i].theme)]),
        forall|k: Seq<char>| #[trigger] materials@.contains_key(k) ==> exists|i: int| 0 <= i < _t && theme_of((#[trigger] ts[i]).theme) == k,
    decreases material_mappings@.len() - _t
%%loopstart 0
    let ghost old_ = materials@; let ghost t0 = ts[_t as int]; let ghost n = _t as int;
    proof { assert(mat_table_ok(t0)); assert(material_mappings@[n]@ == t0); }
%%pre `continue;`
            proof {
                assert forall|i: int| 0 <= i < _t implies materials@.contains_key(theme_of((#[trigger] ts[i]).theme)) && mat_read(ts[i], materials@[theme_of(ts[i].theme)]) by { if i < n { assert(theme_of(ts[i].theme) != theme_of(ts[n].theme)); } }
                assert forall|k: Seq<char>| #[trigger] materials@.contains_key(k) implies exists|i: int| 0 <= i < _t && theme_of((#[trigger] ts[i]).theme) == k by { if old_.contains_key(k) { let i = choose|i: int| 0 <= i < n && theme_of((#[trigger] ts[i]).theme) == k; assert(theme_of(ts[i].theme) == k); } else { assert(theme_of(ts[n].theme) == k); } }
            }
%%pre `if shells.len() == 0`
    let ghost a = t0.lv(); let ghost z = mcur(0, 0, 0);
    proof { assert(a == marr(vertices@, shells@, solids@)); lemma_sum_ge(a[2]); assert(sum(a[2]) == a[1].len()); }
%%before 1
    proof { assert(tvs(shell_values@) =~= Seq::<Tree>::empty()); lemma_aligned0(a, z, 2); lemma_start(1, a, z, mcur(vertex_index, shell_index, 0)); }
%%loop 1
    invariant
        a == marr(vertices@, shells@, solids@), fits(a, 2), z == mcur(0, 0, 0), aligned(a, z, 2), 0 < a[2].len(), shell_values@.len() == _k, part(tvs(shell_values@), 1, a, z, mcur(vertex_index, shell_index, 0)),
%%loopstart 1
    let ghost o1 = shell_values@; let ghost m1 = mcur(vertex_index, shell_index, 0);
    proof { lemma_room(tvs(o1), 2, 2, a, z, m1); lemma_room0(2, a, m1); }
%%loopend 1
    proof {
        let now = mcur(vertex_index, shell_index, 0); let b = shell_values@.last(); let w = codes(b->Indices_0@);
        assert(shell_values@ == o1.push(b)); lemma_tvs_push(o1, b);
        lemma_ring(w, tvs(o1), a, z, m1, now);
    }
%%post 1
    proof {
        let now = mcur(vertex_index, shell_index, 1); let k = tvs(shell_values@);
        assert(part(k, 1, a, z, now)) by { reveal(segs); let e = mcur(vertex_index, shell_index, 0); assert forall|l: int| 0 <= l <= 1 implies 0 <= #[trigger] z[l] <= now[l] <= a[l].len() && a[l].subrange(z[l], now[l]) == cat(k, 1, l) by { assert(0 <= z[l] <= e[l]); } }
        lemma_start(2, a, z, z); lemma_close(k, Seq::empty(), 2, a, z, z, now);
        let f = Seq::<Tree>::empty().push(Tree::Nest(k)); assert(f[0] == Tree::Nest(k)); assert(f.len() == 1);
        lemma_list_done(f, 2, a, z, now);
        assert forall|m: Seq<Tree>| #[trigger] listed_as(m, 2, a) && smalls(m, 2) implies Tree::Nest(k) == mat_nest(m) by { assert(m == f); }
    }
%%loop 2
    invariant
        a == marr(vertices@, shells@, solids@), 0 <= m1[0], vertex_index == m1[0] + _m, m1[0] + shell_size <= a[0].len(), indices@.len() == _m, codes(indices@) == a[0].subrange(m1[0], vertex_index as int),
%%loopend 2
    proof { assert(codes(indices@) =~= a[0].subrange(m1[0], vertex_index as int)); }
%%before 3
    proof { assert(tvs(solid_values@) =~= Seq::<Tree>::empty()); lemma_start(2, a, z, mcur(vertex_index, shell_index, _i)); }
%%loop 3
    invariant
        a == marr(vertices@, shells@, solids@), fits(a, 2), z == mcur(0, 0, 0), 0 <= _i <= a[2].len(), solid_values@.len() == _i, part(tvs(solid_values@), 2, a, z, mcur(vertex_index, shell_index, _i)),
    decreases a[2].len() - _i
%%loopstart 3
    let ghost o2 = solid_values@; let ghost m2 = mcur(vertex_index, shell_index, _i);
    proof { lemma_top(tvs(o2), 2, a, z, m2); }
%%loopend 3
    proof {
        let now = mcur(vertex_index, shell_index, (_i + 1) as usize); let b = solid_values@.last();
        assert(solid_values@ == o2.push(b)); lemma_tvs_push(o2, b);
        lemma_close(tvs(shell_values@), tvs(o2), 2, a, z, m2, now);
    }
    _i += 1;
%%post 3
    proof {
        lemma_list_done(tvs(solid_values@), 2, a, z, mcur(vertex_index, shell_index, _i));
        assert forall|m: Seq<Tree>| #[trigger] listed_as(m, 2, a) && smalls(m, 2) implies Tree::Nest(tvs(solid_values@)) == mat_nest(m) by {
            assert(m == tvs(solid_values@)); if a[2].len() == 1 { lemma_solid_shells(m, a); }
        }
    }
%%before 4
    proof { assert(tvs(shell_values@) =~= Seq::<Tree>::empty()); lemma_start(1, a, m2, mcur(vertex_index, shell_index, (_i + 1) as usize)); }
%%loop 4
    invariant
        a == marr(vertices@, shells@, solids@), fits(a, 2), z == mcur(0, 0, 0), aligned(a, m2, 2), 0 <= m2[2] < a[2].len(), a[2][m2[2]] == solid_count, shell_values@.len() == _k, part(tvs(shell_values@), 1, a, m2, mcur(vertex_index, shell_index, (_i + 1) as usize)),
%%loopstart 4
    let ghost o1 = shell_values@; let ghost m1 = mcur(vertex_index, shell_index, (_i + 1) as usize);
    proof { lemma_room(tvs(o1), 2, 2, a, m2, m1); lemma_room0(2, a, m1); }
%%loopend 4
    proof {
        let now = mcur(vertex_index, shell_index, (_i + 1) as usize); let b = shell_values@.last(); let w = codes(b->Indices_0@);
        assert(shell_values@ == o1.push(b)); lemma_tvs_push(o1, b);
        lemma_ring(w, tvs(o1), a, m2, m1, now);
    }
%%loop 5
    invariant
        a == marr(vertices@, shells@, solids@), 0 <= m1[0], vertex_index == m1[0] + _m, m1[0] + shell_size <= a[0].len(), indices@.len() == _m, codes(indices@) == a[0].subrange(m1[0], vertex_index as int),
%%loopend 5
    proof { assert(codes(indices@) =~= a[0].subrange(m1[0], vertex_index as int)); }
%%pre `materials.insert( theme, CjMaterialReference { value: None`
    proof { if t0.lv()[2].len() == 0 { assert(values is Indices); assert(codes(values->Indices_0@) =~= t0.lv()[0]); } assert(mat_read(t0, CjMaterialReference { value: None, values: Some(values) })); }
%%loopend 0
            proof {
                assert forall|i: int| 0 <= i < _t implies materials@.contains_key(theme_of((#[trigger] ts[i]).theme)) && mat_read(ts[i], materials@[theme_of(ts[i].theme)]) by { if i < n { assert(theme_of(ts[i].theme) != theme_of(ts[n].theme)); } }
                assert forall|k: Seq<char>| #[trigger] materials@.contains_key(k) implies exists|i: int| 0 <= i < _t && theme_of((#[trigger] ts[i]).theme) == k by { if old_.contains_key(k) { let i = choose|i: int| 0 <= i < n && theme_of((#[trigger] ts[i]).theme) == k; assert(theme_of(ts[i].theme) == k); } else { assert(theme_of(ts[n].theme) == k); } }
            }
%%done


// ---- geometries: the parts that deal with materials and textures (boundaries and semantics are the subject of unit geom)
#[verifier::external_body] pub struct CjBoundaries { x: u8 }
#[verifier::external_body] pub struct CjSemantics { x: u8 }
impl CjBoundaries { #[verifier::external_body] pub fn nest(b: CjBoundaries) -> CjBoundaries { unimplemented!() } }
#[derive(Debug)] pub enum Error { Other }
pub struct CjGeometry { pub thetype: CjGeometryType, pub lod: Option<String>, pub boundaries: CjBoundaries, pub semantics: Option<CjSemantics>, pub material: Option<HashMap<CjMaterialReference>>, pub texture: Option<HashMap<CjTextureReference>>, pub template: Option<usize>, pub transformation_matrix: Option<[f64; 16]> }
pub ghost struct GeomTable { pub type_: GeometryType, pub material: Option<Seq<MatTable>>, pub texture: Option<Seq<TexTable>> }
#[verifier::external_body] pub struct Geometry { x: u8 }
#[verifier::external_body] pub struct SemanticObject { x: u8 }
#[verifier::external_body] pub struct AttributeSchema { x: u8 }
#[verifier::external_body] pub struct Schema { x: u8 }
impl WIPOffset<Geometry> { pub uninterp spec fn view(&self) -> GeomTable; }
pub open spec fn wms(o: Option<WIPOffset<Vector<WIPOffset<MaterialMapping>>>>) -> Option<Seq<MatTable>> { match o { Some(v) => Some(v@.map_values(|m: WIPOffset<MaterialMapping>| m@)), None => None } }
pub open spec fn wts(o: Option<WIPOffset<Vector<WIPOffset<TextureMapping>>>>) -> Option<Seq<TexTable>> { match o { Some(v) => Some(v@.map_values(|m: WIPOffset<TextureMapping>| m@)), None => None } }
pub struct GeometryArgs { pub type_: GeometryType, pub lod: Option<WIPOffset<FbStr>>, pub solids: Option<WIPOffset<Vector<u32>>>, pub shells: Option<WIPOffset<Vector<u32>>>, pub surfaces: Option<WIPOffset<Vector<u32>>>, pub strings: Option<WIPOffset<Vector<u32>>>, pub boundaries: Option<WIPOffset<Vector<u32>>>, pub semantics: Option<WIPOffset<Vector<u32>>>, pub semantics_objects: Option<WIPOffset<Vector<WIPOffset<SemanticObject>>>>, pub material: Option<WIPOffset<Vector<WIPOffset<MaterialMapping>>>>, pub texture: Option<WIPOffset<Vector<WIPOffset<TextureMapping>>>> }
impl Geometry {
    pub uninterp spec fn view(&self) -> GeomTable;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &GeometryArgs) -> (r: WIPOffset<Geometry>)
        ensures r@ == (GeomTable { type_: a.type_, material: wms(a.material), texture: wts(a.texture) }) { unimplemented!() }
    #[verifier::external_body] pub fn type_(&self) -> (r: GeometryType) ensures r == self@.type_ { unimplemented!() }
    #[verifier::external_body] pub fn lod(&self) -> (r: Option<FbStr>) { unimplemented!() }
    #[verifier::external_body] pub fn solids(&self) -> (r: Option<Vector<u32>>) { unimplemented!() }
    #[verifier::external_body] pub fn shells(&self) -> (r: Option<Vector<u32>>) { unimplemented!() }
    #[verifier::external_body] pub fn surfaces(&self) -> (r: Option<Vector<u32>>) { unimplemented!() }
    #[verifier::external_body] pub fn strings(&self) -> (r: Option<Vector<u32>>) { unimplemented!() }
    #[verifier::external_body] pub fn boundaries(&self) -> (r: Option<Vector<u32>>) { unimplemented!() }
    #[verifier::external_body] pub fn material(&self) -> (r: Option<Vector<MaterialMapping>>) ensures (r is Some) == (self@.material is Some), r is Some ==> mts(r->0@) == self@.material->0 { unimplemented!() }
    #[verifier::external_body] pub fn texture(&self) -> (r: Option<Vector<TextureMapping>>) ensures (r is Some) == (self@.texture is Some), r is Some ==> tts(r->0@) == self@.texture->0 { unimplemented!() }
}
#[verifier::external_body] pub fn decode(solids: &Vec<u32>, shells: &Vec<u32>, surfaces: &Vec<u32>, strings: &Vec<u32>, indices: &Vec<u32>) -> CjBoundaries { unimplemented!() }
#[verifier::external_body] pub fn semantics_of(g: &Geometry) -> Option<CjSemantics> { unimplemented!() }
impl Vector<u32> { #[verifier::external_body] pub fn count(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }

/// material values of a geometry of a type: nested as its boundaries, without rings
pub open spec fn of_solids(t: Tree) -> bool { t is Nest && exists|i: int| 0 <= i < t->Nest_0.len() && #[trigger] t->Nest_0[i] is Nest }
pub open spec fn mat_fixed(t: Tree, multi: bool, solid: bool) -> Tree {
    if t is Leaf { t } else if multi && !of_solids(t) { Tree::Nest(seq![t]) } else if solid && of_solids(t) && t->Nest_0.len() == 1 { t->Nest_0[0] } else { t }
}
#[verifier::external_body] pub fn take_vec(v: &mut Vec<CjMaterialValues>) -> (r: Vec<CjMaterialValues>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
%%expr reader/deserializer.rs "-" decode_geometry `if let CjMaterialValues::Nested(nested) = values {` as `pub fn fix_values(values: &mut CjMaterialValues, is_multi_solid: bool, g: &Geometry)`
%%sub `nested .iter() .any(|v| matches!(v, CjMaterialValues::Nested(_)))` => `{ proof { assert forall|v: Seq<CjMaterialValues>| v.len() == 1 implies #[trigger] tvs(v) == seq![tv(v[0])] && (v[0] is Nested ==> tv(v[0]) == Tree::Nest(tvs(v[0]->Nested_0@))) by { assert(tvs(v) =~= seq![tv(v[0])]); } assert forall|i: int| 0 <= i < nested@.len() implies (#[trigger] tvs(nested@)[i]) == tv(nested@[i]) && (nested@[i] is Nested) == (tvs(nested@)[i] is Nest) by {} if exists|i: int| 0 <= i < nested@.len() && #[trigger] nested@[i] is Nested { let i = choose|i: int| 0 <= i < nested@.len() && #[trigger] nested@[i] is Nested; assert(tvs(nested@)[i] is Nest); } } any_nested(nested) }`
%%sub `std::mem::take( nested, ))]);` => `take_vec(nested))]); proof { assert(tv(*values) == Tree::Nest(tvs((*values)->Nested_0@))); }`
    ensures
        tv(*final(values)) == mat_fixed(tv(*old(values)), is_multi_solid, g@.type_ == GeometryType::Solid),
%%done


/// applies fix_values to the values of every entry (the iteration over the map is assumed, its body is fix_values)
#[verifier::external_body] pub fn fix_all(m: &mut Option<HashMap<CjMaterialReference>>, multi: bool, g: &Geometry)
    ensures (*final(m) is Some) == (*old(m) is Some),
        *old(m) is Some ==> forall|k: Seq<char>| #[trigger] (*final(m))->0@.contains_key(k) == (*old(m))->0@.contains_key(k),
        *old(m) is Some ==> forall|k: Seq<char>| (*old(m))->0@.contains_key(k) ==> mat_entry_fixed((*old(m))->0@[k], #[trigger] (*final(m))->0@[k], multi, g@.type_ == GeometryType::Solid),
{ unimplemented!() }
pub open spec fn mat_entry_fixed(o: CjMaterialReference, f: CjMaterialReference, multi: bool, solid: bool) -> bool {
    f.value == o.value && (f.values is Some) == (o.values is Some) && (o.values is Some ==> tv(f.values->0) == mat_fixed(tv(o.values->0), multi, solid))
}
pub open spec fn tex_fixed(v: Tree, multi: bool, t: TexTable) -> Tree { if multi && t.lv()[4].len() == 1 { Tree::Nest(seq![v]) } else { v } }
pub open spec fn tex_final(t: TexTable, multi: bool, m: Map<Seq<char>, CjTextureReference>) -> bool {
    let k = theme_of(t.theme); m.contains_key(k) && exists|v: Tree| #[trigger] tex_read(t, v) && tv(m[k].values) == tex_fixed(v, multi, t)
}
pub open spec fn mat_final(t: MatTable, multi: bool, solid: bool, m: Map<Seq<char>, CjMaterialReference>) -> bool {
    let k = theme_of(t.theme); m.contains_key(k) && exists|o: CjMaterialReference| #[trigger] mat_read(t, o) && mat_entry_fixed(o, m[k], multi, solid)
}
pub open spec fn tex_tables_ok(s: Seq<TexTable>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> fits((#[trigger] s[i]).lv(), top_a(s[i].lv())) && s[i].lv()[0].len() > 0
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> theme_of((#[trigger] s[i]).theme) != theme_of((#[trigger] s[j]).theme)
}
pub open spec fn mat_tables_ok(s: Seq<MatTable>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> mat_table_ok(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> theme_of((#[trigger] s[i]).theme) != theme_of((#[trigger] s[j]).theme)
}
%%fn reader/deserializer.rs "-" decode_geometry
%%ret r
%%loops 1
%%sig `semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>` => `semantic_attr_schema: Option<Schema>`
%%sub `g .solids() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.solids())`
%%sub `g .shells() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.shells())`
%%sub `g .surfaces() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.surfaces())`
%%sub `g .strings() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.strings())`
%%sub `g .boundaries() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.boundaries())`
%%sub `CjBoundaries::Nested(vec![boundaries])` => `CjBoundaries::nest(boundaries)`
%%replstmt `let semantics: Option<CjSemantics>` => `let semantics: Option<CjSemantics> = semantics_of(&g);`
%%sub `&material_mappings.iter().collect::<Vec<_>>()` => `&all(material_mappings)`
%%sub `&texture_mappings.iter().collect::<Vec<_>>()` => `&all(texture_mappings)`
%%replstmt `for values in material` => `fix_all(&mut material, is_multi_solid, &g);`
%%sub `(is_multi_solid, g.texture(), texture.as_mut())` => `(is_multi_solid, g.texture(), &mut texture)`
%%sub `for mapping in texture_mappings.iter() {` => `let _tm = all(texture_mappings); let mut _u: usize = 0; while _u < _tm.len() { let mapping = &_tm[_u]; _u += 1;`
%%sub `mapping.solids().is_some_and(|s| s.len() == 1)` => `match mapping.solids() { Some(s) => s.len() == 1, None => false }`
%%sub `mapping.theme().unwrap_or("theme")` => `match mapping.theme() { Some(x) => x, None => "theme" }`
%%sub `t.values.clone()` => `copy_values(&t.values)`
%%sub `g.lod().map(|v| v.to_string())` => `opt_string(g.lod())`
%%spec
    requires
        g@.texture is Some ==> tex_tables_ok(g@.texture->0),
        g@.material is Some ==> mat_tables_ok(g@.material->0),
    ensures
        r is Ok,
        (r->Ok_0.texture is Some) == (g@.texture is Some && g@.texture->0.len() > 0),
        (r->Ok_0.material is Some) == (g@.material is Some && g@.material->0.len() > 0),
        r->Ok_0.texture is Some ==> forall|i: int| 0 <= i < g@.texture->0.len() ==> tex_final(#[trigger] g@.texture->0[i], is_multi(g@.type_), r->Ok_0.texture->0@),
        r->Ok_0.texture is Some ==> forall|k: Seq<char>| #[trigger] r->Ok_0.texture->0@.contains_key(k) ==> exists|i: int| 0 <= i < g@.texture->0.len() && theme_of((#[trigger] g@.texture->0[i]).theme) == k,
        r->Ok_0.material is Some ==> forall|i: int| 0 <= i < g@.material->0.len() ==> mat_final(#[trigger] g@.material->0[i], is_multi(g@.type_), g@.type_ == GeometryType::Solid, r->Ok_0.material->0@),
        r->Ok_0.material is Some ==> forall|k: Seq<char>| #[trigger] r->Ok_0.material->0@.contains_key(k) ==> exists|i: int| 0 <= i < g@.material->0.len() && theme_of((#[trigger] g@.material->0[i]).theme) == k,
%%pre `fix_all(`
    let ghost mat0 = material;
%%before 0
    let ghost tex0 = texture@; let ghost ts = g@.texture->0;
%%loop 0
    invariant
        is_multi_solid, 0 <= _u <= _tm@.len(), ts == tts(_tm@), ts.len() == _tm@.len(), tex_tables_ok(ts),
        forall|k: Seq<char>| #[trigger] texture@.contains_key(k) == tex0.contains_key(k),
        forall|i: int| 0 <= i < ts.len() ==> tex0.contains_key(theme_of((#[trigger] ts[i]).theme)) && tv(texture@[theme_of(ts[i].theme)].values) == if i < _u { tex_fixed(tv(tex0[theme_of(ts[i].theme)].values), true, ts[i]) } else { tv(tex0[theme_of(ts[i].theme)].values) },
    decreases _tm@.len() - _u
%%loopstart 0
    let ghost n = _u as int; let ghost tx = texture@;
    proof { assert(_tm@[n]@ == ts[n]); }
%%loopend 0
    proof {
        assert forall|v: Seq<CjTextureValues>| v.len() == 1 implies #[trigger] tvs(v) == seq![tv(v[0])] by { assert(tvs(v) =~= seq![tv(v[0])]); }
        let kn = theme_of(ts[n].theme);
        assert(tex0.contains_key(kn) && tx.contains_key(kn));
        if ts[n].lv()[4].len() == 1 { let q = texture@[kn].values; assert(tv(q) == Tree::Nest(tvs(q->Nested_0@))); }
        assert forall|i: int| 0 <= i < ts.len() implies tex0.contains_key(theme_of((#[trigger] ts[i]).theme)) && tv(texture@[theme_of(ts[i].theme)].values) == if i < _u { tex_fixed(tv(tex0[theme_of(ts[i].theme)].values), true, ts[i]) } else { tv(tex0[theme_of(ts[i].theme)].values) } by {
            if i < n { assert(theme_of(ts[i].theme) != kn); } else if i > n { assert(theme_of(ts[i].theme) != kn); }
        }
    }
%%done


// ---- the writer's side
%%pubitem writer/geom_encoder.rs struct GMBoundaries
pub struct GMSemantics { pub surfaces: u8, pub values: u8 }
%%pubitem writer/geom_encoder.rs struct EncodedGeometry
%%isub `TextureMapping` => `GMTextureMapping`
%%isub `MaterialMapping` => `GMMaterialMapping`
#[verifier::external_body] pub fn encode_boundaries(b: &CjBoundaries, w: &mut GMBoundaries) -> usize { unimplemented!() }
#[verifier::external_body] pub fn encode_semantics(s: &CjSemantics) -> GMSemantics { unimplemented!() }
#[verifier::external_body] pub fn semantics_tables(s: Option<GMSemantics>) -> (Option<WIPOffset<Vector<WIPOffset<SemanticObject>>>>, Option<WIPOffset<Vector<u32>>>) { unimplemented!() }
pub open spec fn themes_ok(g: CjGeometry) -> bool {
    &&& g.texture is Some ==> forall|k: Seq<char>| #[trigger] g.texture->0@.contains_key(k) ==> texture_ok(g.texture->0@[k])
    &&& g.material is Some ==> forall|k: Seq<char>| #[trigger] g.material->0@.contains_key(k) ==> material_ok(g.material->0@[k])
}
%%fn writer/geom_encoder.rs "-" encode
%%ret r
%%sig `textures: Option<&HashMap<String, CjTextureReference>>` => `textures: Option<&HashMap<CjTextureReference>>`
%%sig `materials: Option<&HashMap<String, CjMaterialReference>>` => `materials: Option<&HashMap<CjMaterialReference>>`
%%sub `semantics.map(encode_semantics)` => `match semantics { Some(x) => Some(encode_semantics(x)), None => None }`
%%sub `textures.map(encode_texture)` => `match textures { Some(x) => Some(encode_texture(x)), None => None }`
%%sub `materials.map(encode_material)` => `match materials { Some(x) => Some(encode_material(x)), None => None }`
%%spec
    requires
        textures is Some ==> forall|k: Seq<char>| #[trigger] textures->0@.contains_key(k) ==> texture_ok(textures->0@[k]),
        materials is Some ==> forall|k: Seq<char>| #[trigger] materials->0@.contains_key(k) ==> material_ok(materials->0@[k]),
    ensures
        (r.textures is Some) == (textures is Some), textures is Some ==> listed(textures->0@, r.textures->0@, tkey(), tenc()),
        (r.materials is Some) == (materials is Some), materials is Some ==> listed(materials->0@, r.materials->0@, mkey(), menc()),
%%done
pub open spec fn tex_table(m: GMTextureMapping, t: TexTable) -> bool { t == (TexTable { theme: Some(m.theme@), solids: Some(m.solids@), shells: Some(m.shells@), surfaces: Some(m.surfaces@), strings: Some(m.strings@), vertices: Some(m.vertices@) }) }
pub open spec fn mat_table(m: GMMaterialMapping, t: MatTable) -> bool {
    t == match m {
        GMMaterialMapping::Value(v) => MatTable { theme: Some(v.theme@), solids: None, shells: None, vertices: None, value: Some(v.value) },
        GMMaterialMapping::Values(v) => MatTable { theme: Some(v.theme@), solids: Some(v.solids@), shells: Some(v.shells@), vertices: Some(v.vertices@), value: None },
    }
}
pub open spec fn ttheme() -> spec_fn(TexTable) -> Seq<char> { |t: TexTable| theme_of(t.theme) }
pub open spec fn mtheme() -> spec_fn(MatTable) -> Seq<char> { |t: MatTable| theme_of(t.theme) }
pub open spec fn tex_enc() -> spec_fn(CjTextureReference, TexTable) -> bool { |c: CjTextureReference, t: TexTable| flattened(tv(c.values), t.lv()) }
pub open spec fn mat_enc() -> spec_fn(CjMaterialReference, MatTable) -> bool { |c: CjMaterialReference, t: MatTable| match t.value {
    Some(v) => c.value is Some && v == c.value->0,
    None => c.value is None && c.values is Some && mat_flat(tv(c.values->0), t.lv()) && t.vertices is Some,
} }
%%fn writer/serializer.rs "-" to_geometry
%%ret r
%%loops 2
%%sig `to_geometry<'a>` => `to_geometry`
%%sig `&mut flatbuffers::FlatBufferBuilder<'a>` => `&mut FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<Geometry<'a>>` => `WIPOffset<Geometry>`
%%sub `geometry.lod.as_ref().map(|lod| fbb.create_string(lod))` => `match geometry.lod.as_ref() { Some(lod) => Some(fbb.create_string(lod)), None => None }`
%%replstmt `let semantics =` => `let semantics = encoded.semantics;`
%%replstmt `let (semantics_objects, semantics_values)` => `let (semantics_objects, semantics_values) = semantics_tables(semantics);`
%%sub `encoded.materials.map(|m| {` => `match encoded.materials { None => None, Some(m) => { Some({`
%%sub `let mappings = m .iter() .map(|m| match m {` => `let mut mappings: Vec<WIPOffset<MaterialMapping>> = Vec::new(); let mut _i: usize = 0; while _i < m.len() { let _o = match &m[_i] {`
%%sub `encoded.textures.map(|t| {` => `match encoded.textures { None => None, Some(t) => { Some({`
%%sub `let mappings = t .iter() .map(|t| {` => `let mut mappings: Vec<WIPOffset<TextureMapping>> = Vec::new(); let mut _i: usize = 0; while _i < t.len() { let _o = { let t = &t[_i];`
%%sub `}) .collect::<Vec<_>>(); fbb.create_vector(&mappings) });` => `}; mappings.push(_o); _i += 1; } fbb.create_vector(&mappings) }) } };`
%%spec
    requires
        themes_ok(*geometry),
    ensures
        !(geometry.thetype is GeometryInstance) ==> r@.type_ == type_of(geometry.thetype),
        (r@.texture is Some) == (geometry.texture is Some), (r@.material is Some) == (geometry.material is Some),
        geometry.texture is Some ==> listed(geometry.texture->0@, r@.texture->0, ttheme(), tex_enc()),
        geometry.material is Some ==> listed(geometry.material->0@, r@.material->0, mtheme(), mat_enc()),
%%loop 0
    invariant
        0 <= _i <= m@.len(), mappings@.len() == _i, forall|i: int| 0 <= i < _i ==> mat_table(m@[i], #[trigger] mappings@[i]@),
    decreases m@.len() - _i
%%post 0
    proof {
        let g = geometry.material->0@; let l = mappings@.map_values(|m: WIPOffset<MaterialMapping>| m@); let e = m@;
        assert(listed(g, e, mkey(), menc()));
        assert forall|i: int| 0 <= i < l.len() implies g.contains_key(mtheme()(#[trigger] l[i])) && mat_enc()(g[mtheme()(l[i])], l[i]) by { assert(mat_table(e[i], mappings@[i]@)); assert(g.contains_key(mkey()(e[i]))); }
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies mtheme()(#[trigger] l[i]) != mtheme()(#[trigger] l[j]) by { assert(mat_table(e[i], mappings@[i]@) && mat_table(e[j], mappings@[j]@)); assert(mkey()(e[i]) != mkey()(e[j])); }
        assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies exists|i: int| 0 <= i < l.len() && mtheme()(#[trigger] l[i]) == k by { let i = choose|i: int| 0 <= i < e.len() && mkey()(#[trigger] e[i]) == k; assert(mat_table(e[i], mappings@[i]@)); assert(mtheme()(l[i]) == k); }
    }
%%loop 1
    invariant
        0 <= _i <= t@.len(), mappings@.len() == _i, forall|i: int| 0 <= i < _i ==> tex_table(t@[i], #[trigger] mappings@[i]@),
    decreases t@.len() - _i
%%post 1
    proof {
        let g = geometry.texture->0@; let l = mappings@.map_values(|m: WIPOffset<TextureMapping>| m@); let e = t@;
        assert(listed(g, e, tkey(), tenc()));
        assert forall|i: int| 0 <= i < l.len() implies g.contains_key(ttheme()(#[trigger] l[i])) && tex_enc()(g[ttheme()(l[i])], l[i]) by { assert(tex_table(e[i], mappings@[i]@)); assert(g.contains_key(tkey()(e[i]))); }
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies ttheme()(#[trigger] l[i]) != ttheme()(#[trigger] l[j]) by { assert(tex_table(e[i], mappings@[i]@) && tex_table(e[j], mappings@[j]@)); assert(tkey()(e[i]) != tkey()(e[j])); }
        assert forall|k: Seq<char>| #[trigger] g.contains_key(k) implies exists|i: int| 0 <= i < l.len() && ttheme()(#[trigger] l[i]) == k by { let i = choose|i: int| 0 <= i < e.len() && tkey()(#[trigger] e[i]) == k; assert(tex_table(e[i], mappings@[i]@)); assert(ttheme()(l[i]) == k); }
    }
%%done
#[verifier::external_body] pub fn stored(o: WIPOffset<Geometry>) -> (g: Geometry) ensures g@ == o@ { unimplemented!() }
// ---- the property: materials and textures written and read back are the same
/// nested as the type of the geometry prescribes, every count fits, a texture has at least one number
pub open spec fn texture_fits(t: Tree, d: int) -> bool { 3 <= d <= 5 && depth_ok(t, d) && small(t, d) && cnt(t, d, 0).len() > 0 }
pub open spec fn material_fits(m: CjMaterialReference, d: int) -> bool {
    match m.value { Some(v) => v <= u32::MAX && m.values is None, None => m.values is Some && 3 <= d <= 5 && depth_ok(tv(m.values->0), d - 2) && small(tv(m.values->0), d - 2) }
}
pub open spec fn appearance_ok(g: CjGeometry) -> bool {
    let d = depth_of(type_of(g.thetype));
    &&& !(g.thetype is GeometryInstance)
    &&& g.texture is Some ==> forall|k: Seq<char>| #[trigger] g.texture->0@.contains_key(k) ==> texture_fits(tv(g.texture->0@[k].values), d)
    &&& g.material is Some ==> forall|k: Seq<char>| #[trigger] g.material->0@.contains_key(k) ==> material_fits(g.material->0@[k], d)
}
pub open spec fn same_material(m: CjMaterialReference, r: CjMaterialReference) -> bool { r.value == m.value && (r.values is Some) == (m.values is Some) && (m.values is Some ==> tv(r.values->0) == tv(m.values->0)) }
/// an empty map is read back as none
pub open spec fn same_textures(g: Option<HashMap<CjTextureReference>>, r: Option<HashMap<CjTextureReference>>) -> bool {
    match (g, r) {
        (Some(a), Some(b)) => forall|k: Seq<char>| a@.contains_key(k) == #[trigger] b@.contains_key(k) && (a@.contains_key(k) ==> tv(b@[k].values) == tv(a@[k].values)),
        (Some(a), None) => forall|k: Seq<char>| !#[trigger] a@.contains_key(k),
        (None, Some(_)) => false, (None, None) => true,
    }
}
pub open spec fn same_materials(g: Option<HashMap<CjMaterialReference>>, r: Option<HashMap<CjMaterialReference>>) -> bool {
    match (g, r) {
        (Some(a), Some(b)) => forall|k: Seq<char>| a@.contains_key(k) == #[trigger] b@.contains_key(k) && (a@.contains_key(k) ==> same_material(a@[k], b@[k])),
        (Some(a), None) => forall|k: Seq<char>| !#[trigger] a@.contains_key(k),
        (None, Some(_)) => false, (None, None) => true,
    }
}
pub proof fn lemma_mat_flat(t: Tree, a: Arr, d: int)
    requires depth_ok(t, d), small(t, d), 1 <= d <= 3, mat_flat(t, a),
    ensures d == 1 ==> a[2].len() == 0 && a[0] == t->Leaf_0,
        d >= 2 ==> t is Nest && listed_as(solids_of(t), 2, a) && smalls(solids_of(t), 2) && fits(a, 2) && a[2].len() == solids_of(t).len() && solids_of(t).len() > 0,
{
    lemma_dep(t, d);
    if d >= 2 {
        let k = solids_of(t); let n = t->Nest_0;
        assert forall|i: int| 0 <= i < k.len() implies depth_ok(#[trigger] k[i], 2) && small(k[i], 2) by { if d == 3 { assert(depth_ok(n[i], 2) && small(n[i], 2)); } }
        assert forall|l: int| 0 <= l <= 2 implies #[trigger] a[l] == cat(k, 2, l) by {}
        assert forall|l: int| 1 <= l <= 2 implies sum(#[trigger] a[l]) == a[l - 1].len() by { lemma_cat_sum(k, 2, l); assert(a[l - 1] == cat(k, 2, l - 1)); }
        assert forall|l: int, i: int| 2 <= l <= 2 && 0 <= i < a[l].len() implies (#[trigger] a[l][i]) > 0 by { lemma_cat_pos(k, 2, l); }
        lemma_cat_sum(k, 2, 2);
    }
}
/// what mat_nest and mat_fixed make of the solids is the value again
pub proof fn lemma_mat_fixed(t: Tree, d: int)
    requires depth_ok(t, d), 2 <= d <= 3,
    ensures mat_fixed(mat_nest(solids_of(t)), d == 3, d == 2) == t,
{
    lemma_dep(t, d);
    let n = t->Nest_0; let k = solids_of(t); let m = mat_nest(k);
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i] is Nest) == (d == 3) by { assert(depth_ok(n[i], d - 1)); }
    if d == 3 {
        assert forall|i: int| 0 <= i < n.len() implies !of_solids(#[trigger] n[i]) && n[i] is Nest && n[i]->Nest_0.len() > 0 by { assert(depth_ok(n[i], 2)); let q = n[i]->Nest_0; assert forall|j: int| 0 <= j < q.len() implies !(#[trigger] q[j] is Nest) by { assert(depth_ok(q[j], 1)); } }
        if k.len() == 1 && k[0]->Nest_0.len() > 1 { assert(m == n[0]); assert(!of_solids(m)); assert(n =~= seq![n[0]]); }
        else { assert(m == t); assert(of_solids(t)) by { assert(n[0] is Nest); } }
    } else {
        assert(!of_solids(t)) by { if of_solids(t) { let i = choose|i: int| 0 <= i < t->Nest_0.len() && #[trigger] t->Nest_0[i] is Nest; assert(n[i] is Nest); } }
        if n.len() > 1 { assert(m == t); } else { assert(m == Tree::Nest(seq![t])); assert(of_solids(m)) by { assert(m->Nest_0[0] is Nest); } }
    }
}
fn p11_round_trip(fbb: &mut FlatBufferBuilder, g: &CjGeometry, cols: Option<Schema>) -> (r: Result<CjGeometry, Error>)
    requires appearance_ok(*g),
    ensures r is Ok, same_textures(g.texture, r->Ok_0.texture), same_materials(g.material, r->Ok_0.material),
{
    let ghost d = depth_of(type_of(g.thetype));
    proof {
        if g.texture is Some { assert forall|k: Seq<char>| #[trigger] g.texture->0@.contains_key(k) implies texture_ok(g.texture->0@[k]) by { lemma_dep(tv(g.texture->0@[k].values), d); } }
        if g.material is Some { assert forall|k: Seq<char>| #[trigger] g.material->0@.contains_key(k) implies material_ok(g.material->0@[k]) by { let m = g.material->0@[k]; if m.value is None { lemma_dep(tv(m.values->0), d - 2); } } }
    }
    let o = to_geometry(fbb, g, None);
    let t = stored(o);
    proof {
        if g.texture is Some {
            let a = g.texture->0@; let s = t@.texture->0;
            assert forall|i: int| 0 <= i < s.len() implies fits((#[trigger] s[i]).lv(), top_a(s[i].lv())) && s[i].lv()[0].len() > 0 by { lemma_texture(a, s, d, i); }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies theme_of((#[trigger] s[i]).theme) != theme_of((#[trigger] s[j]).theme) by { assert(ttheme()(s[i]) != ttheme()(s[j])); }
        }
        if g.material is Some {
            let a = g.material->0@; let s = t@.material->0;
            assert forall|i: int| 0 <= i < s.len() implies mat_table_ok(#[trigger] s[i]) by { assert(a.contains_key(mtheme()(s[i]))); let m = a[mtheme()(s[i])]; if m.value is None { lemma_mat_flat(tv(m.values->0), s[i].lv(), d - 2); } }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies theme_of((#[trigger] s[i]).theme) != theme_of((#[trigger] s[j]).theme) by { assert(mtheme()(s[i]) != mtheme()(s[j])); }
        }
    }
    let r = decode_geometry(t, cols);
    proof {
        if g.texture is Some {
            let a = g.texture->0@; let s = t@.texture->0;
            if r->Ok_0.texture is Some {
                let b = r->Ok_0.texture->0@;
                assert forall|k: Seq<char>| a.contains_key(k) == #[trigger] b.contains_key(k) && (a.contains_key(k) ==> tv(b[k].values) == tv(a[k].values)) by {
                    if a.contains_key(k) {
                        let i = choose|i: int| 0 <= i < s.len() && ttheme()(#[trigger] s[i]) == k;
                        lemma_texture(a, s, d, i);
                        assert(tex_final(s[i], is_multi(t@.type_), b));
                        let x = tv(a[k].values); assert(encodes(x, d, s[i].lv()));
                        lemma_encodes(x, d, s[i].lv());
                        if d == 5 && s[i].lv()[4].len() == 1 { assert(x->Nest_0 =~= seq![x->Nest_0[0]]); }
                        if d == 4 { assert(s[i].lv()[4].len() == 1); }
                    } else if b.contains_key(k) {
                        let i = choose|i: int| 0 <= i < s.len() && theme_of((#[trigger] s[i]).theme) == k; assert(a.contains_key(ttheme()(s[i])));
                    }
                }
            } else { assert forall|k: Seq<char>| !#[trigger] a.contains_key(k) by { if a.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && ttheme()(#[trigger] s[i]) == k; assert(s.len() > 0); } } }
        }
        if g.material is Some {
            let a = g.material->0@; let s = t@.material->0;
            if r->Ok_0.material is Some {
                let b = r->Ok_0.material->0@;
                assert forall|k: Seq<char>| a.contains_key(k) == #[trigger] b.contains_key(k) && (a.contains_key(k) ==> same_material(a[k], b[k])) by {
                    if a.contains_key(k) {
                        let i = choose|i: int| 0 <= i < s.len() && mtheme()(#[trigger] s[i]) == k;
                        assert(a.contains_key(mtheme()(s[i])));
                        assert(mat_final(s[i], is_multi(t@.type_), t@.type_ == GeometryType::Solid, b));
                        let m = a[k];
                        if m.value is None { let x = tv(m.values->0); lemma_mat_flat(x, s[i].lv(), d - 2); if d >= 4 { lemma_mat_fixed(x, d - 2); assert(listed_as(solids_of(x), 2, s[i].lv())); } }
                    } else if b.contains_key(k) {
                        let i = choose|i: int| 0 <= i < s.len() && theme_of((#[trigger] s[i]).theme) == k; assert(a.contains_key(mtheme()(s[i])));
                    }
                }
            } else { assert forall|k: Seq<char>| !#[trigger] a.contains_key(k) by { if a.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && mtheme()(#[trigger] s[i]) == k; assert(s.len() > 0); } } }
        }
    }
    r
}
pub proof fn lemma_texture(a: Map<Seq<char>, CjTextureReference>, s: Seq<TexTable>, d: int, i: int)
    requires listed(a, s, ttheme(), tex_enc()), 0 <= i < s.len(), forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> texture_fits(tv(a[k].values), d),
    ensures a.contains_key(theme_of(s[i].theme)), encodes(tv(a[theme_of(s[i].theme)].values), d, s[i].lv()), fits(s[i].lv(), top_a(s[i].lv())), s[i].lv()[0].len() > 0, top_a(s[i].lv()) == top_of(d),
{
    let k = ttheme()(s[i]); assert(a.contains_key(k)); let x = tv(a[k].values); let l = s[i].lv();
    assert(tex_enc()(a[k], s[i])); lemma_dep(x, d); lemma_flattened(x, l); lemma_encodes(x, d, l);
    if d == 5 { assert(x->Nest_0.len() > 0); }
    assert(l[0] == cnt(x, d, 0));
}

fn main() {}
} // verus!
