"""writes properties.jsonl and MANIFEST.json (run by hand after an edit; both are committed)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "src/rust/fcb_core/src/"

def P(id, title, statement, over, text, why, files, mech, observe, tech=None, note=None, level="proof", na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note, level=level, na=na)

V_TECH = "contract-based deductive verification of the extracted real functions (Verus/Z3)"
CAT = [
P("P01", "Box and point queries return exactly the matching items",
  "A spatial index built over any non-empty list of bounding boxes with any node size of at least 2 answers a box query with exactly the items whose boxes intersect the query box (touching counts) and a point query with exactly the items whose boxes contain the point. No item is missing and none is reported twice. The answer is the same when the index is searched in memory, streamed from its serialized form, or read with range requests.",
  ["inputs", "configurations"], "every list of boxes (any length, any coordinates), every node size, every query, every way of reading the index",
  "tests query a handful of small trees; the level structure changes shape at every power of the node size and a query can cut the tree anywhere",
  [C + "packed_rtree/mod.rs"],
  [("level bounds", C + "packed_rtree/mod.rs generate_level_bounds"), ("node hulls and child pointers", C + "packed_rtree/mod.rs generate_nodes"), ("traversal", C + "packed_rtree/mod.rs search, stream_search, http_stream_search")],
  ["result of a box or point query on an index"],
  V_TECH + "; bounded driver on the crate for the reading paths",
  "Proved for all inputs for level bounds, node generation, building from a list of items, the in-memory, the streamed and the ranged (HTTP) traversal and reading the index from its bytes. Trusts IEEE order axioms, std contracts, Verus, the extraction."),
P("P02", "Nearest query returns an item with the least centre distance",
  "A nearest-neighbour query on any non-empty spatial index of finite boxes returns exactly one item, and no other item's centre is closer to the query point. This holds in memory, streamed and over range requests.",
  ["inputs", "configurations"], "every list of finite boxes, every node size, every query point, every way of reading the index",
  "best-first search may prune a subtree that holds the nearest item only for particular arrangements of boxes; tests try a few points",
  [C + "packed_rtree/mod.rs"],
  [("priority queue ordered by box distance, pruning by best centre distance", C + "packed_rtree/mod.rs search (PointNearest)"), ("box and centre distance", C + "packed_rtree/mod.rs min_distance_squared, centroid_distance_squared")],
  ["result of a nearest query on an index"],
  V_TECH + "; bounded driver on the crate for the reading paths",
  "Proved for all inputs for the in-memory, the streamed and the ranged (HTTP) search given the distance-monotonicity axiom and the heap contract."),
P("P03", "A written spatial index is read back as the same tree",
  "The serialized spatial index has exactly the announced size, stores every item unchanged and in order, and every inner node lists its first child and the exact hull of its children. Reading it back, from a buffer or with range requests, gives a tree that writes the same bytes and answers queries identically.",
  ["inputs", "configurations"], "every list of boxes and every node size",
  "a level boundary that is off by one only shows for item counts around powers of the node size",
  [C + "packed_rtree/mod.rs"],
  [("size formula and level bounds agree", C + "packed_rtree/mod.rs index_size, generate_level_bounds"), ("node encoding", C + "packed_rtree/mod.rs NodeItem::write, from_reader")],
  ["bytes of the index, trees read back from them"],
  V_TECH + "; bounded driver on the crate",
  "Proved for all inputs: size, level structure, hulls (no smaller and no larger than the children), what is written, and that the written bytes read back as that tree wherever they lie in a file; over HTTP bounded."),
P("P04", "Exact lookup in an attribute index returns every entry of that key",
  "An attribute index built over any non-empty list of entries with any branching factor of at least 3 answers an exact lookup with the offsets of all entries whose key equals the searched key, each exactly once, and with nothing when no entry has that key. The answer is the same in memory, streamed from the serialized form and over range requests.",
  ["inputs", "configurations"], "every list of entries of every key type, duplicates included, every branching factor, every searched key, every way of reading",
  "the separator keys and sibling jumps matter only where a key sits on a node boundary, which moves with the number of keys and the branching factor",
  [C + "static_btree/stree.rs", C + "static_btree/query/memory.rs", C + "static_btree/query/stream.rs", C + "static_btree/query/http.rs"],
  [("level structure and separators", C + "static_btree/stree.rs generate_level_bounds, generate_nodes"), ("descent", C + "static_btree/stree.rs find_exact, stream_find_exact, http_stream_find_exact"), ("duplicates", C + "static_btree/payload.rs")],
  ["offsets returned by an exact lookup"],
  V_TECH + "; bounded driver on the crate for the reading paths",
  "find_exact and stream_find_exact are proved to return the offsets of every entry of the key, in order, for every list of entries and branching factor; build, level layout, separators and payload lists are proved; the HTTP variant is driven, not proved"),
P("P05", "Range lookup in an attribute index returns exactly the entries in range",
  "A range lookup with an optional lower and an optional upper bound, both inclusive, returns the offsets of exactly the entries whose key lies between the bounds, each once; a reversed range returns nothing or an error. The answer is the same in memory, streamed and over range requests. (The known omission at an upper bound that is a separator key is listed in known-findings.txt.)",
  ["inputs", "configurations"], "every list of entries, every branching factor, every pair of bounds, every way of reading",
  "both ends of a range descend on their own and must meet in the leaf level for every combination of bounds and node boundaries",
  [C + "static_btree/stree.rs"],
  [("descent to the two ends", C + "static_btree/stree.rs find_partition, find_range"), ("streamed and HTTP variants", C + "static_btree/stree.rs stream_find_range, http_stream_find_range")],
  ["offsets returned by a range lookup"],
  V_TECH + "; bounded driver on the crate for the reading paths",
  "find_range and stream_find_range are proved to return exactly the entries in range but for the recorded separator finding; open-ended ranges (query layer) and the HTTP variant are driven"),
P("P06", "Attribute queries return the features that satisfy every condition",
  "A query of one or more conditions (field, one of ==, !=, <, <=, >, >=, key) over attribute indexes returns exactly the features that satisfy all conditions, each feature once when it has at most one value per field, where a condition is satisfied by a feature whose indexed value of that field compares with the key as the operator says. Features without a value of the field never satisfy a condition on it, != included. A condition on a field without an index is an error, unless the conditions before it leave nothing; the known deviation for features with several values of a field is listed in known-findings.txt.",
  ["inputs", "configurations"], "every set of indexes, every list of conditions, every operator and key type, every way of reading",
  "operators are composed from lookups and set differences; a wrong bound or set operation shows only for keys that are present, extreme or duplicated",
  [C + "static_btree/query/memory.rs", C + "static_btree/query/stream.rs", C + "static_btree/query/http.rs"],
  [("operators", C + "static_btree/query/memory.rs, stream.rs, http.rs impl_typed_*_search_index"), ("combination of conditions", C + "static_btree/query/memory.rs MemoryMultiIndex::query, stream.rs StreamMultiIndex::query, http.rs HttpMultiIndex::query")],
  ["feature offsets returned by a query"],
  V_TECH + "; bounded driver on the crate",
  "Operators, combination of conditions, open-ended ranges and the lookups below them proved for every index and condition list, in memory and streamed; the HTTP variant bounded."),
P("P07", "A written attribute index is read back as the same index",
  "The serialized attribute index has the announced size and holds each distinct key once, in ascending order, with inner nodes whose separators split the keys as the search expects. A key of one entry points at that entry; a key of several entries points at a payload list that holds exactly their offsets in order. Reading it back gives an index that writes the same bytes.",
  ["inputs", "configurations"], "every list of entries of every key type, every branching factor",
  "layout and payload offsets depend on the number of distinct keys and duplicates; tests use a few small indexes",
  [C + "static_btree/stree.rs", C + "static_btree/payload.rs", C + "static_btree/entry.rs"],
  [("tree layout", C + "static_btree/stree.rs generate_level_bounds, generate_nodes, stream_write, from_buf"), ("payload lists", C + "static_btree/payload.rs PayloadEntry"), ("tagged offsets", C + "static_btree/stree.rs PAYLOAD_TAG")],
  ["bytes of the index, indexes read back from them"],
  V_TECH + "; bounded driver on the crate",
  "stream_write, from_buf and index_size are proved against the byte layout for every tree; the size announced by the header is driven"),
P("P08", "Index keys keep their value and order through the byte encoding",
  "Every key of every index key type is decoded from its encoding as an equal key, takes exactly the announced number of bytes, and compares with every other key of its type before and after the encoding in the same way. Reading a truncated encoding is an error.",
  ["inputs"], "all keys of all fifteen key types, pairs of keys for the order",
  "the number of keys is astronomically large and errors sit at signs, extremes and lengths",
  [C + "static_btree/key.rs"],
  [("encodings", C + "static_btree/key.rs impl Key for every key type")],
  ["keys decoded from bytes, order of keys"],
  "contracts of the Key trait checked on the real implementations over the whole domain of each type (Kani/CBMC, loop-free or fully unwound); bounded driver on the crate",
  "Full-domain harnesses on the real Key implementations for all fifteen types; datetime decoding bounded to six windows (see bounded), its slow full-domain parts in the thorough tier"),
P("P09", "Attribute values survive encoding under the inferred schema",
  "For any list of features, the schema inferred from their attributes (or a given schema whose columns fit the values) encodes every non-null attribute of every object and semantic surface, and decoding gives each name back with an equal value: the same number (an integer in a column of doubles as the nearest double), string, boolean or JSON value. No attribute is lost, renamed, given to another object, or invented. Mixed kinds of values under one name are kept by a column type wide enough for all of them (integers above the signed 64-bit range mixed with negative ones excepted).",
  ["inputs"], "every list of attribute objects, every schema with columns that fit the values",
  "value kinds, nulls, missing names and the order of columns combine freely; tests check a few records",
  [C + "writer/attribute.rs", C + "reader/deserializer.rs", C + "writer/serializer.rs"],
  [("schema inference", C + "writer/attribute.rs add_attributes, merge_types, guess_type"), ("encoding", C + "writer/attribute.rs encode_attributes_with_schema"), ("decoding", C + "reader/deserializer.rs decode_attributes")],
  ["attributes of objects and semantic surfaces read back"],
  V_TECH + "; bounded driver on the crate",
  "Schema inference, type merging, encoding, columns and decoding verified in place, ending in a theorem over any list of attribute objects; byteorder, serde_json and FlatBuffers vectors assumed."),
P("P10", "Geometry boundaries and semantics are read back unchanged",
  "Every geometry of every type (points, lines, surfaces, solids, multi and composite solids, instances) whose boundaries are nested as its type prescribes is read back with the same type, level of detail, boundaries and nesting, and with the same semantic surfaces, and every surface keeps its semantic value or null.",
  ["inputs"], "every boundary array of every nesting depth and size, every semantics object on it",
  "the nesting is flattened into counter arrays; errors show for particular combinations of counts at several levels",
  [C + "writer/geom_encoder.rs", C + "reader/geom_decoder.rs", C + "reader/deserializer.rs", C + "writer/serializer.rs"],
  [("flattening", C + "writer/geom_encoder.rs encode_boundaries, encode_semantics_values"), ("rebuilding", C + "reader/geom_decoder.rs decode, decode_semantics_")],
  ["geometries of features read back"],
  V_TECH + "; bounded driver on the crate",
  "Flattening and rebuilding proved inverse for every geometry type, instances, nesting and semantics, through assumed FlatBuffers tables; attribute values are P09."),
P("P11", "Materials and textures are read back unchanged",
  "Material and texture references of every geometry are read back with the same themes and the same value at every surface or ring, nulls included, in the same nesting. The appearance of a feature (materials, textures, texture vertices and default themes) is read back equal.",
  ["inputs"], "every material and texture mapping on every geometry, every appearance",
  "the mappings are flattened with their own counters per theme and depend on nesting, nulls and ring lengths",
  [C + "writer/geom_encoder.rs", C + "reader/geom_decoder.rs", C + "reader/deserializer.rs", C + "writer/serializer.rs"],
  [("flattening", C + "writer/geom_encoder.rs encode_material, encode_texture"), ("rebuilding", C + "reader/geom_decoder.rs decode_materials, decode_textures"), ("appearance", C + "writer/serializer.rs to_appearance, " + C + "reader/deserializer.rs to_cj_appearance")],
  ["materials, textures and appearances of features read back"],
  V_TECH + "; bounded driver on the crate",
  "Flattening, storing and rebuilding of materials, textures and the appearance record proved inverse for all inputs, through assumed FlatBuffers tables and HashMap contracts."),
P("P12", "Every CityJSON type name is read back as itself",
  "Every CityObject type, semantic surface type, geometry type, texture format, texture type and wrap mode of the CityJSON vocabulary, and every extension type starting with '+', is read back as the name that was written.",
  ["inputs"], "all names of the vocabulary and all extension names",
  "tests use a handful of the names",
  [C + "writer/serializer.rs", C + "reader/deserializer.rs", C + "reader/geom_decoder.rs", C + "writer/geom_encoder.rs"],
  [("names to codes", C + "writer/serializer.rs to_co_type, to_geom_type, to_texture_format, ..."), ("codes to names", C + "reader/deserializer.rs, geom_decoder.rs")],
  ["type names of a feature read back"],
  V_TECH + "; bounded driver on the crate",
  "Proved for every vocabulary name and every extension name on the real mapping functions; passing the codes through the tables is bounded."),
P("P13", "The header is read back as it was written",
  "The transform, version, metadata (extent, identifier, reference date, title, point of contact and its address, reference system) and geometry templates of a CityJSON header are read back equal from the file header. The columns stored in the header are those of the attribute schema, in index order, with the same names and types.",
  ["inputs"], "every CityJSON header and every attribute schema",
  "optional members combine freely; tests check one or two headers",
  [C + "writer/header_writer.rs", C + "writer/serializer.rs", C + "reader/deserializer.rs"],
  [("writing", C + "writer/serializer.rs to_fcb_header"), ("reading", C + "reader/deserializer.rs to_cj_metadata")],
  ["metadata, transform, columns and templates read from the header"],
  V_TECH + "; bounded driver on the crate",
  "to_fcb_header, to_cj_metadata and their helpers proved inverse to each other for every header, through assumed FlatBuffers tables; templates rest on P10."),
P("P14", "Reading a whole file gives every written feature once and intact",
  "Reading all features of a written file gives each written feature exactly once with its id, objects, vertices, geometry, attributes and appearance unchanged, whatever options the file was written with, and the feature count in the header is the number of features. Seekable, sequential and range-request readers give the same features in the same order.",
  ["inputs", "configurations", "histories"], "every list of features, with and without indexes, through each reader",
  "feature sizes, ordering by Hilbert value and offsets interact; tests compare one or two sample files",
  [C + "writer/mod.rs", C + "writer/feature_writer.rs", C + "reader/mod.rs", C + "http_reader/mod.rs"],
  [("file layout and offsets", C + "writer/mod.rs write"), ("iteration", C + "reader/mod.rs FeatureIter advance, read_feature")],
  ["features read from a file"],
  V_TECH + "; bounded driver on the crate",
  'Writing the file, opening, selecting, iterating (both local readers) and the encoding and decoding of a feature proved given std::io, FlatBuffers and HashMap contracts; HTTP under P18.'),
P("P15", "A spatial query on a file returns exactly the matching features",
  "A box or point query on a written file returns exactly the features whose bounding box (of the transformed vertices in the plane) intersects the box or contains the point, each once and intact, in file order; a nearest query returns one feature of least centre distance. Seekable, sequential and range-request readers agree.",
  ["inputs", "configurations"], "every list of features, every query, every reader",
  "the index refers to features by offsets computed elsewhere; a wrong offset or order shows only for particular files and queries",
  [C + "writer/mod.rs", C + "writer/feature_writer.rs", C + "reader/mod.rs", C + "http_reader/mod.rs", C + "packed_rtree/mod.rs"],
  [("bounding boxes and feature offsets", C + "writer/mod.rs write, feature_writer.rs"), ("filtered iteration", C + "reader/mod.rs select_query, select_query_seq"), ("range requests", C + "http_reader/mod.rs")],
  ["features returned by a spatial query"],
  V_TECH + "; bounded driver on the crate",
  'Filtered iteration, index traversal and the box of a feature proved for all files given std::io, FlatBuffers and IEEE contracts, and that every file written is laid out as they ask; HTTP under P18.'),
P("P16", "An attribute query on a file returns exactly the matching features",
  "An attribute query on a written file returns exactly the features that have, for every condition, an object with a value of that attribute that compares with the key as the operator says, each feature once and intact. Features without a value never match. Seekable, sequential and range-request readers agree.",
  ["inputs", "configurations"], "every list of features, every set of indexed columns of an indexable type, every query, every reader",
  "the values pass through schema inference, key encoding, index layout and offsets; tests query a few values",
  [C + "writer/mod.rs", C + "writer/attr_index.rs", C + "reader/attr_query.rs", C + "reader/mod.rs", C + "http_reader/mod.rs"],
  [("index construction", C + "writer/attr_index.rs, mod.rs"), ("query", C + "reader/attr_query.rs select_attr_query, select_attr_query_seq")],
  ["features returned by an attribute query"],
  V_TECH + "; bounded driver on the crate",
  "Selection by attributes (seekable and sequential), index lookups, operators and iteration, and the writer's extraction of index entries, construction and layout of the indexes proved for all files given std::io and FlatBuffers contracts; HTTP reader bounded."),
P("P17", "Damaged files are rejected with an error and never cause a panic",
  "Opening fails with an error when the magic bytes differ, the format version is newer than the library's, the header size is out of bounds, or the header is cut off or not a valid header buffer. Opening and reading a damaged file never panics and never yields a feature that was not written when only the end of the file is missing.",
  ["inputs", "faults"], "every damage of a written file: any byte changed, cut at any position",
  "tests open intact files only",
  [C + "lib.rs", C + "reader/mod.rs", C + "http_reader/mod.rs"],
  [("magic bytes and version", C + "lib.rs check_magic_bytes"), ("header checks", C + "reader/mod.rs read_header, " + C + "http_reader/mod.rs new")],
  ["result of opening and reading a file"],
  V_TECH + "; bounded driver on the crate",
  'Acceptance of magic bytes, version, size and header proved for all inputs of the local and the HTTP reader; damage behind the header bounded.'),
P("P18", "Reading over range requests gives the same answer as reading locally",
  "Selecting all features, a spatial query or an attribute query over HTTP range requests yields the same features in the same order as the local reader, whatever the merging and prefetching of requests, and never requests bytes at or past the end of the file.",
  ["inputs", "configurations"], "every file, every query, every distribution of the selected features in the file",
  "batching and prefetching depend on gaps and sizes; tests for HTTP need a network and are ignored",
  [C + "http_reader/mod.rs", C + "packed_rtree/mod.rs", C + "static_btree/stree.rs"],
  [("batching", C + "http_reader/mod.rs FeatureBatch::make_batches, request_size"), ("ranged traversal", C + "packed_rtree/mod.rs http_stream_search")],
  ["features yielded by the HTTP reader, requests made"],
  V_TECH + "; bounded driver on the crate",
  'Opening, selecting, batching, request sizes and delivery over range requests proved for any file and any found list; ranged index traversals bounded so far.'),
]

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in CAT:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                   technique=p["tech"], level=p["level"], level_note=p["note"]) for p in CAT if p["id"] in PROPS]
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
             hooks=dict(guard="none", enable="no hook is needed: nothing in /repo is guarded for the checks", source_commits=[]),
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in CAT if p["id"] not in PROPS])
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

if __name__ == "__main__": main()
