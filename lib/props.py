"""what decides each property: Verus units (contracts/*.vx), Kani harness sets (kani/), bounded driver"""
VERUS_FLOAT = "IEEE order on f64: the scalar axioms of contracts/floats.vx (each one decided over all f64 by Kani, harness set `floats`)"
STD = "assumed contracts of std functions in contracts/common.vx (usize::div_ceil, cmp::min, cmp::max) and of vstd (Vec, VecDeque, Range iteration)"
HEAP = "BinaryHeap<Reverse<T>> pops an element that is least by T's own ordering (contracts/heap.vx)"
NEAR = "min_distance_squared(box) <= centroid_distance_squared(any box inside it) for finite boxes, and neither is NaN (axiom_mdist: monotone IEEE rounding)"
VERUS = "Verus 0.2026.09.13 with its bundled Z3; the extraction tool lib/vext.py (what it rewrites is listed under `extraction`)"
DRIVER = "bounded companion: the driver's runs on the compiled crate are tests, they count for nothing in `discharged`"

KEY = "trait Key: a total order with least and greatest value and a fixed-size encoding that decodes to the same key (trait contract in contracts/stree.vx; the key types themselves are the subject of P08)"
SORT = "slice::sort_by_key is a stable sort, slice::binary_search_by finds a match or the insertion point (contracts in contracts/stree.vx)"
SIO = "std::io::{Read, Seek, Write} and byteorder on sources that hold fixed bytes and do not fail by themselves (contracts/io.vx); Vec::with_capacity gives exactly the asked capacity; fewer than 2^30 entries, file offsets below 2^63"
IO = "std::io::{Read, Seek} on a source that holds fixed bytes and does not fail by itself (trait contracts at the top of contracts/reader.vx)"
FB = "generated FlatBuffers accessors and verifiers (uninterpreted functions of the buffer: feature_valid, header_valid, hdr_count, hdr_node_size, hdr_attr_size)"

FBT = "FlatBuffers tables give back the fields they were created with (ghost tables of contracts/geom.vx); values within the 32-bit counts of the format"
CJ = "the data types of crate cjseq are restated (its derives and serde code are not part of the extracted text)"

HM = "HashMap (contracts/hmap.vx): contents as a map, unknown order of iteration; in unit tex the loop that applies fix_values to every entry is assumed to do just that, and clones are assumed equal"
FEAT = "unit feat takes from the other units that a geometry or an attribute object that was stored is read back the same (P09-P11)"

RH = "http_range_client: get_range answers the bytes of the file that were asked for (contracts/rhttp.vx); VecDeque::back_mut, slices' chunks"

RHA = "unit shttp: http_range_client (get_range answers the bytes of the file that were asked for), futures are awaited where they are made, Vec::sort and Vec::dedup, slices' chunks, the estimate compute_payload_prefetch_size (floats) may be any number; offsets of features below 2^59"

WR = "the writer (contracts/writer.vx): a finished FlatBufferBuilder gives size-prefixed bytes that the generated verifier accepts and that hold the table they were finished with (at most 4 GiB); the temporary file gives back what was written to it; slice sorts permute; + - * / on f64 are functions of their operands; what to_fcb_city_feature and to_fcb_header put into their tables is the subject of units feat and header; of the tree's bytes, their length and leaves are taken from unit rstream (p03_stored)"
WRX = "boxes without NaN, attribute indexes of at most 4 GiB together, column numbers of the schema distinct, no column asked for twice"

PROPS = {
 "P01": dict(units=["rtree", "rstream", "rhttp"], kani=["floats"], trusted=[VERUS, VERUS_FLOAT, STD, SIO, RH, DRIVER]),
 "P02": dict(units=["rtree", "rstream", "rhttp"], kani=["floats"], trusted=[VERUS, VERUS_FLOAT, STD, HEAP, NEAR, SIO, RH, DRIVER]),
 "P03": dict(units=["rtree", "rstream"], kani=["nodes"], trusted=[VERUS, VERUS_FLOAT, STD, SIO, DRIVER]),
 "P04": dict(units=["stree", "shttp"], kani=[], trusted=[VERUS, STD, KEY, SORT, SIO, RHA, DRIVER]),
 "P05": dict(units=["stree", "shttp"], kani=[], trusted=[VERUS, STD, KEY, SORT, SIO, RHA, DRIVER]),
 "P06": dict(units=["query", "stree", "shttp"], kani=[], trusted=[VERUS, STD, KEY, SORT, SIO, RHA,
        "unit query assumes of Stree's lookups exactly what units stree and shttp prove of them (lemmas p06_memory, p06_streamed, p06_http; the texts share contracts/qspec.vx and contracts/hoffs.vx)",
        "HashMap::get (contract in contracts/query.vx); the index macros are checked for an arbitrary key type; trait objects are checked as one generic index type", DRIVER]),
 "P07": dict(units=["stree"], kani=[], trusted=[VERUS, STD, KEY, SORT, SIO, DRIVER]),
 "P08": dict(units=[], kani=["keys"], bounded_note="decoding and encoding of datetime keys: 16 days in each of six places (harnesses *_bounded), every nanosecond; the thorough tier adds the encoding and the order over all instants of the years 0-9999",
        trusted=["Kani 0.68.0 / CBMC 6.11.0 and its models of the compiler intrinsics", "chrono turns the seconds and nanoseconds it reports for an instant back into that instant outside the six windows",
        "order of float keys is claimed for keys that are not NaN", DRIVER]),
 "P09": dict(units=["attr"], kani=[], trusted=[VERUS, STD, FBT, HM,
   "serde_json (Number, Map, Value, to_string and from_str inverse to each other), byteorder (reading inverts writing), f64 to f32 casts and chrono's parse_from_rfc3339 through assumed contracts",
   "the listing of a schema sorted by sort_by_key is assumed to be a sorted rearrangement of it",
   "texts of at most 4 GiB, at most 65535 names, encoded attributes of at most isize::MAX bytes; columns of type Byte, UByte and Binary are out of scope (the reader does not support them)", DRIVER]),
 "P10": dict(units=["geom"], kani=[], trusted=[VERUS, STD, FBT, CJ, "attributes of semantic surfaces are the subject of P09, type names that of P12, materials and textures that of P11", DRIVER]),
 "P11": dict(units=["tex", "feat"], kani=[], trusted=[VERUS, STD, FBT, CJ, HM,
        "textures on lines and texture arrays without any number are outside the property (the format cannot tell them from others); an empty map of themes is read back as none", DRIVER]),
 "P12": dict(units=["names", "feat"], kani=[], trusted=[VERUS, FBT, HM, FEAT, "str::starts_with, and that &str with the same characters match the same pattern (axiom_str)", CJ,
        "that the writer and reader pass the codes and extension names through their FlatBuffers tables unchanged: bounded driver only", DRIVER]),
 "P13": dict(units=["header", "attr"], kani=[], trusted=[VERUS, STD, FBT, CJ,
        "numbers are printed as text that parses to the same number (contracts/header.vx axiom_dec)",
        "geometry templates: to_geometry and decode_geometry are taken from P10, columns from unit attr; extensions of a header need the network and are out of scope, so is the appearance of a header (the reader does not offer it)", DRIVER]),
 "P14": dict(units=["reader", "feat", "writer"], kani=[], trusted=[VERUS, IO, FB, FBT, CJ, HM, FEAT, WR, WRX,
        "the HTTP reader is the subject of P18", DRIVER]),
 "P15": dict(units=["reader", "rtree", "rstream", "feat", "writer"], kani=[], trusted=[VERUS, IO, FB, FBT, CJ, HM, FEAT, WR, WRX, VERUS_FLOAT, STD, HEAP, NEAR,
        "unit reader states the traversals' contract (`found`) over uninterpreted leaves; units rtree and rstream prove it of stream_search, from_buf and search over the bytes of the index", "the readers' premises about the file (file_ok, index_ok) are proved of every file the writer makes (unit writer, p15_file)", DRIVER]),
 "P18": dict(units=["http", "reader", "rhttp"], kani=[], trusted=[VERUS, VERUS_FLOAT, HEAP, NEAR, SIO, RH, FB, STD, "http_range_client and bytes (contracts/http.vx): get_range answers the bytes of the file that were asked for; futures are awaited where they are made",
        "unit http states what PackedRTree::http_stream_search answers (`found_http`) over uninterpreted leaves; unit rhttp proves it over the bytes of the index (`http_answer`); HttpMultiIndex::query is proved by unit query (P06); the mapping of its answers in select_attr_query is covered by the bounded driver only",
        "the premises about the file (file_ok, index_ok) are proved of every file the writer makes by unit writer (P15)",
        "the local reader: unit reader (IO contracts as in P17)", DRIVER]),
 "P16": dict(units=["aquery", "query", "stree", "writer"], kani=[], trusted=[VERUS, WR, WRX, IO, FB, STD, KEY, SORT, SIO,
        "unit aquery states what an index answers as a function of the index's own bytes (idx_hit); units query and stree prove that function for streamed and memory indexes; that the readers' indexes are added in file order (add_*_index) and the name of each variant are assumed contracts",
        "unit writer proves of every file written that the header lists the indexes by ascending column, that their bytes lie in that order, and that each was built over the key of every entry of its column with the offset of its feature (p15_file); that an index built so answers as attrs_ok says is taken from units stree and query; the keys' conversion of texts (FixedStringKey::from_str) and instants is assumed; the HTTP reader is covered by the bounded driver", DRIVER]),
 "P17": dict(units=["reader", "http"], kani=[], trusted=[VERUS, IO, FB, "Vec::with_capacity gives exactly the asked capacity (read_header relies on it)",
        "http_range_client (contracts/http.vx)", "panic freedom behind the header is covered by the bounded driver only", DRIVER]),
}
# functions of a unit (its labels) that the property does not depend on: a failed obligation there is reported by other checks
_NEAR = r"::(min_distance_squared|centroid_distance_squared)$|@PointNearest$"
_BOX = r"::(intersects|contains_point)$|@(BBox|PointIntersects)$"
_TRAV = r"::(min_distance_squared|centroid_distance_squared|intersects|contains_point|search|stream_search)(@\w+)?$"
_WATTR = r"::(attribute_to_index_entries|cityfeature_to_index_entries|build_index_generic|build_attribute_index_for_attr|extract_indexable_attributes)$"
IGNORE = {
 "P01": dict(rtree=_NEAR, rstream=_NEAR, rhttp=_NEAR),
 "P02": dict(rtree=_BOX, rstream=_BOX, rhttp=_BOX),
 "P03": dict(rtree=_TRAV, rstream=_TRAV),
 "P04": dict(stree=r"::(stream_)?find_(range|partition)$", shttp=r"::http_stream_find_(range|partition)$"),
 "P07": dict(stree=r"::(stream_)?find_(range|exact|partition)$"),
 "P11": dict(feat=r"::(bounds|new|to_co_type|to_cj_co_type|to_semantic_surface_type|to_geographical_extent|to_cj_vertices|to_city_object)$"),
 "P12": dict(feat=r"::(bounds|new|to_geographical_extent|to_appearance|to_cj_vertices)$"),
 "P13": dict(attr=r"::(?!to_columns$)\w+$"),
 "P14": dict(reader=r"::select_query(_seq)?$", feat=r"::(bounds|new)$", writer=_WATTR + r"|::actual_bbox$"),
 "P15": dict(reader=r"::select_all(_seq)?$", writer=_WATTR),
 "P16": dict(aquery=r"::(select_all|select_query)(_seq)?$", writer=r"::actual_bbox$"),
 "P17": dict(reader=r"::select_\w+$", http=r"::(?!_open$|check_magic_bytes$)\w+$"),
}
for _p, _i in IGNORE.items(): PROPS[_p]["ignore"] = _i
