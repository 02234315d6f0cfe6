//! attribute index (static B+tree) against a scan of the entries
use crate::for_key;
use crate::keys::*;
use crate::util::*;
use fcb_core::static_btree::*;
use std::collections::{BTreeMap, BTreeSet};
use std::result::Result;
use std::io::{Cursor, Seek, SeekFrom};

pub const RULE04: &str = "indexes of 1..300 entries over 15 key types with duplicate, extreme and neighbouring keys, branching factors 2..33; every present and many absent keys looked up in memory, in the re-read index, streamed and over range requests; the offsets found are compared with a scan; non-trivial: the key is present";
pub const RULE05: &str = "indexes as for exact lookup; ranges between present, absent and extreme keys, also reversed and empty; offsets compared with a scan; non-trivial: the range holds some but not all entries";
pub const RULE06: &str = "1..3 indexed fields of different key types over 1..120 features (some without a value, some with several); queries of 1..3 conditions with all six operators in memory, streamed and over range requests; compared with evaluating the conditions on the values; non-trivial: some but not all features match";
pub const RULE07: &str = "indexes as for exact lookup; size, leaf order, child pointers, separators and payload lists parsed from the bytes; read back in two ways and written again; non-trivial: at least two levels of inner nodes or duplicate keys";
pub const RULE08: &str = "pairs of keys of all 15 types; encoded, decoded in two ways, compared before and after, short reads must fail; non-trivial: distinct keys";

pub struct Index<K: Key> {
    pub entries: Vec<Entry<K>>,
    pub b: u16,
    pub tree: Stree<K>,
    pub bytes: Vec<u8>,
    pub uniq: Vec<K>,
}

pub fn make<K: TestKey>(r: &mut Rng, i: u64, cx: &mut Ctx) -> Result<Index<K>, String> {
    let b = *r.pick(&[2u16, 2, 3, 3, 4, 5, 6, 16, 17, 33]);
    let n = if i < 60 { (i / 15 + 1) as usize } else { match r.below(6) {
        0 => r.us(1, 12),
        1 => { let b = b as usize; *r.pick(&[b - 1, b, b * (b - 1), b * (b - 1) + 1, b * b * (b - 1), b * b * (b - 1) + 1, b * b]) }.min(400),
        2 => r.us(1, 300),
        _ => r.us(1, 80),
    } }.max(1);
    let style = r.below(3);
    let pool = match r.below(4) { 0 => 3, 1 => n as u64, 2 => n as u64 * 4, _ => n as u64 * 2 }.max(1);
    let mut entries: Vec<Entry<K>> = vec![];
    for k in 0..n {
        entries.push(Entry::new(K::gen(r, style, pool), k as u64 * 13 + 1));
    }
    // now and then one value shared by very many features
    if i % 61 == 60 || i % 6100 == 5099 {
        let key = K::gen(r, style, pool);
        let (low, top) = if i % 6100 == 5099 { (65_530, 66_000) } else if r.chance(1, 3) { (100, 9000) } else { (100, 600) };
        for k in 0..r.us(low, top) {
            entries.push(Entry::new(key.clone(), 1_000_000 + k as u64));
        }
    }
    if r.chance(1, 3) {
        entries.sort_by(|a, b| a.key.cmp(&b.key));
    }
    cx.trace = format!("{} b={b} entries={:?}", K::NAME, entries.iter().take(400).map(|e| (&e.key, e.offset)).collect::<Vec<_>>());
    let tree = Stree::build(&entries, b).map_err(|e| format!("build: {e}"))?;
    let mut bytes = vec![];
    let w = tree.stream_write(&mut bytes).map_err(|e| format!("write: {e}"))?;
    if w != bytes.len() {
        return Err(format!("stream_write reports {w} bytes and wrote {}", bytes.len()));
    }
    let uniq: Vec<K> = entries.iter().map(|e| e.key.clone()).collect::<BTreeSet<_>>().into_iter().collect();
    Ok(Index { entries, b, tree, bytes, uniq })
}

fn query_key<K: TestKey>(r: &mut Rng, t: &Index<K>) -> K {
    match r.below(6) {
        0 => K::gen(r, 0, 400),
        1 => K::gen(r, 1, 400),
        2 => if r.chance(1, 2) { K::min_value() } else { K::max_value() },
        3 => {
            // a separator key
            let s = (t.b as usize - 1).max(1);
            let k = r.us(0, (t.uniq.len() - 1) / s) * s;
            t.uniq[k].clone()
        }
        _ => r.pick(&t.uniq).clone(),
    }
}

pub struct Where {
    pub buf: Vec<u8>,
    pub pre: usize,
    pub feature_begin: usize,
}
pub fn place(r: &mut Rng, bytes: &[u8]) -> Where {
    let pre = r.us(0, 40);
    let mut buf = vec![0xABu8; pre];
    buf.extend(bytes);
    let feature_begin = buf.len();
    buf.extend(vec![0xCDu8; r.us(1, 300)]);
    Where { buf, pre, feature_begin }
}
fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort();
    v
}
fn short(v: &[u64]) -> String {
    if v.len() > 24 { format!("{} offsets from {:?}", v.len(), &v[..24]) } else { format!("{v:?}") }
}

pub fn p04(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    for_key!(i, exact, r, i, cx)
}
fn exact<K: TestKey>(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let t = make::<K>(r, i, cx)?;
    let w = place(r, &t.bytes);
    let n = t.uniq.len();
    let re = Stree::<K>::from_buf(&t.bytes[..], n, t.b).map_err(|e| format!("from_buf: {e}"))?;
    let mut keys: Vec<K> = t.uniq.iter().take(40).cloned().collect();
    for _ in 0..10 {
        keys.push(query_key(r, &t));
    }
    for key in keys {
        let want = sorted(t.entries.iter().filter(|e| e.key == key).map(|e| e.offset).collect());
        cx.eval(&format!("{}{key:?}", cx.trace.clone()), !want.is_empty());
        cx.sample(|| format!("{} entries of {}, branching {}, exact {key:?} -> {}", t.entries.len(), K::NAME, t.b, short(&want)));
        let chk = |name: &str, got: std::result::Result<Vec<u64>, String>| -> R {
            let g = sorted(got.map_err(|e| format!("{name} exact {key:?}: {e}"))?);
            if g != want {
                return Err(format!("{name} exact lookup of {key:?} found offsets {}, a scan finds {}", short(&g), short(&want)));
            }
            Ok(())
        };
        for (name, tr) in [("memory", &t.tree), ("re-read", &re)] {
            let got = tr.find_exact(key.clone()).map_err(|e| e.to_string());
            if let Ok(g) = &got {
                let pos = t.uniq.iter().position(|k| *k == key);
                if g.iter().any(|x| Some(x.index) != pos) {
                    return Err(format!("{name} exact lookup of {key:?} reports leaf {:?}, the key is leaf {pos:?}", g[0].index));
                }
            }
            chk(name, got.map(|v| v.into_iter().map(|x| x.offset as u64).collect()))?;
        }
        let mut c = Cursor::new(&w.buf);
        c.seek(SeekFrom::Start(w.pre as u64)).unwrap();
        chk("stream", Stree::stream_find_exact(&mut c, n, t.b, key.clone()).map(|v| v.into_iter().map(|x| x.offset as u64).collect()).map_err(|e| e.to_string()))?;
        let mut cl = client(w.buf.clone());
        let h = block_on(HttpIndex::<K>::new(n, t.b, w.pre, w.feature_begin, 256 * 1024).find_exact(&mut cl, key.clone()));
        chk("http", h.map(|v| v.into_iter().map(|x| (x.range.start() - w.feature_begin) as u64).collect()).map_err(|e| e.to_string()))?;
    }
    Ok(())
}

pub fn p05(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    for_key!(i, range, r, i, cx)
}
fn range<K: TestKey>(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let t = make::<K>(r, i, cx)?;
    let w = place(r, &t.bytes);
    let n = t.uniq.len();
    let s = (t.b as usize - 1).max(1);
    let mem = MemoryIndex::<K>::from_buf(&t.bytes[..], n, t.b).map_err(|e| format!("from_buf: {e}"))?;
    let si = StreamIndex::<K>::new(n, t.b, w.pre as u64, t.bytes.len() as u64);
    let hi_ = HttpIndex::<K>::new(n, t.b, w.pre, w.feature_begin, 256 * 1024);
    for q in 0..14 {
        let (a, b) = (query_key(r, &t), query_key(r, &t));
        let (lo, hi) = if a <= b || q == 0 { (a, b) } else { (b, a) };
        // bounded on both sides, open above, open below
        let (lo, hi) = match r.below(6) {
            0 => (Some(lo), None),
            1 => (None, Some(hi)),
            _ => (Some(lo), Some(hi)),
        };
        let inside = |k: &K| lo.as_ref().map_or(true, |l| k >= l) && hi.as_ref().map_or(true, |h| k <= h);
        let want = sorted(t.entries.iter().filter(|e| inside(&e.key)).map(|e| e.offset).collect());
        cx.eval(&format!("{}{lo:?}{hi:?}", cx.trace.clone()), !want.is_empty() && want.len() < t.entries.len());
        cx.sample(|| format!("{} entries of {}, branching {}, range {lo:?}..={hi:?} -> {}", t.entries.len(), K::NAME, t.b, short(&want)));
        let sep = hi.as_ref().and_then(|h| t.uniq.iter().position(|k| k == h)).map_or(false, |p| p > 0 && p % s == 0);
        let mut res: Vec<(&str, std::result::Result<Vec<u64>, String>)> = vec![];
        res.push(("memory", mem.find_range(lo.clone(), hi.clone()).map_err(|e| e.to_string())));
        let mut c = Cursor::new(&w.buf);
        c.seek(SeekFrom::Start(w.pre as u64)).unwrap();
        res.push(("stream", si.find_range_with_reader(&mut c, lo.clone(), hi.clone()).map_err(|e| e.to_string())));
        if c.position() != w.pre as u64 {
            return Err(format!("stream range lookup leaves the reader at {} instead of {}", c.position(), w.pre));
        }
        let mut cl = client(w.buf.clone());
        res.push(("http", block_on(hi_.find_range(&mut cl, lo.clone(), hi.clone())).map(|v| v.into_iter().map(|x| (x.range.start() - w.feature_begin) as u64).collect()).map_err(|e| e.to_string())));
        if let (Some(l), Some(h)) = (&lo, &hi) {
            let tr = t.tree.find_range(l.clone(), h.clone()).map_err(|e| e.to_string());
            if let Ok(v) = &tr {
                for x in v {
                    if x.index >= n || !inside(&t.uniq[x.index]) {
                        return Err(format!("tree range {lo:?}..={hi:?} reports leaf {} of {n} outside the range", x.index));
                    }
                }
            }
            res.push(("tree", tr.map(|v| v.into_iter().map(|x| x.offset as u64).collect())));
        }
        for (name, got) in res {
            let g = sorted(got.map_err(|e| format!("{name} range {lo:?}..={hi:?}: {e}"))?);
            if g == want {
                continue;
            }
            if sep && lo != hi {
                let h = hi.as_ref().unwrap();
                let less = sorted(t.entries.iter().filter(|e| inside(&e.key) && e.key != *h).map(|e| e.offset).collect());
                if g == less {
                    cx.known("range-upper-separator", format!("{name} range {lo:?}..={hi:?}: items equal to the upper bound are missing"));
                    cx.tag("known: upper bound is a separator");
                    continue;
                }
            }
            return Err(format!("{name} range {lo:?}..={hi:?} found offsets {}, a scan finds {}", short(&g), short(&want)));
        }
    }
    Ok(())
}

// ---- queries of several conditions over several fields
trait Field {
    fn cond(&self, r: &mut Rng, name: &str) -> (QueryCondition, Vec<bool>, Vec<bool>);
    fn install(&self, name: &str, m: &mut MemoryMultiIndex, s: &mut StreamMultiIndex, h: &mut HttpMultiIndex<Mem>, begin: usize, feature_begin: usize) -> R;
    fn bytes(&self) -> &[u8];
    fn show(&self) -> String;
}
struct F<K: Key> {
    values: Vec<Vec<K>>,
    t: Index<K>,
}
trait AddStream: Key {
    fn add(s: &mut StreamMultiIndex, f: String, i: StreamIndex<Self>, len: u64);
}
macro_rules! add {
    ($($t:ty, $f:ident;)*) => { $(impl AddStream for $t { fn add(s: &mut StreamMultiIndex, f: String, i: StreamIndex<Self>, len: u64) { s.$f(f, i, len) } })* };
}
add! { i8, add_i8_index; u8, add_u8_index; i16, add_i16_index; u16, add_u16_index; i32, add_i32_index; i64, add_i64_index; u32, add_u32_index; u64, add_u64_index;
Float<f32>, add_f32_index; Float<f64>, add_f64_index; bool, add_bool_index; chrono::DateTime<chrono::Utc>, add_datetime_index;
FixedStringKey<20>, add_string_index20; FixedStringKey<50>, add_string_index50; FixedStringKey<100>, add_string_index100; }

fn holds<K: Ord>(v: &K, op: Operator, k: &K) -> bool {
    match op {
        Operator::Eq => v == k,
        Operator::Ne => v != k,
        Operator::Gt => v > k,
        Operator::Lt => v < k,
        Operator::Ge => v >= k,
        Operator::Le => v <= k,
    }
}
impl<K: TestKey + AddStream> Field for F<K>
where
    MemoryIndex<K>: TypedSearchIndex,
    HttpIndex<K>: TypedHttpSearchIndex<Mem>,
{
    fn cond(&self, r: &mut Rng, name: &str) -> (QueryCondition, Vec<bool>, Vec<bool>) {
        let op = *r.pick(&[Operator::Eq, Operator::Ne, Operator::Gt, Operator::Lt, Operator::Ge, Operator::Le]);
        let key = query_key(r, &self.t);
        let want = self.values.iter().map(|v| v.iter().any(|x| holds(x, op, &key))).collect();
        let multi = self.values.iter().map(|v| matches!(op, Operator::Ne | Operator::Gt | Operator::Lt) && v.iter().any(|x| *x == key)).collect();
        (QueryCondition { field: name.to_string(), operator: op, key: key.kt() }, want, multi)
    }
    fn install(&self, name: &str, m: &mut MemoryMultiIndex, s: &mut StreamMultiIndex, h: &mut HttpMultiIndex<Mem>, begin: usize, feature_begin: usize) -> R {
        let n = self.t.uniq.len();
        m.add_index(name.to_string(), MemoryIndex::<K>::from_buf(&self.t.bytes[..], n, self.t.b).map_err(|e| e.to_string())?);
        K::add(s, name.to_string(), StreamIndex::new(n, self.t.b, 0, self.t.bytes.len() as u64), self.t.bytes.len() as u64);
        h.add_index(name.to_string(), HttpIndex::<K>::new(n, self.t.b, begin, feature_begin, 256 * 1024));
        Ok(())
    }
    fn bytes(&self) -> &[u8] {
        &self.t.bytes
    }
    fn show(&self) -> String {
        format!("{} b={} {:?}", K::NAME, self.t.b, self.values)
    }
}
fn field<K: TestKey + AddStream>(r: &mut Rng, nf: usize, multi: bool) -> Result<Box<dyn Field>, String>
where
    MemoryIndex<K>: TypedSearchIndex,
    HttpIndex<K>: TypedHttpSearchIndex<Mem>,
{
    let style = r.below(3);
    let pool = *r.pick(&[2u64, 5, nf as u64, nf as u64 * 3]);
    let some = r.chance(1, 3);
    let mut values: Vec<Vec<K>> = (0..nf)
        .map(|_| {
            let c = if some && r.chance(1, 4) { 0 } else if multi && r.chance(1, 5) { 2 } else { 1 };
            (0..c).map(|_| K::gen(r, style, pool)).collect()
        })
        .collect();
    if values.iter().all(|v| v.is_empty()) {
        values[0].push(K::gen(r, style, pool));
    }
    let mut entries = vec![];
    for (f, vs) in values.iter().enumerate() {
        for v in vs {
            entries.push(Entry::new(v.clone(), f as u64 * 10));
        }
    }
    let b = *r.pick(&[2u16, 3, 4, 5, 16]);
    let tree = Stree::build(&entries, b).map_err(|e| format!("build: {e}"))?;
    let mut bytes = vec![];
    tree.stream_write(&mut bytes).map_err(|e| format!("write: {e}"))?;
    let uniq: Vec<K> = entries.iter().map(|e| e.key.clone()).collect::<BTreeSet<_>>().into_iter().collect();
    Ok(Box::new(F { values, t: Index { entries, b, tree, bytes, uniq } }))
}

pub fn p06(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let nf = if i < 20 { i as usize + 1 } else { r.us(1, 120) };
    let k = r.us(1, 3);
    let multi = r.chance(1, 6);
    let mut fields = vec![];
    for j in 0..k {
        let ty = if j == 0 { i } else { r.below(15) };
        fields.push(for_key!(ty, field, r, nf, multi)?);
    }
    cx.trace = format!("features={nf} fields: {}", fields.iter().enumerate().map(|(j, f)| format!("f{j} {}", f.show())).collect::<Vec<_>>().join("; "));
    let pre = r.us(0, 30);
    let mut buf = vec![0x55u8; pre];
    for f in &fields {
        buf.extend(f.bytes());
    }
    let feature_begin = buf.len();
    buf.extend(vec![0u8; r.us(1, 2000)]);
    let (mut m, mut s, mut h) = (MemoryMultiIndex::new(), StreamMultiIndex::new(), HttpMultiIndex::<Mem>::new());
    let mut at = pre;
    for (j, f) in fields.iter().enumerate() {
        f.install(&format!("f{j}"), &mut m, &mut s, &mut h, at, feature_begin)?;
        at += f.bytes().len();
    }
    // one reader for all queries: each starts where the one before left it
    let mut c = Cursor::new(&buf);
    c.seek(SeekFrom::Start(pre as u64)).unwrap();
    for _ in 0..10 {
        let nc = *r.pick(&[1usize, 1, 2, 3]);
        let mut conds = vec![];
        let mut want = vec![true; nf];
        let mut excuse = vec![false; nf];
        for _ in 0..nc {
            let j = r.us(0, k - 1);
            let (c, w, e) = fields[j].cond(r, &format!("f{j}"));
            for f in 0..nf {
                want[f] &= w[f];
                excuse[f] |= e[f];
            }
            conds.push(c);
        }
        let cnt = want.iter().filter(|x| **x).count();
        cx.eval(&format!("{}{conds:?}", cx.trace.clone()), cnt > 0 && cnt < nf);
        cx.sample(|| format!("{nf} features, {conds:?} -> {cnt} match"));
        let mut res: Vec<(&str, std::result::Result<Vec<u64>, String>)> = vec![];
        res.push(("memory", m.query(&conds).map_err(|e| e.to_string())));
        res.push(("stream", s.query(&mut c, &conds).map_err(|e| e.to_string())));
        let mut cl = client(buf.clone());
        res.push(("http", block_on(h.query(&mut cl, &conds)).map(|v| v.into_iter().map(|x| (x.range.start() - feature_begin) as u64).collect()).map_err(|e| e.to_string())));
        for (name, got) in res {
            let got = got.map_err(|e| format!("{name} {conds:?}: {e}"))?;
            if !multi && set(&got).len() != got.len() {
                return Err(format!("{name} {conds:?} returns a feature twice: {got:?}"));
            }
            let g = set(&got);
            for f in 0..nf {
                let has = g.contains(&(f as u64 * 10));
                if has == want[f] {
                    continue;
                }
                if want[f] && excuse[f] && multi {
                    cx.known("multi-value-complement", format!("{name} {conds:?} leaves out feature {f}"));
                    continue;
                }
                return Err(format!("{name} {conds:?} {} feature {f}, the values say {}", if has { "returns" } else { "does not return" }, want[f]));
            }
            if let Some(x) = g.iter().find(|x| **x % 10 != 0 || **x >= nf as u64 * 10) {
                return Err(format!("{name} {conds:?} returns offset {x}, which no feature has"));
            }
        }
    }
    // a field without an index and an empty query are errors, not answers
    let bad = vec![QueryCondition { field: "nope".into(), operator: Operator::Eq, key: KeyType::Int32(1) }];
    let mut c = Cursor::new(&buf);
    let mut cl = client(buf.clone());
    for q in [&bad[..], &[]] {
        if m.query(q).is_ok() || s.query(&mut c, q).is_ok() || block_on(h.query(&mut cl, q)).is_ok() {
            return Err(format!("query {q:?} is answered without an index"));
        }
    }
    Ok(())
}

pub fn p07(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    for_key!(i, layout, r, i, cx)
}
fn layout<K: TestKey>(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let t = make::<K>(r, i, cx)?;
    let n = t.uniq.len();
    let (b, s) = (t.b as usize, t.b as usize - 1);
    let es = Entry::<K>::SERIALIZED_SIZE;
    // levels bottom-up: leaves, then one item per child, until a level fits one node
    let mut lv = vec![n];
    loop {
        let m = (lv.last().unwrap() + b - 1) / b;
        lv.push(m);
        if m < b {
            break;
        }
    }
    let nodes: usize = lv.iter().sum();
    cx.eval(&cx.trace.clone(), lv.len() > 2 || n < t.entries.len());
    let payload: usize = {
        let mut c: BTreeMap<&K, usize> = BTreeMap::new();
        for e in &t.entries {
            *c.entry(&e.key).or_insert(0) += 1;
        }
        c.values().filter(|x| **x > 1).map(|x| 4 + 8 * x).sum()
    };
    cx.sample(|| format!("{} entries of {}, branching {b}: {n} keys, {nodes} nodes, payload of {payload} bytes", t.entries.len(), K::NAME));
    if t.tree.num_leaf_items() != n || t.tree.num_items() != nodes || t.tree.payload_size() != payload || t.bytes.len() != nodes * es + payload
        || Stree::<K>::index_size(n, t.b, payload) != t.bytes.len() || t.tree.branching_factor() != t.b {
        return Err(format!("{n} keys, branching {b}: {} leaves, {} nodes, payload {}, {} bytes, index_size {}; expected {nodes} nodes, payload {payload}, {} bytes",
            t.tree.num_leaf_items(), t.tree.num_items(), t.tree.payload_size(), t.bytes.len(), Stree::<K>::index_size(n, t.b, payload), nodes * es + payload));
    }
    let node = |k: usize| Entry::<K>::from_bytes(&t.bytes[k * es..(k + 1) * es]).map_err(|e| format!("node {k}: {e}"));
    let start = nodes - n;
    for (k, key) in t.uniq.iter().enumerate() {
        let e = node(start + k)?;
        if e.key != *key {
            return Err(format!("leaf {k} holds {:?}, the keys in order have {key:?}", e.key));
        }
        let want: Vec<u64> = t.entries.iter().filter(|e| e.key == *key).map(|e| e.offset).collect();
        if want.len() == 1 {
            if e.offset != want[0] {
                return Err(format!("leaf {k} ({key:?}) holds offset {}, the entry has {}", e.offset, want[0]));
            }
            continue;
        }
        if e.offset >> 63 == 0 {
            return Err(format!("leaf {k} ({key:?}) has {} entries and no payload mark", want.len()));
        }
        let at = nodes * es + (e.offset & !(1 << 63)) as usize;
        let (p, _) = PayloadEntry::deserialize(&mut Cursor::new(&t.bytes[at.min(t.bytes.len())..])).map_err(|e| format!("payload of leaf {k}: {e}"))?;
        if p.offsets != want || p.count as usize != want.len() {
            return Err(format!("payload of leaf {k} ({key:?}) lists {} instead of {}", short(&p.offsets), short(&want)));
        }
        if p.serialize()[..] != t.bytes[at..at + p.serialized_size()] {
            return Err(format!("payload of leaf {k}: size or bytes differ when written again"));
        }
    }
    // inner levels: item x of level l+1 points to chunk (x / s) * b + x % s of level l and its key is the first leaf key of the next chunk
    let mut cs = start;
    let mut span = s; // leaves below one chunk of level l
    for l in 0..lv.len() - 1 {
        let ps = cs - lv[l + 1];
        let chunks = (lv[l] + s - 1) / s;
        let used = (0..chunks).filter(|c| c % b != b - 1).count();
        for x in 0..lv[l + 1].min(used) {
            let c = (x / s) * b + x % s;
            let e = node(ps + x)?;
            if e.offset as usize != cs + c * s {
                return Err(format!("item {x} of level {} points to {} instead of {}", l + 1, e.offset, cs + c * s));
            }
            let sep = (c + 1) * span;
            let key = if sep < n { t.uniq[sep].clone() } else { K::max_value() };
            if e.key != key {
                return Err(format!("item {x} of level {} has separator {:?} instead of {key:?}", l + 1, e.key));
            }
        }
        cs = ps;
        span *= b;
    }
    let back = Stree::<K>::from_buf(&t.bytes[..], n, t.b).map_err(|e| format!("from_buf: {e}"))?;
    let mut again = vec![];
    back.stream_write(&mut again).map_err(|e| e.to_string())?;
    if again != t.bytes {
        return Err("from_buf then write gives other bytes".into());
    }
    let m = MemoryIndex::<K>::build(&t.entries, t.b).map_err(|e| e.to_string())?;
    let mut mb = vec![];
    m.serialize(&mut mb).map_err(|e| e.to_string())?;
    if mb != t.bytes || m.num_items() != n || m.payload_size() != payload {
        return Err("the memory index serializes to other bytes than the tree".into());
    }
    // an early end of the data or a failing writer is an error
    let cut = r.us(0, nodes * es - 1);
    if Stree::<K>::from_buf(&t.bytes[..cut], n, t.b).is_ok() {
        return Err(format!("an index cut to {cut} of {} node bytes is read without an error", nodes * es));
    }
    let lim = r.us(0, t.bytes.len() - 1);
    if t.tree.stream_write(&mut Limited(lim)).is_ok() {
        return Err(format!("stream_write succeeds on a writer that is full after {lim} of {} bytes", t.bytes.len()));
    }
    Ok(())
}
pub struct Limited(pub usize);
impl std::io::Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(self.0);
        self.0 -= k;
        if k == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn p08(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    for_key!(i, keys, r, i, cx)?;
    strings::<20>(r, cx)?;
    strings::<50>(r, cx)?;
    strings::<100>(r, cx)
}
fn any_key<K: TestKey>(r: &mut Rng) -> K {
    match r.below(8) {
        0 => K::min_value(),
        1 => K::max_value(),
        2 => K::default(),
        k => K::gen(r, k, 1 << 32),
    }
}
fn keys<K: TestKey>(r: &mut Rng, _i: u64, cx: &mut Ctx) -> R {
    for _ in 0..30 {
        let (a, b): (K, K) = (any_key(r), any_key(r));
        cx.trace = format!("{} {a:?} {b:?}", K::NAME);
        cx.eval(&cx.trace.clone(), a != b);
        cx.sample(|| format!("{} {a:?} <=> {b:?}", K::NAME));
        let enc = |k: &K| -> Result<Vec<u8>, String> {
            let mut v = vec![];
            let n = k.write_to(&mut v).map_err(|e| e.to_string())?;
            if n != v.len() || n != K::SERIALIZED_SIZE {
                return Err(format!("{k:?}: {n} bytes reported, {} written, size is {}", v.len(), K::SERIALIZED_SIZE));
            }
            Ok(v)
        };
        let dec = |k: &K, v: &[u8]| -> Result<K, String> {
            let x = K::read_from(&mut &v[..]).map_err(|e| e.to_string())?;
            let mut longer = v.to_vec();
            longer.extend([0xFF; 9]);
            let y = K::from_bytes(&longer).map_err(|e| e.to_string())?;
            if x.cmp(&y) != std::cmp::Ordering::Equal || x.cmp(k) != std::cmp::Ordering::Equal {
                return Err(format!("{k:?} is read back as {x:?} and {y:?}"));
            }
            if K::read_from(&mut &v[..v.len() - 1]).is_ok() {
                return Err(format!("{k:?}: a short read succeeds"));
            }
            Ok(x)
        };
        let (ea, eb) = (enc(&a)?, enc(&b)?);
        let (da, db) = (dec(&a, &ea)?, dec(&b, &eb)?);
        if da.cmp(&db) != a.cmp(&b) || (ea == eb) != (a == b) && K::NAME != "f32" && K::NAME != "f64" {
            return Err(format!("{a:?} and {b:?} compare {:?}, read back {:?}; bytes equal: {}", a.cmp(&b), da.cmp(&db), ea == eb));
        }
        if a < K::min_value() || a > K::max_value() {
            return Err(format!("{a:?} lies outside min_value..max_value"));
        }
        let lim = r.us(0, K::SERIALIZED_SIZE - 1);
        if a.write_to(&mut Limited(lim)).is_ok() {
            return Err(format!("{a:?}: writing succeeds on a writer that is full after {lim} bytes"));
        }
        let off = r.next();
        let en = Entry::new(a.clone(), off);
        let mut v = vec![];
        let n = en.write_to(&mut v).map_err(|e| e.to_string())?;
        let (x, y) = (Entry::<K>::from_reader(&mut &v[..]).map_err(|e| e.to_string())?, Entry::<K>::from_bytes(&v).map_err(|e| e.to_string())?);
        if n != v.len() || n != Entry::<K>::SERIALIZED_SIZE || x != en || y != en {
            return Err(format!("entry ({a:?}, {off}) of {n} bytes is read back as {x:?} and {y:?}"));
        }
    }
    Ok(())
}
fn strings<const N: usize>(r: &mut Rng, cx: &mut Ctx) -> R {
    for _ in 0..6 {
        let mut word = || {
            let k = r.us(0, N + 4);
            (0..k).map(|_| *r.pick(&['a', 'b', 'Z', ' ', '~', 'é', '日', '\u{7f}', '0'])).collect::<String>()
        };
        let (a, b) = (word(), word());
        let b = if r.chance(1, 3) { format!("{a}{}", b.chars().take(1).collect::<String>()) } else { b };
        cx.eval(&(&a, &b), a != b);
        let (ka, kb) = (FixedStringKey::<N>::from_str(&a), FixedStringKey::<N>::from_str(&b));
        let cut = |s: &str| s.as_bytes()[..s.len().min(N)].to_vec();
        if ka.cmp(&kb) != cut(&a).cmp(&cut(&b)) {
            return Err(format!("string keys of {N} bytes: {a:?} and {b:?} compare {:?}", ka.cmp(&kb)));
        }
        if a.len() <= N && ka.to_string_lossy() != a {
            return Err(format!("string key of {N} bytes: {a:?} is read back as {:?}", ka.to_string_lossy()));
        }
    }
    Ok(())
}
