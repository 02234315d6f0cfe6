//! packed R-tree: in memory, streamed and over range requests, against a scan of the items
use crate::util::*;
use fcb_core::packed_rtree::http::HttpRange;
use fcb_core::packed_rtree::{calc_extent, hilbert_sort, NodeItem, PackedRTree, Query};
use std::collections::BTreeMap;
use std::io::{Cursor, Seek, SeekFrom};

pub const RULE01: &str = "trees of 1..400 boxes (grid, clustered, touching, degenerate, huge and negative coordinates), node sizes 2..17, sorted by Hilbert value or not; box and point queries on and around box corners; the item sets found in memory, from the serialized index and over range requests are compared with a scan of all boxes; non-trivial: the scan finds at least one box";
pub const RULE02: &str = "as for range queries; the centre distance of the returned item is compared with the least over all items; non-trivial: more than one item";
pub const RULE03: &str = "trees as above, written and read back in three ways; length, bytes, node count and query answers compared; non-trivial: more than one level";

pub struct Tree {
    pub items: Vec<NodeItem>,
    pub node_size: u16,
    pub tree: PackedRTree,
    pub bytes: Vec<u8>,
}

pub fn coord(r: &mut Rng, style: u64) -> f64 {
    match style {
        0 => r.int(-5, 5) as f64,
        1 => r.int(-1000, 1000) as f64 / 8.0,
        2 => r.int(0, 3) as f64 * 1e6 + r.int(0, 20) as f64,
        3 => r.int(-9, 9) as f64 * 1e-3,
        _ => *r.pick(&[-1e300, -1.0, -0.0, 0.0, 1.0, 1e300, 84000.125, 447000.5]),
    }
}

pub fn boxes(r: &mut Rng, n: usize, finite: bool) -> Vec<NodeItem> {
    let style = r.below(if finite { 4 } else { 5 });
    let mut off = 0u64;
    let line = r.chance(1, 6);
    (0..n)
        .map(|_| {
            let (a, b) = (coord(r, style), coord(r, style));
            let (mut c, mut d) = (coord(r, style), coord(r, style));
            if r.chance(1, 3) {
                c = a + r.int(0, 2) as f64;
                d = b + r.int(0, 2) as f64;
            }
            if line {
                c = a;
            }
            let mut it = NodeItem::bounds(a.min(c), b.min(d), a.max(c), b.max(d));
            it.offset = off;
            off += r.int(1, 500) as u64;
            it
        })
        .collect()
}

pub fn size_of_tree(r: &mut Rng, i: u64, ns: u16) -> usize {
    let b = ns as usize;
    if i < 24 {
        (i + 1) as usize
    } else {
        match r.below(5) {
            0 => r.us(1, 40),
            1 => *r.pick(&[b - 1, b, b + 1, b * b - 1, b * b, b * b + 1, b * b + b]).max(&1),
            2 => r.us(1, 400),
            3 => (b * b * b + r.us(0, 2)).min(700) - 1,
            _ => r.us(1, 90),
        }
    }
}

pub fn make(r: &mut Rng, i: u64, cx: &mut Ctx, finite: bool) -> Result<Tree, String> {
    let node_size = if i < 24 { *r.pick(&[2u16, 3, 16]) } else { *r.pick(&[2u16, 2, 3, 4, 5, 7, 16, 17]) };
    let n = size_of_tree(r, i, node_size).max(1);
    let mut items = boxes(r, n, finite);
    let ext = calc_extent(&items);
    if r.chance(1, 2) {
        hilbert_sort(&mut items, &ext);
        let mut off = 0;
        for it in items.iter_mut() {
            it.offset = off;
            off += r.int(1, 500) as u64;
        }
    }
    cx.trace = format!("node_size={node_size} items={:?}", items.iter().map(|b| (b.min_x, b.min_y, b.max_x, b.max_y, b.offset)).collect::<Vec<_>>());
    let tree = PackedRTree::build(&items, &ext, node_size).map_err(|e| format!("build: {e:?}"))?;
    let mut bytes = vec![];
    tree.stream_write(&mut bytes).map_err(|e| format!("write: {e}"))?;
    Ok(Tree { items, node_size, tree, bytes })
}

type Found = Vec<(usize, usize)>; // (index, offset)
/// what the three readers find; over http only the byte range is known
pub fn ask(t: &Tree, q: Query, pre: usize) -> Result<(Found, Found, Vec<HttpRange>), String> {
    let mem: Found = t.tree.search(q).map_err(|e| format!("search: {e:?}"))?.iter().map(|s| (s.index, s.offset)).collect();
    let mut buf = vec![0xEEu8; pre];
    buf.extend(&t.bytes);
    let tail = buf.len() as u64;
    buf.extend([0x11u8; 64]);
    let mut c = Cursor::new(&buf);
    c.seek(SeekFrom::Start(pre as u64)).unwrap();
    let st: Found = PackedRTree::stream_search(&mut c, t.items.len(), t.node_size, q).map_err(|e| format!("stream_search: {e:?}"))?.iter().map(|s| (s.index, s.offset)).collect();
    if c.position() != tail {
        return Err(format!("stream position after the query is {} and not at the end of the index {tail}", c.position()));
    }
    let mut cl = client(buf);
    let http = block_on(PackedRTree::http_stream_search(&mut cl, pre, 1000, t.items.len(), t.node_size, q, 256 * 1024)).map_err(|e| format!("http search: {e:?}"))?;
    Ok((mem, st, http.into_iter().map(|h| h.range).collect()))
}

fn check_sets(t: &Tree, q: Query, want: &[usize], pre: usize) -> R {
    let (mem, st, http) = ask(t, q, pre)?;
    let exp: Vec<(usize, usize)> = want.iter().map(|&k| (k, t.items[k].offset as usize)).collect();
    for (name, got) in [("memory", &mem), ("stream", &st)] {
        let mut g = got.clone();
        g.sort();
        if g != exp {
            return Err(format!("{name} search {q:?} found (index, offset) {got:?}, a scan finds {exp:?}"));
        }
    }
    let base = pre + 1000 + t.bytes.len();
    let mut g: Vec<(usize, Option<usize>)> = http.iter().map(|h| (h.start(), h.end())).collect();
    g.sort();
    let e: Vec<(usize, Option<usize>)> =
        want.iter().map(|&k| (base + t.items[k].offset as usize, t.items.get(k + 1).map(|n| base + n.offset as usize))).collect();
    if g != e {
        return Err(format!("http search {q:?} found byte ranges {g:?}, a scan finds {e:?} (items {want:?})"));
    }
    Ok(())
}

fn around(r: &mut Rng, t: &Tree) -> (f64, f64) {
    let b = r.pick(&t.items).clone();
    let mut x = *r.pick(&[b.min_x, b.max_x, (b.min_x + b.max_x) / 2.0]);
    let mut y = *r.pick(&[b.min_y, b.max_y, (b.min_y + b.max_y) / 2.0]);
    if r.chance(1, 3) {
        x += *r.pick(&[-1.0, 1.0, 0.5, -1e-9, 1e-9, 100.0, -100.0]);
    }
    if r.chance(1, 3) {
        y += *r.pick(&[-1.0, 1.0, 0.5, -1e-9, 1e-9, 100.0, -100.0]);
    }
    (x, y)
}

pub fn p01(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let t = make(r, i, cx, false)?;
    let pre = r.us(0, 50);
    for _ in 0..12 {
        let (x, y) = around(r, &t);
        let (u, v) = around(r, &t);
        let (q, want): (Query, Vec<usize>) = if r.chance(2, 3) {
            let (a, b, c, d) = if r.chance(1, 12) { (x, y, u, v) } else { (x.min(u), y.min(v), x.max(u), y.max(v)) };
            let (a, b, c, d) = if r.chance(1, 12) { (f64::NEG_INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::INFINITY) } else { (a, b, c, d) };
            let w = (0..t.items.len()).filter(|&k| {
                let n = &t.items[k];
                n.min_x <= c && n.max_x >= a && n.min_y <= d && n.max_y >= b
            });
            (Query::BBox(a, b, c, d), w.collect())
        } else {
            let w = (0..t.items.len()).filter(|&k| {
                let n = &t.items[k];
                n.min_x <= x && n.max_x >= x && n.min_y <= y && n.max_y >= y
            });
            (Query::PointIntersects(x, y), w.collect())
        };
        cx.eval(&format!("{}{q:?}", cx.trace.clone()), !want.is_empty());
        cx.sample(|| format!("{} items, node size {}, {q:?} -> items {want:?}", t.items.len(), t.node_size));
        check_sets(&t, q, &want, pre)?;
    }
    Ok(())
}

fn centre2(n: &NodeItem, x: f64, y: f64) -> f64 {
    let (cx, cy) = ((n.min_x + n.max_x) / 2.0, (n.min_y + n.max_y) / 2.0);
    (x - cx) * (x - cx) + (y - cy) * (y - cy)
}

pub fn p02(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let t = make(r, i, cx, true)?;
    let pre = r.us(0, 50);
    let base = pre + 1000 + t.bytes.len();
    let by_off: BTreeMap<usize, usize> = t.items.iter().enumerate().map(|(k, n)| (base + n.offset as usize, k)).collect();
    for _ in 0..12 {
        let (x, y) = around(r, &t);
        let q = Query::PointNearest(x, y);
        cx.eval(&format!("{}{q:?}", cx.trace.clone()), t.items.len() > 1);
        let best = t.items.iter().map(|n| centre2(n, x, y)).fold(f64::INFINITY, f64::min);
        cx.sample(|| format!("{} items, node size {}, nearest to ({x}, {y}): squared distance {best}", t.items.len(), t.node_size));
        let (mem, st, http) = ask(&t, q, pre)?;
        for (name, got) in [("memory", &mem), ("stream", &st)] {
            if got.len() != 1 {
                return Err(format!("{name} nearest ({x}, {y}) returned {} items", got.len()));
            }
            let (k, off) = got[0];
            if k >= t.items.len() || t.items[k].offset as usize != off {
                return Err(format!("{name} nearest ({x}, {y}) returned index {k} with offset {off}"));
            }
            let d = centre2(&t.items[k], x, y);
            if d != best {
                return Err(format!("{name} nearest ({x}, {y}) returned item {k} at squared distance {d}, the least is {best}"));
            }
        }
        if http.len() != 1 {
            return Err(format!("http nearest ({x}, {y}) returned {} items", http.len()));
        }
        let Some(&k) = by_off.get(&http[0].start()) else {
            return Err(format!("http nearest ({x}, {y}): byte range {:?} is no item", http[0]));
        };
        let d = centre2(&t.items[k], x, y);
        if d != best {
            return Err(format!("http nearest ({x}, {y}) returned item {k} at squared distance {d}, the least is {best}"));
        }
        let end = t.items.get(k + 1).map(|n| base + n.offset as usize);
        if http[0].end() != end {
            return Err(format!("http nearest: range {:?} of item {k} should end at {end:?}", http[0]));
        }
    }
    Ok(())
}

pub fn p03(r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
    let t = make(r, i, cx, false)?;
    let n = t.items.len();
    cx.eval(&cx.trace.clone(), n > t.node_size as usize);
    // node count from the definition: every level up to a single root
    let mut m = n;
    let mut nodes = n;
    loop {
        m = (m + t.node_size as usize - 1) / t.node_size as usize;
        nodes += m;
        if m == 1 {
            break;
        }
    }
    cx.sample(|| format!("{n} items, node size {}: {nodes} nodes, {} bytes", t.node_size, t.bytes.len()));
    if t.bytes.len() != nodes * 40 || t.tree.size() != nodes * 40 || PackedRTree::index_size(n, t.node_size) != nodes * 40 {
        return Err(format!("{n} items, node size {}: written {} bytes, size() {}, index_size() {}, expected {}", t.node_size, t.bytes.len(), t.tree.size(), PackedRTree::index_size(n, t.node_size), nodes * 40));
    }
    let f = |k: usize, f: usize| f64::from_le_bytes(t.bytes[k * 40 + f * 8..k * 40 + f * 8 + 8].try_into().unwrap());
    let off = |k: usize| u64::from_le_bytes(t.bytes[k * 40 + 32..k * 40 + 40].try_into().unwrap());
    for (k, it) in t.items.iter().enumerate() {
        let p = nodes - n + k;
        if (f(p, 0), f(p, 1), f(p, 2), f(p, 3), off(p)) != (it.min_x, it.min_y, it.max_x, it.max_y, it.offset) {
            return Err(format!("item {k} is not stored at node {p} as it was given"));
        }
    }
    // every upper node: first child and the exact hull of its children
    let (mut cs, mut ce) = (nodes - n, nodes);
    while cs > 0 {
        let cnt = (ce - cs + t.node_size as usize - 1) / t.node_size as usize;
        let ps = cs - cnt;
        for p in ps..cs {
            let a = cs + (p - ps) * t.node_size as usize;
            let b = (a + t.node_size as usize).min(ce);
            if off(p) as usize != a {
                return Err(format!("node {p} points to child {} instead of {a}", off(p)));
            }
            let lo = |c: usize| (a..b).map(|k| f(k, c)).fold(f64::INFINITY, f64::min);
            let hi = |c: usize| (a..b).map(|k| f(k, c)).fold(f64::NEG_INFINITY, f64::max);
            if (f(p, 0), f(p, 1), f(p, 2), f(p, 3)) != (lo(0), lo(1), hi(2), hi(3)) {
                return Err(format!("box of node {p} is not the hull of nodes {a}..{b}"));
            }
        }
        ce = cs;
        cs = ps;
    }
    let back = PackedRTree::from_buf(&mut Cursor::new(&t.bytes), n, t.node_size).map_err(|e| format!("from_buf: {e:?}"))?;
    let mut cl = client({
        let mut v = vec![7u8; 13];
        v.extend(&t.bytes);
        v
    });
    let hb = block_on(PackedRTree::from_http(&mut cl, 13, n, t.node_size)).map_err(|e| format!("from_http: {e:?}"))?;
    for (name, b) in [("from_buf", &back), ("from_http", &hb)] {
        let mut again = vec![];
        b.stream_write(&mut again).unwrap();
        if again != t.bytes {
            return Err(format!("{name} then write gives other bytes"));
        }
        let e = b.extent();
        let w = calc_extent(&t.items);
        if (e.min_x, e.min_y, e.max_x, e.max_y) != (w.min_x, w.min_y, w.max_x, w.max_y) {
            return Err(format!("{name}: extent {e:?}, items span {w:?}"));
        }
        let (x, y) = around(r, &t);
        let q = Query::BBox(x - 3.0, y - 3.0, x + 3.0, y + 3.0);
        let ids = |t: &PackedRTree| t.search(q).map(|v| v.iter().map(|s| (s.index, s.offset)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"));
        if ids(b)? != ids(&t.tree)? {
            return Err(format!("{name}: {q:?} answers differently from the tree that was written"));
        }
    }
    // a sort by Hilbert value keeps the boxes
    let mut s = t.items.clone();
    let ext = calc_extent(&s);
    hilbert_sort(&mut s, &ext);
    let key = |n: &NodeItem| (n.offset, n.min_x.to_bits(), n.min_y.to_bits(), n.max_x.to_bits(), n.max_y.to_bits());
    let mut a: Vec<_> = s.iter().map(key).collect();
    let mut b: Vec<_> = t.items.iter().map(key).collect();
    a.sort();
    b.sort();
    if a != b {
        return Err("sorting by Hilbert value changed the set of boxes".into());
    }
    Ok(())
}
