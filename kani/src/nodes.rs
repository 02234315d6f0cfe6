//! the 40 bytes of a spatial index node, over every node (any bit pattern of the coordinates)
use fcb_core::packed_rtree::NodeItem;
fn any_node() -> NodeItem {
    NodeItem { min_x: kani::any(), min_y: kani::any(), max_x: kani::any(), max_y: kani::any(), offset: kani::any() }
}
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
#[kani::proof] fn layout_all() {
    let n = any_node();
    let mut buf = [0xA5u8; 41];
    let mut w: &mut [u8] = &mut buf;
    assert!(n.write(&mut w).is_ok() && w.len() == 1 && buf[40] == 0xA5);
    assert!(buf[0..8] == n.min_x.to_le_bytes() && buf[8..16] == n.min_y.to_le_bytes() && buf[16..24] == n.max_x.to_le_bytes() && buf[24..32] == n.max_y.to_le_bytes());
    assert!(buf[32..40] == n.offset.to_le_bytes());
    kani::cover!(true);
}
#[kani::proof] fn read_all() {
    let n = any_node();
    let mut buf = [0xA5u8; 41];
    buf[0..8].copy_from_slice(&n.min_x.to_le_bytes()); buf[8..16].copy_from_slice(&n.min_y.to_le_bytes());
    buf[16..24].copy_from_slice(&n.max_x.to_le_bytes()); buf[24..32].copy_from_slice(&n.max_y.to_le_bytes());
    buf[32..40].copy_from_slice(&n.offset.to_le_bytes());
    let mut r: &[u8] = &buf;
    match NodeItem::from_reader(&mut r) {
        Ok(m) => assert!(same(m.min_x, n.min_x) && same(m.min_y, n.min_y) && same(m.max_x, n.max_x) && same(m.max_y, n.max_y) && m.offset == n.offset),
        Err(_) => assert!(false),
    }
    assert!(r.len() == 1);
}
#[kani::proof] fn cut_all() {
    let buf: [u8; 40] = kani::any();
    let cut: usize = kani::any();
    kani::assume(cut < 40);
    let mut r: &[u8] = &buf[..cut];
    assert!(NodeItem::from_reader(&mut r).is_err());
}
#[kani::proof] fn empty_all() {
    let o: u64 = kani::any();
    let n = NodeItem::create(o);
    assert!(n.min_x == f64::INFINITY && n.min_y == f64::INFINITY && n.max_x == f64::NEG_INFINITY && n.max_y == f64::NEG_INFINITY && n.offset == o);
}
