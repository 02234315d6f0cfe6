//! the contract of trait Key (contracts/stree.vx) for the key types of static_btree/key.rs
use chrono::{DateTime, Utc};
use fcb_core::static_btree::{FixedStringKey, Key, Max, Min};
use ordered_float::OrderedFloat;
use std::cmp::Ordering;

/// encoding: exactly N bytes, decoded as an equal key by both decoders, nothing past the N bytes touched or read, a cut encoding is an error
fn codec<K: Key, const N: usize, const M: usize>(k: K) {
    assert!(K::SERIALIZED_SIZE == N);
    let mut buf = [0xA5u8; M];
    let mut w: &mut [u8] = &mut buf;
    let n = k.write_to(&mut w);
    assert!(matches!(n, Ok(x) if x == N));
    assert!(w.len() == M - N);
    let mut r: &[u8] = &buf;
    let d = K::read_from(&mut r);
    assert!(r.len() == M - N);
    match d { Ok(d) => assert!(d.cmp(&k) == Ordering::Equal), Err(_) => assert!(false) }
    match K::from_bytes(&buf) { Ok(d) => assert!(d.cmp(&k) == Ordering::Equal), Err(_) => assert!(false) }
    assert!(buf[N] == 0xA5);
    let cut: usize = kani::any();
    kani::assume(cut < N);
    let mut r: &[u8] = &buf[..cut];
    assert!(K::read_from(&mut r).is_err());
    kani::cover!(true);
}
/// order: total, and every key lies between the least and the greatest
fn order<K: Key>(a: K, b: K, c: K) {
    let ab = a.cmp(&b);
    assert!(b.cmp(&a) == ab.reverse());
    assert!((a == b) == (ab == Ordering::Equal));
    assert!(a.partial_cmp(&b) == Some(ab));
    if ab != Ordering::Greater && b.cmp(&c) != Ordering::Greater { assert!(a.cmp(&c) != Ordering::Greater); }
    assert!(K::min_value().cmp(&a) != Ordering::Greater);
    assert!(K::max_value().cmp(&a) != Ordering::Less);
    kani::cover!(ab == Ordering::Less);
}
macro_rules! int_key { ($t:ident, $n:expr) => { mod $t {
    use super::*;
    #[kani::proof] fn codec_all() { codec::<$t, $n, {$n + 1}>(kani::any()); }
    #[kani::proof] fn order_all() {
        let (a, b, c): ($t, $t, $t) = (kani::any(), kani::any(), kani::any());
        order(a, b, c);
        assert!(<$t as Max>::max_value() == $t::MAX && <$t as Min>::min_value() == $t::MIN);
        // little endian, two's complement
        let mut buf = [0u8; $n]; let mut w: &mut [u8] = &mut buf; let _ = a.write_to(&mut w);
        assert!(buf == a.to_le_bytes());
    }
} } }
int_key!(i8, 1); int_key!(u8, 1); int_key!(i16, 2); int_key!(u16, 2); int_key!(i32, 4); int_key!(u32, 4); int_key!(i64, 8); int_key!(u64, 8);

macro_rules! float_key { ($m:ident, $t:ident, $n:expr) => { mod $m {
    use super::*;
    #[kani::proof] fn codec_all() { codec::<OrderedFloat<$t>, $n, {$n + 1}>(OrderedFloat(kani::any())); }
    #[kani::proof] fn order_all() {
        let (a, b, c): ($t, $t, $t) = (kani::any(), kani::any(), kani::any());
        kani::assume(!a.is_nan() && !b.is_nan() && !c.is_nan());
        order(OrderedFloat(a), OrderedFloat(b), OrderedFloat(c));
        assert!((a < b) == (OrderedFloat(a).cmp(&OrderedFloat(b)) == Ordering::Less));
        let mut buf = [0u8; $n]; let mut w: &mut [u8] = &mut buf; let _ = OrderedFloat(a).write_to(&mut w);
        assert!(buf == a.to_le_bytes());
    }
} } }
float_key!(of32, f32, 4); float_key!(of64, f64, 8);

mod boolean {
    use super::*;
    #[kani::proof] fn codec_all() { codec::<bool, 1, 2>(kani::any()); }
    #[kani::proof] fn order_all() { order::<bool>(kani::any(), kani::any(), kani::any()); assert!(false.cmp(&true) == Ordering::Less); }
}

#[allow(dead_code)]
fn any_date() -> (i64, u32, DateTime<Utc>) {
    // every instant of the years 0..=9999 (9999 is the greatest the index allows)
    let s: i64 = kani::any();
    let n: u32 = kani::any();
    kani::assume(s >= -62_167_219_200 && s <= 253_402_300_799 && (n < 1_000_000_000 || n < 2_000_000_000 && s.rem_euclid(60) == 59));
    match DateTime::<Utc>::from_timestamp(s, n) { Some(d) => (s, n, d), None => { kani::assume(false); unreachable!() } }
}
mod datetime {
    use super::*;
    #[cfg(feature = "slow")] #[kani::proof] fn order_all_slow() { order(any_date().2, any_date().2, any_date().2); }
    /// the encoding is what chrono reports as seconds and nanoseconds of the key
    #[cfg(feature = "slow")] #[kani::proof] fn encode_all_slow() {
        let (_, _, k) = any_date();
        let mut buf = [0xA5u8; 13];
        let mut w: &mut [u8] = &mut buf;
        let n = k.write_to(&mut w);
        assert!(matches!(n, Ok(12)) && w.len() == 1 && <DateTime<Utc> as Key>::SERIALIZED_SIZE == 12);
        let (s, m) = (k.timestamp().to_le_bytes(), k.timestamp_subsec_nanos().to_le_bytes());
        assert!(buf[..8] == s && buf[8..12] == m && buf[12] == 0xA5);
    }
    /// bounded: 16 days in each of six places (year 0, 1900, 1969/70, 2000, 2024, 9999), any nanosecond
    fn window() -> (i64, u32, [u8; 13]) {
        let base: i64 = match kani::any::<u8>() % 6 { 0 => -62_167_219_200, 1 => -2_203_977_600, 2 => -691_200, 3 => 951_177_600, 4 => 1_734_912_000, _ => 253_402_300_800 - 16 * 86_400 };
        let off: u32 = kani::any();
        let n: u32 = kani::any();
        // a leap second is a nanosecond count of 10^9 and more in the last second of a minute
        kani::assume(off < 16 * 86_400 && (n < 1_000_000_000 || n < 2_000_000_000 && off % 60 == 59));
        let s = base + off as i64;
        let mut buf = [0xA5u8; 13];
        buf[..8].copy_from_slice(&s.to_le_bytes());
        buf[8..12].copy_from_slice(&n.to_le_bytes());
        (s, n, buf)
    }
    #[kani::proof] fn decode_bounded() {
        let (s, n, buf) = window();
        let mut r: &[u8] = &buf;
        match DateTime::<Utc>::read_from(&mut r) { Ok(d) => assert!(d.timestamp() == s && d.timestamp_subsec_nanos() == n), Err(_) => assert!(false) }
        assert!(r.len() == 1);
    }
    #[kani::proof] fn bytes_bounded() {
        let (s, n, buf) = window();
        match DateTime::<Utc>::from_bytes(&buf) { Ok(d) => assert!(d.timestamp() == s && d.timestamp_subsec_nanos() == n), Err(_) => assert!(false) }
    }
    #[kani::proof] fn encode_bounded() {
        let (s, n, want) = window();
        let Some(k) = DateTime::<Utc>::from_timestamp(s, n) else { assert!(false); return };
        let mut buf = [0xA5u8; 13];
        let mut w: &mut [u8] = &mut buf;
        let r = k.write_to(&mut w);
        assert!(matches!(r, Ok(12)) && w.len() == 1);
        assert!(buf == want);
    }
    #[kani::proof] fn cut_all() {
        let buf: [u8; 12] = kani::any();
        let cut: usize = kani::any();
        kani::assume(cut < 12);
        let mut r: &[u8] = &buf[..cut];
        assert!(DateTime::<Utc>::read_from(&mut r).is_err());
    }
}

/// strings of up to N + 2 arbitrary bytes: the key is their first N bytes padded with zeros, and that is the encoding
fn string<const N: usize, const L: usize>() {
    let raw: [u8; L] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= L);
    let s = unsafe { std::str::from_utf8_unchecked(&raw[..len]) };
    let k = FixedStringKey::<N>::from_str(s);
    let mut buf = [0x55u8; N];
    let mut w: &mut [u8] = &mut buf;
    let n = k.write_to(&mut w);
    assert!(matches!(n, Ok(x) if x == N));
    let i: usize = kani::any();
    kani::assume(i < N);
    assert!(buf[i] == if i < len { raw[i] } else { 0 });
}
macro_rules! string_key { ($m:ident, $n:expr, $u:expr) => { mod $m {
    use super::*;
    fn any_key() -> FixedStringKey<$n> {
        let raw: [u8; $n] = kani::any();
        match FixedStringKey::<$n>::from_bytes(&raw) { Ok(k) => k, Err(_) => { assert!(false); unreachable!() } }
    }
    #[kani::proof] #[kani::unwind($u)] fn codec_all() { codec::<FixedStringKey<$n>, $n, {$n + 1}>(any_key()); }
    #[kani::proof] #[kani::unwind($u)] fn order_all() { order(any_key(), any_key(), any_key()); }
    /// keys compare as their bytes do, the first difference decides
    #[kani::proof] #[kani::unwind($u)] fn lexicographic_all() {
        let (x, y): ([u8; $n], [u8; $n]) = (kani::any(), kani::any());
        let i: usize = kani::any();
        kani::assume(i < $n && x[i] < y[i]);
        let mut j = 0;
        while j < i { kani::assume(x[j] == y[j]); j += 1; }
        match (FixedStringKey::<$n>::from_bytes(&x), FixedStringKey::<$n>::from_bytes(&y)) { (Ok(a), Ok(b)) => assert!(a < b), _ => assert!(false) }
    }
    #[kani::proof] #[kani::unwind($u)] fn from_str_all() { string::<$n, {$n + 2}>(); }
} } }
string_key!(s20, 20, 24); string_key!(s50, 50, 54); string_key!(s100, 100, 104);
