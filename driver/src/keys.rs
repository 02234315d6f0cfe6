//! key types of the attribute index: generation of keys and of neighbouring keys
use crate::util::*;
use chrono::{DateTime, Duration, TimeZone, Utc};
use fcb_core::static_btree::{FixedStringKey, Float, Key, KeyType};

pub trait TestKey: Key + 'static {
    const NAME: &'static str;
    /// a key from a pool of about `pool` values (style chooses the shape of the pool)
    fn gen(r: &mut Rng, style: u64, pool: u64) -> Self;
    fn kt(&self) -> KeyType;
}
fn mix(k: u64) -> u64 {
    let mut z = k.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(77);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 31)
}
macro_rules! int_key {
    ($t:ty, $v:ident) => {
        impl TestKey for $t {
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng, style: u64, pool: u64) -> Self {
                if r.chance(1, 40) {
                    return *r.pick(&[<$t>::MIN, <$t>::MAX, 0, <$t>::MAX - 1, <$t>::MIN + 1]);
                }
                let k = r.below(pool);
                match style % 3 {
                    0 => k as $t,
                    1 => (k as $t).wrapping_mul(2).wrapping_sub((pool / 2) as $t),
                    _ => mix(k) as $t,
                }
            }
            fn kt(&self) -> KeyType {
                KeyType::$v(*self)
            }
        }
    };
}
int_key!(i8, Int8);
int_key!(u8, UInt8);
int_key!(i16, Int16);
int_key!(u16, UInt16);
int_key!(i32, Int32);
int_key!(i64, Int64);
int_key!(u32, UInt32);
int_key!(u64, UInt64);
macro_rules! float_key {
    ($t:ty, $v:ident) => {
        impl TestKey for Float<$t> {
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng, style: u64, pool: u64) -> Self {
                if r.chance(1, 40) {
                    return Float(*r.pick(&[<$t>::INFINITY, <$t>::NEG_INFINITY, 0.0, -0.0, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE]));
                }
                let k = r.below(pool);
                Float(match style % 3 {
                    0 => k as $t,
                    1 => (k as $t - pool as $t / 2.0) / 8.0,
                    _ => (mix(k) as i64 as $t) / 1e3,
                })
            }
            fn kt(&self) -> KeyType {
                KeyType::$v(*self)
            }
        }
    };
}
float_key!(f32, Float32);
float_key!(f64, Float64);
impl TestKey for bool {
    const NAME: &'static str = "bool";
    fn gen(r: &mut Rng, _: u64, _: u64) -> Self {
        r.chance(1, 2)
    }
    fn kt(&self) -> KeyType {
        KeyType::Bool(*self)
    }
}
impl TestKey for DateTime<Utc> {
    const NAME: &'static str = "DateTime";
    fn gen(r: &mut Rng, style: u64, pool: u64) -> Self {
        let base = Utc.timestamp_opt(*r.pick(&[0i64, -1, 1_700_000_000]), 0).unwrap();
        let k = r.below(pool) as i64;
        match style % 3 {
            0 => Utc.timestamp_opt(k, 0).unwrap(),
            1 if r.chance(1, 4) => Utc.timestamp_opt((k % 1_000_000_000) * 60 + 59, 1_000_000_000 + (mix(k as u64) % 1_000_000_000) as u32).unwrap(), // a leap second
            1 => base + Duration::nanoseconds((k - pool as i64 / 2) * 250_000_000),
            _ => Utc.timestamp_opt((mix(k as u64) % 200_000_000_000) as i64 - 60_000_000_000, (mix(k as u64 + 9) % 1_000_000_000) as u32).unwrap(),
        }
    }
    fn kt(&self) -> KeyType {
        KeyType::DateTime(*self)
    }
}
pub fn text(r: &mut Rng, style: u64, pool: u64) -> String {
    let k = r.below(pool);
    match style % 3 {
        0 => format!("k{k}"),
        1 => ["", "a", "A", "é", "b ", "日本", "zz", "~"][(k % 8) as usize].repeat(1 + (k / 8) as usize % 3),
        _ => format!("{:x}", mix(k)),
    }
}
macro_rules! str_key {
    ($n:literal, $v:ident) => {
        impl TestKey for FixedStringKey<$n> {
            const NAME: &'static str = concat!("string", $n);
            fn gen(r: &mut Rng, style: u64, pool: u64) -> Self {
                FixedStringKey::from_str(&text(r, style, pool))
            }
            fn kt(&self) -> KeyType {
                KeyType::$v(self.clone())
            }
        }
    };
}
str_key!(20, StringKey20);
str_key!(50, StringKey50);
str_key!(100, StringKey100);

/// runs `$f::<K>($($a),*)` for the key type number `$k`
#[macro_export]
macro_rules! for_key {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k % 15 {
            0 => $f::<i32>($($a),*),
            1 => $f::<i64>($($a),*),
            2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*),
            4 => $f::<i16>($($a),*),
            5 => $f::<u16>($($a),*),
            6 => $f::<i8>($($a),*),
            7 => $f::<u8>($($a),*),
            8 => $f::<fcb_core::static_btree::Float<f32>>($($a),*),
            9 => $f::<fcb_core::static_btree::Float<f64>>($($a),*),
            10 => $f::<bool>($($a),*),
            11 => $f::<chrono::DateTime<chrono::Utc>>($($a),*),
            12 => $f::<fcb_core::static_btree::FixedStringKey<20>>($($a),*),
            13 => $f::<fcb_core::static_btree::FixedStringKey<50>>($($a),*),
            _ => $f::<fcb_core::static_btree::FixedStringKey<100>>($($a),*),
        }
    };
}
