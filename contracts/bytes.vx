pub mod bytes {
use vstd::prelude::*;
// ---- byte orders (byteorder crate, assumed): little-endian encodings invert each other
pub uninterp spec fn enc32(v: u32) -> Seq<u8>;
pub uninterp spec fn enc64(v: u64) -> Seq<u8>;
pub uninterp spec fn dec32(b: Seq<u8>) -> u32;
pub uninterp spec fn dec64(b: Seq<u8>) -> u64;
pub broadcast axiom fn axiom_enc32(v: u32) ensures (#[trigger] enc32(v)).len() == 4, dec32(enc32(v)) == v;
pub broadcast axiom fn axiom_enc64(v: u64) ensures (#[trigger] enc64(v)).len() == 8, dec64(enc64(v)) == v;
pub uninterp spec fn encf(v: f64) -> Seq<u8>;
pub uninterp spec fn decf(b: Seq<u8>) -> f64;
pub broadcast axiom fn axiom_encf(v: f64) ensures (#[trigger] encf(v)).len() == 8, decf(encf(v)) == v;
pub broadcast group group_bytes { axiom_enc32, axiom_enc64, axiom_encf }
} // mod bytes
use bytes::*;
