// ---- byte streams: assumed contract of std::io::{Read, Seek, Write} and byteorder on a source that holds fixed bytes and does not fail by itself
pub trait Read: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    /// ReadBytesExt::read_u32::<LittleEndian>
    fn read_u32(&mut self) -> (r: Result<u32>)
        ensures final(self).data() == old(self).data(), r is Ok <==> old(self).pos() + 4 <= old(self).data().len(),
            r is Ok ==> final(self).pos() == old(self).pos() + 4 && r->Ok_0 == dec32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4));
    fn read_u64(&mut self) -> (r: Result<u64>)
        ensures final(self).data() == old(self).data(), r is Ok <==> old(self).pos() + 8 <= old(self).data().len(),
            r is Ok ==> final(self).pos() == old(self).pos() + 8 && r->Ok_0 == dec64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8));
    fn read_f64(&mut self) -> (r: Result<f64>)
        ensures final(self).data() == old(self).data(), r is Ok <==> old(self).pos() + 8 <= old(self).data().len(),
            r is Ok ==> final(self).pos() == old(self).pos() + 8 && r->Ok_0 == decf(old(self).data().subrange(old(self).pos(), old(self).pos() + 8));
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
        ensures final(self).data() == old(self).data(), r is Ok,
            0 <= old(self).pos() <= old(self).data().len() ==> final(buf)@ == old(buf)@ + old(self).data().subrange(old(self).pos(), old(self).data().len() as int);
}
pub enum SeekFrom { Start(u64), Current(i64) }
pub trait Seek: Read {
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>)
        ensures final(self).data() == old(self).data(),
            match to {
                SeekFrom::Start(p) => r is Ok && final(self).pos() == p,
                SeekFrom::Current(d) => old(self).pos() + d >= 0 ==> r is Ok && final(self).pos() == old(self).pos() + d,
            };
    fn stream_position(&mut self) -> (r: Result<u64>)
        ensures final(self).data() == old(self).data(), final(self).pos() == old(self).pos(), r is Ok, r->Ok_0 == old(self).pos();
}
pub trait Write: Sized {
    spec fn out(&self) -> Seq<u8>;
    fn write_all(&mut self, b: &Vec<u8>) -> (r: Result<()>)
        ensures r is Ok ==> final(self).out() == old(self).out() + b@;
    fn write_u64(&mut self, v: u64) -> (r: Result<()>)
        ensures r is Ok ==> final(self).out() == old(self).out() + enc64(v);
    fn write_f64(&mut self, v: f64) -> (r: Result<()>)
        ensures r is Ok ==> final(self).out() == old(self).out() + encf(v);
}
/// Cursor over a slice
pub struct Cursor { pub bytes: Ghost<Seq<u8>>, pub at: Ghost<int> }
impl Cursor {
    #[verifier::external_body]
    pub fn new(b: &[u8]) -> (r: Cursor) ensures r.data() == b@, r.pos() == 0 { unimplemented!() }
}
impl Read for Cursor {
    open spec fn data(&self) -> Seq<u8> { self.bytes@ }
    open spec fn pos(&self) -> int { self.at@ }
    #[verifier::external_body]
    fn read_u32(&mut self) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u64(&mut self) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn read_f64(&mut self) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body]
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
}
/// Vec::with_capacity gives exactly the asked capacity
pub uninterp spec fn vcap<T>(v: Vec<T>) -> int;
#[verifier::external_body]
pub fn with_cap<T>(n: usize) -> (r: Vec<T>) ensures r@.len() == 0, vcap(r) == n { unimplemented!() }
#[verifier::external_body]
pub fn clear_vec<T>(v: &mut Vec<T>) ensures final(v)@.len() == 0, vcap(*final(v)) == vcap(*old(v)) { unimplemented!() }
#[verifier::external_body]
pub fn cap_of<T>(v: &Vec<T>) -> (r: usize) ensures r == vcap(*v) { unimplemented!() }
#[verifier::external_body]
pub fn push_within<T>(v: &mut Vec<T>, x: T) requires old(v)@.len() < vcap(*old(v)), ensures final(v)@ == old(v)@.push(x), vcap(*final(v)) == vcap(*old(v)) { unimplemented!() }
