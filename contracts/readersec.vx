// ---- byte streams: assumed contract of std::io::{Read, Seek} on a source that holds fixed bytes and does not fail on its own
pub enum Error { NoIndex, MissingMagicBytes, IllegalHeaderSize(usize), Other }
pub trait Read: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn start_pos(&self) -> int;
    /// fills buf[from..]; fails exactly when fewer bytes are left
    fn read_exact_from(&mut self, buf: &mut Vec<u8>, from: usize) -> (r: Result<(), Error>)
        requires from <= old(buf)@.len(),
        ensures final(self).data() == old(self).data(), final(buf)@.len() == old(buf)@.len(),
            final(buf)@.subrange(0, from as int) == old(buf)@.subrange(0, from as int),
            r is Ok <==> old(self).pos() + old(buf)@.len() - from <= old(self).data().len(),
            r is Ok ==> final(self).pos() == old(self).pos() + old(buf)@.len() - from
                && final(buf)@.subrange(from as int, final(buf)@.len() as int) == old(self).data().subrange(old(self).pos(), final(self).pos());
    fn read_exact8(&mut self, buf: &mut [u8; 8]) -> (r: Result<(), Error>)
        ensures final(self).data() == old(self).data(),
            r is Ok <==> old(self).pos() + 8 <= old(self).data().len(),
            r is Ok ==> final(self).pos() == old(self).pos() + 8 && final(buf)@ == old(self).data().subrange(old(self).pos(), final(self).pos());
    fn read_exact4(&mut self, buf: &mut [u8; 4]) -> (r: Result<(), Error>)
        ensures final(self).data() == old(self).data(),
            r is Ok <==> old(self).pos() + 4 <= old(self).data().len(),
            r is Ok ==> final(self).pos() == old(self).pos() + 4 && final(buf)@ == old(self).data().subrange(old(self).pos(), final(self).pos());
    /// io::copy(&mut (&mut self).take(n), &mut io::sink())
    fn skip(&mut self, n: u64) -> (r: Result<u64, Error>)
        ensures final(self).data() == old(self).data(), r is Ok,
            final(self).pos() == if old(self).pos() + n <= old(self).data().len() { old(self).pos() + n } else if old(self).pos() <= old(self).data().len() { old(self).data().len() as int } else { old(self).pos() };
}
pub enum SeekFrom { Start(u64), Current(i64) }
pub trait Seek: Read {
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, Error>)
        ensures final(self).data() == old(self).data(),
            match to {
                SeekFrom::Start(p) => r is Ok && final(self).pos() == p,
                SeekFrom::Current(d) => old(self).pos() + d >= 0 ==> r is Ok && final(self).pos() == old(self).pos() + d,
            };
    fn stream_position(&mut self) -> (r: Result<u64, Error>)
        ensures final(self).data() == old(self).data(), final(self).pos() == old(self).pos(), 0 <= old(self).pos() <= u64::MAX ==> r is Ok && r->Ok_0 == old(self).pos();
}
%%include featsec.vx
#[verifier::external_body]
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32)
    ensures r == le32(b@),
{ unimplemented!() }

pub struct Seekable;
pub struct NotSeekable;
pub type Offset = u64;
%%item packed_rtree/mod.rs pub struct SearchResultItem
%%pubitem reader/mod.rs pub struct FcbReader
%%pubitem reader/mod.rs pub struct FeatureIter
%%isub `packed_rtree::SearchResultItem` => `SearchResultItem`
%%pubitem reader/mod.rs pub(super) struct FeatureOffset
%%isub `pub(super)` => `pub`
#[derive(PartialEq, Eq, Structural)]
%%pubitem reader/mod.rs enum State

/// number of features the iterator still owes in total: j-th selected feature is the idx(j)-th of the file
pub open spec fn sel_offset<R, S>(it: FeatureIter<R, S>, base: int, d: Seq<u8>, j: int) -> int {
    if it.item_filter is Some { it.item_filter->0@[j].offset as int }
    else if it.item_attr_filter is Some { it.item_attr_filter->0@[j] as int }
    else { start(d, base, j) - base }
}
pub open spec fn sel_len<R, S>(it: FeatureIter<R, S>, n: int) -> int {
    if it.item_filter is Some { it.item_filter->0@.len() as int }
    else if it.item_attr_filter is Some { it.item_attr_filter->0@.len() as int }
    else { n }
}
pub open spec fn is_start(d: Seq<u8>, base: int, n: int, off: int, i: int) -> bool { 0 <= i < n && off == start(d, base, i) - base }
pub open spec fn owed(d: Seq<u8>, base: int, n: int, off: int) -> bool { exists|i: int| is_start(d, base, n, off, i) }
pub open spec fn idx(d: Seq<u8>, base: int, n: int, off: int) -> int { choose|i: int| is_start(d, base, n, off, i) }

/// the filters name starts of features in ascending order
#[verifier::opaque]
pub open spec fn filters_ok<R: Read, S>(it: FeatureIter<R, S>, base: int, n: int) -> bool {
    let d = it.reader.data();
    &&& features_ok(d, base, n)
    &&& !(it.item_filter is Some && it.item_attr_filter is Some)
    &&& forall|j: int| 0 <= j < sel_len(it, n) ==> owed(d, base, n, #[trigger] sel_offset(it, base, d, j))
    &&& forall|j: int, k: int| 0 <= j < k < sel_len(it, n) ==> #[trigger] sel_offset(it, base, d, j) < #[trigger] sel_offset(it, base, d, k)
    &&& it.item_attr_filter is Some ==> it.feature_offset.total() == base
    &&& sel_len(it, n) <= n
}
pub open spec fn count_ok<R: Read, S>(it: FeatureIter<R, S>, n: int) -> bool {
    if it.item_filter is Some { it.count == Some(it.item_filter->0@.len() as usize) }
    else { it.count is Some ==> it.count->0 == n }
}
pub open spec fn same_setup<R: Read, S>(a: FeatureIter<R, S>, b: FeatureIter<R, S>) -> bool {
    &&& a.reader.data() == b.reader.data() && a.item_filter == b.item_filter && a.item_attr_filter == b.item_attr_filter
    &&& a.count == b.count && a.feature_offset == b.feature_offset && a.verify == b.verify && a.total_feat_count == b.total_feat_count
    &&& a.buffer.header_buf == b.buffer.header_buf
}
/// between two calls of advance, with feat_no features delivered
#[verifier::opaque]
pub open spec fn ready<R: Read, S>(it: FeatureIter<R, S>, base: int, n: int) -> bool {
    let d = it.reader.data();
    &&& filters_ok(it, base, n) && count_ok(it, n)
    &&& it.state != State::Init
    &&& it.state != State::Finished ==> {
        &&& it.reader.pos() - it.cur_pos == base
        &&& 0 <= it.feat_no <= sel_len(it, n)
        &&& it.state == State::ReadFirstFeatureSize ==> it.feat_no == 0 && it.cur_pos == 4 && n > 0 && it.buffer.features_buf@ == d.subrange(base, base + 4)
        &&& it.state == State::Reading ==> {
            &&& it.feat_no > 0
            &&& exists|i: int| #[trigger] is_start(d, base, n, sel_offset(it, base, d, it.feat_no - 1), i) && it.reader.pos() == start(d, base, i + 1)
        }
    }
}
/// the size prefix, the place and the bytes of the feature that read_feature reads next
pub open spec fn rf_prefix<R: Read, S>(it: FeatureIter<R, S>) -> Seq<u8> {
    if it.state == State::ReadFirstFeatureSize { it.buffer.features_buf@ } else { it.reader.data().subrange(it.reader.pos(), it.reader.pos() + 4) }
}
pub open spec fn rf_size<R: Read, S>(it: FeatureIter<R, S>) -> int { le32(rf_prefix(it)) }
pub open spec fn rf_body<R: Read, S>(it: FeatureIter<R, S>) -> int { it.reader.pos() + if it.state == State::ReadFirstFeatureSize { 0int } else { 4 } }
pub open spec fn rf_bytes<R: Read, S>(it: FeatureIter<R, S>) -> Seq<u8> { rf_prefix(it) + it.reader.data().subrange(rf_body(it), rf_body(it) + rf_size(it)) }
impl FeatureOffset {
    pub open spec fn total(self) -> int { self.magic_bytes + self.header + self.rtree_index + self.attributes }
}
%%fn reader/mod.rs "impl FeatureOffset" total_size
%%ret r
%%spec
    requires self.total() < 0x1000_0000_0000_0000,
    ensures r == self.total(),
%%done

%%fn reader/mod.rs "impl<R: Read, S> FeatureIter<R, S>" advance_finished
%%ret r
%%spec
    ensures
        same_setup(*final(self), *old(self)), final(self).reader == old(self).reader,
        final(self).feat_no == old(self).feat_no, final(self).cur_pos == old(self).cur_pos, final(self).buffer == old(self).buffer,
        final(self).state == if r { State::Finished } else { old(self).state },
        r == (old(self).state == State::Finished || old(self).count is Some && old(self).feat_no >= old(self).count->0
            || old(self).item_attr_filter is Some && old(self).feat_no >= old(self).item_attr_filter->0.len()),
%%done

%%fn reader/mod.rs "impl<R: Read, S> FeatureIter<R, S>" read_feature_size
%%ret r
%%sub `.read_exact(&mut self.buffer.features_buf)` => `.read_exact_from(&mut self.buffer.features_buf, 0)`
%%spec
    requires old(self).cur_pos < 0x2000_0000_0000_0000,
    ensures
        same_setup(*final(self), *old(self)),
        final(self).feat_no == old(self).feat_no, final(self).state == old(self).state, final(self).cur_pos == old(self).cur_pos + 4,
        r == (old(self).reader.pos() + 4 > old(self).reader.data().len()),
        !r ==> final(self).reader.pos() == old(self).reader.pos() + 4 && final(self).buffer.features_buf@ == old(self).reader.data().subrange(old(self).reader.pos(), old(self).reader.pos() + 4),
%%end
    proof { }
%%done

%%fn reader/mod.rs "impl<R: Read, S> FeatureIter<R, S>" read_feature
%%ret r
%%sub `self.reader.read_exact(&mut self.buffer.features_buf[4..])?` => `self.reader.read_exact_from(&mut self.buffer.features_buf, 4)?`
%%sub `u32::from_le_bytes(` => `u32_from_le_bytes(`
%%pre `let sbuf = &self.buffer.features_buf`
    let ghost sz4 = self.buffer.features_buf@; let ghost at = self.reader.pos();
    proof { assert(self.buffer.features_buf@.subrange(0, 4) == sz4); }
%%pre `self.reader.read_exact_from(&mut self.buffer.features_buf, 4)`
    proof { assert(self.buffer.features_buf@.subrange(0, 4) == sz4); assert(seq![sz4[0], sz4[1], sz4[2], sz4[3]] == sz4); }
%%pre `if self.verify`
    proof { let fb = self.buffer.features_buf@; assert(fb == fb.subrange(0, 4) + fb.subrange(4, fb.len() as int)); }
%%spec
    requires
        old(self).state == State::Reading || old(self).state == State::ReadFirstFeatureSize,
        old(self).cur_pos < 0x1000_0000_0000_0000, old(self).feat_no < usize::MAX,
        old(self).state == State::ReadFirstFeatureSize ==> old(self).buffer.features_buf@.len() == 4,
        0 <= old(self).reader.pos(), old(self).reader.data().len() < 0x1000_0000_0000_0000,
    ensures
        same_setup(*final(self), *old(self)),
        ({
            let d = old(self).reader.data();
            let sz = rf_size(*old(self)); let body = rf_body(*old(self)); let whole = rf_bytes(*old(self));
            &&& body > d.len() && old(self).state == State::Reading ==> r is Ok && final(self).state == State::Finished && final(self).feat_no == old(self).feat_no
            &&& body <= d.len() && body + sz <= d.len() && feature_valid(whole) ==> {
                &&& r is Ok && final(self).state == State::Reading && final(self).feat_no == old(self).feat_no + 1
                &&& final(self).buffer.features_buf@ == whole
                &&& final(self).reader.pos() == body + sz
                &&& final(self).cur_pos - old(self).cur_pos == final(self).reader.pos() - old(self).reader.pos()
            }
        }),
%%done

pub open spec fn base_of<R: Read, S>(it: FeatureIter<R, S>) -> int { it.reader.pos() - it.cur_pos }
pub open spec fn nfeat_of(d: Seq<u8>, base: int) -> int { choose|n: int| features_ok(d, base, n) }
pub open spec fn nfeat<R: Read, S>(it: FeatureIter<R, S>) -> int { nfeat_of(it.reader.data(), base_of(it)) }

/// where the next selected feature lies, seen from the current position
pub proof fn lemma_next<R: Read, S>(it: FeatureIter<R, S>, base: int, n: int)
    requires ready(it, base, n), it.state != State::Finished,
    ensures
        it.state == State::Reading ==> base + it.cur_pos <= it.reader.data().len(),
        it.feat_no < sel_len(it, n) ==> ({
            let d = it.reader.data(); let off = sel_offset(it, base, d, it.feat_no as int); let i = idx(d, base, n, off);
            &&& is_start(d, base, n, off, i)
            &&& features_ok(d, base, n) && base >= 0 && 0 <= off && base + off < d.len() && d.len() < 0x1000_0000_0000_0000
            &&& it.state == State::ReadFirstFeatureSize ==> it.buffer.features_buf@ == d.subrange(base, base + 4) && it.cur_pos == 4 && it.feat_no == 0
            &&& it.item_attr_filter is Some ==> it.feature_offset.total() == base
            &&& it.item_filter is Some ==> it.item_filter->0@[it.feat_no as int].offset == off
            &&& it.item_attr_filter is Some ==> it.item_attr_filter->0@[it.feat_no as int] == off && it.item_filter is None
                        &&& it.state == State::ReadFirstFeatureSize && off <= it.cur_pos ==> i == 0
            &&& it.state == State::ReadFirstFeatureSize && off > it.cur_pos ==> i > 0
            &&& it.state == State::Reading ==> off >= it.cur_pos
            &&& (it.item_filter is None && it.item_attr_filter is None) ==> i == it.feat_no && (it.state == State::Reading ==> off == it.cur_pos)
        }),
{
    reveal(features_ok); reveal(filters_ok); reveal(ready);
    let d = it.reader.data();
    lemma_start_ge(d, base, n, n);
    if it.state == State::Reading {
        let last = sel_offset(it, base, d, it.feat_no - 1);
        let i0 = choose|i: int| #[trigger] is_start(d, base, n, last, i) && it.reader.pos() == start(d, base, i + 1);
        assert(start(d, base, i0 + 1) <= d.len());
        if it.feat_no < sel_len(it, n) {
            let off = sel_offset(it, base, d, it.feat_no as int);
            assert(last < off);
            assert(owed(d, base, n, off));
            let i = idx(d, base, n, off);
            assert(is_start(d, base, n, off, i));
            lemma_start_lt(d, base, n, i0, i);
            if i0 + 1 < i { lemma_start_mono(d, base, n, i0 + 1, i); }
            if it.item_filter is None && it.item_attr_filter is None {
                assert(off == start(d, base, it.feat_no as int) - base);
                assert(last == start(d, base, it.feat_no - 1) - base);
                lemma_inj(d, base, n, i, it.feat_no as int);
                lemma_inj(d, base, n, i0, it.feat_no - 1);
            }
        }
    } else if it.feat_no < sel_len(it, n) {
        assert(it.feat_no == 0);
        let off = sel_offset(it, base, d, 0);
        assert(owed(d, base, n, off));
        let i = idx(d, base, n, off);
        assert(is_start(d, base, n, off, i));
        assert(start(d, base, 0) == base);
        if i > 0 { lemma_start_mono(d, base, n, 0, i); }
        if it.item_filter is None && it.item_attr_filter is None { lemma_inj(d, base, n, i, 0); }
    }
}
/// positioned on feature i, read_feature reads exactly it
pub proof fn lemma_read<R: Read, S>(it: FeatureIter<R, S>, base: int, n: int, i: int)
    requires features_ok(it.reader.data(), base, n), 0 <= i < n,
        it.state == State::Reading ==> it.reader.pos() == start(it.reader.data(), base, i),
        it.state == State::ReadFirstFeatureSize ==> i == 0 && it.reader.pos() == base + 4 && it.buffer.features_buf@ == it.reader.data().subrange(base, base + 4),
        it.state == State::Reading || it.state == State::ReadFirstFeatureSize,
    ensures ({ let d = it.reader.data();
        &&& rf_body(it) <= d.len() && rf_body(it) + rf_size(it) == start(d, base, i + 1) && start(d, base, i + 1) <= d.len()
        &&& rf_bytes(it) == feat(d, base, i) && feature_valid(rf_bytes(it)) }),
{
    reveal(features_ok);
    let d = it.reader.data(); let p = start(d, base, i);
    assert(start(d, base, i) + 4 < start(d, base, i + 1));
    assert(d.subrange(p, p + 4) + d.subrange(p + 4, start(d, base, i + 1)) == feat(d, base, i));
}
/// nothing is owed any more
pub proof fn lemma_finish<R: Read, S>(it: FeatureIter<R, S>, base: int, n: int)
    requires ready(it, base, n), it.state != State::Finished,
    ensures
        0 <= it.feat_no <= sel_len(it, n) <= n <= it.reader.data().len(), it.reader.pos() - it.cur_pos == base, base >= 0,
        it.reader.data().len() < 0x1000_0000_0000_0000, it.reader.pos() <= it.reader.data().len() , it.cur_pos < 0x1000_0000_0000_0000,
        count_ok(it, n), !(it.item_filter is Some && it.item_attr_filter is Some),
        it.feat_no >= sel_len(it, n) ==> it.item_filter is Some && it.count is Some && it.feat_no >= it.count->0
            || it.item_attr_filter is Some && it.feat_no >= it.item_attr_filter->0.len()
            || it.item_filter is None && it.item_attr_filter is None && it.state == State::Reading && it.reader.pos() == it.reader.data().len(),
{
    reveal(features_ok); reveal(filters_ok); reveal(ready);
    let d = it.reader.data();
    lemma_start_ge(d, base, n, n);
    if it.state == State::Reading {
        let last = sel_offset(it, base, d, it.feat_no - 1);
        let i0 = choose|i: int| #[trigger] is_start(d, base, n, last, i) && it.reader.pos() == start(d, base, i + 1);
        assert(start(d, base, i0) + 4 < start(d, base, i0 + 1));
        if it.item_filter is None && it.item_attr_filter is None { lemma_inj(d, base, n, i0, it.feat_no - 1); }
    } else {
        assert(start(d, base, 0) + 4 < start(d, base, 1));
    }
}
pub proof fn lemma_ready<R: Read, S>(a: FeatureIter<R, S>, b: FeatureIter<R, S>, base: int, n: int, i: int)
    requires ready(a, base, n), same_setup(a, b), b.state == State::Reading, b.feat_no == a.feat_no + 1, b.feat_no <= sel_len(a, n), a.state != State::Finished,
        b.reader.pos() - b.cur_pos == base, is_start(a.reader.data(), base, n, sel_offset(a, base, a.reader.data(), a.feat_no as int), i),
        b.reader.pos() == start(a.reader.data(), base, i + 1),
    ensures ready(b, base, n),
{
    reveal(ready);
    lemma_same(a, b, base, n, a.feat_no as int);
    assert(is_start(b.reader.data(), base, n, sel_offset(b, base, b.reader.data(), b.feat_no - 1), i));
    assert(filters_ok(b, base, n)); assert(count_ok(b, n)); assert(sel_len(a, n) == sel_len(b, n));
}
pub proof fn lemma_ready_finished<R: Read, S>(a: FeatureIter<R, S>, b: FeatureIter<R, S>, base: int, n: int)
    requires ready(a, base, n), same_setup(a, b), b.state == State::Finished,
    ensures ready(b, base, n),
{
    reveal(ready);
    lemma_same(a, b, base, n, 0);
}
pub proof fn lemma_inj(d: Seq<u8>, base: int, n: int, i: int, j: int)
    requires features_ok(d, base, n), 0 <= i <= n, 0 <= j <= n, start(d, base, i) == start(d, base, j),
    ensures i == j,
{
    if i < j { lemma_start_mono(d, base, n, i, j); }
    if j < i { lemma_start_mono(d, base, n, j, i); }
}
pub proof fn lemma_same<R: Read, S>(a: FeatureIter<R, S>, b: FeatureIter<R, S>, base: int, n: int, k: int)
    requires same_setup(a, b),
    ensures sel_len(a, n) == sel_len(b, n), sel_offset(a, base, a.reader.data(), k) == sel_offset(b, base, b.reader.data(), k),
        filters_ok(a, base, n) == filters_ok(b, base, n), count_ok(a, n) == count_ok(b, n),
{
    reveal(filters_ok);
    assert forall|j: int| #[trigger] sel_offset(a, base, a.reader.data(), j) == sel_offset(b, base, b.reader.data(), j) by {}
    assert forall|j: int| #[trigger] sel_offset(b, base, a.reader.data(), j) == sel_offset(a, base, b.reader.data(), j) by {}
}
%%fn reader/mod.rs "impl<R: Read> FallibleStreamingIterator for FeatureIter<R, NotSeekable>" advance
%%impl impl<R: Read> FeatureIter<R, NotSeekable>
%%sub `io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?` => `self.reader.skip(seek_bytes)?`
%%ret r
%%spec
    requires
        old(self).state != State::Init,
        old(self).state != State::Finished ==> ready(*old(self), base_of(*old(self)), nfeat(*old(self))),
    ensures
        same_setup(*final(self), *old(self)), r is Ok,
        old(self).state == State::Finished ==> final(self).state == State::Finished,
        old(self).state != State::Finished ==> ({
            let d = old(self).reader.data(); let base = base_of(*old(self)); let n = nfeat(*old(self)); let k = old(self).feat_no as int;
            &&& ready(*final(self), base, n)
            &&& k >= sel_len(*old(self), n) ==> final(self).state == State::Finished
            &&& k < sel_len(*old(self), n) ==> {
                &&& final(self).state == State::Reading && final(self).feat_no == k + 1
                &&& final(self).buffer.features_buf@ == feat(d, base, idx(d, base, n, sel_offset(*old(self), base, d, k)))
            }
        }),
%%sub `self.read_feature()` => `let res = self.read_feature(); res`
%%start
    let ghost d = self.reader.data(); let ghost base = base_of(*self); let ghost n = nfeat(*self); let ghost k = self.feat_no as int;
    let ghost i = idx(d, base, n, sel_offset(*self, base, d, k));
    proof {
        if self.state != State::Finished { lemma_next(*self, base, n); lemma_finish(*self, base, n); }
    }
%%pre `return Ok(())`
    proof { if old(self).state != State::Finished { lemma_ready_finished(*old(self), *self, base, n); } }
%%pre `let res =`
    let ghost mid = *self;
    proof {
        assert(same_setup(*old(self), mid));
        lemma_same(*old(self), mid, base, n, k);
        assert(self.feat_no == k && k < sel_len(*old(self), n) || old(self).item_filter is None && old(self).item_attr_filter is None);
        assert(self.cur_pos + base == self.reader.pos());
        if k < sel_len(*old(self), n) { lemma_read(*self, base, n, i); }
    }
%%pre `res` 1
    proof {
        if k < sel_len(*old(self), n) {
            assert(self.state == State::Reading);
            assert(self.buffer.features_buf@ == feat(d, base, i));
            assert(self.feat_no == k + 1);
            assert(self.reader.pos() == start(d, base, i + 1));
            lemma_ready(*old(self), *self, base, n, i);
        } else {
            assert(self.state == State::Finished);
            lemma_ready_finished(*old(self), *self, base, n);
        }
    }
%%done

%%fn reader/mod.rs "impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable>" advance
%%impl impl<R: Read + Seek> FeatureIter<R, Seekable>
%%ret r
%%spec
    requires
        old(self).state != State::Init,
        old(self).state != State::Finished ==> ready(*old(self), base_of(*old(self)), nfeat(*old(self))),
    ensures
        same_setup(*final(self), *old(self)), r is Ok,
        old(self).state == State::Finished ==> final(self).state == State::Finished,
        old(self).state != State::Finished ==> ({
            let d = old(self).reader.data(); let base = base_of(*old(self)); let n = nfeat(*old(self)); let k = old(self).feat_no as int;
            &&& ready(*final(self), base, n)
            &&& k >= sel_len(*old(self), n) ==> final(self).state == State::Finished
            &&& k < sel_len(*old(self), n) ==> {
                &&& final(self).state == State::Reading && final(self).feat_no == k + 1
                &&& final(self).buffer.features_buf@ == feat(d, base, idx(d, base, n, sel_offset(*old(self), base, d, k)))
            }
        }),
%%sub `self.read_feature()` => `let res = self.read_feature(); res`
%%start
    let ghost d = self.reader.data(); let ghost base = base_of(*self); let ghost n = nfeat(*self); let ghost k = self.feat_no as int;
    let ghost i = idx(d, base, n, sel_offset(*self, base, d, k));
    proof {
        if self.state != State::Finished { lemma_next(*self, base, n); lemma_finish(*self, base, n); }
    }
%%pre `return Ok(())`
    proof { if old(self).state != State::Finished { lemma_ready_finished(*old(self), *self, base, n); } }
%%pre `let res =`
    let ghost mid = *self;
    proof {
        assert(same_setup(*old(self), mid));
        lemma_same(*old(self), mid, base, n, k);
        assert(self.feat_no == k && k < sel_len(*old(self), n) || old(self).item_filter is None && old(self).item_attr_filter is None);
        assert(self.cur_pos + base == self.reader.pos());
        if k < sel_len(*old(self), n) { lemma_read(*self, base, n, i); }
    }
%%pre `res` 1
    proof {
        if k < sel_len(*old(self), n) {
            assert(self.state == State::Reading);
            assert(self.buffer.features_buf@ == feat(d, base, i));
            assert(self.feat_no == k + 1);
            assert(self.reader.pos() == start(d, base, i + 1));
            lemma_ready(*old(self), *self, base, n, i);
        } else {
            assert(self.state == State::Finished);
            lemma_ready_finished(*old(self), *self, base, n);
        }
    }
%%done

// ---- opening a file ----------------------------------------------------------------------------
%%fn reader/mod.rs "impl<R: Read> FcbReader<R>" attr_index_size
%%loops 1
%%sub `header .attribute_index() .map(|attr_index| {` => `let _m: u32 = match header.attribute_index() { Some(attr_index) => {`
%%sub `attr_index .iter() .try_fold(0u32, |acc, ai| {` => `let mut acc: u32 = 0u32; let mut _bad = false; let mut _i: usize = 0; while _i < attr_index.len() && !_bad { let ai = attr_index.get(_i); let _o: Result<u32, Error> = {`
%%sub `Error::AttributeIndexSizeOverflow` => `Error::Other`
%%sub `}) .unwrap_or(0) }) .unwrap_or(0) as u64` => `}; match _o { Ok(x) => { acc = x; } Err(_) => { _bad = true; } } _i += 1; } let _r: u32 = if _bad { 0 } else { acc }; _r }, None => 0 }; _m as u64`
%%ret r
%%spec
    requires hdr_attr_size(self.buffer.header_buf@) <= u32::MAX,
    ensures r == hdr_attr_size(self.buffer.header_buf@),
%%loop 0
    invariant 0 <= _i <= attr_index@.len(), hdr_attrs(self.buffer.header_buf@) == Some(attr_index@), lens(attr_index@, attr_index@.len() as int) <= u32::MAX, !_bad, acc == lens(attr_index@, _i as int),
    decreases attr_index@.len() - _i
%%loopstart 0
    proof { lemma_lens(attr_index@, _i as int + 1, attr_index@.len() as int); lemma_lens(attr_index@, _i as int, _i + 1); }
%%done
%%fn reader/mod.rs "impl<R: Read> FcbReader<R>" rtree_index_size
%%ret r
%%spec
    ensures r == rtree_len(self.buffer.header_buf@),
%%done

%%fn reader/mod.rs "impl<R: Read, S> FeatureIter<R, S>" new
%%attr #[verifier::rlimit(60)]
%%ret r
%%sig `packed_rtree::SearchResultItem` => `SearchResultItem`
%%spec
    requires
        0 <= reader.pos(),
        features_ok(reader.data(), reader.pos(), hdr_count(buffer.header_buf@) as int),
        selection_ok(item_filter, item_attr_filter, feature_offset, reader.data(), reader.pos(), hdr_count(buffer.header_buf@) as int),
    ensures
        r.reader.data() == reader.data(), r.verify == verify, r.item_filter == item_filter, r.item_attr_filter == item_attr_filter,
        r.total_feat_count == total_feat_count, r.buffer.header_buf == buffer.header_buf, r.feat_no == 0,
        ready(r, reader.pos(), hdr_count(buffer.header_buf@) as int),
        hdr_count(buffer.header_buf@) > 0 ==> r.state != State::Finished && base_of(r) == reader.pos(),
        hdr_count(buffer.header_buf@) == 0 ==> r.state == State::Finished,
%%start
    let ghost base = reader.pos(); let ghost n = hdr_count(buffer.header_buf@) as int;
    proof { reveal(features_ok); lemma_start_ge(reader.data(), base, n, n); if n > 0 { assert(start(reader.data(), base, 0) + 4 < start(reader.data(), base, 1)); } }
%%end
    proof { reveal(ready); reveal(filters_ok);
        assert forall|j: int| #[trigger] sel_offset(iter, base, iter.reader.data(), j) == sel_off2(item_filter, item_attr_filter, reader.data(), base, j) by {}
        lemma_sel2(iter, reader.data(), base, n);
    }
%%done
pub open spec fn sel_off2(f: Option<Vec<SearchResultItem>>, a: Option<Vec<Offset>>, d: Seq<u8>, base: int, j: int) -> int {
    if f is Some { f->0@[j].offset as int } else if a is Some { a->0@[j] as int } else { start(d, base, j) - base }
}
pub open spec fn sel_len2(f: Option<Vec<SearchResultItem>>, a: Option<Vec<Offset>>, n: int) -> int {
    if f is Some { f->0@.len() as int } else if a is Some { a->0@.len() as int } else { n }
}
/// what a caller of FeatureIter::new hands over: offsets of features in ascending order
pub open spec fn selection_ok(f: Option<Vec<SearchResultItem>>, a: Option<Vec<Offset>>, fo: FeatureOffset, d: Seq<u8>, base: int, n: int) -> bool {
    &&& !(f is Some && a is Some)
    &&& f is Some || a is Some ==> forall|j: int| 0 <= j < sel_len2(f, a, n) ==> owed(d, base, n, #[trigger] sel_off2(f, a, d, base, j))
    &&& f is Some || a is Some ==> forall|j: int, k: int| 0 <= j < k < sel_len2(f, a, n) ==> #[trigger] sel_off2(f, a, d, base, j) < #[trigger] sel_off2(f, a, d, base, k)
    &&& a is Some ==> fo.total() == base
    &&& sel_len2(f, a, n) <= n
}
pub proof fn lemma_sel2<R: Read, S>(it: FeatureIter<R, S>, d: Seq<u8>, base: int, n: int)
    requires it.reader.data() == d, features_ok(d, base, n), selection_ok(it.item_filter, it.item_attr_filter, it.feature_offset, d, base, n),
    ensures filters_ok(it, base, n),
{
    reveal(filters_ok);
    assert(sel_len(it, n) == sel_len2(it.item_filter, it.item_attr_filter, n));
    assert forall|j: int| #[trigger] sel_offset(it, base, d, j) == sel_off2(it.item_filter, it.item_attr_filter, d, base, j) by {}
    if it.item_filter is None && it.item_attr_filter is None {
        assert forall|j: int| 0 <= j < n implies owed(d, base, n, #[trigger] sel_offset(it, base, d, j)) by { assert(is_start(d, base, n, sel_offset(it, base, d, j), j)); }
        assert forall|j: int, k: int| 0 <= j < k < n implies #[trigger] sel_offset(it, base, d, j) < #[trigger] sel_offset(it, base, d, k) by { lemma_start_mono(d, base, n, j, k); }
    } else {
        assert forall|j: int| 0 <= j < sel_len(it, n) implies owed(d, base, n, #[trigger] sel_offset(it, base, d, j)) by { assert(owed(d, base, n, sel_off2(it.item_filter, it.item_attr_filter, d, base, j))); }
        assert forall|j: int, k: int| 0 <= j < k < sel_len(it, n) implies #[trigger] sel_offset(it, base, d, j) < #[trigger] sel_offset(it, base, d, k) by {
            assert(sel_off2(it.item_filter, it.item_attr_filter, d, base, j) < sel_off2(it.item_filter, it.item_attr_filter, d, base, k));
        }
    }
}

%%fn reader/mod.rs "impl<R: Read> FcbReader<R>" select_all_seq
%%ret r
%%mutparam self
%%sub `io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?` => `self.reader.skip(index_size)?`
%%spec
    requires
        file_ok(self.reader.data(), self.buffer.header_buf@), self.reader.pos() == 8 + self.buffer.header_buf@.len(),
    ensures
        r is Ok, all_selected(r->Ok_0, self.reader.data(), self.buffer.header_buf@),
%%start
    proof { lemma_file(self.reader.data(), self.buffer.header_buf@); }
%%done
%%fn reader/mod.rs "impl<R: Read + Seek> FcbReader<R>" select_all
%%ret r
%%mutparam self
%%spec
    requires
        file_ok(self.reader.data(), self.buffer.header_buf@), self.reader.pos() == 8 + self.buffer.header_buf@.len(),
    ensures
        r is Ok, all_selected(r->Ok_0, self.reader.data(), self.buffer.header_buf@),
%%start
    proof { lemma_file(self.reader.data(), self.buffer.header_buf@); }
%%done
pub open spec fn all_selected<R: Read, S>(it: FeatureIter<R, S>, d: Seq<u8>, h: Seq<u8>) -> bool {
    &&& it.reader.data() == d && it.buffer.header_buf@ == h && it.item_filter is None && it.item_attr_filter is None && it.feat_no == 0
    &&& ready(it, feat_base(h), hdr_count(h) as int)
    &&& it.total_feat_count == hdr_count(h)
    &&& hdr_count(h) > 0 ==> it.state != State::Finished && base_of(it) == feat_base(h)
    &&& hdr_count(h) == 0 ==> it.state == State::Finished
}
// ---- spatial query -----------------------------------------------------------------------------
/// list holds exactly the matching leaves in order (the contract of the traversals)
pub open spec fn found(list: Seq<SearchResultItem>, d: Seq<u8>, at: int, n: int, ns: int, q: Query) -> bool {
    &&& forall|j: int| 0 <= j < list.len() ==> 0 <= (#[trigger] list[j]).index < n && list[j].offset == leaf_offset(d, at, n, ns, list[j].index as int) && leaf_matches(d, at, n, ns, list[j].index as int, q)
    &&& forall|j: int, k: int| 0 <= j < k < list.len() ==> (#[trigger] list[j]).index < (#[trigger] list[k]).index
    &&& forall|i: int| 0 <= i < n && #[trigger] leaf_matches(d, at, n, ns, i, q) ==> exists|j: int| 0 <= j < list.len() && (#[trigger] list[j]).index == i
    &&& list.len() <= n
}
impl PackedRTree {
    #[verifier::external_body]
    pub fn stream_search<R: Read + Seek>(data: &mut R, num_items: usize, node_size: u16, query: Query) -> (r: Result<Vec<SearchResultItem>, Error>)
        ensures final(data).data() == old(data).data(), r is Ok,
            final(data).pos() == old(data).pos() + rtree_size(num_items as int, node_size as int),
            found(r->Ok_0@, old(data).data(), old(data).pos(), num_items as int, node_size as int, query),
    { unimplemented!() }
    pub uninterp spec fn holds(self, d: Seq<u8>, at: int, n: int, ns: int) -> bool;
    #[verifier::external_body]
    pub fn from_buf<R: Read>(data: &mut R, num_items: usize, node_size: u16) -> (r: Result<PackedRTree, Error>)
        ensures final(data).data() == old(data).data(), r is Ok,
            final(data).pos() == old(data).pos() + rtree_size(num_items as int, node_size as int),
            r->Ok_0.holds(old(data).data(), old(data).pos(), num_items as int, node_size as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn search(&self, query: Query) -> (r: Result<Vec<SearchResultItem>, Error>)
        ensures r is Ok, forall|d: Seq<u8>, at: int, n: int, ns: int| self.holds(d, at, n, ns) ==> #[trigger] found(r->Ok_0@, d, at, n, ns, query),
    { unimplemented!() }
}
pub open spec fn query_selected<R: Read, S>(it: FeatureIter<R, S>, d: Seq<u8>, h: Seq<u8>, q: Query) -> bool {
    let n = hdr_count(h) as int; let ns = hdr_node_size(h) as int; let at = 8 + h.len() as int;
    &&& it.reader.data() == d && it.buffer.header_buf@ == h && it.item_filter is Some && it.item_attr_filter is None && it.feat_no == 0
    &&& found(it.item_filter->0@, d, at, n, ns, q)
    &&& it.total_feat_count == it.item_filter->0@.len()
    &&& ready(it, feat_base(h), n) && it.state != State::Finished && base_of(it) == feat_base(h)
}
pub proof fn lemma_found(list: Seq<SearchResultItem>, d: Seq<u8>, h: Seq<u8>, q: Query)
    requires file_ok(d, h), index_ok(d, h), found(list, d, 8 + h.len() as int, hdr_count(h) as int, hdr_node_size(h) as int, q),
    ensures
        forall|j: int| 0 <= j < list.len() ==> owed(d, feat_base(h), hdr_count(h) as int, (#[trigger] list[j]).offset as int),
        forall|j: int, k: int| 0 <= j < k < list.len() ==> (#[trigger] list[j]).offset < (#[trigger] list[k]).offset,
{
    let n = hdr_count(h) as int; let ns = hdr_node_size(h) as int; let at = 8 + h.len() as int; let base = feat_base(h);
    assert forall|j: int| 0 <= j < list.len() implies owed(d, base, n, (#[trigger] list[j]).offset as int) by {
        assert(is_start(d, base, n, list[j].offset as int, list[j].index as int));
    }
    assert forall|j: int, k: int| 0 <= j < k < list.len() implies (#[trigger] list[j]).offset < (#[trigger] list[k]).offset by {
        lemma_start_mono(d, base, n, list[j].index as int, list[k].index as int);
    }
}
pub proof fn lemma_sel_found(f: Option<Vec<SearchResultItem>>, fo: FeatureOffset, d: Seq<u8>, h: Seq<u8>, q: Query)
    requires f is Some, file_ok(d, h), index_ok(d, h), found(f->0@, d, 8 + h.len() as int, hdr_count(h) as int, hdr_node_size(h) as int, q),
    ensures selection_ok(f, None, fo, d, feat_base(h), hdr_count(h) as int),
{
    lemma_found(f->0@, d, h, q);
    let base = feat_base(h);
    assert forall|j: int| #[trigger] sel_off2(f, None, d, base, j) == f->0@[j].offset by {}
    assert forall|j: int, k: int| 0 <= j < k < f->0@.len() implies #[trigger] sel_off2(f, None, d, base, j) < #[trigger] sel_off2(f, None, d, base, k) by {
        assert(f->0@[j].offset < f->0@[k].offset);
    }
}
/// the j-th feature a spatial query yields is the j-th matching one
pub proof fn lemma_query_yields<R: Read, S>(it: FeatureIter<R, S>, d: Seq<u8>, h: Seq<u8>, q: Query, j: int)
    requires file_ok(d, h), index_ok(d, h), query_selected(it, d, h, q), 0 <= j < it.item_filter->0@.len(),
    ensures idx(d, feat_base(h), hdr_count(h) as int, sel_offset(it, feat_base(h), d, j)) == it.item_filter->0@[j].index,
{
    let n = hdr_count(h) as int; let base = feat_base(h); let x = it.item_filter->0@[j];
    assert(is_start(d, base, n, x.offset as int, x.index as int));
    let i = idx(d, base, n, x.offset as int);
    assert(is_start(d, base, n, x.offset as int, i));
    lemma_inj(d, base, n, i, x.index as int);
}
%%fn reader/mod.rs "impl<R: Read + Seek> FcbReader<R>" select_query
%%ret r
%%mutparam self
%%dropmacro debug_assert
%%spec
    requires
        file_ok(self.reader.data(), self.buffer.header_buf@), self.reader.pos() == 8 + self.buffer.header_buf@.len(),
        index_ok(self.reader.data(), self.buffer.header_buf@),
    ensures
        r is Ok <==> hdr_node_size(self.buffer.header_buf@) > 0 && hdr_count(self.buffer.header_buf@) > 0,
        r is Ok ==> query_selected(r->Ok_0, self.reader.data(), self.buffer.header_buf@, query),
%%start
    let ghost d = self.reader.data(); let ghost h = self.buffer.header_buf@;
    proof { lemma_file(d, h); }
%%pre `let total_feat_count`
    proof { lemma_found(list@, d, h, query); lemma_sel_found(Some(list), feature_offset, d, h, query); }
%%done
%%fn reader/mod.rs "impl<R: Read> FcbReader<R>" select_query_seq
%%ret r
%%mutparam self
%%dropmacro debug_assert
%%sub `io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?` => `self.reader.skip(index_size)?`
%%spec
    requires
        file_ok(self.reader.data(), self.buffer.header_buf@), self.reader.pos() == 8 + self.buffer.header_buf@.len(),
        index_ok(self.reader.data(), self.buffer.header_buf@),
    ensures
        r is Ok <==> hdr_node_size(self.buffer.header_buf@) > 0 && hdr_count(self.buffer.header_buf@) > 0,
        r is Ok ==> query_selected(r->Ok_0, self.reader.data(), self.buffer.header_buf@, query),
%%start
    let ghost d = self.reader.data(); let ghost h = self.buffer.header_buf@;
    proof { lemma_file(d, h); }
%%pre `let total_feat_count`
    proof { lemma_found(list@, d, h, query); lemma_sel_found(Some(list), feature_offset, d, h, query); }
%%done

// ---- magic bytes, version, header --------------------------------------------------------------
pub uninterp spec fn vcap(v: Vec<u8>) -> int;
#[verifier::external_body]
pub fn vec_with_capacity(n: usize) -> (r: Vec<u8>) ensures r@.len() == 0, vcap(r) == n { unimplemented!() }
#[verifier::external_body]
pub fn vec_extend4(v: &mut Vec<u8>, b: &[u8; 4]) ensures final(v)@ == old(v)@ + b@, old(v)@.len() + 4 <= vcap(*old(v)) ==> vcap(*final(v)) == vcap(*old(v)) { unimplemented!() }
#[verifier::external_body]
pub fn vec_capacity(v: &Vec<u8>) -> (r: usize) ensures r == vcap(*v) { unimplemented!() }
#[verifier::external_body]
pub fn in_range(lo: usize, hi: usize, x: usize) -> (r: bool) ensures r == (lo <= x <= hi) { unimplemented!() }

/// what opening a stream must find
pub open spec fn opens(d: Seq<u8>, p: int, verify: bool) -> bool {
    &&& p + 12 <= d.len() && magic_ok(d.subrange(p, p + 8))
    &&& 8 <= le32(d.subrange(p + 8, p + 12)) <= HEADER_MAX_BUFFER_SIZE
    &&& p + 12 + le32(d.subrange(p + 8, p + 12)) <= d.len()
    &&& verify ==> header_valid(d.subrange(p + 8, p + 12 + le32(d.subrange(p + 8, p + 12))))
}
pub open spec fn opened<R: Read>(r: Result<FcbReader<R>, Error>, d: Seq<u8>, p: int, verify: bool) -> bool {
    &&& r is Ok <==> opens(d, p, verify)
    &&& r is Ok ==> r->Ok_0.reader.data() == d && r->Ok_0.buffer.header_buf@ == d.subrange(p + 8, p + 12 + le32(d.subrange(p + 8, p + 12)))
        && r->Ok_0.reader.pos() == p + 8 + r->Ok_0.buffer.header_buf@.len() && r->Ok_0.verify == verify
    &&& p + 8 <= d.len() && !magic_ok(d.subrange(p, p + 8)) ==> r == Result::<FcbReader<R>, Error>::Err(Error::MissingMagicBytes)
}
%%fn reader/mod.rs "impl<R: Read> FcbReader<R>" read_header
%%ret r
%%mutparam reader
%%sub `read_exact(&mut magic_buf)` => `read_exact8(&mut magic_buf)`
%%sub `read_exact(&mut size_buf)` => `read_exact4(&mut size_buf)`
%%sub `read_exact(&mut header_buf[4..])` => `read_exact_from(&mut header_buf, 4)`
%%sub `u32::from_le_bytes(` => `u32_from_le_bytes(`
%%sub `(8..=HEADER_MAX_BUFFER_SIZE).contains(&header_size)` => `in_range(8, HEADER_MAX_BUFFER_SIZE, header_size)`
%%sub `Vec::with_capacity(` => `vec_with_capacity(`
%%sub `header_buf.extend_from_slice(&size_buf)` => `vec_extend4(&mut header_buf, &size_buf)`
%%sub `header_buf.resize(header_buf.capacity(), 0)` => `let cap_ = vec_capacity(&header_buf); header_buf.resize(cap_, 0)`
%%spec
    requires 0 <= reader.pos(), reader.data().len() < 0x1000_0000_0000_0000,
    ensures opened(r, reader.data(), reader.pos(), verify),
%%start
    let ghost d = reader.data(); let ghost p = reader.pos();
%%pre `reader.read_exact_from(&mut header_buf, 4)`
    proof { assert(header_buf@.subrange(0, 4) == size_buf@); }
%%pre `if verify`
    proof {
        let e = p + 12 + le32(d.subrange(p + 8, p + 12));
        assert(header_buf@ == header_buf@.subrange(0, 4) + header_buf@.subrange(4, header_buf@.len() as int));
        assert(d.subrange(p + 8, p + 12) + d.subrange(p + 12, e) == d.subrange(p + 8, e));
    }
%%done
%%fn reader/mod.rs "impl<R: Read> FcbReader<R>" open
%%ret r
%%spec
    requires 0 <= reader.pos(), reader.data().len() < 0x1000_0000_0000_0000,
    ensures opened(r, reader.data(), reader.pos(), true),
%%done
