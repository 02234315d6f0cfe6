//! seeded generation, case bookkeeping, an in-memory range server
use async_trait::async_trait;
use bytes::Bytes;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, salt: &str, i: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64;
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ h ^ i.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub struct Ctx {
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    pub tags: BTreeMap<String, u64>,
    pub trace: String,
}
impl Ctx {
    /// one comparison of the real code with the oracle; `nontrivial` cases are counted by content
    pub fn eval<T: Hash>(&mut self, case: &T, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut t = s();
            t.truncate(400);
            self.samples.push(t);
        }
    }
    pub fn tag(&mut self, t: &str) {
        *self.tags.entry(t.to_string()).or_insert(0) += 1;
    }
    pub fn known(&mut self, key: &str, what: String) {
        self.known.entry(key.to_string()).or_insert(what);
    }
}
pub type R = Result<(), String>;

// ---- executor: every future here is ready at once
fn noop_raw() -> RawWaker {
    fn no(_: *const ()) {}
    fn clone(_: *const ()) -> RawWaker {
        noop_raw()
    }
    static V: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
    RawWaker::new(std::ptr::null(), &V)
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = unsafe { Waker::from_raw(noop_raw()) };
    let mut cx = Context::from_waker(&w);
    for _ in 0..1_000_000 {
        if let Poll::Ready(x) = Pin::as_mut(&mut f).poll(&mut cx) {
            return x;
        }
    }
    panic!("future never ready");
}

/// in-memory range server with the semantics of a static file server
#[derive(Clone)]
pub struct Mem {
    pub data: Arc<Vec<u8>>,
    pub log: Arc<Mutex<Vec<(usize, usize)>>>,
}
impl Mem {
    pub fn new(v: Vec<u8>) -> Mem {
        Mem { data: Arc::new(v), log: Arc::new(Mutex::new(vec![])) }
    }
}
#[async_trait]
impl http_range_client::AsyncHttpRangeClient for Mem {
    async fn get_range(&self, _url: &str, range: &str) -> http_range_client::Result<Bytes> {
        let r = range.strip_prefix("bytes=").unwrap_or(range);
        let (a, b) = r.split_once('-').unwrap();
        let a: usize = a.parse().unwrap();
        let n = self.data.len();
        let b: usize = if b.is_empty() { n - 1 } else { b.parse().unwrap() };
        self.log.lock().unwrap().push((a, b));
        if a >= n || b < a {
            return Err(http_range_client::HttpError::HttpStatus(416));
        }
        Ok(Bytes::copy_from_slice(&self.data[a..=b.min(n - 1)]))
    }
    async fn head_response_header(&self, _url: &str, _h: &str) -> http_range_client::Result<Option<String>> {
        Ok(None)
    }
}
pub fn client(v: Vec<u8>) -> http_range_client::AsyncBufferedHttpRangeClient<Mem> {
    http_range_client::AsyncBufferedHttpRangeClient::with(Mem::new(v), "mem")
}
pub fn set<T: Ord + Clone>(v: &[T]) -> BTreeSet<T> {
    v.iter().cloned().collect()
}
