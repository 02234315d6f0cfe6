// ---- in-memory range server and executor
#[derive(Clone)]
struct Mem { data: std::sync::Arc<Vec<u8>>, log: std::sync::Arc<std::sync::Mutex<Vec<(usize, usize)>>> }
#[async_trait::async_trait]
impl http_range_client::AsyncHttpRangeClient for Mem {
    async fn get_range(&self, _url: &str, range: &str) -> http_range_client::Result<bytes::Bytes> {
        let (a, b) = range.strip_prefix("bytes=").unwrap().split_once('-').unwrap();
        let a: usize = a.parse().unwrap();
        let n = self.data.len();
        let b: usize = if b.is_empty() { n - 1 } else { b.parse().unwrap() };
        self.log.lock().unwrap().push((a, b));
        if a >= n || b < a { return Err(http_range_client::HttpError::HttpStatus(416)); }
        Ok(bytes::Bytes::copy_from_slice(&self.data[a..=b.min(n - 1)]))
    }
    async fn head_response_header(&self, _url: &str, _h: &str) -> http_range_client::Result<Option<String>> { Ok(None) }
}
#[allow(dead_code)]
fn client(v: Vec<u8>) -> http_range_client::AsyncBufferedHttpRangeClient<Mem> {
    http_range_client::AsyncBufferedHttpRangeClient::with(Mem { data: std::sync::Arc::new(v), log: Default::default() }, "mem")
}
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    fn raw() -> RawWaker {
        fn no(_: *const ()) {}
        fn clone(_: *const ()) -> RawWaker { raw() }
        static V: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
        RawWaker::new(std::ptr::null(), &V)
    }
    let mut f = Box::pin(f);
    let w = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&w);
    loop { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; } }
}
