//! Instrumented sources and sinks: they deliver or accept bytes under a schedule, inject faults, count operations and
//! police an operation budget.
use crate::exec::wake_later;
use crate::report::Violated;
use crate::rng::Rng;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
use std::io::{Error, ErrorKind, SeekFrom};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub const INJECTED: &str = "rtmon injected fault";

/// How bytes are delivered or accepted.
#[derive(Clone, Debug)]
pub struct Schedule {
    /// Largest number of bytes moved by one operation; 0 means everything asked for.
    pub max_chunk: usize,
    /// When true each operation moves a random amount up to `max_chunk`.
    pub vary: bool,
    /// Chance (of 256) that an operation answers not-ready first.
    pub pending: u8,
    /// Chance (of 256) that a not-ready answer wakes at once instead of later.
    pub wake_now: u8,
    /// Not-ready answers in a row, at most.
    pub burst: u8,
}

impl Schedule {
    pub fn smooth() -> Schedule {
        Schedule { max_chunk: 0, vary: false, pending: 0, wake_now: 0, burst: 1 }
    }
    /// A hostile schedule chosen at random.
    pub fn random(r: &mut Rng) -> Schedule {
        let max_chunk = match r.below(10) {
            0 => 1,
            1 => 2,
            2 => 3,
            3 => 7,
            4 => 13,
            5 => r.range(1, 64),
            6 => r.range(17, 600),
            7 => r.range(1000, 2100),
            8 => r.range(2000, 9000),
            _ => 0,
        };
        let pending = *r.pick(&[0u8, 0, 40, 128, 200, 240]);
        Schedule { max_chunk, vary: r.chance(1, 2), pending, wake_now: *r.pick(&[0u8, 128, 255]), burst: r.range(1, 3) as u8 }
    }
    pub fn describe(&self) -> String {
        format!("chunk<={}{} pending={}/256 wake_now={}/256 burst={}", self.max_chunk, if self.vary { "~" } else { "" }, self.pending, self.wake_now, self.burst)
    }
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// The operation (counted from 0 over all operations of the source or sink) at which the fault begins.
    pub at: u64,
    /// How many operations in a row fail; u64::MAX means for good.
    pub times: u64,
    pub kind: ErrorKind,
    /// Sinks only: answer Ok(0) instead of an error.
    pub zero: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Counters {
    /// All operations that answered (reads, fills, seeks; or writes, flushes, closes).
    pub ops: u64,
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    pub pendings: u64,
    pub faults: u64,
    pub writes: u64,
    pub flushes: u64,
    pub closes: u64,
    /// Lowest position that was read.
    pub min_pos: Option<u64>,
    /// Operations after the sink was closed.
    pub after_close: u64,
}

/// What injected errors are.
pub const KINDS: [ErrorKind; 30] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::NotSeekable, ErrorKind::IsADirectory,
    ErrorKind::ReadOnlyFilesystem, ErrorKind::StaleNetworkFileHandle, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut,
    ErrorKind::WriteZero, ErrorKind::StorageFull, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy,
    ErrorKind::Interrupted, ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other,
];

/// Errors come with a message, with nothing but a kind, or from the operating system.
fn injected(kind: ErrorKind, n: u64) -> Error {
    let os = match kind {
        ErrorKind::BrokenPipe => libc::EPIPE,
        ErrorKind::TimedOut => libc::ETIMEDOUT,
        ErrorKind::ConnectionReset => libc::ECONNRESET,
        ErrorKind::NotFound => libc::ENOENT,
        ErrorKind::Interrupted => libc::EINTR,
        ErrorKind::StorageFull => libc::ENOSPC,
        ErrorKind::Other => libc::EIO,
        ErrorKind::PermissionDenied => libc::EACCES,
        ErrorKind::ConnectionAborted => libc::ECONNABORTED,
        ErrorKind::WouldBlock => libc::EAGAIN,
        ErrorKind::InvalidInput => libc::EINVAL,
        ErrorKind::StaleNetworkFileHandle => libc::ESTALE,
        ErrorKind::OutOfMemory => libc::ENOMEM,
        _ => 0,
    };
    match crate::rng::mix(n) % 3 {
        0 => Error::new(kind, INJECTED),
        1 if os != 0 => Error::from_raw_os_error(os),
        _ => kind.into(),
    }
}

struct Pacer {
    sched: Schedule,
    rng: Rng,
    /// Not-ready answers still to give before the next operation; None: not decided yet.
    left: Option<u8>,
}

impl Pacer {
    /// True when the operation has to answer not-ready now.
    fn hold(&mut self, cx: &mut Context<'_>) -> bool {
        let left = match self.left {
            Some(l) => l,
            None => {
                if (self.rng.u8()) < self.sched.pending {
                    self.rng.range(1, self.sched.burst.max(1) as usize) as u8
                } else {
                    0
                }
            }
        };
        if left > 0 {
            self.left = Some(left - 1);
            if self.rng.u8() < self.sched.wake_now {
                cx.waker().wake_by_ref();
            } else {
                wake_later(cx.waker());
            }
            true
        } else {
            self.left = None;
            false
        }
    }
    fn amount(&mut self, want: usize) -> usize {
        if want == 0 || self.sched.max_chunk == 0 {
            return want;
        }
        let m = if self.sched.vary { self.rng.range(1, self.sched.max_chunk) } else { self.sched.max_chunk };
        want.min(m)
    }
}

pub struct SourceState {
    pub counters: Counters,
    pub fault: Option<Fault>,
    pub budget: u64,
}

/// Shared handle to a source's instrumentation.
#[derive(Clone)]
pub struct SourceProbe(pub Arc<Mutex<SourceState>>);

impl SourceProbe {
    pub fn counters(&self) -> Counters {
        self.0.lock().unwrap().counters.clone()
    }
    pub fn set_fault(&self, f: Option<Fault>) {
        self.0.lock().unwrap().fault = f;
    }
    pub fn set_budget(&self, b: u64) {
        self.0.lock().unwrap().budget = b;
    }
}

/// Random-access bytes behind a source.
pub trait Bytes: Send + Sync {
    fn len(&self) -> u64;
    /// Fills `buf` with the bytes at `off` (which are within the length).
    fn fill(&self, off: u64, buf: &mut [u8]);
    /// The bytes themselves, when they are in memory.
    fn slice(&self) -> Option<&[u8]> {
        None
    }
    fn get(&self, off: u64, n: usize) -> Option<Vec<u8>> {
        if off.checked_add(n as u64)? > self.len() {
            return None;
        }
        let mut v = vec![0; n];
        self.fill(off, &mut v);
        Some(v)
    }
}

impl Bytes for Vec<u8> {
    fn len(&self) -> u64 {
        Vec::len(self) as u64
    }
    fn fill(&self, off: u64, buf: &mut [u8]) {
        buf.copy_from_slice(&self[off as usize..off as usize + buf.len()]);
    }
    fn slice(&self) -> Option<&[u8]> {
        Some(self)
    }
}

pub struct Source<B: Bytes = Vec<u8>> {
    data: Arc<B>,
    pos: u64,
    /// Window handed out by fill_buf and not yet consumed.
    buf: Vec<u8>,
    buf_off: usize,
    state: Arc<Mutex<SourceState>>,
    pacer: Pacer,
}

impl<B: Bytes> Source<B> {
    pub fn new(data: Arc<B>, sched: Schedule, rng: Rng) -> (Source<B>, SourceProbe) {
        let state = Arc::new(Mutex::new(SourceState { counters: Counters::default(), fault: None, budget: u64::MAX }));
        let s = Source { data, pos: 0, buf: vec![], buf_off: 0, state: state.clone(), pacer: Pacer { sched, rng, left: None } };
        (s, SourceProbe(state))
    }
    /// Accounts for one operation; Err is the injected fault.
    fn op(&mut self) -> Result<(), Error> {
        let mut st = self.state.lock().unwrap();
        let n = st.counters.ops;
        st.counters.ops += 1;
        if st.counters.ops > st.budget {
            let b = st.budget;
            drop(st);
            std::panic::panic_any(Violated(format!("the reader issued more than {b} operations to the source")));
        }
        if let Some(f) = &st.fault {
            if n >= f.at && n - f.at < f.times {
                let k = f.kind;
                st.counters.faults += 1;
                return Err(injected(k, n));
            }
        }
        Ok(())
    }
    fn seen(&mut self, pos: u64, n: usize) {
        let mut st = self.state.lock().unwrap();
        st.counters.reads += 1;
        st.counters.bytes += n as u64;
        if n > 0 {
            let m = st.counters.min_pos.map_or(pos, |p| p.min(pos));
            st.counters.min_pos = Some(m);
        }
    }
    fn held(&mut self, cx: &mut Context<'_>) -> bool {
        if self.pacer.hold(cx) {
            let mut st = self.state.lock().unwrap();
            st.counters.pendings += 1;
            true
        } else {
            false
        }
    }
}

impl<B: Bytes> AsyncRead for Source<B> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let me = self.get_mut();
        if me.buf_off < me.buf.len() {
            // Like a buffered reader: what is buffered is delivered first.
            let n = (me.buf.len() - me.buf_off).min(out.len());
            out[..n].copy_from_slice(&me.buf[me.buf_off..me.buf_off + n]);
            me.buf_off += n;
            me.pos += n as u64;
            return Poll::Ready(Ok(n));
        }
        if me.held(cx) {
            return Poll::Pending;
        }
        me.op()?;
        let rest = me.data.len().saturating_sub(me.pos);
        let want = (out.len() as u64).min(rest) as usize;
        let n = me.pacer.amount(want);
        if n > 0 {
            me.data.fill(me.pos, &mut out[..n]);
        }
        let p = me.pos;
        me.seen(p, n);
        me.pos += n as u64;
        Poll::Ready(Ok(n))
    }
}

impl<B: Bytes> AsyncBufRead for Source<B> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let me = self.get_mut();
        if me.buf_off >= me.buf.len() {
            if me.held(cx) {
                return Poll::Pending;
            }
            me.op()?;
            let rest = me.data.len().saturating_sub(me.pos);
            let want = rest.min(8192) as usize;
            let n = me.pacer.amount(want);
            let p = me.pos;
            let mut b = std::mem::take(&mut me.buf);
            b.resize(n, 0);
            if n > 0 {
                me.data.fill(p, &mut b);
            }
            me.buf = b;
            me.buf_off = 0;
            me.seen(p, n);
        }
        Poll::Ready(Ok(&me.buf[me.buf_off..]))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        let me = self.get_mut();
        if amt > me.buf.len() - me.buf_off {
            std::panic::panic_any(Violated(format!("consume({amt}) of a buffer holding {} bytes", me.buf.len() - me.buf_off)));
        }
        me.buf_off += amt;
        me.pos += amt as u64;
    }
}

impl<B: Bytes> AsyncSeek for Source<B> {
    fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<std::io::Result<u64>> {
        let me = self.get_mut();
        if me.held(cx) {
            return Poll::Pending;
        }
        me.op()?;
        me.state.lock().unwrap().counters.seeks += 1;
        let target = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(d) => me.data.len().checked_add_signed(d),
            SeekFrom::Current(d) => me.pos.checked_add_signed(d),
        };
        match target {
            // Like a file: offsets are signed 64-bit.
            Some(t) if t <= i64::MAX as u64 => {
                me.pos = t;
                me.buf.clear();
                me.buf_off = 0;
                Poll::Ready(Ok(t))
            }
            _ => Poll::Ready(Err(Error::new(ErrorKind::InvalidInput, "invalid seek"))),
        }
    }
}

/// Where a sink puts its bytes.
pub trait Store: Send {
    fn append(&mut self, b: &[u8]);
    fn size(&self) -> u64;
}

impl Store for Vec<u8> {
    fn append(&mut self, b: &[u8]) {
        self.extend_from_slice(b);
    }
    fn size(&self) -> u64 {
        self.len() as u64
    }
}

pub struct SinkState<S: Store = Vec<u8>> {
    pub data: S,
    pub counters: Counters,
    pub fault: Option<Fault>,
    /// Sink length at each flush.
    pub flushed_at: Vec<u64>,
}

pub struct SinkProbe<S: Store = Vec<u8>>(pub Arc<Mutex<SinkState<S>>>);

impl<S: Store> Clone for SinkProbe<S> {
    fn clone(&self) -> Self {
        SinkProbe(self.0.clone())
    }
}

impl<S: Store> SinkProbe<S> {
    pub fn counters(&self) -> Counters {
        self.0.lock().unwrap().counters.clone()
    }
    pub fn set_fault(&self, f: Option<Fault>) {
        self.0.lock().unwrap().fault = f;
    }
    pub fn size(&self) -> u64 {
        self.0.lock().unwrap().data.size()
    }
}

impl SinkProbe<Vec<u8>> {
    pub fn bytes(&self) -> Vec<u8> {
        self.0.lock().unwrap().data.clone()
    }
}

pub struct Sink<S: Store = Vec<u8>> {
    state: Arc<Mutex<SinkState<S>>>,
    pacer: Pacer,
}

impl<S: Store> Sink<S> {
    pub fn with_store(store: S, sched: Schedule, rng: Rng) -> (Sink<S>, SinkProbe<S>) {
        let state = Arc::new(Mutex::new(SinkState { data: store, counters: Counters::default(), fault: None, flushed_at: vec![] }));
        (Sink { state: state.clone(), pacer: Pacer { sched, rng, left: None } }, SinkProbe(state))
    }
    fn held(&mut self, cx: &mut Context<'_>) -> bool {
        if self.pacer.hold(cx) {
            self.state.lock().unwrap().counters.pendings += 1;
            true
        } else {
            false
        }
    }
    /// Err(true): answer Ok(0); Err(false): answer the error.
    fn op(&mut self) -> Result<(), Result<(), Error>> {
        let mut st = self.state.lock().unwrap();
        let n = st.counters.ops;
        st.counters.ops += 1;
        if st.counters.closes > 0 {
            st.counters.after_close += 1;
        }
        if st.counters.ops > 200_000_000 {
            drop(st);
            std::panic::panic_any(Violated("the writer issued an endless number of operations to the sink".into()));
        }
        if let Some(f) = &st.fault {
            if n >= f.at && n - f.at < f.times {
                let (k, z) = (f.kind, f.zero);
                st.counters.faults += 1;
                return Err(if z { Ok(()) } else { Err(injected(k, n)) });
            }
        }
        Ok(())
    }
}

impl Sink<Vec<u8>> {
    pub fn new(sched: Schedule, rng: Rng) -> (Sink, SinkProbe) {
        Sink::with_store(Vec::new(), sched, rng)
    }
}

impl<S: Store> AsyncWrite for Sink<S> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let me = self.get_mut();
        if me.held(cx) {
            return Poll::Pending;
        }
        match me.op() {
            Ok(()) => {}
            Err(Ok(())) => return Poll::Ready(Ok(0)),
            Err(Err(e)) => return Poll::Ready(Err(e)),
        }
        let n = me.pacer.amount(buf.len());
        let mut st = me.state.lock().unwrap();
        st.data.append(&buf[..n]);
        st.counters.writes += 1;
        st.counters.bytes += n as u64;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let me = self.get_mut();
        if me.held(cx) {
            return Poll::Pending;
        }
        match me.op() {
            Ok(()) => {}
            // Accepting nothing is only meaningful for writes.
            Err(Ok(())) => me.state.lock().unwrap().counters.faults -= 1,
            Err(Err(e)) => return Poll::Ready(Err(e)),
        }
        let mut st = me.state.lock().unwrap();
        st.counters.flushes += 1;
        let n = st.data.size();
        st.flushed_at.push(n);
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let me = self.get_mut();
        if me.held(cx) {
            return Poll::Pending;
        }
        match me.op() {
            Ok(()) => {}
            Err(Ok(())) => me.state.lock().unwrap().counters.faults -= 1,
            Err(Err(e)) => return Poll::Ready(Err(e)),
        }
        me.state.lock().unwrap().counters.closes += 1;
        Poll::Ready(Ok(()))
    }
}
