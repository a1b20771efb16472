//! Scripted byte streams.

use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum ErrKind {
    Reset,
    BrokenPipe,
    Eof,
    Other,
    InvalidData,
    TimedOut,
    Interrupted,
    WouldBlock,
    /// A kind without a message of its own.
    Bare(u8),
    /// An error of the operating system.
    Os(u8),
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::WriteZero,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::Interrupted,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];
// EIO, EPIPE, ECONNRESET, EAGAIN, EINTR, EBADF, ENOSPC, ETIMEDOUT
const CODES: &[i32] = &[5, 32, 104, 11, 4, 9, 28, 110];

impl ErrKind {
    pub fn to_io(self) -> io::Error {
        use io::ErrorKind as K;
        let k = match self {
            ErrKind::Reset => K::ConnectionReset,
            ErrKind::BrokenPipe => K::BrokenPipe,
            ErrKind::Eof => K::UnexpectedEof,
            ErrKind::Other => K::Other,
            ErrKind::InvalidData => K::InvalidData,
            ErrKind::TimedOut => K::TimedOut,
            ErrKind::Interrupted => K::Interrupted,
            ErrKind::WouldBlock => K::WouldBlock,
            ErrKind::Bare(n) => return KINDS[n as usize % KINDS.len()].into(),
            ErrKind::Os(n) => return io::Error::from_raw_os_error(CODES[n as usize % CODES.len()]),
        };
        io::Error::new(k, "injected")
    }
}

pub enum InItem {
    Data(Vec<u8>),
    /// Return `Pending` once, waking immediately.
    Pend,
    Err(ErrKind),
    Eof,
}

#[derive(Default)]
struct InState {
    items: VecDeque<InItem>,
    waker: Option<Waker>,
    dropped: bool,
    reads: u64,
}

/// The driver's end of the input.
#[derive(Clone, Default)]
pub struct InCtl(Arc<Mutex<InState>>);

/// The server's end of the input.
pub struct Input(Arc<Mutex<InState>>);

impl InCtl {
    pub fn new() -> (InCtl, Input) {
        let s = InCtl::default();
        let i = Input(s.0.clone());
        (s, i)
    }
    pub fn push(&self, item: InItem) {
        let mut s = self.0.lock().unwrap();
        s.items.push_back(item);
        let w = s.waker.take();
        drop(s);
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn data(&self, bytes: impl Into<Vec<u8>>) {
        let b = bytes.into();
        if !b.is_empty() {
            self.push(InItem::Data(b));
        }
    }
    pub fn eof(&self) {
        self.push(InItem::Eof);
    }
    /// True once everything pushed so far has been consumed.
    pub fn consumed(&self) -> bool {
        self.0.lock().unwrap().items.is_empty()
    }
    /// Bytes which have not been read yet.
    pub fn left(&self) -> usize {
        let s = self.0.lock().unwrap();
        s.items.iter().map(|i| if let InItem::Data(d) = i { d.len() } else { 0 }).sum()
    }
    pub fn dropped(&self) -> bool {
        self.0.lock().unwrap().dropped
    }
}

impl Drop for Input {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped = true;
    }
}

impl Input {
    fn read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        s.reads += 1;
        match s.items.pop_front() {
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(InItem::Pend) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(InItem::Err(k)) => {
                // The stream stays failed, then ends.
                s.items.push_front(InItem::Eof);
                Poll::Ready(Err(k.to_io()))
            }
            Some(InItem::Eof) => {
                s.items.push_front(InItem::Eof);
                Poll::Ready(Ok(0))
            }
            Some(InItem::Data(mut d)) => {
                let n = d.len().min(buf.len());
                buf[..n].copy_from_slice(&d[..n]);
                if n < d.len() {
                    d.drain(..n);
                    s.items.push_front(InItem::Data(d));
                }
                Poll::Ready(Ok(n))
            }
        }
    }
}

#[cfg(feature = "rt-tokio")]
impl tokio::io::AsyncRead for Input {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let n = match self.read(cx, buf.initialize_unfilled()) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(n)) => n,
        };
        buf.advance(n);
        Poll::Ready(Ok(()))
    }
}

#[cfg(feature = "rt-agnostic")]
impl futures::io::AsyncRead for Input {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        self.read(cx, buf)
    }
}

/// One step of the output's behaviour, consumed by one write or flush call.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    /// Writes accept at most this many bytes; flushes succeed.
    Take(u32),
    /// `Pending` once, waking immediately.
    Pend,
    /// `Pending` until the driver releases the output.
    Block,
}

#[derive(Default)]
struct OutState {
    bytes: Vec<u8>,
    flushed: usize,
    script: VecDeque<Act>,
    cycle: bool,
    blocked: bool,
    hold: bool,
    waker: Option<Waker>,
    closed: bool,
    fail_after_bytes: Option<(usize, ErrKind)>,
    zero_after_bytes: Option<usize>,
    fail_flush_at: Option<(u32, ErrKind)>,
    fail_close: Option<ErrKind>,
    flushes: u32,
    failed: bool,
    limit: usize,
    over_limit: bool,
    flush_now: bool,
}

#[derive(Clone)]
pub struct OutCtl(Arc<Mutex<OutState>>);
pub struct Output(Arc<Mutex<OutState>>);

thread_local! {
    static RECORDED: RefCell<Option<Vec<OutCtl>>> = const { RefCell::new(None) };
}

/// Runs `f` and adds the outputs made by it to `outs`.
pub fn recording<R>(outs: &mut Vec<OutCtl>, f: impl FnOnce() -> R) -> R {
    RECORDED.with(|r| *r.borrow_mut() = Some(std::mem::take(outs)));
    let result = f();
    *outs = RECORDED.with(|r| r.borrow_mut().take()).unwrap_or_default();
    result
}

impl OutCtl {
    pub fn new(script: &[Act], cycle: bool) -> (OutCtl, Output) {
        // A cycled script must let bytes through.
        let cycle = cycle && script.iter().any(|a| matches!(a, Act::Take(n) if *n > 0));
        let s = Arc::new(Mutex::new(OutState {
            script: script.iter().copied().collect(),
            cycle,
            limit: 256 << 20,
            // See DESIGN.md, K1: async-codec-lite forgets a flush that was not ready at first.
            flush_now: cfg!(feature = "rt-agnostic"),
            ..OutState::default()
        }));
        RECORDED.with(|r| {
            if let Some(v) = r.borrow_mut().as_mut() {
                v.push(OutCtl(s.clone()));
            }
        });
        (OutCtl(s.clone()), Output(s))
    }
    pub fn plain() -> (OutCtl, Output) {
        Self::new(&[], false)
    }
    pub fn set_limit(&self, n: usize) {
        self.0.lock().unwrap().limit = n;
    }
    /// Whether flushes may be delayed by the script.
    pub fn delay_flushes(&self, on: bool) {
        self.0.lock().unwrap().flush_now = !on;
    }
    pub fn over_limit(&self) -> bool {
        self.0.lock().unwrap().over_limit
    }
    pub fn fail_after(&self, n: usize, k: ErrKind) {
        self.0.lock().unwrap().fail_after_bytes = Some((n, k));
    }
    pub fn zero_after(&self, n: usize) {
        self.0.lock().unwrap().zero_after_bytes = Some(n);
    }
    pub fn fail_flush(&self, nth: u32, k: ErrKind) {
        self.0.lock().unwrap().fail_flush_at = Some((nth, k));
    }
    pub fn fail_close(&self, k: ErrKind) {
        self.0.lock().unwrap().fail_close = Some(k);
    }
    pub fn flushes(&self) -> u32 {
        self.0.lock().unwrap().flushes
    }
    pub fn failed(&self) -> bool {
        self.0.lock().unwrap().failed
    }
    pub fn is_blocked(&self) -> bool {
        let s = self.0.lock().unwrap();
        s.blocked || s.hold
    }
    /// Blocks the output from now on until `release`.
    pub fn hold(&self) {
        self.0.lock().unwrap().hold = true;
    }
    pub fn release(&self) {
        let mut s = self.0.lock().unwrap();
        s.blocked = false;
        s.hold = false;
        let w = s.waker.take();
        drop(s);
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn written(&self) -> Vec<u8> {
        self.0.lock().unwrap().bytes.clone()
    }
    /// Takes what has been written so far.
    pub fn take(&self) -> Vec<u8> {
        let mut s = self.0.lock().unwrap();
        s.flushed = 0;
        std::mem::take(&mut s.bytes)
    }
    pub fn written_len(&self) -> usize {
        self.0.lock().unwrap().bytes.len()
    }
    pub fn flushed(&self) -> Vec<u8> {
        let s = self.0.lock().unwrap();
        s.bytes[..s.flushed].to_vec()
    }
    pub fn unflushed(&self) -> usize {
        let s = self.0.lock().unwrap();
        s.bytes.len() - s.flushed
    }
}

enum Gate {
    Go(usize),
    Wait,
}

impl OutState {
    fn gate(&mut self, cx: &mut Context<'_>) -> Gate {
        if self.blocked || self.hold {
            self.waker = Some(cx.waker().clone());
            return Gate::Wait;
        }
        let act = self.script.pop_front();
        if let (true, Some(a)) = (self.cycle, act) {
            if a != Act::Block {
                self.script.push_back(a);
            }
        }
        match act {
            None => Gate::Go(usize::MAX),
            Some(Act::Take(n)) => Gate::Go(n.max(1) as usize),
            Some(Act::Pend) => {
                cx.waker().wake_by_ref();
                Gate::Wait
            }
            Some(Act::Block) => {
                self.blocked = true;
                self.waker = Some(cx.waker().clone());
                Gate::Wait
            }
        }
    }
}

impl Output {
    fn write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        if s.bytes.len() > s.limit {
            s.over_limit = true;
            return Poll::Pending; // never woken: stops an endless producer
        }
        if let Some((n, k)) = s.fail_after_bytes {
            if s.bytes.len() >= n {
                s.failed = true;
                return Poll::Ready(Err(k.to_io()));
            }
        }
        if let Some(n) = s.zero_after_bytes {
            if s.bytes.len() >= n {
                s.failed = true;
                return Poll::Ready(Ok(0));
            }
        }
        match s.gate(cx) {
            Gate::Wait => Poll::Pending,
            Gate::Go(max) => {
                let mut n = buf.len().min(max);
                for lim in s.fail_after_bytes.map(|f| f.0).into_iter().chain(s.zero_after_bytes) {
                    n = n.min(lim - s.bytes.len());
                }
                s.bytes.extend_from_slice(&buf[..n]);
                Poll::Ready(Ok(n))
            }
        }
    }

    fn flush(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        if let Some((n, k)) = s.fail_flush_at {
            if s.flushes >= n {
                s.failed = true;
                return Poll::Ready(Err(k.to_io()));
            }
        }
        if s.flushed == s.bytes.len() {
            return Poll::Ready(Ok(()));
        }
        let gate = if s.flush_now { Gate::Go(0) } else { s.gate(cx) };
        match gate {
            Gate::Wait => Poll::Pending,
            Gate::Go(_) => {
                s.flushes += 1;
                s.flushed = s.bytes.len();
                Poll::Ready(Ok(()))
            }
        }
    }

    fn close(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        if let Some(k) = s.fail_close {
            s.failed = true;
            return Poll::Ready(Err(k.to_io()));
        }
        drop(s);
        match self.flush(cx) {
            Poll::Ready(Ok(())) => {
                self.0.lock().unwrap().closed = true;
                Poll::Ready(Ok(()))
            }
            other => other,
        }
    }
}

#[cfg(feature = "rt-tokio")]
impl tokio::io::AsyncWrite for Output {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        self.write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.close(cx)
    }
}

#[cfg(feature = "rt-agnostic")]
impl futures::io::AsyncWrite for Output {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        self.write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.flush(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.close(cx)
    }
}
