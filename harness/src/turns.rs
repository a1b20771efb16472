//! Several histories in one process, taking turns in a generated order.

use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

use futures::future::{FutureExt, LocalBoxFuture};

thread_local! {
    static TOGETHER: Cell<bool> = const { Cell::new(false) };
}

/// Lets the other histories run, if there are any.
pub async fn pause() {
    if TOGETHER.with(|t| t.get()) {
        crate::exec::yield_now().await;
    }
}

/// Runs a history by itself.
pub fn alone<R>(f: impl Future<Output = R>) -> R {
    f.now_or_never().expect("pauses only beside others")
}

/// Runs the histories on this thread, changing over at each `pause`.
pub fn interleaved<R>(order: &[u8], histories: Vec<LocalBoxFuture<'_, R>>) -> Vec<R> {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            TOGETHER.with(|t| t.set(false));
        }
    }
    let _reset = Reset;
    TOGETHER.with(|t| t.set(true));
    let waker = futures::task::noop_waker();
    let mut cx = Context::from_waker(&waker);
    let mut out: Vec<Option<R>> = histories.iter().map(|_| None).collect();
    let mut live: Vec<(usize, Pin<Box<_>>)> = histories.into_iter().enumerate().collect();
    let mut pos = 0;
    while !live.is_empty() {
        let b = if order.is_empty() { pos } else { order[pos % order.len()] as usize + pos / order.len() };
        pos += 1;
        let k = b % live.len();
        if let Poll::Ready(r) = live[k].1.as_mut().poll(&mut cx) {
            out[live[k].0] = Some(r);
            drop(live.remove(k));
        }
    }
    out.into_iter().map(|r| r.unwrap()).collect()
}
