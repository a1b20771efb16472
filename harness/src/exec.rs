//! Deterministic executor: a task is polled only when its waker has fired.

use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

use futures::task::{waker, ArcWake};

use crate::fail::Fail;

const POLL_BUDGET: u64 = 400_000;

struct Flag {
    /// 0 = not woken, otherwise the wake sequence number.
    woken: AtomicU64,
    seq: Arc<AtomicU64>,
}

impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        let n = a.seq.fetch_add(1, Ordering::SeqCst) + 1;
        let _ = a.woken.compare_exchange(0, n, Ordering::SeqCst, Ordering::SeqCst);
    }
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
}

/// Order in which woken tasks are polled, from generated bytes (0 = first woken first).
#[derive(Default)]
pub struct Sched {
    bytes: Vec<u8>,
    pos: usize,
}

impl Sched {
    pub fn new(bytes: &[u8]) -> Self {
        Sched { bytes: bytes.to_vec(), pos: 0 }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 || self.bytes.is_empty() {
            return 0;
        }
        let b = self.bytes[self.pos % self.bytes.len()];
        self.pos += 1;
        b as usize % n
    }
}

#[derive(Default)]
pub struct Exec {
    tasks: Vec<Task>,
    seq: Arc<AtomicU64>,
    pub sched: Sched,
}

impl Exec {
    pub fn new(sched: Sched) -> Self {
        Exec { tasks: Vec::new(), seq: Arc::default(), sched }
    }

    /// Adds a task; it will be polled at the next `run`.
    pub fn spawn(&mut self, fut: impl Future<Output = ()> + 'static) -> usize {
        let flag = Arc::new(Flag { woken: AtomicU64::new(0), seq: self.seq.clone() });
        ArcWake::wake_by_ref(&flag);
        self.tasks.push(Task { fut: Some(Box::pin(fut)), flag });
        self.tasks.len() - 1
    }

    pub fn is_done(&self, id: usize) -> bool {
        self.tasks[id].fut.is_none()
    }

    /// Drops the task's future.
    pub fn kill(&mut self, id: usize) {
        self.tasks[id].fut = None;
    }

    /// Polls one given task once, whether or not it was woken.
    pub fn poll_once(&mut self, id: usize) {
        let t = &mut self.tasks[id];
        t.flag.woken.store(0, Ordering::SeqCst);
        let w = waker(t.flag.clone());
        let done = match &mut t.fut {
            Some(f) => matches!(f.as_mut().poll(&mut Context::from_waker(&w)), Poll::Ready(())),
            None => false,
        };
        if done {
            self.tasks[id].fut = None;
        }
    }

    /// Polls every live task once even though nothing woke it.
    pub fn spurious(&mut self) {
        for id in 0..self.tasks.len() {
            self.poll_once(id);
        }
    }

    fn ready(&self) -> Vec<usize> {
        let mut v: Vec<(u64, usize)> = self
            .tasks
            .iter()
            .enumerate()
            .filter(|(_, t)| t.fut.is_some())
            .map(|(i, t)| (t.flag.woken.load(Ordering::SeqCst), i))
            .filter(|(s, _)| *s != 0)
            .collect();
        v.sort();
        v.into_iter().map(|(_, i)| i).collect()
    }

    /// Polls one woken task, no task being passed over for long; false if there is none.
    pub fn step(&mut self) -> bool {
        let ready = self.ready();
        if ready.is_empty() {
            return false;
        }
        let waited = self.seq.load(Ordering::SeqCst) - self.tasks[ready[0]].flag.woken.load(Ordering::SeqCst);
        let k = self.sched.pick(ready.len());
        let id = ready[if waited > 40 { 0 } else { k }];
        self.poll_once(id);
        true
    }

    /// Polls woken tasks until none is left.
    pub fn run(&mut self) -> Result<(), Fail> {
        let mut budget = POLL_BUDGET;
        loop {
            let ready = self.ready();
            if ready.is_empty() {
                return Ok(());
            }
            let id = ready[self.sched.pick(ready.len())];
            self.poll_once(id);
            budget -= 1;
            if budget == 0 {
                return Err(Fail::all("livelock: tasks keep waking themselves without end"));
            }
        }
    }
}

/// Resolves after returning `Pending` once (having woken itself).
pub async fn yield_now() {
    let mut done = false;
    futures::future::poll_fn(move |cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}
