//! Service futures polled by several real threads while further messages, cancellations, gate
//! openings and exit race with them (C04, C07, C09, C10, C11). What a race may decide either way is
//! accepted either way.

use std::collections::{HashSet, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};

use futures::task::{waker, ArcWake};
use futures::StreamExt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::Response;
use tower_lsp::{ExitedError, LspService};

use crate::ensure;
use crate::fail::{Fail, Info};
use crate::gen::*;
use crate::machine::matches_any;
use crate::mock::{make_request, response_json};
use crate::rig::{self, Ev, Ret, Rig, RigCtl, Script, Step};

// ---- several threads polling what was woken ----

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

struct Task {
    fut: Mutex<Option<Fut>>,
    queued: AtomicBool,
    pool: Arc<Pool>,
}

#[derive(Default)]
struct Pool {
    queue: Mutex<(VecDeque<Arc<Task>>, bool)>,
    work: Condvar,
    /// Tasks queued or being polled.
    active: AtomicUsize,
    idle: Condvar,
    panic: Mutex<Option<String>>,
}

impl ArcWake for Task {
    fn wake_by_ref(t: &Arc<Self>) {
        if !t.queued.swap(true, Ordering::SeqCst) {
            t.pool.active.fetch_add(1, Ordering::SeqCst);
            t.pool.queue.lock().unwrap().0.push_back(t.clone());
            t.pool.work.notify_one();
        }
    }
}

impl Pool {
    fn work(&self) {
        loop {
            let task = {
                let mut q = self.queue.lock().unwrap();
                loop {
                    if let Some(t) = q.0.pop_front() {
                        break t;
                    }
                    if q.1 {
                        return;
                    }
                    q = self.work.wait(q).unwrap();
                }
            };
            {
                let mut f = task.fut.lock().unwrap();
                task.queued.store(false, Ordering::SeqCst);
                if let Some(fut) = f.as_mut() {
                    let w = waker(task.clone());
                    let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut Context::from_waker(&w))));
                    match r {
                        Ok(Poll::Pending) => {}
                        Ok(Poll::Ready(())) => *f = None,
                        Err(_) => {
                            std::mem::forget(f.take());
                            *self.panic.lock().unwrap() = Some("a service future panicked".into());
                        }
                    }
                }
            }
            if self.active.fetch_sub(1, Ordering::SeqCst) == 1 {
                let _q = self.queue.lock().unwrap();
                self.idle.notify_all();
            }
        }
    }

    fn spawn(self: &Arc<Self>, fut: impl Future<Output = ()> + Send + 'static) {
        let t = Arc::new(Task {
            fut: Mutex::new(Some(Box::pin(fut))),
            queued: AtomicBool::new(false),
            pool: self.clone(),
        });
        ArcWake::wake_by_ref(&t);
    }

    /// Waits until nothing is woken. Tasks that keep waking themselves are left to the watchdog.
    fn settle(&self) {
        let mut q = self.queue.lock().unwrap();
        while self.active.load(Ordering::SeqCst) > 0 {
            q = self.idle.wait(q).unwrap();
        }
    }

    fn stop(&self) {
        self.queue.lock().unwrap().1 = true;
        self.work.notify_all();
    }
}

/// Lets the threads end, whatever happens.
struct Stop(Arc<Pool>);
impl Drop for Stop {
    fn drop(&mut self) {
        self.0.stop();
    }
}

// ---- cases ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Init { id: u8, script: Script },
    Shutdown { id: u8 },
    Exit,
    Req { id: u8, custom: bool, script: Script },
    Note { custom: bool, script: Script },
    /// Cancels an earlier call, counted back from the latest.
    Cancel(u8),
    CancelId(u8),
    /// Opens one of the closed gates, reached or not.
    Open(u8),
    /// Waits for this many rounds of nothing.
    Spin(u16),
    /// Waits until everything is parked.
    Settle,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub workers: u8,
    /// Begins with a successful initialize.
    pub init: bool,
    pub ops: Vec<Op>,
}

fn pool_id(i: u8) -> Value {
    match i % 8 {
        0 => json!(1),
        1 => json!("1"),
        2 => json!(2),
        3 => json!(""),
        4 => json!(0),
        5 => json!(-1),
        6 => json!("a"),
        _ => json!(i32::MAX),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Init,
    Shutdown,
    Normal,
}

/// What the state at the time of the call allows.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Gate {
    /// The handler runs.
    Open,
    /// Either the handler runs or this error comes.
    Maybe(i64),
    Closed(i64),
    /// The service refuses.
    Refused,
}

type Slot = Arc<Mutex<Option<(u64, Result<Option<Response>, ExitedError>)>>>;

struct Call {
    id: Option<Value>,
    kind: Kind,
    custom: bool,
    script: Script,
    at: u64,
    gate: Gate,
    /// Certainly a duplicate of a request in flight.
    dup: bool,
    done: Slot,
    /// Parked at a gate not opened since, nor cancelled.
    held: bool,
}

struct Cancel {
    id: Value,
    at: u64,
    done: Slot,
}

struct Run {
    service: LspService<Rig>,
    ctl: RigCtl,
    pool: Arc<Pool>,
    clock: Arc<AtomicU64>,
    calls: Vec<Call>,
    cancels: Vec<Cancel>,
    open: HashSet<(usize, usize)>,
    all_open: bool,
    shut: bool,
    exit: Option<u64>,
    info: Info,
}

fn own(c: &Call) -> Value {
    match (c.kind, &c.script.ret) {
        (Kind::Init, Ret::Ok(Value::String(s))) => {
            json!({"result": {"capabilities": {}, "serverInfo": {"name": s}}})
        }
        (Kind::Init, Ret::Ok(_)) => json!({"result": {"capabilities": {}}}),
        (Kind::Shutdown, Ret::Ok(_)) => json!({"result": null}),
        _ => {
            let (k, v) = rig::expected(&c.script.ret, c.custom).unwrap();
            json!({ k: v })
        }
    }
}

pub fn run(case: &Case) -> Result<Info, Fail> {
    let ctl = RigCtl::default();
    let (service, mut socket, _client) = rig::service(&ctl, &[]);
    let pool = Arc::new(Pool::default());
    let _stop = Stop(pool.clone());
    for _ in 0..case.workers.clamp(1, 8) {
        let p = pool.clone();
        std::thread::spawn(move || p.work());
    }
    pool.spawn(async move { while socket.next().await.is_some() {} });
    let mut r = Run {
        service,
        ctl,
        pool,
        clock: Arc::default(),
        calls: vec![],
        cancels: vec![],
        open: HashSet::new(),
        all_open: false,
        shut: false,
        exit: None,
        info: Info::default(),
    };
    if case.init {
        r.op(&Op::Init { id: 0, script: rig::simple(Ret::Ok(json!("s"))) })?;
        r.settle()?;
    }
    for op in &case.ops {
        r.op(op)?;
    }
    r.all_open = true;
    for c in &mut r.calls {
        c.held = false;
    }
    r.ctl.open_all();
    r.settle()?;
    // Every id is free again.
    if r.exit.is_none() && !r.shut && r.initialized() {
        for id in 0..8 {
            r.op(&Op::Req { id, custom: true, script: rig::simple(Ret::Ok(json!(id))) })?;
        }
        r.settle()?;
    }
    let verdict = r.judge();
    r.pool.stop();
    verdict?;
    Ok(r.info)
}

impl Run {
    fn now(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }

    fn ok(c: &Call) -> bool {
        matches!(&*c.done.lock().unwrap(), Some((_, Ok(Some(r)))) if r.is_ok())
    }

    fn initialized(&self) -> bool {
        self.calls.iter().any(|c| c.kind == Kind::Init && Self::ok(c))
    }

    /// The initialize request in flight, and whether it certainly stays so.
    fn initializing(&self) -> Option<bool> {
        let mut some = None;
        for c in self.calls.iter().filter(|c| c.kind == Kind::Init) {
            if c.done.lock().unwrap().is_none() {
                some = Some(some.unwrap_or(false) || c.held);
            }
        }
        some
    }

    /// Whether initialized, and the initialize request in flight. One may end in between.
    fn stage(&self) -> (bool, Option<bool>) {
        let initializing = self.initializing();
        (self.initialized(), initializing)
    }

    fn start(&mut self, v: &Value) -> Option<Slot> {
        let w = futures::task::noop_waker();
        let ready = self.service.poll_ready(&mut Context::from_waker(&w));
        if !matches!(ready, Poll::Ready(Ok(()))) {
            return None;
        }
        let slot = Slot::default();
        let (s, clock) = (slot.clone(), self.clock.clone());
        let fut = self.service.call(make_request(v));
        self.pool.spawn(async move {
            let out = fut.await;
            *s.lock().unwrap() = Some((clock.fetch_add(1, Ordering::SeqCst), out));
        });
        Some(slot)
    }

    fn call(&mut self, kind: Kind, id: Option<Value>, custom: bool, script: Script, gate: Gate, v: Value) -> Result<(), Fail> {
        let dup = gate == Gate::Open
            && kind != Kind::Init
            && id.is_some()
            && self.calls.iter().any(|c| c.held && c.id == id);
        let at = self.now();
        let gate = if self.exit.is_some() { Gate::Refused } else { gate };
        let slot = self.start(&v);
        ensure!(
            slot.is_some() == (gate != Gate::Refused),
            if gate == Gate::Refused { ["C09", "C09"] } else { ["C04", "C07"] },
            "call {} ({gate:?}): the service {}",
            self.calls.len(),
            if slot.is_some() { "accepts calls after exit" } else { "is not ready" }
        );
        let done = slot.unwrap_or_default();
        self.calls.push(Call { id, kind, custom, script, at, gate, dup, done, held: false });
        Ok(())
    }

    fn op(&mut self, op: &Op) -> Result<(), Fail> {
        let n = self.calls.len();
        match op {
            Op::Init { id, script } => {
                let gate = match self.stage() {
                    (true, _) | (_, Some(true)) => Gate::Closed(-32600),
                    (_, Some(false)) => Gate::Maybe(-32600),
                    (false, None) => Gate::Open,
                };
                let id = pool_id(*id);
                let v = request_value("initialize", Some(id.clone()), Some(rig::init_params(script, n)));
                self.call(Kind::Init, Some(id), false, script.clone(), gate, v)?;
            }
            Op::Shutdown { id } => {
                // Only with its id free, or it takes the state along without running.
                let id = pool_id(*id);
                let busy = self.calls.iter().any(|c| c.id.as_ref() == Some(&id) && c.done.lock().unwrap().is_none());
                if !self.initialized() || self.shut || busy || self.exit.is_some() {
                    return Ok(());
                }
                let script = rig::simple(Ret::Ok(Value::Null));
                self.ctl.0.lock().unwrap().shutdown = Some((n, script.clone()));
                let v = request_value("shutdown", Some(id.clone()), None);
                self.call(Kind::Shutdown, Some(id), false, script, Gate::Open, v)?;
                self.shut = true;
                self.info.class(true, "shutdown");
            }
            Op::Exit => {
                if self.exit.is_some() {
                    return Ok(());
                }
                let at = self.now();
                let open = self.calls.iter().any(|c| c.done.lock().unwrap().is_none());
                self.info.class(open, "exit with calls in flight");
                ensure!(self.start(&request_value("exit", None, None)).is_some(), ["C09"], "exit was refused");
                self.exit = Some(at);
                for c in &mut self.calls {
                    c.held = false;
                }
            }
            Op::Req { .. } | Op::Note { .. } => {
                let (id, custom, script) = match op {
                    Op::Req { id, custom, script } => (Some(pool_id(*id)), *custom, script.clone()),
                    Op::Note { custom, script } => (None, *custom, script.clone()),
                    _ => unreachable!(),
                };
                let gate = if self.shut {
                    Gate::Closed(-32600)
                } else {
                    match self.stage() {
                        (true, _) => Gate::Open,
                        (_, Some(false)) => Gate::Maybe(-32002),
                        _ => Gate::Closed(-32002),
                    }
                };
                let (m, p) = match (&id, custom) {
                    (Some(_), true) => ("x/req", script.params(n)),
                    (Some(_), false) => ("workspace/executeCommand", rig::command_params(&script, n)),
                    (None, true) => ("x/note", script.params(n)),
                    (None, false) => ("workspace/didChangeConfiguration", rig::config_params(&script, n)),
                };
                let v = request_value(m, id.clone(), Some(p));
                self.call(Kind::Normal, id, custom, script, gate, v)?;
            }
            Op::Cancel(_) | Op::CancelId(_) => {
                let id = match op {
                    Op::CancelId(i) => Some(pool_id(*i)),
                    Op::Cancel(b) => {
                        let ids: Vec<&Value> = self.calls.iter().rev().filter_map(|c| c.id.as_ref()).collect();
                        ids.get(*b as usize % ids.len().max(1)).map(|v| (*v).clone())
                    }
                    _ => None,
                };
                let (Some(id), None) = (id, self.exit) else { return Ok(()) };
                for c in &mut self.calls {
                    let raced = c.id.as_ref() == Some(&id) && c.done.lock().unwrap().is_none();
                    self.info.class(raced && c.held, "cancelled while parked");
                    self.info.class(raced && !c.held, "cancellation races with its request");
                    c.held &= !raced;
                }
                let at = self.now();
                let v = request_value("$/cancelRequest", None, Some(json!({ "id": id })));
                match self.start(&v) {
                    Some(done) => self.cancels.push(Cancel { id, at, done }),
                    None => return Err(Fail::new(&["C10", "C04"], "the service is not ready")),
                }
            }
            Op::Open(k) => {
                let closed: Vec<(usize, usize)> = self
                    .calls
                    .iter()
                    .enumerate()
                    .filter(|(_, c)| c.done.lock().unwrap().is_none())
                    .flat_map(|(i, c)| c.script.steps.iter().enumerate().map(move |(j, s)| (i, j, s)))
                    .filter(|(i, j, s)| **s == Step::Gate && !self.open.contains(&(*i, *j)))
                    .map(|(i, j, _)| (i, j))
                    .collect();
                if !closed.is_empty() {
                    let g = closed[*k as usize % closed.len()];
                    self.calls[g.0].held = false;
                    self.open.insert(g);
                    self.ctl.open(g.0, g.1);
                }
            }
            Op::Spin(n) => (0..*n).for_each(|_| std::hint::spin_loop()),
            Op::Settle => self.settle()?,
        }
        Ok(())
    }

    fn settle(&mut self) -> Result<(), Fail> {
        self.pool.settle();
        if let Some(m) = self.pool.panic.lock().unwrap().take() {
            return Err(Fail::all(m));
        }
        for (i, c) in self.calls.iter_mut().enumerate() {
            c.held = false;
            if c.gate == Gate::Refused || c.done.lock().unwrap().is_some() {
                continue;
            }
            let log = self.ctl.log(i);
            let pos = log.iter().filter(|e| matches!(e, Ev::Step(_))).count();
            let ended = log.iter().any(|e| matches!(e, Ev::End | Ev::Dropped));
            let parked = !log.is_empty()
                && !ended
                && c.script.steps.get(pos) == Some(&Step::Gate)
                && !self.all_open
                && !self.open.contains(&(i, pos));
            ensure!(
                parked,
                if c.id.is_some() { ["C04", "C11", "C10"] } else { ["C05", "C12", "C07"] },
                "call {i} (id {:?}) is neither answered nor waiting for anything: {log:?}",
                c.id
            );
            let Some(id) = &c.id else { continue };
            ensure!(self.exit.is_none(), ["C09"], "call {i} (id {id}) survived exit: {log:?}");
            let cancelled = self.cancels.iter().any(|x| x.id == *id && x.at > c.at);
            ensure!(!cancelled, ["C10"], "call {i} (id {id}) goes on though it was cancelled: {log:?}");
            c.held = true;
        }
        for x in &self.cancels {
            ensure!(x.done.lock().unwrap().is_some(), ["C10", "C05"], "a cancellation did not return");
        }
        Ok(())
    }

    fn judge(&mut self) -> Result<(), Fail> {
        let mut ok_inits = 0;
        for (i, c) in self.calls.iter().enumerate() {
            let log = self.ctl.log(i);
            let got = c.done.lock().unwrap().clone();
            let starts = log.iter().filter(|e| **e == Ev::Start).count();
            let ended = log.contains(&Ev::End);
            let of = |t: &[&'static str], m: &str| {
                Err(Fail::new(t, format!(
                    "call {i} (id {:?}, {:?}, {:?}): {m}; got {got:?}, handler {log:?}", c.id, c.kind, c.gate
                )))
            };
            if starts > 1 {
                return of(&["C05", "C04"], "its handler ran twice");
            }
            if c.gate == Gate::Refused {
                if starts > 0 {
                    return of(&["C09"], "ran after exit");
                }
                continue;
            }
            let until = |c: &Call| c.done.lock().unwrap().as_ref().map_or(u64::MAX, |d| d.0);
            let Some((_, out)) = &got else { return of(&["C04"], "never returned") };
            let resp = match out {
                Err(_) => return of(&["C09", "C04"], "refused though called before exit"),
                Ok(None) if c.id.is_none() => {
                    // Notifications are not aborted.
                    match c.gate {
                        Gate::Closed(_) if starts > 0 => return of(&["C07"], "ran in the wrong state"),
                        Gate::Open if !ended => return of(&["C05", "C07"], "did not run to its end"),
                        _ if starts > 0 && !ended => return of(&["C05"], "did not run to its end"),
                        _ => {}
                    }
                    continue;
                }
                Ok(None) => return of(&["C04"], "no response"),
                Ok(Some(_)) if c.id.is_none() => return of(&["C04", "C05"], "a notification was answered"),
                Ok(Some(r)) => response_json(r),
            };
            let id = c.id.as_ref().unwrap();
            if resp["id"] != *id {
                return of(&["C04"], "answered under another id");
            }
            let cancellable = self.cancels.iter().any(|x| {
                x.id == *id && x.done.lock().unwrap().as_ref().map_or(true, |d| d.0 > c.at)
            }) || self.exit.is_some();
            let maybe_dup = self
                .calls
                .iter()
                .take(i)
                .any(|o| o.id == c.id && o.gate != Gate::Refused && until(o) > c.at);
            self.info.class(c.dup, "duplicate of a parked request");
            self.info.class(maybe_dup && !c.dup, "duplicate racing with the end of its request");
            let closed = match c.gate {
                Gate::Closed(x) => Some(x),
                _ => None,
            };
            let is_own = ended && matches_any(&resp, id, &[own(c)]);
            if is_own {
                if c.dup {
                    return of(&["C11"], "a duplicate was served");
                }
                if closed.is_some() {
                    return of(&["C07", "C08"], "served in the wrong state");
                }
                ok_inits += (c.kind == Kind::Init && resp.get("result").is_some()) as usize;
                continue;
            }
            let code = resp["error"]["code"].as_i64();
            match code {
                Some(x) if Some(x) == closed || c.gate == Gate::Maybe(x) => {
                    if starts > 0 {
                        return of(&["C07", "C08"], "refused, but its handler ran");
                    }
                }
                Some(-32600) if c.dup || maybe_dup => {
                    if starts > 0 {
                        return of(&["C11"], "refused as a duplicate, but its handler ran");
                    }
                }
                Some(-32800) if cancellable && closed.is_none() => {}
                Some(-32800) => return of(&["C10", "C04"], "answered as cancelled, but nobody cancelled it"),
                Some(-32600) if c.kind == Kind::Init => {
                    return of(&["C08", "C07"], "refused though nothing was initialized")
                }
                Some(-32600) if c.gate == Gate::Open => {
                    return of(&["C11", "C04", "C07"], "refused though no request with its id was in flight")
                }
                Some(-32002) => return of(&["C07"], "refused though initialized"),
                _ if ended => return of(&["C04"], "not what its handler returned"),
                _ if closed.is_some() => return of(&["C07", "C08"], "not refused as it should be"),
                _ => return of(&["C04", "C11"], "an answer nobody gave"),
            }
        }
        ensure!(ok_inits <= 1, ["C08"], "{ok_inits} initialize requests succeeded");
        self.info.nontrivial = ["cancellation races with its request", "duplicate racing with the end of its request", "exit with calls in flight"]
            .iter()
            .any(|n| self.info.classes.contains(n));
        Ok(())
    }
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub init: f64,
    pub inits: u32,
    pub cancel: u32,
    pub exit: u32,
    pub ids: u8,
}

pub fn arb_case(x: Mix, thorough: bool) -> BoxedStrategy<Case> {
    let step = prop_oneof![1 => Just(vec![Step::Gate]), 3 => (0usize..25).prop_map(|n| vec![Step::Yield; n])];
    let ret = prop_oneof![3 => arb_small().prop_map(Ret::Ok), 1 => arb_error().prop_map(Ret::Err)];
    let script = (prop::collection::vec(step, 0..3), ret)
        .prop_map(|(s, ret)| Script { steps: s.concat(), ret })
        .boxed();
    let init_script = {
        let ret = prop_oneof![
            2 => Just(Ret::Ok(json!("s"))),
            2 => arb_error().prop_map(Ret::Err),
        ];
        (script.clone(), ret).prop_map(|(s, ret)| Script { ret, ..s })
    };
    let id = 0..x.ids;
    let op = prop_oneof![
        x.inits => (id.clone(), init_script).prop_map(|(id, script)| Op::Init { id, script }),
        12 => (id.clone(), any::<bool>(), script.clone())
            .prop_map(|(id, custom, script)| Op::Req { id, custom, script }),
        2 => (any::<bool>(), script).prop_map(|(custom, script)| Op::Note { custom, script }),
        x.cancel => (0u8..4).prop_map(Op::Cancel),
        x.cancel.div_ceil(3) => id.clone().prop_map(Op::CancelId),
        6 => any::<u8>().prop_map(Op::Open),
        6 => (0u16..3000).prop_map(Op::Spin),
        1 => Just(Op::Settle),
    ];
    let n = if thorough { 200 } else { 80 };
    let end = prop_oneof![
        4 => Just(None),
        x.exit => Just(Some(Op::Exit)),
        1 => (0..x.ids).prop_map(|id| Some(Op::Shutdown { id })),
    ];
    (
        2u8..5,
        prop::bool::weighted(x.init),
        prop::collection::vec(op.clone(), 5..n),
        end,
        prop::collection::vec(op, 0..10),
    )
        .prop_map(|(workers, init, mut ops, end, after)| {
            ops.extend(end);
            ops.extend(after);
            Case { workers, init, ops }
        })
        .boxed()
}

/// An initialize request finishing while exit arrives.
pub fn arb_exit(_: bool) -> BoxedStrategy<Case> {
    let ret = prop_oneof![2 => Just(Ret::Ok(json!("s"))), 1 => arb_error().prop_map(Ret::Err)];
    let script = (0usize..10, ret).prop_map(|(n, ret)| Script { steps: vec![Step::Yield; n], ret });
    (2u8..4, 0u8..8, script, 0u16..6000, 0u16..1000)
        .prop_map(|(workers, id, script, a, b)| {
            let late = Op::Req { id: id ^ 1, custom: true, script: rig::simple(Ret::Ok(json!(1))) };
            let ops = vec![Op::Init { id, script }, Op::Spin(a), Op::Exit, Op::Spin(b), late.clone(), Op::Settle, late];
            Case { workers, init: false, ops }
        })
        .boxed()
}
