//! Tasks and handlers sending numbered messages to the client over a slow consumer (C21), and the
//! same on real threads (C13, C21).

use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{mpsc, Arc};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use futures::executor::block_on;
use futures::stream::FuturesUnordered;
use futures::{SinkExt, Stream, StreamExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::lsp_types::MessageType;
use tower_lsp::Client;

use crate::ensure;
use crate::exec::{yield_now, Exec, Sched};
use crate::fail::{Fail, Info};
use crate::front::Front;
use crate::gen::*;
use crate::io::{Act, InCtl, OutCtl};
use crate::mock::{make_request, make_response, make_server, request_json};
use crate::rig::{self, AskReq, Ev, Ret, RigCtl, Script, Step};
use crate::wire::{frame_value, parse_frames};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Starts the next task.
    Start,
    /// A request or notification whose handler runs the script.
    Handle(bool, Script),
    Open(u8),
    /// Answers the n-th request that reached the output.
    Answer(u8),
    Hold,
    Release,
    /// Lets so many messages through (stream only).
    Permit(u8),
    /// Drops the n-th running task.
    Drop(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// 0: bytes, 1: the split socket, 2: the whole socket.
    pub front: u8,
    pub acts: Vec<Act>,
    pub conc: Option<u8>,
    /// What each task sends: as the steps of a handler.
    pub tasks: Vec<Vec<Step>>,
    pub ops: Vec<Op>,
    /// Lets the settled state show after each op, or only at the end.
    pub each: bool,
    pub sched: Vec<u8>,
}

/// A stream that yields an item only when there is a permit.
struct Paced<S> {
    inner: S,
    gate: Rc<PaceGate>,
}
#[derive(Default)]
struct PaceGate {
    permits: Cell<usize>,
    waker: Cell<Option<Waker>>,
}
impl PaceGate {
    fn add(&self, n: usize) {
        self.permits.set(self.permits.get().saturating_add(n));
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
}
impl<S: Stream + Unpin> Stream for Paced<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        if self.gate.permits.get() == 0 {
            self.gate.waker.set(Some(cx.waker().clone()));
            return Poll::Pending;
        }
        let r = self.inner.poll_next_unpin(cx);
        if let Poll::Ready(Some(_)) = r {
            self.gate.permits.set(self.gate.permits.get() - 1);
        }
        r
    }
}

fn sends(s: &Step) -> bool {
    matches!(s, Step::Say | Step::Shout(_) | Step::Tele | Step::Ask)
}

/// Sends what a step sends, as sender `who`; returns the answer to a request.
async fn perform(c: &Client, who: usize, i: usize, s: &Step) -> Option<Result<Value, i64>> {
    match s {
        Step::Say => c.log_message(MessageType::INFO, format!("{who}:{i}")).await,
        Step::Shout(kb) => {
            let pad = "x".repeat(*kb as usize * 1024);
            c.log_message(MessageType::INFO, format!("{who}:{i} {pad}")).await
        }
        Step::Tele => c.telemetry_event(json!({"call": who, "step": i})).await,
        Step::Ask => {
            let r = c.send_request::<AskReq>(json!([who, i])).await;
            return Some(r.map_err(|e| e.code.code()));
        }
        Step::Yield | Step::Gate | Step::Spin(_) => yield_now().await,
    }
    None
}

/// Sender and step of a message, if it is undamaged.
fn origin(v: &Value, step: impl Fn(usize, usize) -> Option<Step>) -> Option<(usize, usize)> {
    let p = &v["params"];
    let (who, i, kind) = match v["method"].as_str()? {
        "window/logMessage" => {
            let t = p["message"].as_str()?;
            let (head, pad) = t.split_once(' ').map_or((t, None), |(h, p)| (h, Some(p)));
            let (w, i) = head.split_once(':')?;
            let kind = match pad {
                None => Step::Say,
                Some(p) => {
                    if p.len() % 1024 != 0 || p.bytes().any(|b| b != b'x') || p.len() / 1024 > 255 {
                        return None;
                    }
                    Step::Shout((p.len() / 1024) as u8)
                }
            };
            (w.parse().ok()?, i.parse().ok()?, kind)
        }
        "telemetry/event" => (p["call"].as_u64()? as usize, p["step"].as_u64()? as usize, Step::Tele),
        "x/ask" => (p[0].as_u64()? as usize, p[1].as_u64()? as usize, Step::Ask),
        _ => return None,
    };
    (step(who, i)? == kind).then_some((who, i))
}

const TASK: usize = 1000;

#[derive(Default)]
struct Ext {
    steps: Vec<Step>,
    begun: Rc<Cell<usize>>,
    done: Rc<Cell<usize>>,
    task: usize,
    dropped: bool,
}

struct Run {
    f: Front,
    ctl: RigCtl,
    client: Client,
    gate: Option<Rc<PaceGate>>,
    ext: Vec<Ext>,
    scripts: Vec<Script>,
    opened: HashSet<(usize, usize)>,
    /// Messages of each sender that came out.
    out: BTreeMap<usize, usize>,
    asks: Vec<(usize, usize, Value)>,
    info: Info,
}

pub fn run(case: &Case) -> Result<Info, Fail> {
    crate::turns::alone(history(case))
}

pub async fn history(case: &Case) -> Result<Info, Fail> {
    let ctl = RigCtl::default();
    let (service, socket, client) = rig::service(&ctl, &[]);
    let conc = case.conc.map(|n| n.max(1) as usize);
    let sched = Sched::new(&case.sched);
    let large = case.tasks.iter().flatten().any(|s| matches!(s, Step::Shout(_)))
        || case.ops.iter().any(|o| matches!(o, Op::Handle(_, s) if s.steps.iter().any(|s| matches!(s, Step::Shout(_)))));
    let acts: Vec<Act> = case
        .acts
        .iter()
        .map(|a| match a {
            Act::Take(n) if large => Act::Take(n * 64 + 500),
            a => *a,
        })
        .collect();
    let (f, gate) = match case.front % 3 {
        0 => (Front::wire(service, socket, conc, sched, &acts), None),
        k => {
            let gate = Rc::new(PaceGate::default());
            gate.add(usize::MAX / 2);
            let g = gate.clone();
            let f = if k == 1 {
                let (stream, sink) = socket.split();
                Front::parts(service, Paced { inner: stream, gate: g }, sink, sched)
            } else {
                let (sink, stream) = StreamExt::split(socket);
                Front::parts(service, Paced { inner: stream, gate: g }, sink, sched)
            };
            (f, Some(gate))
        }
    };
    let mut r = Run {
        f,
        ctl,
        client,
        gate,
        ext: case
            .tasks
            .iter()
            .map(|s| Ext { steps: s.clone(), ..Ext::default() })
            .collect(),
        scripts: vec![],
        opened: HashSet::new(),
        out: BTreeMap::new(),
        asks: vec![],
        info: Info::default(),
    };
    let p = rig::init_params(&rig::simple(Ret::Ok(json!("s"))), 1 << 40);
    r.f.send(&request_value("initialize", Some(json!("init")), Some(p)))?;
    let got = r.f.run()?;
    if !r.blocked() {
        ensure!(got.len() == 1 && got[0].get("result").is_some(), ["C07", "C21"], "initialize: {got:?}");
    }
    let mut started = 0;
    for op in &case.ops {
        crate::turns::pause().await;
        match op {
            Op::Start => {
                if started < r.ext.len() {
                    r.start(started);
                    started += 1;
                }
            }
            Op::Handle(req, s) => {
                if r.scripts.len() < 80 {
                    let n = r.scripts.len();
                    let mut s = s.clone();
                    s.ret = Ret::Ok(Value::Null);
                    let v = request_value(
                        if *req { "x/req" } else { "x/note" },
                        req.then(|| json!(n)),
                        Some(s.params(n)),
                    );
                    r.scripts.push(s);
                    r.f.send(&v)?;
                }
            }
            Op::Open(k) => {
                let g = r.waiting();
                if !g.is_empty() {
                    r.open(g[*k as usize % g.len()]);
                }
            }
            Op::Answer(k) => {
                if !r.asks.is_empty() {
                    r.answer(*k as usize % r.asks.len())?;
                }
            }
            Op::Hold => match &r.gate {
                Some(g) => g.permits.set(0),
                None => r.f.out().unwrap().hold(),
            },
            Op::Release => r.release(),
            Op::Permit(n) => {
                if let Some(g) = &r.gate {
                    if g.permits.get() < 1000 {
                        g.add(*n as usize);
                    }
                }
            }
            Op::Drop(k) => {
                let live: Vec<usize> = (0..started)
                    .filter(|i| !r.ext[*i].dropped && !r.f.exec.is_done(r.ext[*i].task))
                    .collect();
                if !live.is_empty() {
                    let e = &mut r.ext[live[*k as usize % live.len()]];
                    e.dropped = true;
                    r.f.exec.kill(e.task);
                    r.info.class(true, "task dropped");
                }
            }
        }
        if case.each {
            r.settle()?;
        }
    }
    while started < r.ext.len() {
        r.start(started);
        started += 1;
    }
    r.settle()?;
    loop {
        if r.blocked() {
            r.release();
        } else if let Some(g) = r.waiting().last() {
            r.open(*g);
        } else if !r.asks.is_empty() {
            r.answer(r.asks.len() - 1)?;
        } else {
            break;
        }
        r.settle()?;
    }
    for (k, e) in r.ext.iter().enumerate() {
        ensure!(
            e.dropped || r.f.exec.is_done(e.task),
            ["C21"],
            "task {k} is stuck in its message {} of {:?}",
            e.begun.get(),
            e.steps
        );
    }
    for (i, s) in r.scripts.iter().enumerate() {
        let log = r.ctl.log(i);
        ensure!(log.contains(&Ev::End), ["C21", "C12"], "handler {i} is stuck: {log:?} of {:?}", s.steps);
    }
    Ok(r.info)
}

impl Run {
    fn start(&mut self, k: usize) {
        let e = &mut self.ext[k];
        let (c, steps, begun, done) =
            (self.client.clone(), e.steps.clone(), e.begun.clone(), e.done.clone());
        e.task = self.f.exec.spawn(async move {
            for (i, s) in steps.iter().enumerate() {
                begun.set(i + 1);
                perform(&c, TASK + k, i, s).await;
                done.set(i + 1);
            }
        });
    }
    fn blocked(&self) -> bool {
        match &self.gate {
            Some(g) => g.permits.get() == 0,
            None => self.f.out().unwrap().is_blocked(),
        }
    }
    fn release(&mut self) {
        match &self.gate {
            Some(g) => g.add(usize::MAX / 2),
            None => self.f.out().unwrap().release(),
        }
    }
    fn waiting(&self) -> Vec<(usize, usize)> {
        let at = |i: usize| {
            let log = self.ctl.log(i);
            let pos = log.iter().filter(|e| matches!(e, Ev::Step(_))).count();
            (!log.is_empty() && !log.contains(&Ev::End)).then_some((i, pos))
        };
        (0..self.scripts.len())
            .filter_map(at)
            .filter(|g| self.scripts[g.0].steps.get(g.1) == Some(&Step::Gate) && !self.opened.contains(g))
            .collect()
    }
    fn open(&mut self, g: (usize, usize)) {
        self.opened.insert(g);
        self.ctl.open(g.0, g.1);
    }
    fn answer(&mut self, n: usize) -> Result<(), Fail> {
        let (.., id) = self.asks.remove(n);
        self.f.send(&ok_value(id, json!("answer")))
    }
    fn steps(&self, who: usize) -> Option<&Vec<Step>> {
        match who.checked_sub(TASK) {
            Some(k) => self.ext.get(k).map(|e| &e.steps),
            None => self.scripts.get(who).map(|s| &s.steps),
        }
    }

    fn settle(&mut self) -> Result<(), Fail> {
        let got = self.f.run()?;
        let mut last = None;
        for v in got {
            if v.get("method").is_none() {
                continue;
            }
            let Some((who, i)) = origin(&v, |w, i| self.steps(w)?.get(i).cloned()) else {
                return Err(Fail::new(&["C21", "C15"], format!("a message nobody sent: {v}")));
            };
            self.info.class(last.map_or(false, |l| l != who), "senders interleave");
            last = Some(who);
            let steps = self.steps(who).unwrap();
            let n = self.out.get(&who).copied().unwrap_or(0);
            // The next message of this sender.
            let due = (n..steps.len()).find(|j| sends(&steps[*j]));
            ensure!(
                due == Some(i),
                ["C21"],
                "message {i} of sender {who} came out when {due:?} was next ({steps:?})"
            );
            self.out.insert(who, i + 1);
            if v["method"] == "x/ask" {
                self.asks.push((who, i, v["id"].clone()));
            }
        }
        // How far each sender got.
        let free = !self.blocked();
        let mut parked = 0;
        let reach: Vec<(usize, usize, usize)> = self
            .ext
            .iter()
            .enumerate()
            .map(|(k, e)| (TASK + k, if e.dropped || !free { e.done.get() } else { e.begun.get() }, e.begun.get()))
            .chain((0..self.scripts.len()).map(|i| {
                let log = self.ctl.log(i);
                let pos = log.iter().filter(|e| matches!(e, Ev::Step(_))).count();
                let running = !log.is_empty() && !log.contains(&Ev::End);
                let max = pos + running as usize;
                (i, if free { max } else { pos }, max)
            }))
            .collect();
        for (who, min, max) in reach {
            let steps = self.steps(who).unwrap();
            let upto = |n: usize| (0..n.min(steps.len())).rev().find(|j| sends(&steps[*j])).map_or(0, |j| j + 1);
            let got = self.out.get(&who).copied().unwrap_or(0);
            let low = if free { upto(min) } else { 0 };
            parked += (max > min && steps.get(max - 1).map_or(false, sends)) as usize;
            ensure!(
                got <= upto(max),
                ["C21"],
                "sender {who} got to step {max} but its message {got} is out"
            );
            ensure!(
                got >= low,
                ["C21"],
                "sender {who} sent its messages up to step {min}, but those after step {got} did not come out ({steps:?})"
            );
        }
        self.info.class(!free && parked > 0, "a sender waits for the output");
        self.info.class(!free && parked > 1, "several senders wait for the output");
        Ok(())
    }
}

fn arb_steps(n: usize) -> BoxedStrategy<Vec<Step>> {
    prop::collection::vec(
        prop_oneof![
            5 => Just(Step::Say),
            2 => Just(Step::Tele),
            2 => Just(Step::Ask),
            1 => Just(Step::Yield),
            1 => proptest::sample::select(vec![9u8, 9, 9, 140]).prop_map(Step::Shout),
        ],
        1..n,
    )
    .boxed()
}

pub fn arb_case(thorough: bool) -> BoxedStrategy<Case> {
    let act = prop_oneof![3 => (1u32..80).prop_map(Act::Take), 1 => Just(Act::Pend), 1 => Just(Act::Block)];
    let acts = prop_oneof![
        2 => Just(vec![]),
        1 => prop::collection::vec(act.clone(), 0..8),
        1 => (prop::collection::vec(act, 0..4), 1u32..40).prop_map(|(mut v, n)| {
            v.push(Act::Take(n));
            v
        }),
    ];
    let script = (arb_steps(6), prop::collection::vec(any::<u8>(), 0..2)).prop_map(|(mut steps, gates)| {
        for g in gates {
            steps.insert(g as usize % (steps.len() + 1), Step::Gate);
        }
        Script { steps, ret: Ret::Ok(Value::Null) }
    });
    let op = prop_oneof![
        4 => Just(Op::Start),
        4 => (any::<bool>(), script).prop_map(|(r, s)| Op::Handle(r, s)),
        3 => any::<u8>().prop_map(Op::Open),
        5 => any::<u8>().prop_map(Op::Answer),
        3 => Just(Op::Hold),
        2 => Just(Op::Release),
        3 => (1u8..5).prop_map(Op::Permit),
        1 => any::<u8>().prop_map(Op::Drop),
    ];
    let n = if thorough { 40 } else { 16 };
    (
        proptest::sample::select(vec![0u8, 0, 0, 1, 2]),
        acts,
        prop_oneof![1 => Just(None), 2 => (1u8..8).prop_map(Some)],
        prop::collection::vec(arb_steps(9), 1..6),
        prop::collection::vec(op, 2..n),
        prop::bool::weighted(0.8),
        prop::collection::vec(any::<u8>(), 0..14),
    )
        .prop_map(|(front, acts, conc, tasks, ops, each, sched)| Case {
            front, acts, conc, tasks, ops, each, sched,
        })
        .boxed()
}

// ---- real threads ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads {
    /// Through a running server rather than the split socket.
    pub wire: bool,
    pub acts: Vec<Act>,
    pub tasks: Vec<Vec<Step>>,
    /// How often each thread repeats its steps.
    pub rounds: u8,
    /// Requests answered together, shuffled.
    pub batch: u8,
    pub seed: u64,
}

pub fn arb_threads(_: bool) -> BoxedStrategy<Threads> {
    let steps = prop::collection::vec(
        prop_oneof![3 => Just(Step::Say), 1 => Just(Step::Tele), 3 => Just(Step::Ask)],
        1..8,
    );
    (
        any::<bool>(),
        prop::collection::vec(prop_oneof![(1u32..200).prop_map(Act::Take), Just(Act::Pend)], 0..4),
        prop::collection::vec(steps, 2..6),
        1u8..12,
        1u8..5,
        any::<u64>(),
    )
        .prop_map(|(wire, acts, tasks, rounds, batch, seed)| Threads { wire, acts, tasks, rounds, batch, seed })
        .boxed()
}

/// Idle rounds of a waiting loop (each sleeps at least 30 us) after which nothing more will happen.
const PATIENCE: u32 = 200_000;

/// As `recv_timeout`, giving up after at least twenty seconds during which this thread kept running.
fn wait<T>(rx: &mpsc::Receiver<T>) -> Result<T, mpsc::RecvTimeoutError> {
    for _ in 0..2000 {
        match rx.recv_timeout(Duration::from_millis(10)) {
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            other => return other,
        }
    }
    Err(mpsc::RecvTimeoutError::Timeout)
}

/// Collects what comes out, and answers requests in batches, in shuffled order.
struct Peer {
    want: usize,
    got: Vec<Value>,
    open: Vec<Value>,
    batch: usize,
    rng: u64,
}
impl Peer {
    fn rand(&mut self) -> usize {
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.rng >> 33) as usize
    }
    fn take(&mut self, v: Value) {
        if v["method"] == "x/ask" {
            self.open.push(v.clone());
        }
        self.got.push(v);
    }
    /// Responses due now.
    fn replies(&mut self, idle: bool) -> Vec<Value> {
        if self.open.is_empty() || (self.open.len() < self.batch && !idle) {
            return vec![];
        }
        let mut out = vec![];
        while !self.open.is_empty() {
            let n = self.rand() % self.open.len();
            let v = self.open.swap_remove(n);
            out.push(ok_value(v["id"].clone(), json!({ "echo": v["params"] })));
            if self.rand() % 8 == 0 {
                out.push(ok_value(json!(format!("stray {n}")), json!("stray")));
            }
        }
        out
    }
}

pub fn run_threads(c: &Threads) -> Result<Info, Fail> {
    let mut info = Info::default();
    let ctl = RigCtl::default();
    let (mut service, socket, client) = rig::service(&ctl, &[]);
    let steps: Vec<Vec<Step>> = c
        .tasks
        .iter()
        .map(|t| t.iter().cycle().take(t.len() * c.rounds as usize).cloned().collect())
        .collect();
    let total: usize = steps.iter().map(|s| s.iter().filter(|s| sends(s)).count()).sum();
    let mut peer =
        Peer { want: total, got: vec![], open: vec![], batch: c.batch as usize, rng: c.seed };
    let init = request_value(
        "initialize",
        Some(json!("init")),
        Some(rig::init_params(&rig::simple(Ret::Ok(json!("s"))), 1 << 40)),
    );
    // Senders report (thread, first wrong answer).
    let (tx, rx) = mpsc::channel::<(usize, Option<String>)>();
    let start = |tx: mpsc::Sender<(usize, Option<String>)>| {
        for (k, steps) in steps.iter().enumerate() {
            let (client, steps, tx) = (client.clone(), steps.clone(), tx.clone());
            std::thread::spawn(move || {
                let mut wrong = None;
                block_on(async {
                    for (i, s) in steps.iter().enumerate() {
                        if let Some(r) = perform(&client, TASK + k, i, s).await {
                            if r != Ok(json!({ "echo": [TASK + k, i] })) && wrong.is_none() {
                                wrong = Some(format!("request {i} of thread {k} got {r:?}"));
                            }
                        }
                    }
                });
                let _ = tx.send((k, wrong));
            });
        }
    };
    let stuck = |peer: &Peer| {
        Fail::new(
            &["C13", "C21"],
            format!("no progress: {} of {} messages came out", peer.got.len(), peer.want),
        )
    };
    if c.wire {
        let (input, stdin) = InCtl::new();
        let (out, stdout) = OutCtl::new(&c.acts, true);
        let (done_tx, done) = mpsc::channel();
        std::thread::spawn(move || {
            block_on(make_server(stdin, stdout, socket, None).serve(service));
            let _ = done_tx.send(());
        });
        input.data(frame_value(&init));
        let mut seen = 0;
        let mut inited = false;
        let mut quiet = 0;
        while peer.got.len() < total || !peer.open.is_empty() {
            let b = out.written();
            let (frames, rest) =
                parse_frames(&b[seen..]).map_err(|e| Fail::new(&["C02", "C21"], format!("bad output: {e}")))?;
            seen = b.len() - rest.len();
            let idle = frames.is_empty();
            for v in frames {
                if v.get("method").is_some() {
                    peer.take(v);
                } else if !inited {
                    inited = true;
                    start(tx.clone());
                }
            }
            let replies = peer.replies(idle);
            for r in &replies {
                input.data(frame_value(r));
            }
            if !idle || !replies.is_empty() {
                quiet = 0;
            } else if quiet > PATIENCE {
                return Err(stuck(&peer));
            } else {
                quiet += 1;
                std::thread::sleep(Duration::from_micros(30));
            }
        }
        finish(&steps, &rx, &mut peer)?;
        input.eof();
        if wait(&done).is_err() {
            return Err(Fail::new(&["C17", "C21"], "the server did not return"));
        }
        let b = out.written();
        let (frames, _) = parse_frames(&b[seen..]).map_err(|e| Fail::new(&["C02"], e))?;
        ensure!(frames.is_empty(), ["C21"], "messages nobody sent: {frames:?}");
    } else {
        let got = block_on(service.call(make_request(&init)));
        ensure!(matches!(got, Ok(Some(_))), ["C07", "C13", "C21"], "initialize failed");
        let (mut stream, mut sink) = socket.split();
        let (out_tx, out_rx) = mpsc::channel();
        std::thread::spawn(move || {
            block_on(async {
                while let Some(r) = stream.next().await {
                    let _ = out_tx.send(request_json(&r));
                }
            })
        });
        start(tx.clone());
        let mut quiet = 0;
        while peer.got.len() < total || !peer.open.is_empty() {
            let next = out_rx.recv_timeout(Duration::from_micros(200)).ok();
            let idle = next.is_none();
            if let Some(v) = next {
                peer.take(v);
            }
            let replies = peer.replies(idle);
            for r in &replies {
                let _ = block_on(sink.send(make_response(r)));
            }
            if !idle || !replies.is_empty() {
                quiet = 0;
            } else if quiet > PATIENCE / 3 {
                return Err(stuck(&peer));
            } else {
                quiet += 1;
            }
        }
        finish(&steps, &rx, &mut peer)?;
        let _ = block_on(service.call(make_request(&request_value("exit", None, None))));
        match wait(&out_rx) {
            Err(mpsc::RecvTimeoutError::Disconnected) => {}
            Ok(v) => return Err(Fail::new(&["C21"], format!("a message nobody sent: {v}"))),
            Err(_) => return Err(Fail::new(&["C09", "C21"], "the client stream did not end after exit")),
        }
    }
    let mut order: Vec<usize> = vec![];
    for v in &peer.got {
        if let Some((w, _)) = origin(v, |w, i| steps.get(w - TASK)?.get(i).cloned()) {
            if order.last() != Some(&w) {
                order.push(w);
            }
        }
    }
    info.class(c.wire, "through the server");
    info.class(!c.wire, "split socket");
    info.class(steps.iter().flatten().any(|s| *s == Step::Ask), "requests");
    info.class(order.len() > steps.len(), "senders interleave");
    info.nontrivial = order.len() > steps.len();
    Ok(info)
}

/// Waits for the senders and checks what came out.
fn finish(steps: &[Vec<Step>], rx: &mpsc::Receiver<(usize, Option<String>)>, peer: &mut Peer) -> Result<(), Fail> {
    for _ in 0..steps.len() {
        match wait(rx) {
            Ok((_, Some(wrong))) => return Err(Fail::new(&["C13"], wrong)),
            Ok(_) => {}
            Err(_) => {
                return Err(Fail::new(&["C13", "C21"], "a sender did not finish though everything was taken and answered"))
            }
        }
    }
    let mut next: HashMap<usize, usize> = HashMap::new();
    let mut ids = HashSet::new();
    for v in &peer.got {
        let Some((who, i)) = origin(v, |w, i| steps.get(w.checked_sub(TASK)?)?.get(i).cloned()) else {
            return Err(Fail::new(&["C21"], format!("a message nobody sent: {v}")));
        };
        let n = next.entry(who).or_default();
        ensure!(i >= *n, ["C21"], "message {i} of thread {who} came out after message {}", *n - 1);
        *n = i + 1;
        if let Some(id) = v.get("id") {
            ensure!(ids.insert(id.to_string()), ["C13"], "two requests carry the id {id}");
        }
    }
    Ok(())
}

// ---- many open requests ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    pub n: u32,
    pub seed: u64,
    /// Answers the first ones before sending the rest.
    pub early: u32,
}

pub fn arb_many(thorough: bool) -> BoxedStrategy<Many> {
    let max = if thorough { 400_000u32 } else { 70_000 };
    let n = prop_oneof![1 => 200u32..400, 1 => 1_000u32..10_000, 3 => 65_600..max];
    (n, any::<u64>(), 0u32..300).prop_map(|(n, seed, early)| Many { n, seed, early }).boxed()
}

pub fn run_many(c: &Many) -> Result<Info, Fail> {
    let ctl = RigCtl::default();
    let (mut service, socket, client) = rig::service(&ctl, &[]);
    let init = request_value(
        "initialize",
        Some(json!("init")),
        Some(rig::init_params(&rig::simple(Ret::Ok(json!("s"))), 1 << 40)),
    );
    let got = block_on(service.call(make_request(&init)));
    ensure!(matches!(got, Ok(Some(_))), ["C07", "C13"], "initialize failed");
    let (mut stream, mut sink) = socket.split();
    let mut exec = Exec::default();
    let (n, early) = (c.n, c.early.min(c.n));
    let answers: Rc<std::cell::RefCell<Vec<(u32, Result<Value, i64>)>>> = Rc::default();
    let asks: Rc<std::cell::RefCell<Vec<Value>>> = Rc::default();
    let a2 = asks.clone();
    exec.spawn(async move {
        while let Some(r) = stream.next().await {
            a2.borrow_mut().push(request_json(&r));
        }
    });
    let mut rng = c.seed | 1;
    let mut rand = move || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng as usize
    };
    let mut ids = HashSet::new();
    for (from, to) in [(0, early), (early, n)] {
        let (c2, a2) = (client.clone(), answers.clone());
        let task = exec.spawn(async move {
            let mut all: FuturesUnordered<_> = (from..to)
                .map(|i| {
                    let c = c2.clone();
                    async move { (i, c.send_request::<AskReq>(json!(i)).await.map_err(|e| e.code.code())) }
                })
                .collect();
            while let Some(r) = all.next().await {
                a2.borrow_mut().push(r);
            }
        });
        exec.run()?;
        let mut open: Vec<Value> = asks.borrow_mut().drain(..).collect();
        ensure!(open.len() == (to - from) as usize, ["C13", "C21"], "{} requests came out of {}", open.len(), to - from);
        for v in &open {
            let id = &v["id"];
            ensure!(id.is_number() || id.is_string(), ["C13"], "a request with the id {id}");
            ensure!(ids.insert(id.to_string()), ["C13"], "request {} re-uses the id {id} (open or answered)", v["params"]);
        }
        for i in (1..open.len()).rev() {
            open.swap(i, rand() % (i + 1));
        }
        for v in open {
            let _ = block_on(sink.send(make_response(&ok_value(v["id"].clone(), json!([v["params"]])))));
        }
        exec.run()?;
        ensure!(exec.is_done(task), ["C13"], "not all requests were answered");
        for (i, r) in answers.borrow_mut().drain(..) {
            ensure!(r == Ok(json!([i])), ["C13"], "request {i} got {r:?}");
        }
    }
    let mut info = Info { nontrivial: true, ..Info::default() };
    info.class(n > 65_536, "over 65,536 requests open");
    info.class(n > 256 && n <= 65_536, "over 256 requests open");
    Ok(info)
}

// ---- exit while threads send ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExitThreads {
    pub threads: u8,
    pub each: u8,
    /// Messages taken before the reader slows down.
    pub taken: u8,
    pub slow: bool,
    pub spin: u16,
    /// The socket is polled as a whole, not its stream half.
    pub unsplit: bool,
}

pub fn arb_exit_threads(_: bool) -> BoxedStrategy<ExitThreads> {
    (2u8..5, 1u8..40, 0u8..60, any::<bool>(), prop_oneof![1 => Just(0u16), 3 => 0u16..20_000], any::<bool>())
        .prop_map(|(threads, each, taken, slow, spin, unsplit)| ExitThreads {
            threads, each, taken, slow, spin, unsplit,
        })
        .boxed()
}

pub fn run_exit_threads(c: &ExitThreads) -> Result<Info, Fail> {
    let mut info = Info::default();
    let ctl = RigCtl::default();
    let (mut service, socket, client) = rig::service(&ctl, &[]);
    let init = request_value(
        "initialize",
        Some(json!("init")),
        Some(rig::init_params(&rig::simple(Ret::Ok(json!("s"))), 1 << 40)),
    );
    let got = block_on(service.call(make_request(&init)));
    ensure!(matches!(got, Ok(Some(_))), ["C07", "C09", "C14"], "initialize failed");
    let (tx, rx) = mpsc::channel::<Option<Value>>();
    let (taken, slow) = (c.taken as usize, c.slow);
    // The reader keeps its end until the senders have returned.
    let (_keep_tx, keep) = mpsc::channel::<()>();
    let unsplit = c.unsplit;
    std::thread::spawn(move || {
        let read = |stream: &mut (dyn futures::Stream<Item = tower_lsp::jsonrpc::Request> + Unpin)| {
            let mut n = 0;
            while let Some(r) = block_on(stream.next()) {
                let _ = tx.send(Some(request_json(&r)));
                n += 1;
                if slow && n > taken {
                    (0..2000).for_each(|_| std::hint::spin_loop());
                }
            }
            // It stays ended.
            let more = block_on(stream.next());
            let _ = tx.send(more.map(|r| request_json(&r)));
            let _ = keep.recv();
        };
        if unsplit {
            let mut socket = socket;
            read(&mut socket);
        } else {
            let (mut stream, _sink) = socket.split();
            read(&mut stream);
        }
    });
    let (done_tx, done) = mpsc::channel();
    let sent = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    for t in 0..c.threads {
        let (client, each, done, sent) = (client.clone(), c.each, done_tx.clone(), sent.clone());
        std::thread::spawn(move || {
            block_on(async {
                for i in 0..each {
                    client.log_message(MessageType::INFO, format!("{t}:{i}")).await;
                    sent.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
            });
            let _ = done.send(());
        });
    }
    (0..c.spin).for_each(|_| std::hint::spin_loop());
    let before = sent.load(std::sync::atomic::Ordering::SeqCst);
    let got = block_on(service.call(make_request(&request_value("exit", None, None))));
    ensure!(matches!(got, Ok(None)), ["C09"], "exit was answered {got:?}");
    let mut next = vec![0u64; c.threads as usize];
    let mut out = 0;
    loop {
        match wait(&rx) {
            Ok(Some(v)) => {
                let text = v["params"]["message"].as_str().unwrap_or("?").to_string();
                let (t, i) = text.split_once(':').unwrap_or(("?", "?"));
                let t = t.parse::<usize>().ok().filter(|t| *t < next.len());
                let (Some(t), Ok(i)) = (t, i.parse::<u64>()) else {
                    return Err(Fail::new(&["C21", "C09"], format!("a message nobody sent: {v}")));
                };
                ensure!(i == next[t], ["C21"], "message {i} of thread {t} came out when {} was due", next[t]);
                next[t] += 1;
                out += 1;
            }
            Ok(None) => break,
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => return Err(Fail::new(&["C09", "C14"], "the client stream did not end after exit")),
        }
    }
    for _ in 0..c.threads {
        ensure!(wait(&done).is_ok(), ["C09", "C14", "C21"], "a sender did not return though the server has exited");
    }
    let all = c.threads as usize * c.each as usize;
    info.class(before > 0 && before < all, "exit among the messages");
    info.class(out < all, "messages cut off");
    info.nontrivial = before > 0 && before < all;
    Ok(info)
}
