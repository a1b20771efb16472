//! C23: any service and any loopback, driven by their contracts.

use std::collections::{BTreeSet, VecDeque};
use std::fmt;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use futures::future::BoxFuture;
use futures::{Sink, Stream};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Request, Response};
use tower_lsp::Loopback;

use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::{yield_now, Exec, Sched};
use crate::fail::{Fail, Info, Res};
use crate::gen::filler;
use crate::io::{Act, InCtl, OutCtl};
use crate::mock::{make_request, make_response, make_server, request_json, response_json};
use crate::wire::{frame, frame_value, multiset_diff, parse_all};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Ready {
    Now,
    /// Not ready this many times, waking at once.
    Pend(u8),
    /// Not ready until the driver says so.
    Gate,
    Fail,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Outcome {
    Reply(u32),
    Nothing,
    /// A service error with this many sources.
    Fail(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum SinkFail {
    No,
    Ready,
    Send,
    Flush,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Msg {
    /// A request or notification.
    Req { request: bool, ready: Ready, yields: u8, gated: bool, out: Outcome },
    /// A response of the client.
    Resp { ready: Ready, fail: SinkFail },
    /// A body which is not a message.
    Bad { json: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Feed(Vec<Msg>),
    /// Lets the call or response which waits for readiness proceed.
    MakeReady,
    /// Lets the n-th running gated call finish.
    Finish(u8),
    FinishAll,
    ClientSend(u8),
    CloseClient,
    Eof,
    Spurious,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    conc: u8,
    ops: Vec<Op>,
    out: Vec<Act>,
}

#[derive(Debug)]
struct Nested(u8, Option<Box<Nested>>);
impl Nested {
    fn new(n: u8) -> Nested {
        Nested(n, (n > 0).then(|| Box::new(Nested::new(n - 1))))
    }
}
impl fmt::Display for Nested {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "service error {}", self.0)
    }
}
impl std::error::Error for Nested {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|e| &**e as _)
    }
}

#[derive(Default)]
struct State {
    /// One entry per request or notification fed.
    calls: Vec<(Ready, u8, bool, Outcome)>,
    /// One entry per response fed.
    resps: Vec<(Ready, SinkFail)>,
    called: usize,
    sunk: usize,
    /// Calls and responses for which the gate of readiness is open.
    call_ready: BTreeSet<usize>,
    sink_ready: BTreeSet<usize>,
    permit: bool,
    broken: bool,
    sink_permit: bool,
    sink_broken: bool,
    /// Everything handed over, in order.
    log: Vec<Value>,
    started: Vec<usize>,
    finished: BTreeSet<usize>,
    dropped: BTreeSet<usize>,
    open: BTreeSet<usize>,
    client: VecDeque<Value>,
    client_closed: bool,
    client_ended: bool,
    wakers: Vec<Waker>,
    violations: Vec<String>,
}

type Shared = Arc<Mutex<State>>;

fn wake(s: &Shared) {
    let ws = std::mem::take(&mut s.lock().unwrap().wakers);
    ws.into_iter().for_each(Waker::wake);
}

struct Strict(Shared);
struct StrictLoop(Shared);
struct StrictStream(Shared);
struct StrictSink(Shared);

/// Readiness of entry `i`, given what it still has to wait for.
fn readiness(r: &mut Ready, open: bool, cx: &mut Context<'_>, wakers: &mut Vec<Waker>) -> Poll<bool> {
    match r {
        Ready::Now => Poll::Ready(true),
        Ready::Fail => Poll::Ready(false),
        Ready::Pend(0) => Poll::Ready(true),
        Ready::Pend(n) => {
            *n -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
        Ready::Gate if open => Poll::Ready(true),
        Ready::Gate => {
            wakers.push(cx.waker().clone());
            Poll::Pending
        }
    }
}

impl Service<Request> for Strict {
    type Response = Option<Response>;
    type Error = Nested;
    type Future = BoxFuture<'static, Result<Option<Response>, Nested>>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Nested>> {
        let mut s = self.0.lock().unwrap();
        let s = &mut *s;
        if s.broken {
            s.violations.push("poll_ready was called after the service had failed".into());
            return Poll::Ready(Err(Nested::new(1)));
        }
        let i = s.called;
        let open = s.call_ready.contains(&i);
        let r = match s.calls.get_mut(i) {
            Some(c) => readiness(&mut c.0, open, cx, &mut s.wakers),
            None => Poll::Ready(true),
        };
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(true) => {
                s.permit = true;
                Poll::Ready(Ok(()))
            }
            Poll::Ready(false) => {
                s.broken = true;
                Poll::Ready(Err(Nested::new(2)))
            }
        }
    }

    fn call(&mut self, req: Request) -> Self::Future {
        let shared = self.0.clone();
        let mut s = self.0.lock().unwrap();
        if s.broken {
            s.violations.push("the service was called after it had failed".into());
        } else if !s.permit {
            s.violations.push("the service was called although it was not ready".into());
        }
        s.permit = false;
        s.log.push(request_json(&req));
        let i = s.called;
        s.called += 1;
        let (_, yields, gated, out) = s.calls.get(i).cloned().unwrap_or((Ready::Now, 0, false, Outcome::Nothing));
        drop(s);
        Box::pin(async move {
            shared.lock().unwrap().started.push(i);
            let guard = Dropped(shared.clone(), i);
            for _ in 0..yields {
                yield_now().await;
            }
            if gated {
                futures::future::poll_fn(|cx| {
                    let mut s = shared.lock().unwrap();
                    if s.open.contains(&i) {
                        Poll::Ready(())
                    } else {
                        s.wakers.push(cx.waker().clone());
                        Poll::Pending
                    }
                })
                .await;
            }
            shared.lock().unwrap().finished.insert(i);
            drop(guard);
            match out {
                Outcome::Reply(n) => Ok(Some(make_response(&reply(i, n)))),
                Outcome::Nothing => Ok(None),
                Outcome::Fail(n) => Err(Nested::new(n)),
            }
        })
    }
}

struct Dropped(Shared, usize);
impl Drop for Dropped {
    fn drop(&mut self) {
        let mut s = self.0.lock().unwrap();
        if !s.finished.contains(&self.1) {
            s.dropped.insert(self.1);
        }
    }
}

fn reply(i: usize, n: u32) -> Value {
    json!({"jsonrpc": "2.0", "id": i, "result": {"call": i, "text": filler(n)}})
}

impl Loopback for StrictLoop {
    type RequestStream = StrictStream;
    type ResponseSink = StrictSink;
    fn split(self) -> (StrictStream, StrictSink) {
        (StrictStream(self.0.clone()), StrictSink(self.0))
    }
}

impl Stream for StrictStream {
    type Item = Request;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Request>> {
        let mut s = self.0.lock().unwrap();
        if s.client_ended {
            s.violations.push("the stream of client messages was polled after its end".into());
            return Poll::Ready(None);
        }
        match s.client.pop_front() {
            Some(v) => Poll::Ready(Some(make_request(&v))),
            None if s.client_closed => {
                s.client_ended = true;
                Poll::Ready(None)
            }
            None => {
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Sink<Response> for StrictSink {
    type Error = Nested;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Nested>> {
        let mut s = self.0.lock().unwrap();
        let s = &mut *s;
        if s.sink_broken {
            s.violations.push("the sink of responses was used after it had failed".into());
            return Poll::Ready(Err(Nested::new(0)));
        }
        let i = s.sunk;
        let open = s.sink_ready.contains(&i);
        let r = match s.resps.get_mut(i) {
            Some((_, SinkFail::Ready)) => Poll::Ready(false),
            Some((r, _)) => readiness(r, open, cx, &mut s.wakers),
            None => Poll::Ready(true),
        };
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(true) => {
                s.sink_permit = true;
                Poll::Ready(Ok(()))
            }
            Poll::Ready(false) => {
                s.sink_broken = true;
                Poll::Ready(Err(Nested::new(1)))
            }
        }
    }
    fn start_send(self: Pin<&mut Self>, r: Response) -> Result<(), Nested> {
        let mut s = self.0.lock().unwrap();
        if !s.sink_permit || s.sink_broken {
            s.violations.push("a response was sent although the sink was not ready".into());
        }
        s.sink_permit = false;
        let i = s.sunk;
        if let Some((_, SinkFail::Send)) = s.resps.get(i) {
            s.sink_broken = true;
            return Err(Nested::new(0));
        }
        s.sunk += 1;
        s.log.push(response_json(&r));
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Nested>> {
        let mut s = self.0.lock().unwrap();
        if s.sunk > 0 && s.resps.get(s.sunk - 1).map(|r| r.1) == Some(SinkFail::Flush) {
            s.sink_broken = true;
            return Poll::Ready(Err(Nested::new(3)));
        }
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Nested>> {
        Poll::Ready(Ok(()))
    }
}

/// What has to have happened.
#[derive(Default)]
struct Model {
    conc: usize,
    queue: VecDeque<(Msg, usize)>,
    eof: bool,
    ended: bool,
    log: Vec<Value>,
    /// (gated, outcome, finished) of each accepted call.
    accepted: Vec<(bool, Outcome, bool)>,
    started: usize,
    out: Vec<Value>,
    call_ready: BTreeSet<usize>,
    sink_ready: BTreeSet<usize>,
    open: BTreeSet<usize>,
    /// The call (true) or response waiting for readiness.
    waiting: Option<(bool, usize)>,
    client: VecDeque<Value>,
    late: bool,
    cut: bool,
}

fn wire_msg(m: &Msg, i: usize) -> Value {
    match m {
        Msg::Req { request: true, .. } => json!({"jsonrpc": "2.0", "method": "any/request", "params": [i], "id": format!("r{i}")}),
        Msg::Req { .. } => json!({"jsonrpc": "2.0", "method": "any/notification", "params": {"n": i}}),
        _ => json!({"jsonrpc": "2.0", "id": i, "result": {"answer": i}}),
    }
}

impl Model {
    fn step(&mut self) {
        self.waiting = None;
        while !self.ended {
            let Some((m, i)) = self.queue.front().cloned() else {
                self.ended = self.eof;
                break;
            };
            match &m {
                Msg::Req { ready, gated, out, .. } => match ready {
                    Ready::Fail => {
                        self.ended = true;
                        self.cut = true;
                    }
                    Ready::Gate if !self.call_ready.contains(&i) => {
                        self.waiting = Some((true, i));
                        self.late = true;
                        break;
                    }
                    _ => {
                        self.log.push(wire_msg(&m, i));
                        self.accepted.push((*gated, *out, false));
                    }
                },
                Msg::Resp { ready, fail } => {
                    match fail {
                        SinkFail::Ready => {
                            self.ended = true;
                            self.cut = true;
                        }
                        _ if *ready == Ready::Gate && !self.sink_ready.contains(&i) => {
                            self.waiting = Some((false, i));
                            self.late = true;
                            break;
                        }
                        _ if *ready == Ready::Fail => {
                            self.ended = true;
                            self.cut = true;
                        }
                        SinkFail::Send => {
                            self.ended = true;
                            self.cut = true;
                        }
                        SinkFail::Flush => {
                            self.log.push(wire_msg(&m, i));
                            self.ended = true;
                            self.cut = true;
                        }
                        SinkFail::No => self.log.push(wire_msg(&m, i)),
                    }
                }
                Msg::Bad { json } => {
                    let code = if *json { -32600 } else { -32700 };
                    self.out.push(json!({"error": {"code": code}, "id": null}));
                }
            }
            self.queue.pop_front();
        }
        loop {
            let running = self.accepted[..self.started].iter().filter(|c| !c.2).count();
            self.started = (self.started + self.conc - running).min(self.accepted.len());
            let open = &self.open;
            let Some(i) = (0..self.started).find(|i| !self.accepted[*i].2 && (!self.accepted[*i].0 || open.contains(i))) else {
                break;
            };
            self.accepted[i].2 = true;
            if let Outcome::Reply(n) = self.accepted[i].1 {
                self.out.push(reply(i, n));
            }
        }
        self.out.extend(self.client.drain(..));
    }
    fn over(&self) -> bool {
        self.ended && self.accepted.iter().all(|c| c.2)
    }
    fn running_gated(&self) -> Vec<usize> {
        (0..self.started).filter(|i| !self.accepted[*i].2).collect()
    }
}

/// Messages of errors are not compared.
fn normal(v: &Value) -> Value {
    let mut v = v.clone();
    if v.get("method").is_none() {
        if let Some(o) = v.as_object_mut() {
            o.remove("jsonrpc");
            if let Some(c) = o.get("error").and_then(|e| e.get("code")).cloned() {
                o.insert("error".into(), json!({ "code": c }));
            }
        }
    }
    v
}

const T: [&str; 1] = ["C23"];

fn check(s: &Shared, m: &Model, out: &OutCtl, done: bool) -> Result<(), Fail> {
    let st = s.lock().unwrap();
    if let Some(v) = st.violations.first() {
        return Err(Fail::new(&T, v.clone()));
    }
    for (i, got) in st.log.iter().enumerate() {
        let want = m.log.get(i);
        ensure!(want == Some(got), T, "message {i} handed over is {got}, expected {want:?}");
    }
    ensure!(st.log.len() == m.log.len(), T, "{} messages were handed over, expected {}", st.log.len(), m.log.len());
    let want: Vec<usize> = (0..m.started).collect();
    ensure!(st.started == want, T, "calls started: {:?}, expected {want:?}", st.started);
    for (i, c) in m.accepted.iter().enumerate() {
        ensure!(st.finished.contains(&i) == c.2, T, "call {i}: finished = {}", !c.2);
    }
    ensure!(st.dropped.is_empty(), T, "accepted calls {:?} were dropped unfinished", st.dropped);
    drop(st);
    let got = match parse_all(&out.flushed()) {
        Ok(v) => v,
        Err(e) => return Err(Fail::new(&["C23", "C02"], e)),
    };
    let got: Vec<Value> = got.iter().map(normal).collect();
    let want: Vec<Value> = m.out.iter().map(normal).collect();
    if let Some(d) = multiset_diff(&got, &want) {
        return Err(Fail::new(&T, format!("output: {d}")));
    }
    let over = m.over();
    ensure!(done == over, T, "serve returned: {done}, expected {over}");
    Ok(())
}

pub fn run(case: &Case) -> Res {
    let shared: Shared = Arc::default();
    let (input, stdin) = InCtl::new();
    let (out, stdout) = OutCtl::new(&case.out, true);
    let conc = case.conc.max(1) as usize;
    let mut exec = Exec::new(Sched::default());
    let task = exec.spawn(make_server(stdin, stdout, StrictLoop(shared.clone()), Some(conc)).serve(Strict(shared.clone())));
    let mut m = Model { conc, ..Model::default() };
    exec.run()?;
    let mut sent = 0;
    let (mut calls, mut resps) = (0, 0);
    let mut client_closed = false;
    let mut replies = false;
    let mut sent_over = false;
    for op in &case.ops {
        match op {
            Op::Feed(msgs) => {
                if m.eof || calls + msgs.len() > 90 {
                    continue;
                }
                let mut bytes = vec![];
                for msg in msgs {
                    let mut s = shared.lock().unwrap();
                    let i = match msg {
                        Msg::Req { ready, yields, gated, out, .. } => {
                            s.calls.push((*ready, *yields, *gated, *out));
                            replies |= matches!(out, Outcome::Fail(_) | Outcome::Nothing);
                            calls += 1;
                            calls - 1
                        }
                        Msg::Resp { ready, fail } => {
                            s.resps.push((*ready, *fail));
                            resps += 1;
                            resps - 1
                        }
                        Msg::Bad { .. } => 0,
                    };
                    bytes.extend(match msg {
                        Msg::Bad { json: false } => frame(b"{\"jsonrpc\":"),
                        Msg::Bad { json: true } => frame(b"[1,2]"),
                        _ => frame_value(&wire_msg(msg, i)),
                    });
                    m.queue.push_back((msg.clone(), i));
                }
                input.data(bytes);
            }
            Op::MakeReady => match m.waiting {
                Some((true, i)) => {
                    shared.lock().unwrap().call_ready.insert(i);
                    m.call_ready.insert(i);
                }
                Some((false, i)) => {
                    shared.lock().unwrap().sink_ready.insert(i);
                    m.sink_ready.insert(i);
                }
                None => {}
            },
            Op::Finish(n) => {
                let r = m.running_gated();
                if !r.is_empty() {
                    let i = r[*n as usize % r.len()];
                    shared.lock().unwrap().open.insert(i);
                    m.open.insert(i);
                }
            }
            Op::FinishAll => {
                for i in 0..m.accepted.len() {
                    shared.lock().unwrap().open.insert(i);
                    m.open.insert(i);
                }
            }
            Op::ClientSend(n) => {
                if client_closed || m.over() {
                    continue;
                }
                for _ in 0..*n {
                    let v = json!({"jsonrpc": "2.0", "method": "to/client", "params": {"n": sent}});
                    sent += 1;
                    shared.lock().unwrap().client.push_back(v.clone());
                    m.client.push_back(v);
                }
            }
            Op::CloseClient => {
                client_closed = true;
                shared.lock().unwrap().client_closed = true;
            }
            Op::Eof => {
                if !m.eof {
                    m.eof = true;
                    input.eof();
                }
            }
            Op::Spurious => exec.spurious(),
        }
        sent_over |= client_closed && m.running_gated().len() > 1;
        wake(&shared);
        exec.run()?;
        m.step();
        check(&shared, &m, &out, exec.is_done(task))?;
    }
    if !m.eof {
        m.eof = true;
        input.eof();
    }
    for _ in 0..200 {
        if m.over() {
            break;
        }
        if let Some((call, i)) = m.waiting {
            let mut s = shared.lock().unwrap();
            if call {
                s.call_ready.insert(i);
                m.call_ready.insert(i);
            } else {
                s.sink_ready.insert(i);
                m.sink_ready.insert(i);
            }
        } else if let Some(i) = m.running_gated().last().copied() {
            shared.lock().unwrap().open.insert(i);
            m.open.insert(i);
        }
        wake(&shared);
        exec.run()?;
        m.step();
        check(&shared, &m, &out, exec.is_done(task))?;
    }
    exec.run()?;
    check(&shared, &m, &out, exec.is_done(task))?;
    ensure!(m.over() && exec.is_done(task), T, "the server did not return");

    let mut info = Info { nontrivial: calls >= 2 && (m.late || m.cut || replies), ..Info::default() };
    info.class(m.late, "waited_for_readiness");
    info.class(m.cut, "service_or_loopback_failed");
    info.class(replies, "calls_without_response");
    info.class(sent_over, "client_stream_ended_early");
    info.class(m.cut && m.accepted.iter().any(|c| c.0), "failed_with_calls_in_flight");
    Ok(info)
}

fn arb_ready() -> BoxedStrategy<Ready> {
    prop_oneof![
        12 => Just(Ready::Now),
        3 => (1u8..4).prop_map(Ready::Pend),
        3 => Just(Ready::Gate),
        1 => Just(Ready::Fail),
    ]
    .boxed()
}

fn arb_msg() -> BoxedStrategy<Msg> {
    let size = prop_oneof![6 => 0u32..40, 1 => 4000u32..9000];
    let out = prop_oneof![
        5 => size.prop_map(Outcome::Reply),
        1 => Just(Outcome::Nothing),
        2 => (0u8..4).prop_map(Outcome::Fail),
    ];
    prop_oneof![
        6 => (prop::bool::weighted(0.7), arb_ready(), 0u8..3, any::<bool>(), out)
            .prop_map(|(request, ready, yields, gated, out)| Msg::Req { request, ready, yields, gated, out }),
        2 => (arb_ready(), prop_oneof![
            12 => Just(SinkFail::No), 1 => Just(SinkFail::Ready), 1 => Just(SinkFail::Send), 1 => Just(SinkFail::Flush)
        ]).prop_map(|(ready, fail)| Msg::Resp { ready, fail }),
        1 => any::<bool>().prop_map(|json| Msg::Bad { json }),
    ]
    .boxed()
}

pub fn strategy(thorough: bool) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        8 => prop::collection::vec(arb_msg(), 1..5).prop_map(Op::Feed),
        4 => Just(Op::MakeReady),
        4 => any::<u8>().prop_map(Op::Finish),
        1 => Just(Op::FinishAll),
        3 => (1u8..6).prop_map(Op::ClientSend),
        1 => prop_oneof![3 => Just(Op::Spurious), 1 => Just(Op::CloseClient), 1 => Just(Op::Eof)],
    ];
    let act = prop_oneof![2 => (1u32..60).prop_map(Act::Take), 1 => Just(Act::Pend)];
    (
        1u8..6,
        prop::collection::vec(op, 1..if thorough { 40 } else { 18 }),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(act, 1..5)],
    )
        .prop_map(|(conc, ops, out)| Case { conc, ops, out })
        .boxed()
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "contracts",
        rule: "requests, notifications, responses and bad bodies over a service and a loopback which are \
               ready late, fail, answer nothing or end early, and which check how they are called; calls, \
               starts, output and the end compared with a model after every step; non-trivial: at least two \
               calls and late readiness, a failure or a call without response",
        quick: 20_000,
        thorough: 400_000,
        strategy: Box::new(strategy),
        run,
    })]
}
