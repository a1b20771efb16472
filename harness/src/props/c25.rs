//! C25: finished work leaves nothing behind.

use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Error, Result as RpcResult};
use tower_lsp::lsp_types::{InitializeParams, InitializeResult, MessageType, ProgressToken};
use tower_lsp::{Client, LanguageServer, LspService};

use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::{Exec, Sched};
use crate::fail::{Fail, Info, Res};
use crate::gen::{err_value, filler, ok_value, request_value};
use crate::io::{InCtl, OutCtl};
use crate::memory::live;
use crate::mock::make_server;
use crate::rig::AskReq;
use crate::wire::{frame, frame_value, parse_frames};

const T: [&str; 1] = ["C25"];

/// What happens in every round; each leaves the server idle.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Op {
    Echo,
    Fail,
    /// A method of the protocol which the backend does not implement.
    Default,
    Unknown,
    BadParams,
    NotificationAsRequest,
    Cancelled,
    CancelledTwice,
    Duplicate,
    DuplicateCancelled,
    Notification,
    UnknownNotification,
    StrayCancel,
    BadBody,
    BadJson,
    BadHeader,
    Empty,
    /// Messages to the client from within a handler.
    Say,
    Progress,
    /// Client requests by a handler, answered with a result or an error.
    Ask,
    AskError,
    /// Answered again, after having been answered.
    AskTwice,
    /// Answered after the handler was cancelled.
    AskAbandoned,
    /// Asked by a task which gives up before the answer comes.
    TaskAbandoned,
    StrayResponse,
    Reinitialize,
    NullId,
    Crowd,
}

const OPS: &[Op] = &[
    Op::Echo,
    Op::Fail,
    Op::Default,
    Op::Unknown,
    Op::BadParams,
    Op::NotificationAsRequest,
    Op::Cancelled,
    Op::CancelledTwice,
    Op::Duplicate,
    Op::DuplicateCancelled,
    Op::Notification,
    Op::UnknownNotification,
    Op::StrayCancel,
    Op::BadBody,
    Op::BadJson,
    Op::BadHeader,
    Op::Empty,
    Op::Say,
    Op::Progress,
    Op::Ask,
    Op::AskError,
    Op::AskTwice,
    Op::AskAbandoned,
    Op::TaskAbandoned,
    Op::StrayResponse,
    Op::Reinitialize,
    Op::NullId,
    Op::Crowd,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Phase {
    Uninitialized,
    Serving,
    ShutDown,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Ending {
    Eof,
    Exit,
    /// The future of `serve` is dropped with work in flight.
    Dropped,
    /// As above, while clients' answers are awaited.
    DroppedAsking,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    phase: Phase,
    ops: Vec<Op>,
    /// Use the same ids in every round.
    same_ids: bool,
    strings: bool,
    pad: u16,
    ending: Ending,
}

fn strategy(_: bool) -> BoxedStrategy<Case> {
    (
        prop_oneof![1 => Just(Phase::Uninitialized), 8 => Just(Phase::Serving), 1 => Just(Phase::ShutDown)],
        prop::collection::vec(proptest::sample::select(OPS), 1..6),
        prop::bool::weighted(0.3),
        any::<bool>(),
        prop_oneof![3 => 0u16..50, 1 => 50u16..3000],
        proptest::sample::select(&[Ending::Eof, Ending::Exit, Ending::Dropped, Ending::DroppedAsking][..]),
    )
        .prop_map(|(phase, ops, same_ids, strings, pad, ending)| Case { phase, ops, same_ids, strings, pad, ending })
        .boxed()
}

#[derive(Default)]
struct Gate {
    open: bool,
    wakers: Vec<Waker>,
}

#[derive(Clone, Default)]
struct Gates(Arc<Mutex<Gate>>);

impl Gates {
    fn set(&self, open: bool) {
        let mut g = self.0.lock().unwrap();
        g.open = open;
        let ws = std::mem::take(&mut g.wakers);
        drop(g);
        if open {
            ws.into_iter().for_each(Waker::wake);
        }
    }
}

/// A backend that remembers nothing.
struct Quiet {
    client: Client,
    gate: Gates,
}

impl Quiet {
    async fn echo(&self, v: Value) -> RpcResult<Value> {
        Ok(v)
    }
    async fn fail(&self, v: Value) -> RpcResult<Value> {
        let mut e = Error::invalid_params("no");
        e.data = Some(v);
        Err(e)
    }
    async fn gate(&self) -> RpcResult<()> {
        futures::future::poll_fn(|cx| {
            let mut g = self.gate.0.lock().unwrap();
            if g.open {
                Poll::Ready(())
            } else {
                g.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await;
        Ok(())
    }
    async fn note(&self, _: Value) {}
    async fn say(&self, v: Value) -> RpcResult<()> {
        self.client.log_message(MessageType::INFO, v).await;
        self.client.telemetry_event(1).await;
        Ok(())
    }
    async fn progress(&self, v: Value) -> RpcResult<()> {
        let p = self.client.progress(ProgressToken::String(v.to_string()), "title").with_percentage(1).begin().await;
        p.report(5).await;
        p.finish().await;
        Ok(())
    }
    async fn ask(&self, v: Value) -> RpcResult<Value> {
        self.client.send_request::<AskReq>(v).await
    }
}

#[tower_lsp::async_trait]
impl LanguageServer for Quiet {
    async fn initialize(&self, _: InitializeParams) -> RpcResult<InitializeResult> {
        Ok(InitializeResult::default())
    }
    async fn shutdown(&self) -> RpcResult<()> {
        Ok(())
    }
}

struct World {
    exec: Exec,
    task: usize,
    input: InCtl,
    out: OutCtl,
    gate: Gates,
    client: Client,
    ids: u64,
    strings: bool,
    pad: String,
    answers: u64,
}

impl World {
    fn new(c: &Case) -> World {
        let gate = Gates::default();
        let mut handle = None;
        let (service, socket) = LspService::build(|client: Client| {
            handle = Some(client.clone());
            Quiet { client, gate: gate.clone() }
        })
        .custom_method("q/echo", Quiet::echo)
        .custom_method("q/fail", Quiet::fail)
        .custom_method("q/gate", Quiet::gate)
        .custom_method("q/note", Quiet::note)
        .custom_method("q/say", Quiet::say)
        .custom_method("q/progress", Quiet::progress)
        .custom_method("q/ask", Quiet::ask)
        .finish();
        let (input, stdin) = InCtl::new();
        let (out, stdout) = OutCtl::plain();
        let mut exec = Exec::new(Sched::default());
        let task = exec.spawn(make_server(stdin, stdout, socket, Some(6)).serve(service));
        World {
            exec,
            task,
            input,
            out,
            gate,
            client: handle.unwrap(),
            ids: 0,
            strings: c.strings,
            pad: filler(c.pad as u32),
            answers: 0,
        }
    }

    fn id(&mut self) -> Value {
        self.ids += 1;
        if self.strings {
            json!(format!("id {:08}", self.ids))
        } else {
            json!(1_000_000 + self.ids)
        }
    }

    /// Sends a message and returns what came out, responses and requests apart.
    fn send(&mut self, v: Value) -> Result<(Vec<Value>, Vec<Value>), Fail> {
        self.raw(frame_value(&v))
    }
    fn raw(&mut self, bytes: Vec<u8>) -> Result<(Vec<Value>, Vec<Value>), Fail> {
        self.input.data(bytes);
        self.exec.run()?;
        self.drain()
    }
    fn drain(&mut self) -> Result<(Vec<Value>, Vec<Value>), Fail> {
        let (all, rest) = parse_frames(&self.out.take()).map_err(|e| Fail::new(&["C25", "C02"], e))?;
        ensure!(rest.is_empty(), ["C25", "C02"], "incomplete output");
        let (asks, res): (Vec<Value>, Vec<Value>) = all.into_iter().partition(|v| v.get("method").is_some());
        self.answers += res.len() as u64;
        let asks = asks.into_iter().filter(|v| v.get("id").is_some()).collect();
        Ok((res, asks))
    }
    fn request(&mut self, method: &str, params: Option<Value>) -> Result<(Value, Vec<Value>), Fail> {
        let id = self.id();
        let (_, asks) = self.send(request_value(method, Some(id.clone()), params))?;
        Ok((id, asks))
    }

    fn op(&mut self, op: Op, stay: bool) -> Result<(), Fail> {
        let pad = json!([self.pad]);
        let cancel = |id: &Value| request_value("$/cancelRequest", None, Some(json!({ "id": id })));
        match op {
            Op::Echo => drop(self.request("q/echo", Some(pad))?),
            Op::Fail => drop(self.request("q/fail", Some(pad))?),
            Op::Default => drop(self.request("textDocument/hover", Some(json!({"textDocument": {"uri": "file:///a"}, "position": {"line": 1, "character": 1}})))?),
            Op::Unknown => {
                let name = format!("no/such{}", self.ids);
                self.request(&name, Some(pad))?;
            }
            Op::BadParams => drop(self.request("textDocument/hover", Some(pad))?),
            Op::NotificationAsRequest => drop(self.request("q/note", Some(pad))?),
            Op::Cancelled | Op::CancelledTwice => {
                let (id, _) = self.request("q/gate", None)?;
                self.send(cancel(&id))?;
                if op == Op::CancelledTwice {
                    self.send(cancel(&id))?;
                }
            }
            Op::Duplicate | Op::DuplicateCancelled => {
                let (id, _) = self.request("q/gate", None)?;
                self.send(request_value("q/gate", Some(id.clone()), None))?;
                if op == Op::DuplicateCancelled {
                    self.send(cancel(&id))?;
                }
            }
            Op::Notification => drop(self.send(request_value("q/note", None, Some(pad)))?),
            Op::UnknownNotification => {
                self.ids += 1;
                let name = format!("{}no/such{}", if self.ids % 2 == 0 { "$/" } else { "" }, self.ids);
                self.send(request_value(&name, None, Some(pad)))?;
            }
            Op::StrayCancel => {
                let id = self.id();
                self.send(cancel(&id))?;
            }
            Op::BadBody => drop(self.raw(frame(pad.to_string().as_bytes()))?),
            Op::BadJson => drop(self.raw(frame(format!("{{{}", self.pad).as_bytes()))?),
            Op::BadHeader => {
                let mut b = b"Content-Length: x\r\n\r\n".to_vec();
                b.extend(frame_value(&request_value("no/such", None, None)));
                self.raw(b)?;
            }
            Op::Empty => drop(self.raw(b"Content-Length: 0\r\n\r\n".to_vec())?),
            Op::Say | Op::Progress => {
                let m = if op == Op::Say { "q/say" } else { "q/progress" };
                let distinct = json!([self.ids, self.pad]);
                self.request(m, Some(distinct))?;
            }
            Op::Ask | Op::AskError | Op::AskTwice | Op::AskAbandoned => {
                let (id, asks) = self.request("q/ask", Some(pad.clone()))?;
                if op == Op::AskAbandoned {
                    self.send(cancel(&id))?;
                }
                for a in asks {
                    let answer = match op {
                        Op::AskError => err_value(a["id"].clone(), json!({"code": 1, "message": "no"})),
                        _ => ok_value(a["id"].clone(), pad.clone()),
                    };
                    self.send(answer.clone())?;
                    if op == Op::AskTwice {
                        self.send(answer)?;
                    }
                }
            }
            Op::TaskAbandoned => {
                let mut ask: Pin<Box<dyn Future<Output = _>>> = {
                    let (client, pad) = (self.client.clone(), pad.clone());
                    Box::pin(async move { client.send_request::<AskReq>(pad).await })
                };
                let waker = futures::task::noop_waker();
                let mut cx = Context::from_waker(&waker);
                for _ in 0..4 {
                    if ask.as_mut().poll(&mut cx).is_ready() {
                        break;
                    }
                    self.exec.run()?;
                }
                let (_, asks) = self.drain()?;
                drop(ask);
                for a in asks {
                    self.send(ok_value(a["id"].clone(), pad.clone()))?;
                }
            }
            Op::StrayResponse => {
                let id = self.id();
                self.send(ok_value(id, pad.clone()))?;
                self.send(ok_value(Value::Null, pad))?;
            }
            Op::Reinitialize => {
                // Accepted if this is the first.
                if stay {
                    self.request("initialize", Some(json!({"capabilities": {}})))?;
                }
            }
            Op::NullId => drop(self.send(request_value("q/echo", Some(Value::Null), Some(pad)))?),
            Op::Crowd => {
                let ids: Vec<Value> = (0..5).map(|_| self.id()).collect();
                for id in &ids {
                    self.send(request_value("q/gate", Some(id.clone()), None))?;
                }
                self.send(cancel(&ids[2]))?;
            }
        }
        // Whoever waits is done.
        self.gate.set(true);
        self.exec.run()?;
        self.drain()?;
        self.gate.set(false);
        Ok(())
    }

    fn start(&mut self, phase: Phase) -> Result<(), Fail> {
        if phase != Phase::Uninitialized {
            self.request("initialize", Some(json!({"capabilities": {}})))?;
        }
        if phase == Phase::ShutDown {
            self.request("shutdown", None)?;
        }
        Ok(())
    }

    fn round(&mut self, c: &Case) -> Result<(), Fail> {
        if c.same_ids {
            self.ids = 100;
        }
        for op in &c.ops {
            self.op(*op, c.phase != Phase::Uninitialized)?;
        }
        Ok(())
    }
}

/// One life of a server, with a few rounds.
fn life(c: &Case, rounds: usize) -> Result<(), Fail> {
    let mut w = World::new(c);
    w.start(c.phase)?;
    for _ in 0..rounds {
        w.round(c)?;
    }
    match c.ending {
        Ending::Eof => w.input.eof(),
        Ending::Exit => {
            w.request("q/gate", None)?;
            w.send(request_value("exit", None, None))?;
            w.input.eof();
        }
        Ending::Dropped | Ending::DroppedAsking => {
            let m = if c.ending == Ending::Dropped { "q/gate" } else { "q/ask" };
            for _ in 0..8 {
                w.request(m, (m == "q/ask").then(|| json!([w.pad])))?;
            }
            w.exec.kill(w.task);
        }
    }
    w.exec.run()?;
    w.drain()?;
    ensure!(w.exec.is_done(w.task), ["C17"], "the server did not return");
    Ok(())
}

/// Memory is compared after this many rounds and twice as many, four times as many and so on, so that
/// tables which double their size from time to time grow in every span if they grow for ever.
const WINDOW: usize = 40;
const SPANS: usize = 4;
/// Growth per round which is not put down to containers finding their size.
const LEAK: isize = 8;

fn run(c: &Case) -> Res {
    // First whatever is allocated once for all.
    life(c, 2)?;
    let before = live();
    life(c, 2)?;
    let kept = live() - before;
    ensure!(kept <= 64, T, "{kept} bytes are still held after the server and all its handles were dropped");

    let mut w = World::new(c);
    w.start(c.phase)?;
    for _ in 0..WINDOW {
        w.round(c)?;
    }
    let first = live();
    let mut last = first;
    let mut steady = false;
    let mut rounds = WINDOW;
    for _ in 0..SPANS {
        for _ in 0..rounds {
            w.round(c)?;
        }
        let now = live();
        if now - last < LEAK * rounds as isize {
            steady = true;
            break;
        }
        last = now;
        rounds *= 2;
    }
    ensure!(
        steady,
        T,
        "an idle server holds ever more memory: {} bytes more after {} further rounds of {:?}",
        last - first,
        rounds - WINDOW,
        c.ops
    );
    let mut info = Info { nontrivial: w.answers > 2 * WINDOW as u64, ..Info::default() };
    info.class(c.ops.iter().any(|o| matches!(o, Op::Cancelled | Op::CancelledTwice | Op::DuplicateCancelled | Op::Crowd)), "cancelled");
    info.class(c.ops.iter().any(|o| matches!(o, Op::Ask | Op::AskError | Op::AskTwice)), "client_requests");
    info.class(c.ops.iter().any(|o| matches!(o, Op::AskAbandoned | Op::TaskAbandoned)), "abandoned_client_requests");
    info.class(c.ops.iter().any(|o| matches!(o, Op::BadBody | Op::BadHeader | Op::BadJson)), "malformed");
    info.class(matches!(c.ending, Ending::Dropped | Ending::DroppedAsking), "dropped_in_flight");
    info.class(c.ending == Ending::Exit, "exited_in_flight");
    Ok(info)
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "nothing kept",
        rule: "rounds of 1-5 kinds of work repeated until the memory held by the idle server is steady (or \
               640 times), and whole lives of servers, whose memory is released in the end; non-trivial: \
               more than two responses per round",
        quick: 1_500,
        thorough: 60_000,
        strategy: Box::new(strategy),
        run,
    })]
}
