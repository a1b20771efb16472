//! C24: whoever is faster than its peer is held back, and loses nothing.

use std::cell::RefCell;
use std::rc::Rc;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower_lsp::lsp_types::MessageType;

use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::{Exec, Sched};
use crate::fail::{Fail, Info, Res};
use crate::gen::filler;
use crate::io::{Act, InCtl, OutCtl};
use crate::mock::{make_server, Bench, Plan, Rec};
use crate::rig::{self, RigCtl};
use crate::wire::{frame, frame_value, parse_all};

/// What an output buffer of the server may hold, with a margin.
const BUFFER: usize = 160 << 10;
/// Queued messages, with a margin (the documented queue holds 100).
const QUEUE: usize = 128;

const T: [&str; 1] = ["C24"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    /// Handlers do not finish.
    Handlers,
    /// The output does not accept the replies.
    Output,
    /// The output does not accept the answers to bodies which are no messages.
    Errors,
    /// The output does not accept what tasks send through the client handle.
    Senders,
    /// As `Senders`, with messages of handlers.
    HandlerSenders,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    conc: u8,
    /// Messages beyond the bound.
    more: u16,
    size: u32,
    /// Bytes per piece of input (0: all at once).
    piece: u32,
    notifications: bool,
    tasks: u8,
    /// How often a few more are let through before all are.
    rounds: Vec<u8>,
    acts: Vec<Act>,
}

fn strategy(_: bool) -> BoxedStrategy<Case> {
    let kind = prop_oneof![
        3 => Just(Kind::Handlers),
        3 => Just(Kind::Output),
        1 => Just(Kind::Errors),
        2 => Just(Kind::Senders),
        1 => Just(Kind::HandlerSenders),
    ];
    (
        kind,
        prop_oneof![6 => 1u8..6, 1 => 6u8..120],
        50u16..400,
        prop_oneof![1 => Just(2000u32), 1 => 2000u32..6000],
        prop_oneof![2 => Just(0u32), 1 => 200u32..9000],
        prop::bool::weighted(0.3),
        1u8..5,
        prop::collection::vec(1u8..20, 0..5),
        prop::collection::vec(prop_oneof![(50u32..20_000).prop_map(Act::Take), Just(Act::Pend)], 0..4),
    )
        .prop_map(|(kind, conc, more, size, piece, notifications, tasks, rounds, acts)| Case {
            kind,
            conc,
            more,
            size,
            piece,
            notifications,
            tasks,
            rounds,
            acts,
        })
        .boxed()
}

fn feed(input: &InCtl, bytes: Vec<u8>, piece: u32) {
    if piece == 0 {
        input.data(bytes);
    } else {
        bytes.chunks(piece as usize).for_each(|c| input.data(c));
    }
}

fn run(c: &Case) -> Res {
    match c.kind {
        Kind::Handlers | Kind::Output => calls(c),
        Kind::Errors => errors(c),
        Kind::Senders => senders(c),
        Kind::HandlerSenders => handler_senders(c),
    }
}

fn message(i: usize, notification: bool, pad: &str) -> Value {
    let mut v = json!({"jsonrpc": "2.0", "method": "any/thing", "params": {"n": i, "pad": pad}});
    if !notification {
        v["id"] = json!(i);
    }
    v
}

fn calls(c: &Case) -> Res {
    let conc = c.conc.max(1) as usize;
    let held = c.kind == Kind::Output;
    let size = c.size.max(1000) as usize;
    let slack = if held { BUFFER / size + 2 } else { 0 };
    let bound = conc + QUEUE + slack;
    let total = bound + c.more as usize;
    let notifications = c.notifications && !held;
    let rec = Rec::default();
    {
        let mut s = rec.0.lock().unwrap();
        let text = filler(size as u32);
        for i in 0..total {
            let result = if held { json!(text) } else { json!(i) };
            s.plans.push_back(Plan {
                reply: (!notifications).then(|| json!({"id": i, "result": result})),
                gate: (!held).then_some(i as u32),
                ..Plan::default()
            });
        }
    }
    let mut b = Bench::new(Some(conc), OutCtl::new(&c.acts, true), Sched::default(), rec);
    if held {
        b.out.hold();
    }
    let bytes: Vec<u8> = (0..total).flat_map(|i| frame_value(&message(i, notifications, ""))).collect();
    let all = bytes.len();
    feed(&b.input, bytes, c.piece);
    b.exec.run()?;
    let mut finished = 0;
    let look = |b: &Bench, finished: usize, when: &str| -> Result<(), Fail> {
        let n = b.rec.0.lock().unwrap().requests;
        ensure!(
            n <= (bound + finished).min(total),
            T,
            "{n} of {total} messages were accepted {when}, {finished} of them finished (level {conc}, bound {bound})"
        );
        Ok(())
    };
    look(&b, 0, "although none could finish")?;
    let first = b.rec.0.lock().unwrap().requests;
    let read = all - b.input.left();
    ensure!(
        read <= (bound * 80) + BUFFER,
        T,
        "{read} bytes of input were read with {first} messages accepted"
    );
    if !held {
        for k in &c.rounds {
            for _ in 0..*k {
                b.rec.open(finished as u32);
                finished += 1;
            }
            b.exec.run()?;
            look(&b, finished, "after some had finished")?;
        }
        for i in 0..total {
            b.rec.open(i as u32);
        }
    }
    b.out.release();
    b.exec.run()?;
    {
        let s = b.rec.0.lock().unwrap();
        ensure!(s.requests == total, T, "only {} of {total} messages were accepted in the end", s.requests);
        for (i, v) in s.log.iter().enumerate() {
            ensure!(v["params"]["n"] == json!(i), T, "message {i} was handed over as {}", v["params"]["n"]);
        }
        ensure!(s.finished.len() == total, T, "only {} of {total} calls finished", s.finished.len());
    }
    let out = parse_all(&b.out.flushed()).map_err(|e| Fail::new(&["C24", "C02"], e))?;
    let mut ids: Vec<u64> = out.iter().map(|v| v["id"].as_u64().unwrap_or(u64::MAX)).collect();
    ids.sort();
    let want: Vec<u64> = (0..if notifications { 0 } else { total as u64 }).collect();
    ensure!(ids == want, T, "{} responses came out for {} requests", ids.len(), want.len());
    b.input.eof();
    b.exec.run()?;
    ensure!(b.done(), T, "the server did not return");
    let mut info = Info { nontrivial: first < total, ..Info::default() };
    info.class(first < total, if held { "held_by_output" } else { "held_by_handlers" });
    info.class(!c.rounds.is_empty() && !held, "let_through_gradually");
    Ok(info)
}

fn errors(c: &Case) -> Res {
    let size = 300;
    // An error response takes about 100 bytes.
    let bound = BUFFER / 80 + QUEUE;
    let total = bound + 700 + c.more as usize;
    let rec = Rec::default();
    let mut b = Bench::new(Some(c.conc.max(1) as usize), OutCtl::new(&c.acts, true), Sched::default(), rec);
    b.out.hold();
    let bad = frame(format!("\"{}\"", "x".repeat(size)).as_bytes());
    let bytes = bad.repeat(total);
    let all = bytes.len();
    feed(&b.input, bytes, c.piece);
    b.exec.run()?;
    let read = all - b.input.left();
    ensure!(
        read <= bound * bad.len() + BUFFER,
        T,
        "{} malformed messages were read although the output does not accept the answers",
        read / bad.len()
    );
    b.out.release();
    b.exec.run()?;
    let out = parse_all(&b.out.flushed()).map_err(|e| Fail::new(&["C24", "C02"], e))?;
    ensure!(out.len() == total, T, "{} answers for {total} malformed messages", out.len());
    let mut info = Info { nontrivial: read < all, ..Info::default() };
    info.class(read < all, "malformed_held_by_output");
    Ok(info)
}

fn sender_bound(c: &Case, senders: usize, size: usize) -> usize {
    let _ = c;
    BUFFER / size + 4 * senders + 8
}

fn check_sent(out: &OutCtl, tasks: usize, each: usize) -> Result<(), Fail> {
    let out = parse_all(&out.flushed()).map_err(|e| Fail::new(&["C24", "C02"], e))?;
    let mut next = vec![0; tasks];
    for v in out.iter().filter(|v| v["method"] == "window/logMessage") {
        let text = v["params"]["message"].as_str().unwrap_or("");
        let mut p = text.splitn(3, ' ').map(|s| s.parse::<usize>().unwrap_or(usize::MAX));
        let (k, i) = (p.next().unwrap_or(0), p.next().unwrap_or(0));
        ensure!(k < tasks && next[k] == i, ["C24", "C21"], "message {i} of sender {k} came out instead of {:?}", next.get(k));
        next[k] += 1;
    }
    ensure!(next.iter().all(|n| *n == each), T, "of {each} messages of each sender {next:?} came out");
    Ok(())
}

fn senders(c: &Case) -> Res {
    let tasks = c.tasks.max(1) as usize;
    let size = c.size.max(1000) as usize;
    let bound = sender_bound(c, tasks, size);
    let each = (bound + c.more as usize / 4) / tasks + 10;
    let ctl = RigCtl::default();
    let (service, socket, client) = rig::service(&ctl, &[]);
    let (input, stdin) = InCtl::new();
    let (out, stdout) = OutCtl::new(&c.acts, true);
    out.hold();
    let mut exec = Exec::new(Sched::default());
    let server = exec.spawn(make_server(stdin, stdout, socket, None).serve(service));
    let sent = Rc::new(RefCell::new(0));
    let text = filler(size as u32);
    let ids: Vec<usize> = (0..tasks)
        .map(|k| {
            let (client, sent, text) = (client.clone(), sent.clone(), text.clone());
            exec.spawn(async move {
                for i in 0..each {
                    client.log_message(MessageType::INFO, format!("{k} {i} {text}")).await;
                    *sent.borrow_mut() += 1;
                }
            })
        })
        .collect();
    exec.run()?;
    let n = *sent.borrow();
    ensure!(
        n <= bound,
        T,
        "{n} messages of {size} bytes to the client were accepted from {tasks} tasks although the output accepts nothing"
    );
    out.release();
    exec.run()?;
    ensure!(ids.iter().all(|i| exec.is_done(*i)), ["C24", "C21"], "senders were not released");
    check_sent(&out, tasks, each)?;
    input.eof();
    exec.run()?;
    ensure!(exec.is_done(server), T, "the server did not return");
    let mut info = Info { nontrivial: n < tasks * each, ..Info::default() };
    info.class(true, "senders_held_by_output");
    Ok(info)
}

fn handler_senders(c: &Case) -> Res {
    let conc = c.conc.clamp(1, 8) as usize;
    let size = c.size.max(1000) as usize;
    let bound = sender_bound(c, conc, size);
    let each = (bound + c.more as usize / 4) / conc + 10;
    let sent = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let text = filler(size as u32);
    let (service, socket) = {
        let (sent, next) = (sent.clone(), next.clone());
        tower_lsp::LspService::build(|client| Flood { client, sent, next, each, text })
            .custom_method("x/flood", Flood::flood)
            .finish()
    };
    let (input, stdin) = InCtl::new();
    let (out, stdout) = OutCtl::new(&c.acts, true);
    let mut exec = Exec::new(Sched::default());
    let server = exec.spawn(make_server(stdin, stdout, socket, Some(conc)).serve(service));
    input.data(frame_value(&json!({"jsonrpc": "2.0", "id": "init", "method": "initialize", "params": {"capabilities": {}}})));
    exec.run()?;
    out.hold();
    for i in 0..conc {
        input.data(frame_value(&json!({"jsonrpc": "2.0", "id": i, "method": "x/flood"})));
    }
    exec.run()?;
    let n = sent.load(std::sync::atomic::Ordering::SeqCst);
    ensure!(
        n <= bound,
        T,
        "{n} messages of {size} bytes to the client were accepted from {conc} handlers although the output accepts nothing"
    );
    out.release();
    exec.run()?;
    check_sent(&out, conc, each)?;
    input.eof();
    exec.run()?;
    ensure!(exec.is_done(server), T, "the server did not return");
    let out = parse_all(&out.flushed()).map_err(|e| Fail::new(&["C24", "C02"], e))?;
    let responses = out.iter().filter(|v| v.get("method").is_none()).count();
    ensure!(responses == conc + 1, T, "{responses} responses for {} requests", conc + 1);
    let mut info = Info { nontrivial: n < conc * each, ..Info::default() };
    info.class(true, "handlers_held_by_output");
    Ok(info)
}

struct Flood {
    client: tower_lsp::Client,
    sent: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    next: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    each: usize,
    text: String,
}

impl Flood {
    async fn flood(&self) -> tower_lsp::jsonrpc::Result<()> {
        use std::sync::atomic::Ordering::SeqCst;
        let k = self.next.fetch_add(1, SeqCst);
        for i in 0..self.each {
            self.client.log_message(MessageType::INFO, format!("{k} {i} {}", self.text)).await;
            self.sent.fetch_add(1, SeqCst);
        }
        Ok(())
    }
}

#[tower_lsp::async_trait]
impl tower_lsp::LanguageServer for Flood {
    async fn initialize(
        &self,
        _: tower_lsp::lsp_types::InitializeParams,
    ) -> tower_lsp::jsonrpc::Result<tower_lsp::lsp_types::InitializeResult> {
        Ok(Default::default())
    }
    async fn shutdown(&self) -> tower_lsp::jsonrpc::Result<()> {
        Ok(())
    }
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "overload",
        rule: "hundreds of requests, notifications, malformed messages or client messages while handlers \
               do not finish or the output accepts nothing; the number accepted is bounded, and all of them \
               are dealt with once the obstacle is gone; non-trivial: the flood was held back",
        quick: 1_200,
        thorough: 12_000,
        strategy: Box::new(strategy),
        run,
    })]
}
