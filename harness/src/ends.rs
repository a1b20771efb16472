//! Servers that end: EOF or exit at any point, handlers finishing later, slow, held or failing
//! output, failing input (C17, C18).

use std::collections::{BTreeMap, BTreeSet};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower_lsp::Client;

use crate::ensure;
use crate::exec::Sched;
use crate::fail::{Fail, Info};
use crate::front::Front;
use crate::gen::*;
use crate::io::{Act, ErrKind, InItem};
use crate::machine::matches_any;
use crate::rig::{self, Ev, Ret, RigCtl, Script, Step};
use crate::wire::{frame, frame_value};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Messages arriving together: (form, script).
    Send(Vec<(u8, Script)>),
    /// Opens the n-th gate at which a handler waits.
    Open(u8),
    /// The output accepts nothing until released.
    Hold,
    Release,
    /// A task outside any handler sends this many messages to the client, padded.
    Speak(u8, u8),
    /// A malformed message.
    Junk,
    /// A response nobody waits for.
    Stray,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum End {
    /// EOF after this many bytes of one more message.
    Eof(u16),
    /// A read error after this many bytes of one more message.
    Error(ErrKind, u16),
    /// Exit, then (0) EOF, (1) a request, (2) a response.
    Exit(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    Fail(u16, ErrKind),
    Zero(u16),
    Flush(u8, ErrKind),
    Close(ErrKind),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub conc: Option<u8>,
    pub acts: Vec<Act>,
    /// 0: initialized, 1: never, 2: an initialize handler is waiting.
    pub init: u8,
    pub ops: Vec<Op>,
    pub end: End,
    /// The last burst and the end arrive together.
    pub glued: bool,
    pub after: Vec<Op>,
    pub fault: Option<Fault>,
    /// Counts the fault's bytes or flushes from the end of the input on.
    pub late: bool,
    pub ids: u8,
    pub sched: Vec<u8>,
}

struct Req {
    id: Value,
    /// Response given without running a handler.
    fixed: Option<i64>,
    ret: Ret,
    custom: bool,
    answered: bool,
}

struct Run {
    f: Front,
    ctl: RigCtl,
    client: Client,
    info: Info,
    reqs: BTreeMap<usize, Req>,
    scripts: BTreeMap<usize, Script>,
    opened: BTreeSet<(usize, usize)>,
    said: BTreeSet<String>,
    next: usize,
    spoke: usize,
    held: bool,
    served: bool,
    /// Null-id error responses that may come.
    junk: usize,
    exited: bool,
    eof: bool,
    ids: u8,
    faulty: bool,
    broken_input: bool,
    /// Nothing more will be read.
    over: bool,
}

const LATE: &str = "late request";

pub fn run(case: &Case) -> Result<Info, Fail> {
    let ctl = RigCtl::default();
    let (service, socket, client) = rig::service(&ctl, &[]);
    let conc = case.conc.map(|n| n.max(1) as usize);
    // Large messages do not come in trickles.
    let large = case.ops.iter().any(|o| match o {
        Op::Send(m) => m.iter().any(|(_, s)| s.steps.iter().any(|s| matches!(s, Step::Shout(_)))),
        Op::Speak(_, kb) => *kb > 0,
        _ => false,
    }) || case.after.iter().any(|o| matches!(o, Op::Speak(..)));
    let acts: Vec<Act> = case
        .acts
        .iter()
        .map(|a| match a {
            Act::Take(n) if large => Act::Take(n * 64 + 500),
            a => *a,
        })
        .collect();
    let f = Front::wire(service, socket, conc, Sched::new(&case.sched), &acts);
    let mut r = Run {
        f,
        ctl,
        client,
        info: Info::default(),
        reqs: BTreeMap::new(),
        scripts: BTreeMap::new(),
        opened: BTreeSet::new(),
        said: BTreeSet::new(),
        next: 0,
        spoke: 0,
        held: false,
        served: case.init == 0,
        junk: 0,
        exited: false,
        eof: false,
        ids: case.ids,
        faulty: case.fault.is_some(),
        broken_input: false,
        over: false,
    };
    if case.init != 1 {
        let steps = if case.init == 2 { vec![Step::Gate] } else { vec![] };
        let script = Script { steps, ret: Ret::Ok(json!("init")) };
        let v = request_value("initialize", Some(json!("init")), Some(rig::init_params(&script, 0)));
        r.request(json!("init"), script, false, None);
        r.f.send(&v)?;
    } else {
        r.next = 1;
    }
    r.info.class(case.init == 1, "not initialized");
    r.info.class(case.init == 2, "initializing");
    if !case.late {
        r.fault(&case.fault);
    }
    r.settle()?;
    if case.init == 0 {
        // The initialize request may not get through a failing or stuck output.
        ensure!(
            r.faulty || r.blocked() || r.reqs[&0].answered,
            ["C17", "C18", "C07"],
            "initialize was not answered"
        );
    }
    let last = case.ops.len().saturating_sub(1);
    for (i, op) in case.ops.iter().enumerate() {
        r.op(op)?;
        if !(case.glued && i == last) {
            r.settle()?;
        }
    }
    r.end(case)?;
    for op in &case.after {
        match op {
            Op::Send(_) | Op::Junk | Op::Stray => {}
            op => {
                r.op(op)?;
                r.settle()?;
            }
        }
    }
    r.finish(case)?;
    Ok(r.info)
}

impl Run {
    fn blocked(&self) -> bool {
        self.f.out().unwrap().is_blocked()
    }
    fn failed(&self) -> bool {
        self.f.out().unwrap().failed()
    }

    fn fault(&mut self, fault: &Option<Fault>) {
        let out = self.f.out().unwrap();
        let base = out.written_len();
        match fault {
            None => {}
            Some(Fault::Fail(n, k)) => out.fail_after(base + *n as usize, *k),
            Some(Fault::Zero(n)) => out.zero_after(base + *n as usize),
            Some(Fault::Flush(n, k)) => out.fail_flush(out.flushes() + *n as u32, *k),
            Some(Fault::Close(k)) => out.fail_close(*k),
        }
    }

    fn request(&mut self, id: Value, script: Script, custom: bool, fixed: Option<i64>) {
        let ret = script.ret.clone();
        self.reqs.insert(self.next, Req { id, fixed, ret, custom, answered: false });
        self.scripts.insert(self.next, script);
        self.next += 1;
    }

    fn unfinished(&self) -> usize {
        let started = |i: &usize| self.ctl.log(*i);
        self.scripts
            .keys()
            .filter(|i| self.reqs.get(i).map_or(true, |r| r.fixed.is_none()))
            .filter(|i| !started(i).iter().any(|e| matches!(e, Ev::End | Ev::Dropped)))
            .count()
    }

    fn op(&mut self, op: &Op) -> Result<(), Fail> {
        match op {
            Op::Send(msgs) => {
                for (form, script) in msgs {
                    if self.scripts.len() > 80 {
                        break;
                    }
                    let n = self.next;
                    let mut s = script.clone();
                    if matches!(s.ret, Ret::Never | Ret::Bad) {
                        s.ret = Ret::Ok(json!(n));
                    }
                    let id = distinct_id(self.ids, n);
                    let fixed = (!self.served).then_some(-32002);
                    let v = match form % 5 {
                        0 | 1 => {
                            let p = rig::command_params(&s, n);
                            self.request(id.clone(), s, false, fixed);
                            request_value("workspace/executeCommand", Some(id), Some(p))
                        }
                        2 => {
                            let p = s.params(n);
                            self.request(id.clone(), s, true, fixed);
                            request_value("x/req", Some(id), Some(p))
                        }
                        k => {
                            let v = if k == 3 {
                                let p = rig::config_params(&s, n);
                                request_value("workspace/didChangeConfiguration", None, Some(p))
                            } else {
                                request_value("x/note", None, Some(s.params(n)))
                            };
                            if self.served {
                                self.scripts.insert(n, s);
                            }
                            self.next += 1;
                            v
                        }
                    };
                    self.f.send(&v)?;
                }
            }
            Op::Open(k) => {
                let mut g = self.waiting();
                // The initialize handler goes on once everything has been read.
                g.retain(|(i, _)| *i > 0 || self.over);
                if !g.is_empty() {
                    let n = *k as usize % g.len();
                    self.info.class(n > 0, "finished out of order");
                    self.open(g[n]);
                }
            }
            Op::Hold => {
                self.held = true;
                self.f.out().unwrap().hold();
            }
            Op::Release => {
                self.held = false;
                self.f.out().unwrap().release();
            }
            Op::Speak(n, kb) => {
                let (c, s, n) = (self.client.clone(), self.spoke, *n);
                let pad = "x".repeat(*kb as usize * 1024);
                self.spoke += 1;
                self.f.exec.spawn(async move {
                    for i in 0..n {
                        c.log_message(tower_lsp::lsp_types::MessageType::INFO, format!("s{s}:{i} {pad}")).await;
                    }
                });
            }
            Op::Junk => {
                self.junk += 1;
                self.f.input().unwrap().data(frame(b"{\"jsonrpc\":\"2.0\""));
            }
            Op::Stray => self.f.send(&ok_value(json!(77_000), json!("stray")))?,
        }
        Ok(())
    }

    /// Gates at which handlers wait.
    fn waiting(&self) -> Vec<(usize, usize)> {
        self.scripts
            .iter()
            .filter_map(|(i, s)| {
                let log = self.ctl.log(*i);
                if log.is_empty() || log.iter().any(|e| matches!(e, Ev::End | Ev::Dropped)) {
                    return None;
                }
                let pos = log.iter().filter(|e| matches!(e, Ev::Step(_))).count();
                (s.steps.get(pos) == Some(&Step::Gate) && !self.opened.contains(&(*i, pos))).then_some((*i, pos))
            })
            .collect()
    }

    fn open(&mut self, g: (usize, usize)) {
        self.opened.insert(g);
        self.ctl.open(g.0, g.1);
    }

    fn tag(&self) -> Vec<&'static str> {
        let mut t = vec!["C17"];
        if self.faulty || self.broken_input {
            t = vec!["C18"];
        }
        if self.exited {
            t.push("C09");
        }
        t
    }

    fn settle(&mut self) -> Result<(), Fail> {
        let got = self.f.run()?;
        for v in got {
            match v["method"].as_str() {
                Some("window/logMessage") | Some("telemetry/event") => self.said(&v)?,
                Some(_) => return Err(Fail::new(&["C21", "C18"], format!("unexpected {v}"))),
                None => self.response(&v)?,
            }
        }
        let out = self.f.out().unwrap();
        if !self.blocked() && !self.failed() {
            ensure!(
                out.unflushed() == 0,
                if self.eof { ["C02", "C17"] } else { ["C02", "C02"] },
                "{} bytes are written but not flushed",
                out.unflushed()
            );
            for (i, r) in &self.reqs {
                let log = self.ctl.log(*i);
                let due = r.fixed.is_some() || log.contains(&Ev::End) || self.exited;
                if due && !r.answered && !self.unread(*i) {
                    let mut t = self.tag();
                    t.extend(["C04", "C02"]);
                    return Err(Fail::new(&t, format!("request {} is due an answer: {log:?}", r.id)));
                }
            }
        }
        if self.f.ended() && !self.failed() {
            ensure!(self.exited || self.eof, ["C17", "C18"], "the server returned while its input was open");
            if !self.exited {
                let n = self.unfinished();
                let mut t = self.tag();
                t.push("C04");
                ensure!(n == 0, t, "the server returned though {n} handlers have not finished");
            }
        }
        Ok(())
    }

    /// A queued call whose future has not been polled yet has no answer though its outcome is known.
    fn unread(&self, i: usize) -> bool {
        // Outcomes fixed at arrival still need a slot.
        let fixed = self.reqs[&i].fixed.is_some() || self.exited;
        fixed && self.ctl.log(i).is_empty() && self.ctl.running() > 0
    }

    fn said(&mut self, v: &Value) -> Result<(), Fail> {
        let text = match v["params"]["message"].as_str() {
            Some(t) => t.split(' ').next().unwrap_or(t).to_string(),
            None => format!("{}:{}", v["params"]["call"], v["params"]["step"]),
        };
        let known = match text.strip_prefix('s') {
            Some(s) => s.split_once(':').map_or(false, |(s, _)| s.parse::<usize>().map_or(false, |n| n < self.spoke)),
            None => text.split_once(':').map_or(false, |(c, s)| {
                let (c, s) = (c.parse::<usize>().unwrap_or(usize::MAX), s.parse::<usize>().unwrap_or(usize::MAX));
                let step = self.scripts.get(&c).and_then(|x| x.steps.get(s));
                matches!(step, Some(Step::Say | Step::Tele | Step::Shout(_)))
            }),
        };
        ensure!(known, ["C21", "C18"], "a message nobody sent: {v}");
        ensure!(self.said.insert(text), ["C21", "C02", "C18"], "{v} was sent twice");
        Ok(())
    }

    fn response(&mut self, v: &Value) -> Result<(), Fail> {
        if v["id"].is_null() {
            ensure!(self.junk > 0, ["C03", "C18"], "an error response nobody caused: {v}");
            self.junk -= 1;
            return Ok(());
        }
        if v["id"] == LATE {
            ensure!(v.get("error").is_some(), ["C09"], "a request after exit got {v}");
            return Ok(());
        }
        let hit = self.reqs.iter_mut().find(|(_, r)| r.id == v["id"]);
        let Some((i, r)) = hit else {
            return Err(Fail::new(&["C04", "C18"], format!("a response to nothing: {v}")));
        };
        ensure!(!r.answered, ["C04", "C17", "C18"], "a second response {v}");
        r.answered = true;
        let ended = self.ctl.log(*i).contains(&Ev::End);
        let want = match r.fixed {
            Some(code) => {
                let mut w = vec![json!({"error": {"code": code}})];
                if self.exited {
                    w.push(json!({"error": {"code": -32800}}));
                }
                w
            }
            None if ended => {
                let (k, e) = rig::expected(&r.ret, r.custom).unwrap();
                // The result of the initialize handler is wrapped.
                let e = if *i == 0 { json!({"capabilities": {}, "serverInfo": {"name": e}}) } else { e };
                vec![json!({ k: e })]
            }
            None => vec![json!({"error": {"code": -32800}})],
        };
        let ok = (ended || r.fixed.is_some() || self.exited) && matches_any(v, &r.id, &want);
        let mut t = vec!["C04", "C17", "C18"];
        if self.exited {
            t.push("C09");
        }
        ensure!(ok, t, "response {v}, expected {want:?} (handler {:?})", self.ctl.log(*i));
        Ok(())
    }

    fn end(&mut self, case: &Case) -> Result<(), Fail> {
        let running = self.unfinished();
        let out = self.blocked();
        let speaking = out
            && self.scripts.iter().any(|(i, s)| {
                let log = self.ctl.log(*i);
                let pos = log.iter().filter(|e| matches!(e, Ev::Step(_))).count();
                !log.is_empty()
                    && !log.contains(&Ev::End)
                    && matches!(s.steps.get(pos), Some(Step::Say | Step::Tele | Step::Shout(_)))
            });
        self.info.class(running > 0, "handlers unfinished at the end");
        self.info.class(out, "output held at the end");
        self.info.class(speaking, "a handler waits for the output at the end");
        if case.late {
            self.fault(&case.fault);
        }
        match &case.end {
            End::Eof(n) => {
                self.partial(*n);
                self.eof = true;
                self.info.class(true, "EOF");
                self.f.eof();
                self.settle()?;
            }
            End::Error(k, n) => {
                self.partial(*n);
                self.junk += 2;
                self.eof = true;
                self.broken_input = true;
                self.info.class(true, "input failure");
                self.f.input().unwrap().push(InItem::Err(*k));
                self.settle()?;
            }
            End::Exit(then) => {
                self.f.send(&request_value("exit", None, None))?;
                self.info.class(true, "exit");
                if !case.glued {
                    self.exited = true;
                    self.settle()?;
                }
                match then {
                    0 => self.f.eof(),
                    1 => {
                        let s = rig::simple(Ret::Ok(json!("late")));
                        self.f.send(&request_value("x/req", Some(json!(LATE)), Some(s.params(1 << 40))))?;
                        self.info.class(true, "request after exit");
                    }
                    _ => {
                        self.f.send(&ok_value(json!(88_000), json!("late")))?;
                        self.info.class(true, "response after exit");
                    }
                }
                self.exited = true;
                self.settle()?;
                ensure!(self.ctl.log(1 << 40).is_empty(), ["C09"], "a handler started after exit");
            }
        }
        Ok(())
    }

    /// Part of a message.
    fn partial(&mut self, n: u16) {
        let bytes = frame_value(&request_value("x/req", Some(json!("partial")), Some(json!("é"))));
        let n = n as usize % bytes.len();
        if n > 0 {
            self.info.class(true, "cut within a message");
            // Not a message, so possibly answered with a null-id error.
            self.junk += n;
            self.f.input().unwrap().data(bytes[..n].to_vec());
        }
    }

    fn finish(&mut self, case: &Case) -> Result<(), Fail> {
        if matches!(case.end, End::Exit(_)) && self.faulty {
            self.f.eof();
            self.settle()?;
        }
        let mut turn = case.sched.len();
        loop {
            if self.blocked() {
                self.held = false;
                self.f.out().unwrap().release();
            } else {
                // Everything sent has been read.
                self.over = true;
                let g = self.waiting();
                if g.is_empty() {
                    break;
                }
                self.open(g[if turn % 2 == 0 { 0 } else { g.len() - 1 }]);
                turn += 1;
            }
            self.settle()?;
        }
        self.info.class(self.failed(), "output failure");
        self.info.class(self.failed() && self.broken_input, "both failures");
        let mut t = self.tag();
        t.push("C17");
        ensure!(
            self.f.ended(),
            t,
            "the server did not return though {} and every handler may finish{}",
            if self.exited { "it received exit and a further event" } else { "its input is over" },
            if self.failed() { " (its output failed)" } else { "" }
        );
        // What is left must be a proper beginning of a frame.
        let out = self.f.out().unwrap();
        let bytes = out.written();
        let (_, rest) = crate::wire::parse_frames(&bytes).map_err(|e| Fail::new(&["C18", "C02"], e))?;
        let dead = self.failed() && !matches!(case.fault, Some(Fault::Close(_)));
        ensure!(rest.is_empty() || dead, ["C02", "C17", "C18"], "{} bytes of an incomplete frame", rest.len());
        prefix(&rest).map_err(|e| Fail::new(&["C18", "C02"], e))?;
        if !self.failed() {
            for r in self.reqs.values() {
                let mut t = self.tag();
                t.push("C04");
                ensure!(r.answered, t, "request {} was never answered", r.id);
            }
            ensure!(out.unflushed() == 0, ["C02", "C17"], "{} bytes were not flushed", out.unflushed());
        }
        Ok(())
    }
}

/// The beginning of a frame.
fn prefix(b: &[u8]) -> Result<(), String> {
    let head = match b.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(p) => &b[..p],
        None => b,
    };
    let name = b"Content-Length: ";
    let n = head.len().min(name.len());
    if head[..n] != name[..n] {
        return Err(format!("output ends with {:?}", String::from_utf8_lossy(b)));
    }
    if head.len() == b.len() {
        let rest = &head[n..];
        let digits = rest.iter().take_while(|c| c.is_ascii_digit()).count();
        return match &rest[digits..] {
            b"" | b"\r" | b"\r\n" | b"\r\n\r" => Ok(()),
            _ => Err(format!("output ends with {:?}", String::from_utf8_lossy(b))),
        };
    }
    let body = &b[head.len() + 4..];
    match serde_json::from_slice::<Value>(body) {
        Err(e) if e.is_eof() => Ok(()),
        // Cut within a character.
        Err(_) if std::str::from_utf8(body).map_or_else(|e| e.error_len().is_none(), |_| false) => Ok(()),
        other => Err(format!("output ends with a damaged body: {other:?}")),
    }
}

#[derive(Clone, Copy)]
pub struct Mix {
    /// Output faults, input faults, exits.
    pub fault: f64,
    pub end: [u32; 3],
}

pub fn arb_kind() -> BoxedStrategy<ErrKind> {
    use ErrKind::*;
    prop_oneof![
        1 => proptest::sample::select(vec![
            Reset, BrokenPipe, Eof, Other, InvalidData, TimedOut, Interrupted, WouldBlock
        ]),
        1 => (0u8..15).prop_map(Bare),
        1 => (0u8..8).prop_map(Os),
    ]
    .boxed()
}

pub fn arb_case(x: Mix, thorough: bool) -> BoxedStrategy<Case> {
    let step = prop_oneof![
        4 => Just(Step::Gate),
        1 => Just(Step::Yield),
        4 => Just(Step::Say),
        1 => Just(Step::Tele),
        1 => proptest::sample::select(vec![9u8, 9, 9, 40, 140]).prop_map(Step::Shout),
    ];
    let ret = prop_oneof![4 => arb_small().prop_map(Ret::Ok), 1 => arb_error().prop_map(Ret::Err)];
    let script = (prop::collection::vec(step, 0..5), ret).prop_map(|(steps, ret)| Script { steps, ret });
    let op = prop_oneof![
        10 => prop::collection::vec((any::<u8>(), script), 1..6).prop_map(Op::Send),
        5 => any::<u8>().prop_map(Op::Open),
        2 => Just(Op::Hold),
        1 => Just(Op::Release),
        1 => (1u8..6, proptest::sample::select(vec![0u8, 0, 9, 140])).prop_map(|(n, k)| Op::Speak(n, k)),
        1 => Just(Op::Junk),
        1 => Just(Op::Stray),
    ]
    .boxed();
    let act = prop_oneof![3 => (1u32..80).prop_map(Act::Take), 1 => Just(Act::Pend), 1 => Just(Act::Block)];
    let acts = prop_oneof![
        2 => Just(vec![]),
        1 => prop::collection::vec(act.clone(), 0..6),
        1 => (prop::collection::vec(act, 0..4), 1u32..40).prop_map(|(mut v, n)| {
            v.push(Act::Take(n));
            v
        }),
    ];
    let cut = prop_oneof![3 => Just(0u16), 1 => any::<u16>()].boxed();
    let end = prop_oneof![
        x.end[0] => cut.clone().prop_map(End::Eof),
        x.end[1] => (arb_kind(), cut).prop_map(|(k, n)| End::Error(k, n)),
        x.end[2] => (0u8..3).prop_map(End::Exit),
    ];
    let bytes = prop_oneof![1 => Just(0u16), 3 => 0u16..200, 2 => 0u16..1500];
    let fault = prop_oneof![
        3 => (bytes.clone(), arb_kind()).prop_map(|(n, k)| Fault::Fail(n, k)),
        2 => bytes.prop_map(Fault::Zero),
        2 => (0u8..8, arb_kind()).prop_map(|(n, k)| Fault::Flush(n, k)),
        1 => arb_kind().prop_map(Fault::Close),
    ];
    let n = if thorough { 24 } else { 10 };
    (
        (
            prop_oneof![2 => Just(None), 5 => (1u8..7).prop_map(Some)],
            acts,
            proptest::sample::select(vec![0u8, 0, 0, 0, 0, 0, 1, 2]),
            prop::collection::vec(op.clone(), 0..n),
            end,
            any::<bool>(),
        ),
        (
            prop::collection::vec(op, 0..6),
            if x.fault == 0.0 { Just(None).boxed() } else { prop::option::weighted(x.fault, fault).boxed() },
            any::<bool>(),
            proptest::sample::select(vec![0u8, 0, 0, 1, 2, 3, 4, 5]),
            prop::collection::vec(any::<u8>(), 0..12),
        ),
    )
        .prop_map(|((conc, acts, init, ops, end, glued), (after, fault, late, ids, sched))| Case {
            conc, acts, init, ops, end, glued, after, fault, late, ids, sched,
        })
        .boxed()
}
