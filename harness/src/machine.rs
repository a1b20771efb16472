//! Model-based histories of requests, cancellations and lifecycle messages against the real
//! service (futures driven directly, or through the server over byte streams).

use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;
use std::task::{Context, Poll};

use futures::StreamExt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::Response;
use tower_lsp::{ExitedError, LspService};

use crate::ensure;
use crate::exec::{Exec, Sched};
use crate::fail::{Fail, Info};
use crate::gen::*;
use crate::watch::look;
use crate::io::{InCtl, OutCtl};
use crate::mock::{make_request, make_server, request_json, response_json};
use crate::rig::{self, Ev, Ret, Rig, RigCtl, Script, Step};
use crate::std_methods::{self, Std};
use crate::wire::{frame_value, parse_frames};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    Init { id: u8, script: Script },
    InitBad { id: u8 },
    InitNote,
    Shutdown { id: u8, script: Script },
    Exit,
    /// `std`: 0 for `workspace/executeCommand`, else a method of the protocol.
    Req { id: u8, custom: bool, script: Script, #[serde(default)] std: u8 },
    Note { custom: bool, script: Script, #[serde(default)] std: u8 },
    /// Cancels the given id.
    Cancel { id: u8 },
    /// Cancels the id of an earlier call (counted back from the latest).
    CancelBack { back: u8 },
    /// The same, processed at once although what it wakes up is not polled yet (only for service
    /// futures; otherwise the same as `CancelBack`).
    CancelNow { back: u8 },
    Unknown { id: Option<u8> },
    BadParams { id: u8, form: u8, #[serde(default)] std: u8 },
    /// A notification method with an id.
    NoteAsReq { id: u8, custom: bool, #[serde(default)] std: u8 },
    /// A request method without an id.
    ReqAsNote { custom: bool, #[serde(default)] std: u8 },
    /// A response nobody waits for (through the server only).
    Stray { id: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Messages handed over before any of their futures is polled.
    Burst(Vec<Msg>),
    /// Opens one of the gates at which handlers wait.
    Open(u8),
    /// Polls everything without a wake-up.
    Spurious,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub wire: bool,
    pub hijacks: Vec<(u8, u8)>,
    pub ops: Vec<Op>,
    pub sched: Vec<u8>,
    /// Added to every id.
    #[serde(default)]
    pub ids: u8,
}

const HIJACKABLE: &[&str] = &[
    "initialize", "shutdown", "exit", "$/cancelRequest", "workspace/executeCommand",
    "workspace/didChangeConfiguration", "x/req", "x/note", "textDocument/hover", "initialized",
];

pub fn pool_id(i: u8) -> Value {
    match i % POOL {
        0 => json!(1),
        1 => json!("1"),
        2 => json!(2),
        3 => json!("2"),
        4 => json!(0),
        5 => json!(""),
        6 => Value::Null,
        7 => json!(-1),
        8 => json!("-1"),
        9 => json!(1i64 << 40),
        10 => json!("é\"\\"),
        11 => json!(i32::MAX),
        12 => json!(i64::MAX),
        13 => json!((1i64 << 53) + 1),
        14 => json!(i64::MIN),
        15 => json!("null"),
        16 => json!(i32::MIN),
        17 => json!("01"),
        18 => json!(1i64 << 53),
        _ => json!((1i64 << 40) + 1),
    }
}
const POOL: u8 = 20;

/// The protocol can name it in a cancellation.
fn cancellable(id: &Value) -> bool {
    match id {
        Value::Number(n) => n.as_i64().map_or(false, |n| i32::try_from(n).is_ok()),
        Value::String(_) => true,
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Un,
    Initing,
    Inited,
    Shut,
    Exited,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    Own,
    Dup,
    PreInit,
    AfterShut,
    SurplusInit,
    SurplusShut,
    Cancelled,
    ExitAbort,
    Refused,
    Unknown,
    Kind,
    Params,
    Nothing,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Init,
    Shutdown,
    Normal,
    Other,
}

#[derive(Clone, Debug)]
enum Want {
    Pending,
    /// The service call must fail as exited.
    Refuse,
    /// No response.
    Silent,
    /// One of these `result`/`error` members (an error only by its code).
    One(Vec<Value>),
    /// Anything, including nothing.
    Any,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Life {
    /// Called, not polled yet.
    Queued,
    Running,
    /// Told to abort, not yet polled again.
    Aborting,
    Done,
}

struct MCall {
    id: Option<Value>,
    kind: Kind,
    custom: bool,
    std: Option<&'static Std>,
    script: Option<Script>,
    life: Life,
    in_flight: bool,
    pos: usize,
    /// At a yield, passed at the next poll.
    yielding: bool,
    log: Vec<Ev>,
    want: Want,
    why: Why,
    /// The id had been used and answered before.
    reused: bool,
    /// A cancellation named a look-alike id while this was in flight.
    near_cancel: bool,
    checked: bool,
}

struct Model {
    st: St,
    calls: Vec<MCall>,
    open: HashSet<(usize, usize)>,
    all_open: bool,
    says: Vec<String>,
    shutdown_accepted: bool,
}

fn code(c: i64) -> Value {
    json!({ "code": c })
}
fn err_want(c: i64) -> Want {
    Want::One(vec![json!({"error": code(c)})])
}

impl Model {
    fn in_flight(&self, id: &Value) -> Option<usize> {
        self.calls.iter().position(|c| c.in_flight && c.id.as_ref() == Some(id))
    }

    fn gate_closed(&self, call: usize, step: usize) -> bool {
        !self.all_open && !self.open.contains(&(call, step))
    }

    /// Runs the handler on; `first` = stop at the first yield.
    fn advance(&mut self, i: usize, first: bool) {
        loop {
            let Some(script) = self.calls[i].script.clone() else { return };
            let pos = self.calls[i].pos;
            match script.steps.get(pos) {
                None => break,
                Some(Step::Yield) => {
                    if first {
                        self.calls[i].yielding = true;
                        return;
                    }
                    self.calls[i].yielding = false;
                }
                Some(Step::Gate) if self.gate_closed(i, pos) => return,
                Some(Step::Gate) => {}
                Some(Step::Say) => {
                    if self.st != St::Exited {
                        self.says.push(format!("{i}:{pos}"));
                    }
                }
                Some(_) => unreachable!("not generated here"),
            }
            self.calls[i].log.push(Ev::Step(pos));
            self.calls[i].pos += 1;
        }
        let script = self.calls[i].script.clone().unwrap();
        if script.ret == Ret::Never {
            return;
        }
        let c = &mut self.calls[i];
        c.log.push(Ev::End);
        c.life = Life::Done;
        c.in_flight = false;
        let ok = matches!(script.ret, Ret::Ok(_) | Ret::Bad);
        c.want = match (c.kind, &c.id) {
            (_, None) => Want::Silent,
            (Kind::Init, _) if ok => Want::One(vec![json!({"result": init_result(&script.ret)})]),
            (Kind::Shutdown, _) if ok => Want::One(vec![json!({"result": null})]),
            _ => {
                let (k, v) = match c.std {
                    Some(s) => rig::expected_std(&script.ret, s).unwrap(),
                    None => rig::expected(&script.ret, c.custom).unwrap(),
                };
                Want::One(vec![json!({ k: v })])
            }
        };
        if c.kind == Kind::Init && self.st == St::Initing {
            self.st = if ok { St::Inited } else { St::Un };
        }
    }

    fn abort(&mut self, i: usize, why: Why) {
        let c = &mut self.calls[i];
        c.why = why;
        c.want = err_want(-32800);
        c.life = match c.life {
            Life::Running => {
                c.log.push(Ev::Dropped);
                Life::Aborting
            }
            _ => Life::Aborting,
        };
    }
}

fn init_result(ret: &Ret) -> Value {
    match ret {
        Ret::Ok(Value::String(s)) => json!({"capabilities": {}, "serverInfo": {"name": s}}),
        _ => json!({"capabilities": {}}),
    }
}

enum Real {
    Service {
        service: LspService<Rig>,
        tasks: Vec<Option<usize>>,
        results: Rc<RefCell<Vec<Option<Result<Option<Response>, ExitedError>>>>>,
        sent: Rc<RefCell<Vec<Value>>>,
        drain: usize,
    },
    Wire { input: InCtl, out: OutCtl, task: usize, seen: usize },
}

pub struct Machine {
    m: Model,
    real: Real,
    exec: Exec,
    ctl: RigCtl,
    pub info: Info,
    /// Calls of the current burst that were not polled yet.
    fresh: Vec<usize>,
    cancels: Vec<(usize, Value)>,
    wire_ended: bool,
    answered_ids: HashSet<String>,
    ids: u8,
}

pub fn run(case: &Case) -> Result<Info, Fail> {
    crate::turns::alone(history(case))
}

pub async fn history(case: &Case) -> Result<Info, Fail> {
    let hijacks: Vec<(&'static str, u8)> = case
        .hijacks
        .iter()
        .map(|(n, k)| (HIJACKABLE[*n as usize % HIJACKABLE.len()], *k))
        .collect();
    let ctl = RigCtl::default();
    let (service, socket, _client) = rig::service(&ctl, &hijacks);
    let mut exec = Exec::new(Sched::new(&case.sched));
    let real = if case.wire {
        let (input, stdin) = InCtl::new();
        let (out, stdout) = OutCtl::plain();
        let server = make_server(stdin, stdout, socket, Some(1000));
        let task = exec.spawn(server.serve(service));
        exec.run()?;
        Real::Wire { input, out, task, seen: 0 }
    } else {
        let sent = Rc::new(RefCell::new(Vec::new()));
        let s2 = sent.clone();
        let mut socket = socket;
        let drain = exec.spawn(async move {
            while let Some(r) = socket.next().await {
                s2.borrow_mut().push(request_json(&r));
            }
        });
        exec.run()?;
        Real::Service { service, tasks: vec![], results: Rc::default(), sent, drain }
    };
    let mut m = Machine {
        m: Model {
            st: St::Un,
            calls: vec![],
            open: HashSet::new(),
            all_open: false,
            says: vec![],
            shutdown_accepted: false,
        },
        real,
        exec,
        ctl,
        info: Info::default(),
        fresh: vec![],
        cancels: vec![],
        wire_ended: false,
        answered_ids: HashSet::new(),
        ids: case.ids,
    };
    m.info.class(case.wire, "through server");
    m.info.class(!case.wire, "service futures");
    m.info.class(!hijacks.is_empty(), "hijacking registration");
    for op in &case.ops {
        crate::turns::pause().await;
        match op {
            Op::Burst(msgs) => {
                for msg in msgs {
                    m.message(msg)?;
                    crate::turns::pause().await;
                    if case.wire {
                        m.settle()?;
                    }
                }
                m.info.class(!case.wire && m.fresh.len() > 1, "calls before polls");
                m.settle()?;
            }
            Op::Open(n) => m.open(*n)?,
            Op::Spurious => {
                m.exec.spurious();
                m.settle()?;
            }
        }
    }
    m.finish()?;
    Ok(m.info)
}

impl Machine {
    fn pool_id(&self, i: u8) -> Value {
        pool_id(i.wrapping_add(self.ids))
    }

    fn message(&mut self, msg: &Msg) -> Result<(), Fail> {
        let n = self.m.calls.len();
        let base = MCall {
            id: None,
            kind: Kind::Normal,
            custom: false,
            std: None,
            script: None,
            life: Life::Done,
            in_flight: false,
            pos: 0,
            yielding: false,
            log: vec![],
            want: Want::Silent,
            why: Why::Nothing,
            reused: false,
            near_cancel: false,
            checked: false,
        };
        let exited = self.m.st == St::Exited;
        // Cancellations take effect in turn: do not let one precede a new bearer of its id.
        if let Msg::Init { id, .. } | Msg::Shutdown { id, .. } | Msg::Req { id, .. } = msg {
            let id = self.pool_id(*id);
            if self.cancels.iter().any(|(_, i)| *i == id) && self.m.in_flight(&id).is_none() {
                self.settle()?;
            }
        }
        let mut settle_after = false;
        let (call, json) = match msg {
            Msg::Init { id, script } => {
                let id = self.pool_id(*id);
                let json = request_value("initialize", Some(id.clone()), Some(rig::init_params(script, n)));
                // An initialize request can only share its id with something of the same burst.
                if self.m.st == St::Un && self.m.in_flight(&id).is_some() {
                    return Ok(());
                }
                let mut c = MCall { id: Some(id), kind: Kind::Init, ..base };
                match self.m.st {
                    St::Un => {
                        self.m.st = St::Initing;
                        c.script = Some(script.clone());
                        c.life = Life::Queued;
                        c.in_flight = true;
                        c.want = Want::Pending;
                        c.why = Why::Own;
                    }
                    st => {
                        self.info.class(st == St::Initing, "initialize while initializing");
                        self.info.class(st == St::Inited || st == St::Shut, "surplus initialize");
                        c.why = Why::SurplusInit;
                        c.want = err_want(-32600);
                    }
                }
                (c, json)
            }
            Msg::InitBad { id } => {
                self.settle()?;
                settle_after = true;
                let id = self.pool_id(*id);
                let json = request_value("initialize", Some(id.clone()), Some(json!({"capabilities": 3})));
                let (why, want) = match self.m.st {
                    St::Un => (Why::Params, err_want(-32602)),
                    _ => (Why::SurplusInit, err_want(-32600)),
                };
                self.info.class(why == Why::Params, "failed initialize");
                (MCall { id: Some(id), kind: Kind::Init, why, want, ..base }, json)
            }
            Msg::InitNote => {
                let s = rig::simple(Ret::Ok(Value::Null));
                let c = MCall { kind: Kind::Init, ..base };
                (c, request_value("initialize", None, Some(rig::init_params(&s, n))))
            }
            Msg::Shutdown { id, script } => {
                let id = self.pool_id(*id);
                if self.m.in_flight(&id).is_some() {
                    return Ok(());
                }
                let json = request_value("shutdown", Some(id.clone()), None);
                let mut c = MCall { id: Some(id), kind: Kind::Shutdown, ..base };
                match self.m.st {
                    St::Inited => {
                        self.m.st = St::Shut;
                        self.m.shutdown_accepted = true;
                        self.ctl.0.lock().unwrap().shutdown = Some((n, script.clone()));
                        c.script = Some(script.clone());
                        c.life = Life::Queued;
                        c.in_flight = true;
                        c.want = Want::Pending;
                        c.why = Why::Own;
                        self.info.class(true, "shutdown");
                    }
                    St::Shut => {
                        c.why = Why::SurplusShut;
                        c.want = err_want(-32600);
                        self.info.class(true, "surplus shutdown");
                    }
                    _ => {
                        c.why = Why::PreInit;
                        c.want = err_want(-32002);
                        self.info.class(true, "shutdown before initialize");
                    }
                }
                (c, json)
            }
            Msg::Exit => {
                let c = MCall { kind: Kind::Other, ..base };
                (c, request_value("exit", None, None))
            }
            Msg::Req { id, custom, script, std } => {
                let id = self.pool_id(*id);
                let mut script = script.clone();
                if script.ret == Ret::Bad && !custom {
                    script.ret = Ret::Ok(Value::Null);
                }
                let std = self.standard(n, true, *custom, *std, &script);
                let json = match std {
                    Some(s) => request_value(s.name, Some(id.clone()), Some(std_methods::params(s.name, n))),
                    None if *custom => request_value("x/req", Some(id.clone()), Some(script.params(n))),
                    None => {
                        let p = rig::command_params(&script, n);
                        request_value("workspace/executeCommand", Some(id.clone()), Some(p))
                    }
                };
                let mut c = MCall { id: Some(id.clone()), custom: *custom, std, ..base };
                match self.m.st {
                    St::Inited => {
                        if let Some(other) = self.m.in_flight(&id) {
                            c.why = Why::Dup;
                            c.want = err_want(-32600);
                            let k = self.m.calls[other].kind;
                            self.info.class(true, "duplicate id");
                            self.info.class(k == Kind::Shutdown, "duplicate of shutdown id");
                            let a = self.m.calls[other].life == Life::Aborting;
                            self.info.class(a, "duplicate of cancelled, unanswered id");
                        } else {
                            c.life = Life::Queued;
                            c.in_flight = true;
                            c.want = Want::Pending;
                            c.why = Why::Own;
                            c.script = Some(script);
                            c.reused = self.answered_ids.contains(&id.to_string());
                            self.info.class(c.reused, "id reused");
                            self.info.class(*custom, "custom request");
                        }
                    }
                    st => {
                        self.refuse(&mut c, st);
                        if self.m.in_flight(&id).is_some() && !exited {
                            // Both the id and the state forbid it.
                            if let Want::One(v) = &mut c.want {
                                v.push(json!({"error": code(-32600)}));
                            }
                        }
                    }
                }
                (c, json)
            }
            Msg::Note { custom, script, std } => {
                let mut script = script.clone();
                if script.ret == Ret::Bad {
                    script.ret = Ret::Ok(Value::Null);
                }
                let std = self.standard(n, false, *custom, *std, &script);
                let json = match std {
                    Some(s) => {
                        if s.name == "initialized" {
                            // Its params cannot tell one call from another.
                            self.settle()?;
                            settle_after = true;
                            self.ctl.0.lock().unwrap().initialized = Some(n);
                        }
                        request_value(s.name, None, Some(std_methods::params(s.name, n)))
                    }
                    None if *custom => request_value("x/note", None, Some(script.params(n))),
                    None => {
                        let p = rig::config_params(&script, n);
                        request_value("workspace/didChangeConfiguration", None, Some(p))
                    }
                };
                let mut c = MCall { custom: *custom, std, ..base };
                match self.m.st {
                    St::Inited => {
                        c.life = Life::Queued;
                        c.want = Want::Pending;
                        c.why = Why::Own;
                        c.script = Some(script);
                    }
                    st => self.refuse(&mut c, st),
                }
                (c, json)
            }
            Msg::Cancel { .. } | Msg::CancelBack { .. } | Msg::CancelNow { .. } => {
                let id = match msg {
                    Msg::Cancel { id } => self.pool_id(*id),
                    Msg::CancelBack { back } | Msg::CancelNow { back } => {
                        let ids: Vec<Value> = self.m.calls.iter().filter_map(|c| c.id.clone()).collect();
                        if ids.is_empty() {
                            return Ok(());
                        }
                        ids[ids.len() - 1 - *back as usize % ids.len().min(6)].clone()
                    }
                    _ => unreachable!(),
                };
                if !cancellable(&id) && self.m.in_flight(&id).is_some() {
                    return Ok(());
                }
                // A handler that talks to the client may or may not be through its first poll.
                let target = self.m.in_flight(&id);
                let says = |i: usize| {
                    self.m.calls[i].script.as_ref().map_or(false, |s| s.steps.contains(&Step::Say))
                };
                if target.map_or(false, |t| self.fresh.contains(&t) && says(t)) {
                    self.settle()?;
                }
                let c = MCall { kind: Kind::Other, life: Life::Queued, ..base };
                if !exited && cancellable(&id) {
                    self.cancels.push((n, id.clone()));
                }
                (c, request_value("$/cancelRequest", None, Some(json!({ "id": id }))))
            }
            Msg::Unknown { id } => {
                let id = id.map(|i| self.pool_id(i));
                let json = request_value("x/unknown", id.clone(), None);
                let mut c = MCall { kind: Kind::Other, id: id.clone(), ..base };
                if id.is_some() {
                    c.why = Why::Unknown;
                    c.want = err_want(-32601);
                    if let Want::One(v) = &mut c.want {
                        match self.m.st {
                            St::Un | St::Initing => v.push(json!({"error": code(-32002)})),
                            St::Shut => v.push(json!({"error": code(-32600)})),
                            _ => {}
                        }
                    }
                    if self.m.in_flight(id.as_ref().unwrap()).is_some() {
                        if let Want::One(v) = &mut c.want {
                            v.push(json!({"error": code(-32600)}));
                        }
                    }
                }
                (c, json)
            }
            Msg::BadParams { .. } | Msg::NoteAsReq { .. } => {
                self.settle()?;
                settle_after = true;
                let (id, json, c2, why) = match msg {
                    Msg::BadParams { id, form, std } if *std > 0 => {
                        let id = self.pool_id(*id);
                        let name = std_methods::nth(true, *std as usize - 1).name;
                        let params = [None, Some(json!([7])), Some(json!({}))][*form as usize % 3].clone();
                        // Some methods have no required members.
                        (id.clone(), request_value(name, Some(id), params), (false, -32602), Why::Params)
                    }
                    Msg::BadParams { id, form, .. } => {
                        let id = self.pool_id(*id);
                        let (custom, params) = match form % 4 {
                            0 => (true, None),
                            1 => (false, None),
                            2 => (false, Some(json!({"command": 7}))),
                            _ => (false, Some(json!([1]))),
                        };
                        let name = if custom { "x/req" } else { "workspace/executeCommand" };
                        (id.clone(), request_value(name, Some(id), params), (custom, -32602), Why::Params)
                    }
                    Msg::NoteAsReq { id, custom, std } => {
                        let id = self.pool_id(*id);
                        let s = rig::simple(Ret::Ok(Value::Null));
                        let json = if let Some(m) = self.standard(n, false, *custom, *std, &s) {
                            request_value(m.name, Some(id.clone()), Some(std_methods::params(m.name, n)))
                        } else if *custom {
                            request_value("x/note", Some(id.clone()), Some(s.params(n)))
                        } else {
                            let p = rig::config_params(&s, n);
                            request_value("workspace/didChangeConfiguration", Some(id.clone()), Some(p))
                        };
                        (id, json, (*custom, -32600), Why::Kind)
                    }
                    _ => unreachable!(),
                };
                let mut c = MCall { id: Some(id.clone()), custom: c2.0, ..base };
                match self.m.st {
                    St::Inited => {
                        c.why = why;
                        c.want = err_want(c2.1);
                        if self.m.in_flight(&id).is_some() {
                            c.want = Want::One(vec![
                                json!({"error": code(c2.1)}),
                                json!({"error": code(-32600)}),
                            ]);
                        }
                    }
                    st => {
                        self.refuse(&mut c, st);
                        if let (Want::One(v), true) = (&mut c.want, self.m.in_flight(&id).is_some()) {
                            v.push(json!({"error": code(-32600)}));
                        }
                    }
                }
                (c, json)
            }
            Msg::ReqAsNote { custom, std } => {
                let s = rig::simple(Ret::Ok(Value::Null));
                let json = if let Some(m) = self.standard(n, true, *custom, *std, &s) {
                    request_value(m.name, None, Some(std_methods::params(m.name, n)))
                } else if *custom {
                    request_value("x/req", None, Some(s.params(n)))
                } else {
                    request_value("workspace/executeCommand", None, Some(rig::command_params(&s, n)))
                };
                (MCall { custom: *custom, ..base }, json)
            }
            Msg::Stray { id } => {
                if let (Real::Wire { input, .. }, false) = (&self.real, exited) {
                    self.info.class(true, "stray response");
                    input.data(frame_value(&ok_value(self.pool_id(*id), json!("stray"))));
                }
                return Ok(());
            }
        };
        let mut call = call;
        if exited {
            self.info.class(true, "message after exit");
            call.why = Why::Refused;
            call.want = Want::Refuse;
            call.life = Life::Done;
            call.in_flight = false;
            call.script = None;
        }
        self.deliver(&json)?;
        let queued = call.life == Life::Queued;
        self.m.calls.push(call);
        if queued {
            self.fresh.push(n);
        }
        if matches!(msg, Msg::CancelNow { .. }) {
            self.cancel_now(n)?;
        }
        if let (Msg::Exit, false) = (msg, exited) {
            self.m.st = St::Exited;
            self.cancels.clear();
            let live: Vec<usize> = (0..n).filter(|i| self.m.calls[*i].in_flight).collect();
            self.info.class(true, "exit");
            self.info.class(!live.is_empty(), "exit with requests in flight");
            for i in live {
                let k = self.m.calls[i].kind;
                self.info.class(k == Kind::Init, "exit while initializing");
                self.info.class(k == Kind::Shutdown, "exit while shutting down");
                self.m.abort(i, Why::ExitAbort);
            }
            // Requests refused in the same burst are not in flight, but not answered either.
            for i in 0..n {
                let c = &mut self.m.calls[i];
                if !c.checked && c.life == Life::Done && c.id.is_some() {
                    if let Want::One(v) = &mut c.want {
                        v.push(json!({"error": code(-32800)}));
                    }
                }
            }
        }
        if settle_after {
            self.settle()?;
            self.ctl.0.lock().unwrap().initialized = None;
        }
        Ok(())
    }

    /// The method of the protocol meant by `std`, if any; its handler will run the script.
    fn standard(&mut self, n: usize, request: bool, custom: bool, std: u8, script: &Script) -> Option<&'static Std> {
        if custom || std == 0 {
            return None;
        }
        let s = std_methods::nth(request, std as usize - 1);
        self.ctl.0.lock().unwrap().scripts.insert(n, (s.handler, script.clone()));
        self.info.class(true, "any method");
        Some(s)
    }

    /// Polls the cancellation `n` before anything else.
    fn cancel_now(&mut self, n: usize) -> Result<(), Fail> {
        let Some(p) = self.cancels.iter().position(|(c, _)| *c == n) else { return Ok(()) };
        let target = self.m.in_flight(&self.cancels[p].1);
        let Some(t) = target else { return Ok(()) };
        if self.m.calls[t].kind == Kind::Init {
            // Its end changes the state.
            return Ok(());
        }
        let Real::Service { tasks, .. } = &self.real else { return Ok(()) };
        let task = tasks[n].unwrap();
        self.exec.poll_once(task);
        self.cancels.remove(p);
        self.fresh.retain(|i| *i != n);
        self.m.calls[n].life = Life::Done;
        self.info.class(true, "cancelled, not polled yet");
        let k = self.m.calls[t].kind;
        self.info.class(k == Kind::Shutdown, "shutdown cancelled");
        self.m.abort(t, Why::Cancelled);
        Ok(())
    }

    fn refuse(&mut self, c: &mut MCall, st: St) {
        let (why, n) = match st {
            St::Un | St::Initing => (Why::PreInit, -32002),
            _ => (Why::AfterShut, -32600),
        };
        self.info.class(why == Why::PreInit, "message before initialized");
        self.info.class(st == St::Initing, "message while initializing");
        self.info.class(st == St::Shut, "message after shutdown");
        c.why = why;
        c.want = if c.id.is_some() { err_want(n) } else { Want::Silent };
    }

    fn deliver(&mut self, json: &Value) -> Result<(), Fail> {
        let exited = self.m.st == St::Exited;
        match &mut self.real {
            Real::Wire { input, .. } => {
                input.data(frame_value(json));
                if exited {
                    self.wire_ended = true;
                }
            }
            Real::Service { service, tasks, results, .. } => {
                let n = tasks.len();
                let waker = futures::task::noop_waker();
                let mut cx = Context::from_waker(&waker);
                match (service.poll_ready(&mut cx), exited) {
                    (Poll::Ready(Ok(())), false) | (Poll::Ready(Err(_)), true) => {}
                    (r, true) => {
                        return Err(Fail::new(&["C09"], format!("poll_ready after exit: {r:?}")))
                    }
                    (r, false) => {
                        return Err(Fail::new(
                            &["C04", "C07", "C08", "C22"],
                            format!("service not ready (message {n}, no exit): {r:?}"),
                        ))
                    }
                }
                look(service);
                let fut = service.call(make_request(json));
                results.borrow_mut().push(None);
                let r = results.clone();
                let t = self.exec.spawn(async move {
                    let out = fut.await;
                    r.borrow_mut()[n] = Some(out);
                });
                tasks.push(Some(t));
            }
        }
        Ok(())
    }

    fn settle(&mut self) -> Result<(), Fail> {
        // First polls, in order of arrival.
        let fresh = std::mem::take(&mut self.fresh);
        let cancels = std::mem::take(&mut self.cancels);
        if let Real::Service { tasks, .. } = &self.real {
            for t in tasks.iter().flatten().copied().collect::<Vec<_>>() {
                if !self.exec.is_done(t) && fresh.iter().any(|i| tasks[*i] == Some(t)) {
                    self.exec.poll_once(t);
                }
            }
        }
        for i in fresh {
            if let Some((_, id)) = cancels.iter().find(|(c, _)| *c == i) {
                self.m.calls[i].life = Life::Done;
                match self.m.in_flight(id) {
                    Some(t) => {
                        let started = self.m.calls[t].life == Life::Running;
                        let k = self.m.calls[t].kind;
                        self.info.class(true, "cancelled in flight");
                        self.info.class(started, "cancelled after start");
                        self.info.class(k == Kind::Init, "initialize cancelled");
                        self.info.class(k == Kind::Shutdown, "shutdown cancelled");
                        self.m.abort(t, Why::Cancelled);
                        if k == Kind::Init && self.m.st == St::Initing {
                            self.m.st = St::Un;
                        }
                    }
                    None => {
                        let seen = self.answered_ids.contains(&id.to_string());
                        self.info.class(seen, "cancel of answered id");
                        self.info.class(!seen, "cancel of unknown id");
                        let twin = twin(id);
                        if let Some(t) = twin.and_then(|t| self.m.in_flight(&t)) {
                            self.m.calls[t].near_cancel = true;
                            self.info.class(true, "cancel of differently typed id");
                        }
                    }
                }
                continue;
            }
            if self.m.calls[i].life == Life::Queued {
                if self.m.calls[i].script.is_some() {
                    self.m.calls[i].life = Life::Running;
                    self.m.calls[i].log.push(Ev::Start);
                    self.m.advance(i, true);
                } else {
                    self.m.calls[i].life = Life::Done;
                }
            }
        }
        // Then everything runs until it waits.
        self.exec.run()?;
        let live = (0..self.m.calls.len()).filter(|i| self.m.calls[*i].life == Life::Running);
        for i in live.collect::<Vec<_>>() {
            self.m.advance(i, false);
        }
        for c in &mut self.m.calls {
            if c.life == Life::Aborting {
                c.life = Life::Done;
                c.in_flight = false;
            }
        }
        let flying = self.m.calls.iter().filter(|c| c.in_flight).count();
        self.info.class(flying >= 2, "several in flight");
        self.check()
    }

    fn check(&mut self) -> Result<(), Fail> {
        let mut tags: Vec<&'static str> = Vec::new();
        let mut msgs: Vec<String> = Vec::new();
        let exited = self.m.st == St::Exited;
        let mut fail = |t: Vec<&'static str>, m: String| {
            if msgs.len() < 6 {
                msgs.push(m);
            }
            for t in t {
                if !tags.contains(&t) {
                    tags.push(t);
                }
            }
        };
        // Handler logs.
        for (i, c) in self.m.calls.iter().enumerate() {
            let got = self.ctl.log(i);
            if got != c.log {
                let ran_more = got.len() > c.log.len();
                fail(
                    tags_of(exited, c, ran_more, None, true),
                    format!("handler of call {i} ({:?}): log {got:?}, expected {:?}", c.why, c.log),
                );
            }
        }
        for i in self.ctl.calls_seen() {
            match i {
                rig::HIJACK => fail(vec!["C20", "C05"], "a hijacking handler ran".into()),
                rig::DAMAGED => fail(vec!["C05", "C06"], "a handler got damaged params".into()),
                rig::EXTRA_SHUTDOWN => {
                    fail(vec!["C08", "C07"], "the shutdown handler ran without being due".into())
                }
                i if i >= self.m.calls.len() => fail(vec!["*"], format!("unknown call {i} ran")),
                _ => {}
            }
        }
        // Responses.
        let mut says_got: Vec<String>;
        match &mut self.real {
            Real::Service { results, sent, drain, .. } => {
                let results = results.borrow();
                for (i, c) in self.m.calls.iter().enumerate() {
                    let got = &results[i];
                    let ok = match (&c.want, got) {
                        (Want::Any, _) => true,
                        (Want::Pending, None) => true,
                        (Want::Refuse, Some(Err(_))) => true,
                        (Want::Silent, Some(Ok(None))) => true,
                        (Want::One(v), Some(Ok(Some(r)))) => {
                            matches_any(&response_json(r), c.id.as_ref().unwrap(), v)
                        }
                        _ => false,
                    };
                    if !ok {
                        let got_json = match got {
                            Some(Ok(Some(r))) => Some(response_json(r)),
                            _ => None,
                        };
                        fail(
                            tags_of(exited, c, false, got_json.as_ref(), false),
                            format!(
                                "call {i} (id {:?}, {:?}): answered {got:?}, expected {:?}",
                                c.id, c.why, c.want
                            ),
                        );
                    }
                }
                says_got = sent.borrow_mut().drain(..).map(|v| say_text(&v)).collect();
                if exited && !self.exec.is_done(*drain) {
                    fail(vec!["C09"], "the client stream did not end after exit".into());
                }
                if !exited && self.exec.is_done(*drain) {
                    fail(vec!["C09", "C14", "C21"], "the client stream ended without exit".into());
                }
            }
            Real::Wire { out, seen, .. } => {
                let bytes = out.flushed();
                let (frames, rest) = parse_frames(&bytes[*seen..])
                    .map_err(|e| Fail::new(&["C02", "C04"], format!("bad output: {e}")))?;
                ensure!(rest.is_empty(), ["C02", "C04"], "output stops within a frame");
                *seen = bytes.len();
                says_got = Vec::new();
                let mut got: Vec<Value> = Vec::new();
                for f in frames {
                    if f.get("method").is_some() {
                        says_got.push(say_text(&f));
                    } else {
                        got.push(f);
                    }
                }
                for (i, c) in self.m.calls.iter().enumerate() {
                    if c.checked {
                        continue;
                    }
                    if let (Want::One(v), Some(id)) = (&c.want, &c.id) {
                        match got.iter().position(|g| matches_any(g, id, v)) {
                            Some(p) => {
                                got.remove(p);
                            }
                            None => {
                                let same = got.iter().find(|g| g["id"] == *id);
                                fail(
                                    tags_of(exited, c, false, same, false),
                                    format!(
                                        "call {i} (id {id}, {:?}): no answer {v:?} among {got:?}",
                                        c.why
                                    ),
                                );
                            }
                        }
                    }
                }
                for g in got {
                    // Find out whom it belongs to.
                    let owner = self.m.calls.iter().rev().find(|c| c.id.as_ref() == Some(&g["id"]));
                    let mut t = owner.map_or(vec!["C04"], |c| tags_of(exited, c, false, Some(&g), false));
                    t.push("C04");
                    fail(t, format!("unexpected response {g}"));
                }
            }
        }
        says_got.sort();
        let mut says = std::mem::take(&mut self.m.says);
        says.sort();
        if says_got != says {
            let t = if exited { vec!["C09", "C14"] } else { vec!["C21", "C14"] };
            fail(t, format!("messages to the client: {says_got:?}, expected {says:?}"));
        }
        for c in &mut self.m.calls {
            if !matches!(c.want, Want::Pending) && !c.checked {
                c.checked = true;
                if let Some(id) = &c.id {
                    self.answered_ids.insert(id.to_string());
                }
            }
        }
        if msgs.is_empty() {
            Ok(())
        } else {
            Err(Fail { tags, msg: msgs.join("; ") })
        }
    }

    fn open(&mut self, n: u8) -> Result<(), Fail> {
        let waiting: Vec<(usize, usize)> = self
            .m
            .calls
            .iter()
            .enumerate()
            .filter(|(_, c)| c.life == Life::Running)
            .filter_map(|(i, c)| {
                let s = c.script.as_ref()?;
                (s.steps.get(c.pos) == Some(&Step::Gate)).then_some((i, c.pos))
            })
            .collect();
        if waiting.is_empty() {
            return Ok(());
        }
        let k = n as usize % waiting.len();
        self.info.class(k > 0, "finished out of order");
        let (c, s) = waiting[k];
        self.m.open.insert((c, s));
        self.ctl.open(c, s);
        self.settle()
    }

    fn finish(&mut self) -> Result<(), Fail> {
        self.m.all_open = true;
        self.ctl.open_all();
        self.settle()?;
        let stuck = self.m.calls.iter().any(|c| c.life == Life::Running);
        if let Real::Wire { input, task, .. } = &self.real {
            let (input, task) = (input.clone(), *task);
            if self.wire_ended && self.m.st == St::Exited && !stuck {
                ensure!(
                    self.exec.is_done(task),
                    ["C09", "C17"],
                    "the server did not return though a message arrived after exit"
                );
            }
            input.eof();
            self.settle()?;
            if !stuck {
                ensure!(
                    self.exec.is_done(task),
                    ["C17", "C04"],
                    "the server did not return at the end of the input"
                );
            }
        }
        // Nothing the model did not expect may have been recorded either.
        let never = self.m.calls.iter().any(|c| {
            c.life == Life::Running && c.script.as_ref().map_or(false, |s| s.ret == Ret::Never)
        });
        self.info.class(never, "handler that never returns");
        Ok(())
    }
}

/// Properties broken by a deviation of this call.
fn tags_of(exited: bool, c: &MCall, ran_more: bool, got: Option<&Value>, is_log: bool) -> Vec<&'static str> {
    let mut t: Vec<&'static str> = match c.why {
        Why::Own => match c.kind {
            Kind::Init => vec!["C08", "C07"],
            Kind::Shutdown => vec!["C08", "C07"],
            _ => vec!["C07"],
        },
        Why::Dup => vec!["C11"],
        Why::PreInit | Why::AfterShut => vec!["C07"],
        Why::SurplusInit | Why::SurplusShut => vec!["C08"],
        Why::Cancelled => vec!["C10"],
        Why::ExitAbort | Why::Refused => vec!["C09"],
        Why::Unknown | Why::Kind | Why::Params => vec!["C05"],
        Why::Nothing => vec!["C05"],
    };
    if c.kind == Kind::Init && c.why == Why::Nothing {
        t = vec!["C08", "C07"];
    }
    if !is_log {
        // Wrong, missing or surplus answer.
        match got {
            None => t.push("C04"),
            Some(g) => {
                if c.id.is_none() || g["id"] != *c.id.as_ref().unwrap() {
                    t.push("C04");
                }
                if c.why == Why::Own {
                    let code = g["error"]["code"].as_i64();
                    match code {
                        Some(-32800) => t.push("C10"),
                        Some(-32600) => t.push("C11"),
                        _ => {}
                    }
                    t.push("C04");
                }
                if g["error"]["code"] == -32800 {
                    t.push("C10");
                }
            }
        }
    } else if c.why == Why::Own {
        t.push(if ran_more { "C05" } else { "C10" });
        t.push("C11");
        t.push("C04");
    }
    if c.why == Why::Own && (c.reused || matches!(c.want, Want::Pending)) {
        t.push("C11");
    }
    if c.near_cancel {
        t.push("C10");
    }
    if c.custom {
        t.push("C20");
    }
    if exited {
        t.push("C09");
    }
    t
}

/// The id of the other JSON type that looks the same.
fn twin(id: &Value) -> Option<Value> {
    match id {
        Value::Number(n) => Some(Value::from(n.to_string())),
        Value::String(s) => s.parse::<i64>().ok().map(Value::from),
        _ => None,
    }
}

fn say_text(v: &Value) -> String {
    match v["method"].as_str() {
        Some("window/logMessage") => v["params"]["message"].as_str().unwrap_or("?").to_string(),
        _ => v.to_string(),
    }
}

/// Whether the response has this id and one of these results or errors.
pub fn matches_any(r: &Value, id: &Value, wants: &[Value]) -> bool {
    r["id"] == *id
        && wants.iter().any(|w| match (w.get("result"), w.get("error")) {
            (Some(x), _) => r.get("result") == Some(x) && r.get("error").is_none(),
            (_, Some(e)) => {
                let Some(got) = r.get("error") else { return false };
                r.get("result").is_none()
                    && if e.get("message").is_some() {
                        got == e
                    } else {
                        got["code"] == e["code"]
                    }
            }
            _ => false,
        })
}

// ---------------------------------------------------------------------------------------------
// Generators

#[derive(Clone, Copy)]
pub struct Weights {
    /// Percentage of cases that start with a successful initialize.
    pub pre_init: u32,
    pub init: u32,
    pub shutdown: u32,
    pub exit: u32,
    pub req: u32,
    pub note: u32,
    pub cancel: u32,
    pub odd: u32,
    pub custom: f64,
    pub ids: u8,
    pub hijacks: bool,
    pub open: u32,
}

pub const BASE: Weights = Weights {
    pre_init: 95,
    init: 1,
    shutdown: 1,
    exit: 0,
    req: 10,
    note: 2,
    cancel: 2,
    odd: 3,
    custom: 0.3,
    ids: 12,
    hijacks: false,
    open: 5,
};

fn arb_ret() -> BoxedStrategy<Ret> {
    prop_oneof![
        10 => arb_small().prop_map(Ret::Ok),
        5 => arb_error().prop_map(Ret::Err),
        1 => proptest::sample::select(vec!["$/x", "$/", "x/req", "workspace/executeCommand", "a"])
            .prop_map(|d| Ret::Err(error_value(-32601, "Method not found", Some(json!(d))))),
        1 => Just(Ret::Never),
        1 => Just(Ret::Bad),
    ]
    .boxed()
}

pub fn arb_script() -> BoxedStrategy<Script> {
    let step = prop_oneof![6 => Just(Step::Gate), 3 => Just(Step::Yield), 1 => Just(Step::Say)];
    (prop::collection::vec(step, 0..4), arb_ret())
        .prop_map(|(steps, ret)| Script { steps, ret })
        .boxed()
}

fn arb_init_script() -> BoxedStrategy<Script> {
    let step = prop_oneof![4 => Just(Step::Gate), 2 => Just(Step::Yield), 1 => Just(Step::Say)];
    let ret = prop_oneof![
        5 => arb_string().prop_map(|s| Ret::Ok(s.into())),
        2 => arb_error().prop_map(Ret::Err),
        1 => Just(Ret::Never),
    ];
    (prop::collection::vec(step, 0..3), ret).prop_map(|(steps, ret)| Script { steps, ret }).boxed()
}

fn arb_std() -> BoxedStrategy<u8> {
    prop_oneof![1 => Just(0), 1 => 1u8..=147].boxed()
}

fn arb_msg(w: Weights) -> BoxedStrategy<Msg> {
    let id = 0..w.ids;
    prop_oneof![
        w.init => (id.clone(), arb_init_script()).prop_map(|(id, script)| Msg::Init { id, script }),
        w.init.div_ceil(3) => id.clone().prop_map(|id| Msg::InitBad { id }),
        w.init.div_ceil(3) => Just(Msg::InitNote),
        w.shutdown => (id.clone(), arb_init_script())
            .prop_map(|(id, script)| Msg::Shutdown { id, script }),
        w.exit => Just(Msg::Exit),
        w.req => (id.clone(), prop::bool::weighted(w.custom), arb_script(), arb_std())
            .prop_map(|(id, custom, script, std)| Msg::Req { id, custom, script, std }),
        w.note => (prop::bool::weighted(w.custom), arb_script(), arb_std())
            .prop_map(|(custom, script, std)| Msg::Note { custom, script, std }),
        w.cancel => (0u8..6, prop::bool::weighted(0.3)).prop_map(|(back, now)| if now {
            Msg::CancelNow { back }
        } else {
            Msg::CancelBack { back }
        }),
        w.cancel.div_ceil(2) => id.clone().prop_map(|id| Msg::Cancel { id }),
        w.odd => prop_oneof![
            prop::option::of(id.clone()).prop_map(|id| Msg::Unknown { id }),
            (id.clone(), any::<u8>(), arb_std()).prop_map(|(id, form, std)| Msg::BadParams { id, form, std }),
            (id.clone(), any::<bool>(), arb_std())
                .prop_map(|(id, custom, std)| Msg::NoteAsReq { id, custom, std }),
            (any::<bool>(), arb_std()).prop_map(|(custom, std)| Msg::ReqAsNote { custom, std }),
            id.prop_map(|id| Msg::Stray { id }),
        ],
    ]
    .boxed()
}

pub fn arb_case(w: Weights, thorough: bool) -> BoxedStrategy<Case> {
    let n = if thorough { 45 } else { 22 };
    let op = prop_oneof![
        10 => prop_oneof![
            3 => arb_msg(w).prop_map(|m| vec![m]),
            2 => prop::collection::vec(arb_msg(w), 2..6),
        ].prop_map(Op::Burst),
        w.open => any::<u8>().prop_map(Op::Open),
        1 => Just(Op::Spurious),
    ];
    let hijacks = if w.hijacks {
        prop::collection::vec((any::<u8>(), any::<u8>()), 0..6).boxed()
    } else {
        Just(vec![]).boxed()
    };
    (
        prop::bool::weighted(0.4),
        hijacks,
        prop::bool::weighted(w.pre_init as f64 / 100.0),
        (0..w.ids),
        prop::collection::vec(op, 1..n),
        prop::collection::vec(any::<u8>(), 0..12),
        prop_oneof![1 => Just(0), 1 => 0..POOL],
    )
        .prop_map(|(wire, hijacks, pre, id, mut ops, sched, ids)| {
            if pre {
                let script = rig::simple(Ret::Ok(json!("s")));
                ops.insert(0, Op::Burst(vec![Msg::Init { id, script }]));
            }
            Case { wire, hijacks, ops, sched, ids }
        })
        .boxed()
}
