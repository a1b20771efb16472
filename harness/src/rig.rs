//! A scriptable language server backend: every handler runs the script it is sent.

use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

use serde::{Deserialize, Serialize, Serializer};
use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Error, Result};
use tower_lsp::lsp_types::request::*;
use tower_lsp::lsp_types::*;
use tower_lsp::{async_trait, Client, ClientSocket, LanguageServer, LspService};

use crate::exec::yield_now;
use crate::mock::make_error;
use crate::std_methods;
use crate::watch::look;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// Pend once, waking immediately.
    Yield,
    /// Wait for the driver to open the gate (call number, index of the step).
    Gate,
    /// Send a `window/logMessage` saying "call:step".
    Say,
    /// Send an `x/ask` request with [call, step] and record the outcome.
    Ask,
    /// Send a `telemetry/event` with {"call":..,"step":..}.
    Tele,
    /// As `Say`, padded with this many kilobytes.
    Shout(u8),
    /// Pend this many times, waking immediately.
    Spin(u16),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ret {
    Ok(Value),
    Err(Value),
    /// Never returns.
    Never,
    /// A value serde_json cannot represent (custom methods only; the built-in one returns null).
    Bad,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Script {
    pub steps: Vec<Step>,
    pub ret: Ret,
}

impl Script {
    pub fn params(&self, call: usize) -> Value {
        json!({"call": call, "script": serde_json::to_value(self).unwrap()})
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev {
    Start,
    Step(usize),
    /// Outcome of an `Ask`: the result, or the error code.
    Answer(usize, std::result::Result<Value, i64>),
    End,
    /// Dropped before its end.
    Dropped,
}

#[derive(Default)]
pub struct RigState {
    pub log: BTreeMap<usize, Vec<Ev>>,
    /// All events, in order.
    pub order: Vec<(usize, Ev)>,
    pub shutdown: Option<(usize, Script)>,
    pub shutdowns: usize,
    /// Scripts of calls to other methods, with the handler that must run them.
    pub scripts: BTreeMap<usize, (&'static str, Script)>,
    /// The call to which the next `initialized` belongs.
    pub initialized: Option<usize>,
    pub running: HashSet<usize>,
    pub max_running: usize,
    /// Turns taken by `Step::Spin`.
    pub spins: u64,
    open: HashSet<(usize, usize)>,
    open_all: bool,
    wakers: Vec<Waker>,
}

#[derive(Clone, Default)]
pub struct RigCtl(pub Arc<Mutex<RigState>>);

impl std::fmt::Debug for RigCtl {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("RigCtl")
    }
}

impl RigCtl {
    pub fn ev(&self, call: usize, e: Ev) {
        let mut s = self.0.lock().unwrap();
        match e {
            Ev::Start => {
                s.running.insert(call);
                s.max_running = s.max_running.max(s.running.len());
            }
            Ev::End | Ev::Dropped => {
                s.running.remove(&call);
            }
            _ => {}
        }
        s.order.push((call, e.clone()));
        s.log.entry(call).or_default().push(e);
    }
    pub fn open(&self, call: usize, step: usize) {
        let mut s = self.0.lock().unwrap();
        s.open.insert((call, step));
        let ws = std::mem::take(&mut s.wakers);
        drop(s);
        ws.into_iter().for_each(Waker::wake);
    }
    pub fn open_all(&self) {
        let mut s = self.0.lock().unwrap();
        s.open_all = true;
        let ws = std::mem::take(&mut s.wakers);
        drop(s);
        ws.into_iter().for_each(Waker::wake);
    }
    pub fn log(&self, call: usize) -> Vec<Ev> {
        self.0.lock().unwrap().log.get(&call).cloned().unwrap_or_default()
    }
    pub fn order(&self) -> Vec<(usize, Ev)> {
        self.0.lock().unwrap().order.clone()
    }
    pub fn calls_seen(&self) -> Vec<usize> {
        self.0.lock().unwrap().log.keys().copied().collect()
    }
    pub fn running(&self) -> usize {
        self.0.lock().unwrap().running.len()
    }
    async fn gate(&self, call: usize, step: usize) {
        futures::future::poll_fn(|cx| {
            let mut s = self.0.lock().unwrap();
            if s.open_all || s.open.contains(&(call, step)) {
                Poll::Ready(())
            } else {
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}

/// Records `Dropped` unless the script ends.
struct Guard {
    ctl: RigCtl,
    call: usize,
    ended: bool,
}
impl Drop for Guard {
    fn drop(&mut self) {
        if !self.ended {
            self.ctl.ev(self.call, Ev::Dropped);
        }
    }
}

/// A request to the client, answered with anything.
pub enum AskReq {}
impl request::Request for AskReq {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "x/ask";
}

/// A result that may refuse to serialize.
pub enum Answer {
    Value(Value),
    Bad,
}
impl Serialize for Answer {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        match self {
            Answer::Value(v) => v.serialize(s),
            // A map whose keys are not strings.
            Answer::Bad => {
                BTreeMap::from([(vec![1u8], 1u8)]).serialize(s)
            }
        }
    }
}

#[derive(Debug)]
pub struct Rig {
    pub client: Client,
    pub ctl: RigCtl,
}

#[derive(Deserialize)]
struct Call {
    call: usize,
    script: Script,
}

impl Rig {
    async fn perform(&self, call: usize, script: Script) -> Result<Answer> {
        self.ctl.ev(call, Ev::Start);
        let mut guard = Guard { ctl: self.ctl.clone(), call, ended: false };
        for (i, s) in script.steps.iter().enumerate() {
            match s {
                Step::Yield => yield_now().await,
                Step::Spin(n) => {
                    for _ in 0..*n {
                        yield_now().await;
                        self.ctl.0.lock().unwrap().spins += 1;
                    }
                }
                Step::Gate => self.ctl.gate(call, i).await,
                Step::Say => self.client.log_message(MessageType::INFO, format!("{call}:{i}")).await,
                Step::Shout(kb) => {
                    let pad = "x".repeat(*kb as usize * 1024);
                    self.client.log_message(MessageType::INFO, format!("{call}:{i} {pad}")).await
                }
                Step::Tele => self.client.telemetry_event(json!({"call": call, "step": i})).await,
                Step::Ask => {
                    let r = self.client.send_request::<AskReq>(json!([call, i])).await;
                    self.ctl.ev(call, Ev::Answer(i, r.map_err(|e| e.code.code())));
                }
            }
            self.ctl.ev(call, Ev::Step(i));
            look(&self.client);
        }
        let out = match &script.ret {
            Ret::Ok(v) => Ok(Answer::Value(v.clone())),
            Ret::Err(e) => Err(make_error(e)),
            Ret::Bad => Ok(Answer::Bad),
            Ret::Never => std::future::pending().await,
        };
        guard.ended = true;
        self.ctl.ev(call, Ev::End);
        out
    }

    async fn value(&self, call: Call) -> Result<Value> {
        match self.perform(call.call, call.script).await? {
            Answer::Value(v) => Ok(v),
            Answer::Bad => Ok(Value::Null),
        }
    }

    fn parse(&self, v: Value) -> Result<Call> {
        serde_json::from_value(v).map_err(|_| {
            self.ctl.ev(DAMAGED, Ev::Start);
            Error::internal_error()
        })
    }

    /// A method of the protocol; the script is in its params or registered under the call number.
    async fn standard(&self, handler: &'static str, params: Value) -> Result<Value> {
        let scripted = match handler {
            "execute_command" => params["arguments"].get(0),
            "did_change_configuration" => params.get("settings").filter(|v| v.is_object()),
            _ => None,
        };
        if let Some(v) = scripted {
            let c = self.parse(v.clone())?;
            return self.value(c).await;
        }
        let call = match handler {
            "initialized" => self.ctl.0.lock().unwrap().initialized.take(),
            _ => std_methods::call_of(&params),
        };
        let known = call.and_then(|c| self.ctl.0.lock().unwrap().scripts.get(&c).cloned());
        match (call, known) {
            (Some(call), Some((due, script))) if due == handler => {
                self.perform(call, script).await?;
                let s = std_methods::all().iter().find(|s| s.handler == handler).unwrap();
                Ok(s.result.clone())
            }
            _ => {
                self.ctl.ev(DAMAGED, Ev::Start);
                Err(Error::internal_error())
            }
        }
    }

    async fn x_req(&self, params: Value) -> Result<Answer> {
        let c = self.parse(params)?;
        self.perform(c.call, c.script).await
    }

    async fn x_note(&self, params: Value) {
        if let Ok(c) = self.parse(params) {
            let _ = self.perform(c.call, c.script).await;
        }
    }

    /// Custom handlers that must never run.
    async fn hijack_req(&self, _: Value) -> Result<Value> {
        self.ctl.ev(HIJACK, Ev::Start);
        Ok(json!("hijacked"))
    }
    async fn hijack_note(&self, _: Value) {
        self.ctl.ev(HIJACK, Ev::Start);
    }
    async fn hijack_bare(&self) -> Result<Value> {
        self.ctl.ev(HIJACK, Ev::Start);
        Ok(json!("hijacked"))
    }
}

/// Call number under which a hijacking handler reports that it ran.
pub const HIJACK: usize = usize::MAX;
/// Call number for params that arrived damaged.
pub const DAMAGED: usize = usize::MAX - 1;
/// Call number for a shutdown handler running without being due.
pub const EXTRA_SHUTDOWN: usize = usize::MAX - 2;

macro_rules! implement {
    (
        requests { $($qn:literal $qf:ident($qp:ty) -> $qr:ty;)* }
        notifications { $($nn:literal $nf:ident($np:ty);)* }
    ) => {
        #[async_trait]
        impl LanguageServer for Rig {
            async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
                let c = self.parse(params.initialization_options.unwrap_or(Value::Null))?;
                let v = self.value(c).await?;
                Ok(InitializeResult {
                    server_info: v.as_str().map(|s| ServerInfo { name: s.into(), version: None }),
                    ..InitializeResult::default()
                })
            }

            async fn shutdown(&self) -> Result<()> {
                let (call, script) = {
                    let mut s = self.ctl.0.lock().unwrap();
                    s.shutdowns += 1;
                    // A second run has no script of its own.
                    s.shutdown.take().unwrap_or((EXTRA_SHUTDOWN, Script { steps: vec![], ret: Ret::Ok(Value::Null) }))
                };
                self.perform(call, script).await.map(|_| ())
            }

            $(async fn $qf(&self, p: $qp) -> Result<$qr> {
                let v = self.standard(stringify!($qf), serde_json::to_value(p).unwrap()).await?;
                Ok(serde_json::from_value(v).expect("a result of the right type"))
            })*

            $(async fn $nf(&self, p: $np) {
                let _ = self.standard(stringify!($nf), serde_json::to_value(p).unwrap()).await;
            })*
        }
    };
}
crate::with_methods!(implement);

/// The service over a rig, with its custom methods and the given hijacking registrations.
pub fn service(ctl: &RigCtl, hijacks: &[(&'static str, u8)]) -> (LspService<Rig>, ClientSocket, Client) {
    let mut handle = None;
    let mut b = LspService::build(|client| {
        handle = Some(client.clone());
        Rig { client, ctl: ctl.clone() }
    })
    .custom_method("x/req", Rig::x_req)
    .custom_method("x/note", Rig::x_note);
    for (name, kind) in hijacks {
        b = match kind % 3 {
            0 => b.custom_method(name, Rig::hijack_req),
            1 => b.custom_method(name, Rig::hijack_note),
            _ => b.custom_method(name, Rig::hijack_bare),
        };
    }
    look(&b);
    let (s, sock) = b.finish();
    look(&s);
    look(&sock);
    (s, sock, handle.unwrap())
}

pub fn init_params(script: &Script, call: usize) -> Value {
    json!({"capabilities": {}, "initializationOptions": script.params(call)})
}

/// Params of an `executeCommand` request running the script.
pub fn command_params(script: &Script, call: usize) -> Value {
    json!({"command": "run", "arguments": [script.params(call)]})
}

pub fn config_params(script: &Script, call: usize) -> Value {
    json!({"settings": script.params(call)})
}

/// The `result`/`error` member a request running this script must be answered with.
pub fn expected(ret: &Ret, custom: bool) -> Option<(&'static str, Value)> {
    Some(match ret {
        Ret::Ok(v) => ("result", v.clone()),
        Ret::Err(e) => ("error", e.clone()),
        Ret::Bad if custom => ("error", json!({"code": -32603})),
        Ret::Bad => ("result", Value::Null),
        Ret::Never => return None,
    })
}

/// As `expected`, for a method of the protocol.
pub fn expected_std(ret: &Ret, s: &std_methods::Std) -> Option<(&'static str, Value)> {
    Some(match ret {
        Ret::Ok(_) | Ret::Bad => ("result", s.result.clone()),
        Ret::Err(e) => ("error", e.clone()),
        Ret::Never => return None,
    })
}

pub fn simple(ret: Ret) -> Script {
    Script { steps: vec![], ret }
}

pub fn internal() -> Error {
    Error::internal_error()
}
