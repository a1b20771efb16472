//! Histories of the client handle: calls of every method, responses, abandonment, lifecycle
//! (C13, C14, C15).

use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use futures::future::BoxFuture;
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Id, Request as RpcRequest};
use tower_lsp::lsp_types::*;
use tower_lsp::Client;

use crate::ensure;
use crate::exec::Sched;
use crate::fail::{Fail, Info};
use crate::front::Front;
use crate::gen::*;
use crate::io::Act;
use crate::lsp;
use crate::mock::{error_json, id_json, response_json};
use crate::rig::{self, Ret, RigCtl, Script, Step};

/// What a call returned.
pub type Back = Result<Value, Value>;

pub enum AnyReq {}
impl request::Request for AnyReq {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "x/any";
}

/// A typed custom request.
pub enum TypedReq {}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Typed {
    pub name: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub more: Option<Vec<i32>>,
}
impl request::Request for TypedReq {
    type Params = Typed;
    type Result = Option<Typed>;
    const METHOD: &'static str = "$/typed";
}

pub enum AnyNote {}
impl notification::Notification for AnyNote {
    type Params = Value;
    const METHOD: &'static str = "x/anyNote";
}

pub struct Entry {
    pub name: &'static str,
    pub method: &'static str,
    pub request: bool,
    /// Not sent before initialization.
    pub gated: bool,
    pub args: fn() -> lsp::G,
    /// The params the message must carry.
    pub params: fn(&Value) -> Value,
    /// A result the client may give.
    pub result: fn() -> lsp::G,
    /// What the caller gets for a result, if it decodes.
    pub decode: fn(&Value) -> Option<Value>,
    pub call: fn(Client, Value) -> BoxFuture<'static, Back>,
}

fn dec<T: Serialize + DeserializeOwned>(v: &Value) -> Option<Value> {
    serde_json::from_value::<T>(v.clone()).ok().map(|t| serde_json::to_value(t).unwrap())
}
/// As the harness's own copy of the type prints it.
fn canon<T: Serialize + DeserializeOwned>(v: &Value) -> Value {
    dec::<T>(v).unwrap_or_else(|| panic!("generator: {v} does not decode"))
}
fn arg<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("generator: {v}: {e}"))
}
fn ret<T: Serialize>(r: tower_lsp::jsonrpc::Result<T>) -> Back {
    match r {
        Ok(v) => Ok(serde_json::to_value(v).unwrap()),
        Err(e) => Err(error_json(&e)),
    }
}
fn unit() -> lsp::G {
    Just(Value::Null).boxed()
}
fn dec_unit(v: &Value) -> Option<Value> {
    dec::<()>(v)
}
fn msg_args() -> lsp::G {
    lsp::obj([("type", lsp::int(1, 4)), ("message", lsp::string())], [])
}
fn action() -> lsp::G {
    let prop = lsp::one(vec![lsp::string(), lsp::boolean(), lsp::int(-5, 5)]);
    prop_oneof![
        3 => lsp::obj([("title", lsp::string())], []),
        1 => lsp::obj([("title", lsp::string()), ("extra", prop)], []),
    ]
    .boxed()
}
fn wrap(v: &Value) -> Value {
    match v {
        Value::Null | Value::Array(_) | Value::Object(_) => v.clone(),
        _ => json!([v]),
    }
}

macro_rules! refresh {
    ($name:ident, $method:literal) => {
        Entry {
            name: stringify!($name),
            method: $method,
            request: true,
            gated: true,
            args: unit,
            params: |_| Value::Null,
            result: unit,
            decode: dec_unit,
            call: |c, _| Box::pin(async move { ret(c.$name().await) }),
        }
    };
}

pub const TABLE: &[Entry] = &[
    Entry {
        name: "register_capability",
        method: "client/registerCapability",
        request: true,
        gated: true,
        args: || {
            lsp::arr(lsp::obj(
                [("id", lsp::string()), ("method", lsp::word())],
                [("registerOptions", lsp::small_json())],
            ))
        },
        params: |a| json!({ "registrations": canon::<Vec<Registration>>(a) }),
        result: unit,
        decode: dec_unit,
        call: |c, a| Box::pin(async move { ret(c.register_capability(arg(&a)).await) }),
    },
    Entry {
        name: "unregister_capability",
        method: "client/unregisterCapability",
        request: true,
        gated: true,
        args: || lsp::arr(lsp::obj([("id", lsp::string()), ("method", lsp::word())], [])),
        // The misspelling is the specification's.
        params: |a| json!({ "unregisterations": canon::<Vec<Unregistration>>(a) }),
        result: unit,
        decode: dec_unit,
        call: |c, a| Box::pin(async move { ret(c.unregister_capability(arg(&a)).await) }),
    },
    Entry {
        name: "show_message",
        method: "window/showMessage",
        request: false,
        gated: false,
        args: msg_args,
        params: |a| a.clone(),
        result: unit,
        decode: dec_unit,
        call: |c, a| {
            Box::pin(async move {
                c.show_message(arg(&a["type"]), a["message"].as_str().unwrap()).await;
                Ok(Value::Null)
            })
        },
    },
    Entry {
        name: "show_message_request",
        method: "window/showMessageRequest",
        request: true,
        gated: false,
        args: || {
            lsp::obj(
                [("type", lsp::int(1, 4)), ("message", lsp::string())],
                [("actions", lsp::arr(action()))],
            )
        },
        params: |a| a.clone(),
        result: || lsp::or_null(action()),
        decode: dec::<Option<MessageActionItem>>,
        call: |c, a| {
            Box::pin(async move {
                let actions = a.get("actions").map(arg);
                let m = a["message"].as_str().unwrap().to_string();
                ret(c.show_message_request(arg(&a["type"]), m, actions).await)
            })
        },
    },
    Entry {
        name: "log_message",
        method: "window/logMessage",
        request: false,
        gated: false,
        args: msg_args,
        params: |a| a.clone(),
        result: unit,
        decode: dec_unit,
        call: |c, a| {
            Box::pin(async move {
                c.log_message(arg(&a["type"]), a["message"].as_str().unwrap().to_string()).await;
                Ok(Value::Null)
            })
        },
    },
    Entry {
        name: "show_document",
        method: "window/showDocument",
        request: true,
        gated: true,
        args: || {
            lsp::obj(
                [("uri", lsp::uri())],
                [
                    ("external", lsp::boolean()),
                    ("takeFocus", lsp::boolean()),
                    ("selection", lsp::range()),
                ],
            )
        },
        params: |a| canon::<ShowDocumentParams>(a),
        result: || lsp::obj([("success", lsp::boolean())], []),
        decode: |v| dec::<ShowDocumentResult>(v).map(|v| v["success"].clone()),
        call: |c, a| Box::pin(async move { ret(c.show_document(arg(&a)).await) }),
    },
    Entry {
        name: "telemetry_event",
        method: "telemetry/event",
        request: false,
        gated: false,
        args: lsp::any_json,
        params: wrap,
        result: unit,
        decode: dec_unit,
        call: |c, a| {
            Box::pin(async move {
                c.telemetry_event(a).await;
                Ok(Value::Null)
            })
        },
    },
    Entry {
        name: "telemetry_event (typed)",
        method: "telemetry/event",
        request: false,
        gated: false,
        args: || (0u8..7, lsp::string(), lsp::uint()).prop_map(|(k, s, n)| json!([k, s, n])).boxed(),
        params: |a| wrap(&typed_telemetry(a)),
        result: unit,
        decode: dec_unit,
        call: |c, a| {
            Box::pin(async move {
                let (s, n) = (a[1].as_str().unwrap().to_string(), a[2].as_u64().unwrap());
                match a[0].as_u64().unwrap() {
                    0 => c.telemetry_event(s).await,
                    1 => c.telemetry_event(n).await,
                    2 => c.telemetry_event(n % 2 == 0).await,
                    3 => c.telemetry_event(None::<u8>).await,
                    4 => c.telemetry_event((n, s)).await,
                    5 => c.telemetry_event(Typed { name: s, more: None }).await,
                    _ => c.telemetry_event('c').await,
                }
                Ok(Value::Null)
            })
        },
    },
    refresh!(code_lens_refresh, "workspace/codeLens/refresh"),
    refresh!(semantic_tokens_refresh, "workspace/semanticTokens/refresh"),
    refresh!(inline_value_refresh, "workspace/inlineValue/refresh"),
    refresh!(inlay_hint_refresh, "workspace/inlayHint/refresh"),
    refresh!(workspace_diagnostic_refresh, "workspace/diagnostic/refresh"),
    Entry {
        name: "publish_diagnostics",
        method: "textDocument/publishDiagnostics",
        request: false,
        gated: true,
        args: || {
            lsp::obj(
                [("uri", lsp::uri()), ("diagnostics", lsp::arr(lsp::diagnostic()))],
                [("version", lsp::int(-3, 1000))],
            )
        },
        params: |a| canon::<PublishDiagnosticsParams>(a),
        result: unit,
        decode: dec_unit,
        call: |c, a| {
            Box::pin(async move {
                c.publish_diagnostics(arg(&a["uri"]), arg(&a["diagnostics"]), a.get("version").map(arg)).await;
                Ok(Value::Null)
            })
        },
    },
    Entry {
        name: "configuration",
        method: "workspace/configuration",
        request: true,
        gated: true,
        args: || lsp::arr(lsp::obj([], [("scopeUri", lsp::uri()), ("section", lsp::string())])),
        params: |a| json!({ "items": canon::<Vec<ConfigurationItem>>(a) }),
        result: || lsp::arr(lsp::any_json()),
        decode: dec::<Vec<Value>>,
        call: |c, a| Box::pin(async move { ret(c.configuration(arg(&a)).await) }),
    },
    Entry {
        name: "workspace_folders",
        method: "workspace/workspaceFolders",
        request: true,
        gated: true,
        args: unit,
        params: |_| Value::Null,
        result: || lsp::or_null(lsp::arr(lsp::workspace_folder())),
        decode: dec::<Option<Vec<WorkspaceFolder>>>,
        call: |c, _| Box::pin(async move { ret(c.workspace_folders().await) }),
    },
    Entry {
        name: "apply_edit",
        method: "workspace/applyEdit",
        request: true,
        gated: true,
        args: lsp::workspace_edit,
        params: |a| json!({ "edit": canon::<WorkspaceEdit>(a) }),
        result: || {
            lsp::obj(
                [("applied", lsp::boolean())],
                [("failureReason", lsp::string()), ("failedChange", lsp::uint())],
            )
        },
        decode: dec::<ApplyWorkspaceEditResponse>,
        call: |c, a| Box::pin(async move { ret(c.apply_edit(arg(&a)).await) }),
    },
    Entry {
        name: "send_request",
        method: "x/any",
        request: true,
        gated: true,
        args: lsp::any_json,
        params: |a| a.clone(),
        result: lsp::any_json,
        decode: dec::<Value>,
        call: |c, a| Box::pin(async move { ret(c.send_request::<AnyReq>(a).await) }),
    },
    Entry {
        name: "send_request (typed)",
        method: "$/typed",
        request: true,
        gated: true,
        args: || lsp::obj([("name", lsp::string())], [("more", lsp::arr(lsp::int(-9, 9)))]),
        params: |a| canon::<Typed>(a),
        result: || {
            lsp::or_null(lsp::obj([("name", lsp::string())], [("more", lsp::arr(lsp::int(-9, 9)))]))
        },
        decode: dec::<Option<Typed>>,
        call: |c, a| Box::pin(async move { ret(c.send_request::<TypedReq>(arg(&a)).await) }),
    },
    Entry {
        name: "send_notification",
        method: "x/anyNote",
        request: false,
        gated: true,
        args: lsp::any_json,
        params: |a| a.clone(),
        result: unit,
        decode: dec_unit,
        call: |c, a| {
            Box::pin(async move {
                c.send_notification::<AnyNote>(a).await;
                Ok(Value::Null)
            })
        },
    },
    Entry {
        name: "progress begin",
        method: "$/progress",
        request: false,
        gated: true,
        args: || lsp::obj([("token", lsp::num_or_str()), ("title", lsp::string())], []),
        params: |a| {
            json!({"token": a["token"], "value": {
                "kind": "begin", "title": a["title"], "cancellable": false}})
        },
        result: unit,
        decode: dec_unit,
        call: |c, a| {
            Box::pin(async move {
                let title = a["title"].as_str().unwrap();
                let _ = c.progress(arg(&a["token"]), title).begin().await;
                Ok(Value::Null)
            })
        },
    },
    // The handle used as a tower service, with an id from `next_request_id`.
    Entry {
        name: "service call (request)",
        method: "raw/request",
        request: true,
        gated: true,
        args: lsp::any_json,
        params: |a| a.clone(),
        result: lsp::any_json,
        decode: dec::<Value>,
        call: |mut c, a| {
            Box::pin(async move {
                let id = c.next_request_id();
                let req = RpcRequest::build("raw/request").params(a).id(id.clone()).finish();
                match c.call(req).await {
                    Ok(Some(r)) => {
                        assert_eq!(*r.id(), id, "response of another request");
                        let v = response_json(&r);
                        match v.get("result") {
                            Some(r) => Ok(r.clone()),
                            None => Err(v["error"].clone()),
                        }
                    }
                    Ok(None) => Err(json!("none")),
                    Err(_) => Err(json!("exited")),
                }
            })
        },
    },
];

fn typed_telemetry(a: &Value) -> Value {
    match a[0].as_u64().unwrap() {
        0 => a[1].clone(),
        1 => a[2].clone(),
        2 => json!(a[2].as_u64().unwrap() % 2 == 0),
        3 => Value::Null,
        4 => json!([a[2], a[1]]),
        5 => json!({"name": a[1]}),
        _ => json!("c"),
    }
}

pub const RAW: usize = 21;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Reply {
    Ok(Value),
    Err(Value),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    pub kind: u8,
    pub args: Value,
    pub reply: Reply,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Calls(Vec<Call>),
    /// As `Calls`, each request being answered the moment it comes out (except through the server).
    Eager(Vec<Call>),
    /// Sends the replies of these outstanding requests, together.
    Reply(Vec<u8>),
    /// A response that belongs to nobody.
    Stray(u8, u8),
    /// The caller gives up.
    Drop(u8),
    /// initialize whose handler waits at a gate (or not) and then succeeds (or fails).
    Init { gate: bool, ok: bool },
    OpenInit,
    CancelInit,
    Shutdown,
    Exit,
    Spurious,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// 0: socket split; 1: the socket as one stream and sink; 2: through the server.
    pub mode: u8,
    pub acts: Vec<Act>,
    pub ops: Vec<Op>,
    pub sched: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Un,
    Initing { call: usize, ok: bool },
    Inited,
    Shut,
    Exited,
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Waiting,
    Done(Back),
    /// Must return; with an error if it is a request.
    Refused,
    /// The task was dropped.
    Gone,
    /// Waiting when the server exited: anything goes.
    Any,
}

struct Issued {
    call: Call,
    task: usize,
    want: Want,
    /// Id of the request as seen by the client.
    id: Option<Value>,
    due: bool,
    replied: bool,
}

fn reply_message(c: &Call, id: Value) -> Value {
    match &c.reply {
        Reply::Ok(v) => ok_value(id, v.clone()),
        Reply::Err(v) => err_value(id, v.clone()),
    }
}

/// What the caller gets when the reply arrives.
fn outcome(c: &Call, info: &mut Info) -> Back {
    match &c.reply {
        Reply::Ok(v) => (TABLE[c.kind as usize % TABLE.len()].decode)(v).ok_or_else(|| {
            info.class(true, "result of a wrong type");
            json!("any")
        }),
        Reply::Err(v) => {
            info.class(true, "error reply");
            Err(v.clone())
        }
    }
}

pub fn run(case: &Case) -> Result<Info, Fail> {
    crate::turns::alone(history(case))
}

pub async fn history(case: &Case) -> Result<Info, Fail> {
    let ctl = RigCtl::default();
    let (service, socket, client) = rig::service(&ctl, &[]);
    let mut f = match case.mode % 3 {
        0 => Front::futures(service, socket, Sched::new(&case.sched)),
        1 => Front::unsplit(service, socket, Sched::new(&case.sched)),
        _ => Front::wire(service, socket, None, Sched::new(&case.sched), &case.acts),
    };
    f.run()?;
    let mut info = Info::default();
    info.class(case.mode % 3 == 0, "split socket");
    info.class(case.mode % 3 == 1, "whole socket");
    info.class(case.mode % 3 == 2, "through server");
    let mut st = St::Un;
    let mut lives = 0usize;
    let mut issued: Vec<Issued> = Vec::new();
    let results: Rc<RefCell<Vec<Option<Back>>>> = Rc::default();
    let seen_ids: Arc<Mutex<Vec<Value>>> = Arc::default();
    let mut sent_since_exit = false;
    // Calls to be answered at once, and the ids of those that were.
    let eager: Rc<RefCell<Vec<Call>>> = Rc::default();
    let answered: Rc<RefCell<Vec<Value>>> = Rc::default();
    let (e2, a2) = (eager.clone(), answered.clone());
    f.set_eager(Box::new(move |v| {
        let (method, id) = (v["method"].as_str()?, v.get("id")?);
        let mut e = e2.borrow_mut();
        let p = e.iter().position(|c| {
            let t = &TABLE[c.kind as usize % TABLE.len()];
            t.method == method && (t.params)(&c.args) == *v.get("params").unwrap_or(&Value::Null)
        })?;
        a2.borrow_mut().push(id.clone());
        Some(reply_message(&e.remove(p), id.clone()))
    }));
    for op in &case.ops {
        crate::turns::pause().await;
        // Life messages answered by the server: (id, ok, code)
        let mut life: Vec<(Value, bool)> = vec![];
        match op {
            Op::Calls(cs) | Op::Eager(cs) => {
                info.class(cs.len() > 1, "several calls at once");
                let at_once = matches!(op, Op::Eager(_));
                for c in cs {
                    let e = &TABLE[c.kind as usize % TABLE.len()];
                    let raw = c.kind as usize % TABLE.len() == RAW;
                    let open = matches!(st, St::Inited | St::Shut);
                    // Two equal requests sent together could not be told apart.
                    let same = |i: &Issued| {
                        let o = &TABLE[i.call.kind as usize % TABLE.len()];
                        i.due && o.method == e.method && (o.params)(&i.call.args) == (e.params)(&c.args)
                    };
                    if e.request && issued.iter().any(same) {
                        continue;
                    }
                    if raw && !open {
                        continue;
                    }
                    let n = issued.len();
                    results.borrow_mut().push(None);
                    let r2 = results.clone();
                    let fut = (e.call)(client.clone(), c.args.clone());
                    let task = f.exec.spawn(async move {
                        let r = fut.await;
                        r2.borrow_mut()[n] = Some(r);
                    });
                    let (want, due) = match st {
                        St::Exited => (Want::Refused, false),
                        St::Un | St::Initing { .. } if e.gated => (
                            if e.request {
                                Want::Done(Err(json!({"code": -32002})))
                            } else {
                                Want::Done(Ok(Value::Null))
                            },
                            false,
                        ),
                        _ if e.request => (Want::Waiting, true),
                        _ => (Want::Done(Ok(Value::Null)), true),
                    };
                    info.class(st == St::Un && e.gated, "gated call before initialize");
                    info.class(st == St::Un && !e.gated, "ungated call before initialize");
                    info.class(matches!(st, St::Initing { .. }) && e.gated, "gated call while initializing");
                    info.class(st == St::Inited, "call while initialized");
                    info.class(st == St::Shut, "call after shutdown");
                    info.class(st == St::Exited, "call after exit");
                    if at_once && due && e.request {
                        eager.borrow_mut().push(c.clone());
                    }
                    issued.push(Issued { call: c.clone(), task, want, id: None, due, replied: false });
                }
            }
            Op::Reply(picks) => {
                if st == St::Exited {
                    continue;
                }
                for (j, p) in picks.iter().enumerate() {
                    let open: Vec<usize> =
                        (0..issued.len()).filter(|i| issued[*i].id.is_some() && !issued[*i].replied).collect();
                    if open.is_empty() {
                        break;
                    }
                    let k = *p as usize % open.len();
                    info.class(k > 0 && j == 0, "reply out of order");
                    info.class(j > 0, "several replies at once");
                    let i = &mut issued[open[k]];
                    i.replied = true;
                    let id = i.id.clone().unwrap();
                    f.send(&reply_message(&i.call, id))?;
                    let back = outcome(&i.call, &mut info);
                    info.class(i.want == Want::Gone, "reply to an abandoned request");
                    if i.want == Want::Waiting {
                        i.want = Want::Done(back);
                    }
                }
            }
            Op::Stray(how, n) => {
                if st == St::Exited {
                    continue;
                }
                let pick = |f: &dyn Fn(&Issued) -> bool| {
                    let v: Vec<Value> =
                        issued.iter().filter(|i| i.id.is_some() && f(i)).filter_map(|i| i.id.clone()).collect();
                    if v.is_empty() { None } else { Some(v[*n as usize % v.len()].clone()) }
                };
                let id = match how % 5 {
                    0 => Value::Null,
                    1 => json!(1_000_000 + *n as i64),
                    2 => match pick(&|i| i.replied) {
                        Some(id) => {
                            info.class(true, "second reply");
                            id
                        }
                        None => json!("none"),
                    },
                    // The id of a waiting request, in another JSON type.
                    3 => match pick(&|i| i.want == Want::Waiting) {
                        Some(Value::Number(k)) => {
                            info.class(true, "look-alike id");
                            json!(k.to_string())
                        }
                        Some(Value::String(s)) => s.parse::<i64>().map(Value::from).unwrap_or(json!(-5)),
                        _ => json!(-5),
                    },
                    _ => json!(-1 - *n as i64),
                };
                f.send(&ok_value(id, json!("stray")))?;
                info.class(true, "stray response");
            }
            Op::Drop(n) => {
                let w: Vec<usize> = (0..issued.len()).filter(|i| issued[*i].want == Want::Waiting).collect();
                if w.is_empty() {
                    continue;
                }
                let i = w[*n as usize % w.len()];
                f.exec.kill(issued[i].task);
                issued[i].want = Want::Gone;
                info.class(true, "abandoned request");
            }
            Op::Init { gate, ok } => {
                lives += 1;
                let ret = if *ok { Ret::Ok(json!("s")) } else { Ret::Err(error_value(7, "no", None)) };
                let s = Script { steps: if *gate { vec![Step::Gate] } else { vec![] }, ret };
                let id = json!(format!("L{lives}"));
                f.send(&request_value("initialize", Some(id.clone()), Some(rig::init_params(&s, lives))))?;
                match st {
                    St::Un if *gate => st = St::Initing { call: lives, ok: *ok },
                    St::Un => {
                        info.class(!*ok, "failed initialize");
                        if *ok {
                            st = St::Inited;
                        }
                        life.push((id, *ok));
                    }
                    St::Exited => sent_since_exit = true,
                    _ => life.push((id, false)),
                }
            }
            Op::OpenInit => {
                if let St::Initing { call, ok } = st {
                    ctl.open(call, 0);
                    life.push((json!(format!("L{call}")), ok));
                    info.class(!ok, "failed initialize");
                    st = if ok { St::Inited } else { St::Un };
                }
            }
            Op::CancelInit => {
                if let St::Initing { call, .. } = st {
                    let id = json!(format!("L{call}"));
                    f.send(&request_value("$/cancelRequest", None, Some(json!({ "id": id }))))?;
                    life.push((id, false));
                    st = St::Un;
                    info.class(true, "cancelled initialize");
                }
            }
            Op::Shutdown => {
                if matches!(st, St::Initing { .. }) {
                    continue;
                }
                lives += 1;
                let id = json!(format!("L{lives}"));
                f.send(&request_value("shutdown", Some(id.clone()), None))?;
                match st {
                    St::Inited => {
                        st = St::Shut;
                        life.push((id, true));
                    }
                    St::Exited => sent_since_exit = true,
                    _ => life.push((id, false)),
                }
            }
            Op::Exit => {
                if st == St::Exited {
                    continue;
                }
                f.send(&request_value("exit", None, None))?;
                if let St::Initing { call, .. } = st {
                    life.push((json!(format!("L{call}")), false));
                }
                st = St::Exited;
                for i in &mut issued {
                    if i.want == Want::Waiting {
                        i.want = Want::Any;
                    }
                }
                info.class(true, "exit");
            }
            Op::Spurious => f.exec.spurious(),
        }
        let got = f.run()?;
        // Messages.
        for v in &got {
            let Some(method) = v["method"].as_str() else {
                let p = life.iter().position(|(id, ok)| v["id"] == *id && v.get("result").is_some() == *ok);
                match p {
                    Some(p) => drop(life.remove(p)),
                    None => {
                        ensure!(
                            sent_since_exit && v.get("error").is_some(),
                            ["C07", "C04"],
                            "unexpected response {v}, expected {life:?}"
                        );
                    }
                }
                continue;
            };
            let p = issued.iter().position(|i| {
                let e = &TABLE[i.call.kind as usize % TABLE.len()];
                i.due
                    && e.method == method
                    && e.request == v.get("id").is_some()
                    && *v.get("params").unwrap_or(&Value::Null) == (e.params)(&i.call.args)
            });
            match p {
                Some(p) => {
                    issued[p].due = false;
                    if let Some(id) = v.get("id") {
                        ensure!(!id.is_null(), ["C13", "C15"], "request with a null id: {v}");
                        let mut ids = seen_ids.lock().unwrap();
                        ensure!(!ids.contains(id), ["C13"], "the id {id} is used by two requests");
                        ids.push(id.clone());
                        issued[p].id = Some(id.clone());
                        if answered.borrow().contains(id) {
                            info.class(true, "answered at once");
                            issued[p].replied = true;
                            if issued[p].want == Want::Waiting {
                                issued[p].want = Want::Done(outcome(&issued[p].call, &mut info));
                            }
                        }
                    }
                }
                None => {
                    let due: Vec<String> = issued
                        .iter()
                        .filter(|i| i.due)
                        .map(|i| {
                            let e = &TABLE[i.call.kind as usize % TABLE.len()];
                            format!("{} {} {}", e.name, e.method, (e.params)(&i.call.args))
                        })
                        .collect();
                    let tags: &[&'static str] =
                        if due.is_empty() { &["C14", "C15", "C21"] } else { &["C15", "C13"] };
                    return Err(Fail::new(tags, format!("sent {v} in state {st:?}; due: {due:?}")));
                }
            }
        }
        ensure!(
            life.is_empty() || (f.is_wire() && st == St::Exited),
            ["C07", "C04", "C09"],
            "no answer to {life:?}"
        );
        for (i, c) in issued.iter().enumerate() {
            let e = &TABLE[c.call.kind as usize % TABLE.len()];
            ensure!(!c.due, ["C14", "C15", "C21"], "{} in state {st:?} sent nothing", e.name);
            let got = &results.borrow()[i];
            let ok = match (&c.want, got) {
                (Want::Any | Want::Gone, _) => true,
                (Want::Waiting, None) => true,
                (Want::Refused, Some(r)) => r.is_err() || !e.request,
                (Want::Done(Err(w)), Some(Err(g))) => {
                    w == "any" || g == w || (w.get("message").is_none() && g["code"] == w["code"])
                }
                (Want::Done(Ok(w)), Some(Ok(g))) => w == g,
                _ => false,
            };
            if !ok {
                let tags: &[&'static str] = match (&c.want, e.gated) {
                    (Want::Refused, _) => &["C14", "C09"],
                    (Want::Done(Err(w)), _) if w["code"] == -32002 => &["C14"],
                    _ if c.replied => &["C13", "C15"],
                    (Want::Waiting, _) => &["C13", "C14"],
                    _ => &["C15", "C14", "C21"],
                };
                return Err(Fail::new(
                    tags,
                    format!("{} returned {got:?}, expected {:?}, in state {st:?}", e.name, c.want),
                ));
            }
        }
    }
    Ok(info)
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub reply: u32,
    pub stray: u32,
    pub drop: u32,
    pub life: u32,
    pub exit: u32,
    pub batch: usize,
    pub wrong: u32,
    /// Start initialized.
    pub pre: f64,
    pub requests_only: bool,
}

pub fn arb_call(x: Mix) -> BoxedStrategy<Call> {
    let all: Vec<usize> =
        (0..TABLE.len()).filter(|k| !x.requests_only || TABLE[*k].request).collect();
    let each = all
        .into_iter()
        .map(|k| {
            let e = &TABLE[k];
            let reply = prop_oneof![
                6 => (e.result)().prop_map(Reply::Ok),
                2 => arb_error().prop_map(Reply::Err),
                x.wrong => arb_small().prop_map(Reply::Ok),
            ];
            ((e.args)(), reply).prop_map(move |(args, reply)| Call { kind: k as u8, args, reply }).boxed()
        })
        .collect::<Vec<_>>();
    proptest::strategy::Union::new(each).boxed()
}

pub fn arb_case(x: Mix, thorough: bool) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        8 => prop::collection::vec(arb_call(x), 1..=x.batch).prop_map(Op::Calls),
        2 => prop::collection::vec(arb_call(x), 1..=x.batch).prop_map(Op::Eager),
        x.reply => prop::collection::vec(any::<u8>(), 1..5).prop_map(Op::Reply),
        x.stray => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Stray(a, b)),
        x.drop => any::<u8>().prop_map(Op::Drop),
        x.life => prop_oneof![
            3 => (any::<bool>(), prop::bool::weighted(0.7)).prop_map(|(gate, ok)| Op::Init { gate, ok }),
            3 => Just(Op::OpenInit),
            1 => Just(Op::CancelInit),
            1 => Just(Op::Shutdown),
        ],
        x.exit => Just(Op::Exit),
        1 => Just(Op::Spurious),
    ];
    let act = prop_oneof![2 => (1u32..60).prop_map(Act::Take), 1 => Just(Act::Pend)];
    let acts = prop_oneof![
        2 => Just(vec![]),
        1 => (prop::collection::vec(act, 0..4), 1u32..40).prop_map(|(mut v, n)| {
            v.push(Act::Take(n));
            v
        }),
    ];
    let n = if thorough { 30 } else { 14 };
    (
        0u8..3,
        acts,
        prop::bool::weighted(x.pre),
        prop::collection::vec(op, 1..n),
        prop::collection::vec(any::<u8>(), 0..12),
    )
        .prop_map(|(mode, acts, pre, mut ops, sched)| {
            if pre {
                ops.insert(0, Op::Init { gate: false, ok: true });
            }
            Case { mode, acts, ops, sched }
        })
        .boxed()
}

pub fn id_of(c: &Client) -> Value {
    id_json(&c.next_request_id())
}

pub fn is_number(id: &Id) -> bool {
    matches!(id, Id::Number(_))
}
