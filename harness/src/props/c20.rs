//! C20: registrations of custom methods, colliding with built-in ones and each other.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Error, ErrorCode, Result as RpcResult};
use tower_lsp::lsp_types::*;
use tower_lsp::{async_trait, LanguageServer, LspService, LspServiceBuilder};

use super::c01::short;
use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::Sched;
use crate::fail::{Info, Res};
use crate::front::Front;
use crate::gen::*;
use crate::machine::matches_any;
use crate::wire::multiset_diff;

#[derive(Clone, Default)]
struct Host(Arc<Mutex<Vec<Value>>>);

impl Host {
    fn log(&self, v: Value) {
        self.0.lock().unwrap().push(v);
    }
}

#[async_trait]
impl LanguageServer for Host {
    async fn initialize(&self, _: InitializeParams) -> RpcResult<InitializeResult> {
        self.log(json!(["initialize"]));
        Ok(InitializeResult::default())
    }
    async fn initialized(&self, _: InitializedParams) {
        self.log(json!(["initialized"]));
    }
    async fn shutdown(&self) -> RpcResult<()> {
        self.log(json!(["shutdown"]));
        Ok(())
    }
    async fn execute_command(&self, p: ExecuteCommandParams) -> RpcResult<Option<Value>> {
        self.log(json!(["command", p.command]));
        Ok(Some(p.command.into()))
    }
    async fn did_close(&self, p: DidCloseTextDocumentParams) {
        self.log(json!(["close", p.text_document.uri]));
    }
    async fn code_lens_resolve(&self, p: CodeLens) -> RpcResult<CodeLens> {
        self.log(json!(["lens"]));
        Ok(p)
    }
}

const NAMES: &[&str] = &[
    "x/a", "x/b", "$/c", "$/d", "", "é\"", "x/a/", "X/a", "rpc.x", "textDocument/hoverr",
    // Built in.
    "initialize", "initialized", "shutdown", "exit", "$/cancelRequest", "workspace/executeCommand",
    "textDocument/didClose", "codeLens/resolve", "textDocument/hover", "textDocument/didOpen",
    "workspace/symbol", "inlayHint/resolve", "workspaceSymbol/resolve", "typeHierarchy/supertypes",
];
const CUSTOM: usize = 10;

const KINDS: u8 = 9;

fn is_request(kind: u8) -> bool {
    !matches!(kind, 2 | 3)
}

fn register(b: LspServiceBuilder<Host>, name: &'static str, kind: u8, tag: usize) -> LspServiceBuilder<Host> {
    match kind {
        0 => b.custom_method(name, move |h: &Host, p: Value| {
            let h = h.clone();
            async move {
                h.log(json!([tag, p]));
                Ok::<_, Error>(json!([tag, p]))
            }
        }),
        1 => b.custom_method(name, move |h: &Host| {
            let h = h.clone();
            async move {
                h.log(json!([tag]));
                Ok::<_, Error>(tag)
            }
        }),
        2 => b.custom_method(name, move |h: &Host, p: Value| {
            let h = h.clone();
            async move { h.log(json!([tag, p])) }
        }),
        3 => b.custom_method(name, move |h: &Host| {
            let h = h.clone();
            async move { h.log(json!([tag])) }
        }),
        4 => b.custom_method(name, move |h: &Host, p: Value| {
            let h = h.clone();
            async move {
                h.log(json!([tag, p]));
                Err::<(), _>(Error {
                    code: ErrorCode::ServerError(tag as i64 - 50),
                    message: format!("no {tag}").into(),
                    data: Some(p).filter(|p| !p.is_null()),
                })
            }
        }),
        // Results that JSON cannot represent.
        5 => b.custom_method(name, move |h: &Host| {
            let h = h.clone();
            async move {
                h.log(json!([tag]));
                Ok::<_, Error>(BTreeMap::from([((tag, 1), 2)]))
            }
        }),
        6 => b.custom_method(name, move |h: &Host, p: Value| {
            let h = h.clone();
            async move {
                h.log(json!([tag, p]));
                Ok::<_, Error>(vec![Stubborn])
            }
        }),
        7 => b.custom_method(name, move |h: &Host, p: i32| {
            let h = h.clone();
            async move {
                h.log(json!([tag, p]));
                Ok::<_, Error>(p)
            }
        }),
        // Takes several polls.
        _ => b.custom_method(name, move |h: &Host, p: Value| {
            let h = h.clone();
            async move {
                for _ in 0..3 {
                    let mut yielded = false;
                    futures::future::poll_fn(|cx| {
                        if std::mem::replace(&mut yielded, true) {
                            return std::task::Poll::Ready(());
                        }
                        cx.waker().wake_by_ref();
                        std::task::Poll::Pending
                    })
                    .await;
                }
                h.log(json!([tag, p]));
                Ok::<_, Error>(Some(p))
            }
        }),
    }
}

struct Stubborn;
impl Serialize for Stubborn {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("cannot"))
    }
}

/// What a call of a handler of this kind does: (log entry, result or error), or the refusal code.
fn outcome(kind: u8, tag: usize, p: &Option<Value>) -> Result<(Value, Value), i64> {
    let bare = matches!(kind, 1 | 3 | 5);
    if bare != p.is_none() {
        return Err(-32602);
    }
    let p = p.clone().unwrap_or_default();
    if kind == 7 && p.as_i64().and_then(|n| i32::try_from(n).ok()).is_none() {
        return Err(-32602);
    }
    let seen = if bare { json!([tag]) } else { json!([tag, p]) };
    let reply = match kind {
        0 => json!({ "result": seen }),
        1 => json!({ "result": tag }),
        4 => json!({ "error": error_value(tag as i64 - 50, &format!("no {tag}"), Some(p)) }),
        5 | 6 => json!({"error": {"code": -32603}}),
        _ => json!({ "result": p }),
    };
    Ok((seen, reply))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    name: u8,
    id: Option<u8>,
    params: Option<Value>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    wire: bool,
    unsplit: bool,
    regs: Vec<(u8, u8)>,
    /// Before initialization, after it, and after shutdown.
    calls: [Vec<Call>; 3],
    exit: bool,
}

fn arb_call() -> BoxedStrategy<Call> {
    let params = prop_oneof![
        2 => Just(None),
        2 => arb_small().prop_map(Some),
        1 => (-3i32..9).prop_map(|n| Some(n.into())),
        1 => Just(Some(Value::Null)),
    ];
    (any::<u8>(), any::<u8>(), prop::option::weighted(0.7, any::<u8>()), params)
        .prop_map(|(name, custom, id, params)| {
            let n = if custom % 4 > 0 { name as usize % CUSTOM } else { name as usize % NAMES.len() };
            Call { name: n as u8, id, params }
        })
        .boxed()
}

pub fn strategy(thorough: bool) -> BoxedStrategy<Case> {
    let n = if thorough { 24 } else { 12 };
    let calls = |k: usize| prop::collection::vec(arb_call(), 0..k);
    let reg = (any::<u8>(), any::<u8>(), 0..KINDS).prop_map(|(n, c, k)| {
        (if c % 3 > 0 { n as usize % CUSTOM } else { n as usize % NAMES.len() } as u8, k)
    });
    (any::<bool>(), any::<bool>(), prop::collection::vec(reg, 0..n), calls(4), calls(n), calls(4), any::<bool>())
        .prop_map(|(wire, unsplit, regs, a, b, c, exit)| Case { wire, unsplit, regs, calls: [a, b, c], exit })
        .boxed()
}

/// Fixed messages to the built-in methods: (message without id, request?, log, reply).
fn builtin(name: &str) -> (Option<Value>, bool, Option<Value>, Option<Value>) {
    let lens = json!({"range": {"start": {"line": 0, "character": 1}, "end": {"line": 2, "character": 3}}});
    let at = json!({"textDocument": {"uri": "file:///a"}, "position": {"line": 1, "character": 2}});
    let missing = Some(json!({"error": {"code": -32601}}));
    match name {
        "initialized" => (Some(json!({})), false, Some(json!(["initialized"])), None),
        "workspace/executeCommand" => (
            Some(json!({"command": "go"})), true, Some(json!(["command", "go"])), Some(json!({"result": "go"})),
        ),
        "textDocument/didClose" => {
            (Some(json!({"textDocument": {"uri": "file:///a"}})), false, Some(json!(["close", "file:///a"])), None)
        }
        "codeLens/resolve" => (Some(lens.clone()), true, Some(json!(["lens"])), Some(json!({ "result": lens }))),
        "$/cancelRequest" => (Some(json!({"id": -77})), false, None, None),
        "textDocument/didOpen" => (
            Some(json!({"textDocument": {"uri": "file:///a", "languageId": "l", "version": 1, "text": ""}})),
            false, None, None,
        ),
        "textDocument/hover" => (Some(at), true, None, missing),
        "workspace/symbol" => (Some(json!({"query": ""})), true, None, missing),
        "inlayHint/resolve" => (
            Some(json!({"position": {"line": 1, "character": 2}, "label": "l"})), true, None, missing,
        ),
        "workspaceSymbol/resolve" => (
            Some(json!({"name": "n", "kind": 1, "location": {"uri": "file:///a"}})), true, None, missing,
        ),
        "typeHierarchy/supertypes" => (
            Some(json!({"item": {"name": "n", "kind": 5, "uri": "file:///a", "range": lens["range"], "selectionRange": lens["range"]}})),
            true, None, missing,
        ),
        _ => (None, false, None, None),
    }
}

pub fn run(case: &Case) -> Res {
    const T: [&str; 1] = ["C20"];
    let host = Host::default();
    let mut b = LspService::build(|_| host.clone());
    let mut table: BTreeMap<&'static str, (u8, usize)> = BTreeMap::new();
    let mut info = Info::default();
    let mut taken = std::collections::BTreeSet::new();
    for (tag, (name, kind)) in case.regs.iter().enumerate() {
        let name = NAMES[*name as usize % NAMES.len()];
        let built_in = NAMES[CUSTOM..].contains(&name);
        if built_in || table.contains_key(name) {
            taken.insert(name);
        }
        if !built_in {
            table.entry(name).or_insert((*kind, tag));
        }
        b = register(b, name, *kind, tag);
    }
    let (service, socket) = b.finish();
    let mut f = match (case.wire, case.unsplit) {
        (true, _) => Front::wire(service, socket, Some(50), Sched::default(), &[]),
        (_, true) => Front::unsplit(service, socket, Sched::default()),
        _ => Front::futures(service, socket, Sched::default()),
    };
    let check_log = |want: &[Value], what: &str| {
        let log = std::mem::take(&mut *host.0.lock().unwrap());
        match multiset_diff(&log, want) {
            Some(d) => Err(crate::fail::Fail::new(&T, format!("handlers that ran for {what}: {d}"))),
            None => Ok(()),
        }
    };
    let mut n = 0;
    for (phase, calls) in case.calls.iter().enumerate() {
        match phase {
            0 => {}
            1 => {
                let v = request_value("initialize", Some(json!("init")), Some(json!({"capabilities": {}})));
                let got = f.exchange(&v)?;
                check_log(&[json!(["initialize"])], "initialize")?;
                ensure!(got == [ok_value(json!("init"), json!({"capabilities": {}}))], T, "initialize answered {got:?}");
            }
            _ => {
                let got = f.exchange(&request_value("shutdown", Some(json!("shut")), None))?;
                check_log(&[json!(["shutdown"])], "shutdown")?;
                ensure!(got == [ok_value(json!("shut"), Value::Null)], T, "shutdown answered {got:?}");
            }
        }
        for c in calls {
            let name = NAMES[c.name as usize % NAMES.len()];
            n += 1;
            let mut id = c.id.map(|form| distinct_id(form, n));
            let mut params = c.params.clone();
            let mut log = vec![];
            let err = |c: i64| json!({"error": {"code": c}});
            let mut want: Vec<Value> = vec![];
            let mut optional = false;
            if NAMES[CUSTOM..].contains(&name) {
                let (p, request, l, r) = builtin(name);
                if p.is_none() {
                    continue;
                }
                params = p;
                id = request.then(|| id.unwrap_or(json!(n)));
                match phase {
                    1 => {
                        log.extend(l);
                        want.extend(r);
                    }
                    // Refused by its kind; whether state or kind is told first is not judged here.
                    0 if request => want.push(err(-32002)),
                    2 if request => want.push(err(-32600)),
                    _ => {}
                }
                info.class(phase == 1 && taken.contains(name), "built-in called under attack");
            } else if let Some((kind, tag)) = table.get(name) {
                info.class(taken.contains(name), "doubly registered name called");
                info.class(name.starts_with('$'), "custom name with dollar");
                match (phase, &id, is_request(*kind)) {
                    (0, Some(_), _) => want.push(err(-32002)),
                    (2, Some(_), _) => want.push(err(-32600)),
                    (1, Some(_), true) => match outcome(*kind, *tag, &params) {
                        Ok((l, r)) => {
                            info.class(true, "custom request");
                            info.class(matches!(kind, 5 | 6), "unrepresentable result");
                            log.push(l);
                            want.push(r);
                        }
                        Err(c) => want.push(err(c)),
                    },
                    (1, None, false) => {
                        if let Ok((l, _)) = outcome(*kind, *tag, &params) {
                            info.class(true, "custom notification");
                            log.push(l);
                        }
                    }
                    (1, Some(_), false) => want.extend([err(-32600), err(-32602)]),
                    (_, None, _) => {}
                    _ => unreachable!(),
                }
                info.class(phase != 1 && id.is_some(), "custom request refused by state");
                info.class(phase != 1 && id.is_none(), "custom notification refused by state");
            } else if id.is_some() {
                optional = name.starts_with("$/");
                want.push(err(-32601));
                if phase != 1 {
                    want.extend([err(-32002), err(-32600)]);
                }
            }
            let json = request_value(name, id.clone(), params);
            let what = format!("{json} in phase {phase} with {:?}", table.get(name));
            let got = f.exchange(&json)?;
            check_log(&log, &what)?;
            if want.is_empty() || optional && got.is_empty() {
                ensure!(got.is_empty(), T, "{what} was answered {got:?}");
            } else {
                ensure!(got.len() == 1, T, "{what} was answered {got:?}");
                ensure!(
                    matches_any(&got[0], id.as_ref().unwrap(), &want),
                    T,
                    "{what} was answered {}, expected {want:?}",
                    short(&got[0])
                );
            }
            ensure!(!f.ended(), T, "the service ended after {what}");
        }
    }
    if case.exit {
        let got = f.exchange(&request_value("exit", None, None))?;
        check_log(&[], "exit")?;
        ensure!(got.is_empty(), T, "exit was answered {got:?}");
        let got = f.exchange(&request_value("x/a", Some(json!("late")), None))?;
        check_log(&[], "a request after exit")?;
        ensure!(got.is_empty(), T, "a request after exit was answered {got:?}");
        ensure!(f.ended(), T, "exit was not effective");
        info.class(true, "exit");
    }
    info.class(case.wire, "through server");
    info.nontrivial = info.classes.contains(&"custom request")
        && (["built-in called under attack", "doubly registered name called", "unrepresentable result"])
            .iter()
            .any(|c| info.classes.contains(c));
    Ok(info)
}

pub fn registrations() -> Box<dyn Campaign> {
    Box::new(C {
        name: "registrations",
        rule: "sets of registrations of 9 handler kinds under 24 names, half of them built in, in \
               generated order, then calls before initialize, between, and after shutdown; reference: \
               built-in methods first, then the first registration; non-trivial: a custom request \
               is served and a contested name is called or a result is unrepresentable",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(strategy),
        run,
    })
}
