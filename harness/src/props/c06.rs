//! C06: every LSP method reaches its own trait method with its data intact.

use std::sync::{Arc, Mutex};

use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower_lsp::jsonrpc::Result as RpcResult;
use tower_lsp::lsp_types::*;
use tower_lsp::lsp_types::request::*;
use tower_lsp::{async_trait, LanguageServer, LspService};

use super::c01::short;
use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::Sched;
use crate::fail::{Fail, Info, Res};
use crate::front::Front;
use crate::gen::*;
use crate::lsp;
use crate::machine::matches_any;
use crate::mock::make_error;

#[derive(Default)]
struct Shared {
    log: Vec<(&'static str, Value)>,
    reply: Option<Result<Value, Value>>,
}

/// Records every call of a trait method, and answers as told.
struct Recorder(Arc<Mutex<Shared>>);

impl Recorder {
    fn note<P: Serialize>(&self, name: &'static str, p: &P) {
        let v = serde_json::to_value(p).expect("params serialize");
        self.0.lock().unwrap().log.push((name, v));
    }
    fn reply<R: DeserializeOwned>(&self) -> RpcResult<R> {
        match self.0.lock().unwrap().reply.take() {
            Some(Ok(v)) => Ok(serde_json::from_value(v).expect("checked before")),
            Some(Err(e)) => Err(make_error(&e)),
            None => Err(make_error(&json!({"code": 77, "message": "called twice"}))),
        }
    }
}

struct Minimal(Arc<Mutex<Shared>>);

#[async_trait]
impl LanguageServer for Minimal {
    async fn initialize(&self, _: InitializeParams) -> RpcResult<InitializeResult> {
        Ok(InitializeResult::default())
    }
    async fn shutdown(&self) -> RpcResult<()> {
        Ok(())
    }
}

pub struct Method {
    pub name: &'static str,
    pub handler: &'static str,
    pub request: bool,
    pub params: fn(&Value) -> Option<Value>,
    pub result: fn(&Value) -> Option<Value>,
}

/// What a value looks like after a trip through its type.
pub fn canon<T: Serialize + DeserializeOwned>(v: &Value) -> Option<Value> {
    serde_json::from_value::<T>(v.clone()).ok().and_then(|t| serde_json::to_value(t).ok())
}

macro_rules! methods {
    (
        requests { $($qn:literal $qf:ident($qp:ty) -> $qr:ty;)* }
        notifications { $($nn:literal $nf:ident($np:ty);)* }
    ) => {
        #[async_trait]
        impl LanguageServer for Recorder {
            async fn initialize(&self, p: InitializeParams) -> RpcResult<InitializeResult> {
                self.note("initialize", &p);
                self.reply()
            }
            async fn shutdown(&self) -> RpcResult<()> {
                self.note("shutdown", &());
                self.reply()
            }
            $(async fn $qf(&self, p: $qp) -> RpcResult<$qr> {
                self.note(stringify!($qf), &p);
                self.reply()
            })*
            $(async fn $nf(&self, p: $np) {
                self.note(stringify!($nf), &p);
            })*
        }

        pub const METHODS: &[Method] = &[
            $(Method {
                name: $qn, handler: stringify!($qf), request: true,
                params: canon::<$qp>, result: canon::<$qr>,
            },)*
            $(Method {
                name: $nn, handler: stringify!($nf), request: false,
                params: canon::<$np>, result: canon::<()>,
            },)*
        ];
    };
}

crate::with_methods!(methods);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    method: usize,
    params: Value,
    reply: Result<Value, Value>,
    id: Value,
    /// Send a request as notification, or a notification as request.
    flip: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    wire: bool,
    wrap: u8,
    init: Value,
    init_result: Value,
    calls: Vec<Call>,
    shutdown: bool,
}

pub fn strategy(thorough: bool) -> BoxedStrategy<Case> {
    let arms: Vec<BoxedStrategy<(usize, Value, Value)>> = METHODS
        .iter()
        .enumerate()
        .map(|(i, m)| {
            let (p, r) = lsp::client_to_server(m.name);
            (p.unwrap(), r.unwrap_or(Just(Value::Null).boxed()))
                .prop_map(move |(p, r)| (i, p, r))
                .boxed()
        })
        .collect();
    let call = (
        proptest::strategy::Union::new(arms),
        prop::option::weighted(0.15, arb_error()),
        arb_id(),
        prop::bool::weighted(0.06),
    )
        .prop_map(|((method, params, r), err, id, flip)| {
            let reply = err.map_or(Ok(r), Err);
            Call { method, params, reply, id, flip }
        });
    let n = if thorough { 14 } else { 7 };
    (
        any::<bool>(),
        0u8..12,
        lsp::initialize_params(),
        lsp::initialize_result(),
        prop::collection::vec(call, 1..n),
        any::<bool>(),
    )
        .prop_map(|(wire, wrap, init, init_result, calls, shutdown)| Case {
            wire,
            wrap,
            init,
            init_result,
            calls,
            shutdown,
        })
        .boxed()
}

pub fn run(case: &Case) -> Res {
    let sh: Arc<Mutex<Shared>> = Arc::default();
    let rec = Recorder(sh.clone());
    match case.wrap {
        0..=3 => drive(case, rec, sh, false),
        4 => drive(case, Box::new(rec), sh, false),
        5 => drive(case, Arc::new(rec), sh, false),
        6 => drive(case, Box::new(rec) as Box<dyn LanguageServer>, sh, false),
        7 => drive(case, Arc::new(rec) as Arc<dyn LanguageServer>, sh, false),
        8 => drive(case, Arc::new(Box::new(rec)), sh, false),
        9 => drive(case, Box::new(Minimal(sh.clone())) as Box<dyn LanguageServer>, sh, true),
        _ => drive(case, Minimal(sh.clone()), sh, true),
    }
}

fn drive<S: LanguageServer>(case: &Case, s: S, sh: Arc<Mutex<Shared>>, minimal: bool) -> Res {
    let mut info = Info::default();
    let (service, socket) = LspService::new(|_| s);
    let mut f = Front::new(service, socket, case.wire, None, Sched::default());
    let take = || std::mem::take(&mut sh.lock().unwrap().log);

    // initialize
    let want = canon::<InitializeResult>(&case.init_result)
        .ok_or_else(|| Fail::all("harness: bad initialize result"))?;
    sh.lock().unwrap().reply = Some(Ok(case.init_result.clone()));
    let got = f.exchange(&request_value("initialize", Some(json!(0)), Some(case.init.clone())))?;
    let want = if minimal { json!({"capabilities": {}}) } else { want };
    ensure!(
        got == [ok_value(json!(0), want.clone())],
        ["C06", "C07"],
        "initialize answered {got:?}, expected result {}",
        short(&want)
    );
    if !minimal {
        let p = canon::<InitializeParams>(&case.init).expect("generator");
        let log = take();
        ensure!(
            log == [("initialize", p.clone())],
            ["C06"],
            "initialize with {} reached {log:?}",
            short(&p)
        );
    }

    for c in &case.calls {
        let m = &METHODS[c.method];
        let p = (m.params)(&c.params).unwrap_or_else(|| panic!("generator: {} {}", m.name, c.params));
        let as_request = m.request != c.flip;
        let id = as_request.then(|| c.id.clone());
        sh.lock().unwrap().reply = Some(c.reply.clone());
        let got = f.exchange(&request_value(m.name, id.clone(), Some(c.params.clone())))?;
        let log = take();

        let want_log = if minimal || c.flip { vec![] } else { vec![(m.handler, p.clone())] };
        ensure!(
            log == want_log,
            ["C06", "C05"],
            "{} with params {} reached {:?}, expected {}",
            m.name,
            short(&p),
            log,
            if want_log.is_empty() { "nothing" } else { m.handler }
        );
        let want = match (as_request, c.flip, minimal) {
            (false, ..) => None,
            (true, true, _) => Some(json!({"error": {"code": -32600}})),
            (true, false, true) => Some(json!({"error": {"code": -32601}})),
            (true, false, false) => Some(match &c.reply {
                Ok(v) => json!({
                    "result": (m.result)(v).unwrap_or_else(|| panic!("generator: {} {v}", m.name))
                }),
                Err(e) => json!({ "error": e }),
            }),
        };
        let ok = match &want {
            None => got.is_empty(),
            Some(w) => got.len() == 1 && matches_any(&got[0], &c.id, std::slice::from_ref(w)),
        };
        ensure!(
            ok,
            ["C06", "C04"],
            "{} was answered {}, expected {:?}",
            m.name,
            got.iter().map(short).collect::<Vec<_>>().join(", "),
            want.map(|w| short(&w))
        );
        info.class(c.flip, "wrong kind");
        info.class(m.request && !c.flip, "request");
        info.class(!m.request && !c.flip, "notification");
        info.class(c.reply.is_err() && m.request, "error result");
    }
    if case.shutdown {
        sh.lock().unwrap().reply = Some(Ok(Value::Null));
        let got = f.exchange(&request_value("shutdown", Some(json!("s")), None))?;
        ensure!(
            got == [ok_value(json!("s"), Value::Null)],
            ["C06", "C07"],
            "shutdown answered {got:?}"
        );
        let n = take().len();
        ensure!(minimal || n == 1, ["C06", "C08"], "the shutdown handler ran {n} times");
    }
    info.class(minimal, "minimal server");
    info.class(case.wrap >= 4 && case.wrap < 9, "boxed or shared server");
    info.class(case.wire, "through server");
    info.nontrivial = case.calls.iter().any(|c| c.params.as_object().map_or(false, |o| !o.is_empty()));
    Ok(info)
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "methods",
        rule: "a generated initialize followed by 1-6 calls of generated methods (of all 61 others) \
               with generated params and results, on plain, boxed, shared and minimal servers; \
               non-trivial: some call has non-empty params",
        quick: 24_000,
        thorough: 300_000,
        strategy: Box::new(strategy),
        run,
    })]
}

#[cfg(test)]
mod tests {
    use super::*;
    use proptest::strategy::ValueTree;
    use proptest::test_runner::TestRunner;

    /// Generated params and results must decode, and lose nothing but nulls.
    #[test]
    fn generators_are_faithful() {
        let mut r = TestRunner::deterministic();
        for m in METHODS {
            let (p, res) = lsp::client_to_server(m.name);
            for (what, g, f) in
                [("params", p, m.params), ("result", res, m.result)]
            {
                let Some(g) = g else { continue };
                let mut lossy = 0;
                for _ in 0..300 {
                    let v = g.new_tree(&mut r).unwrap().current();
                    let c = f(&v).unwrap_or_else(|| panic!("{} {what} {v}", m.name));
                    if strip(&c) != strip(&v) {
                        lossy += 1;
                        if lossy == 1 {
                            println!("{} {what}\n  {v}\n  {c}", m.name);
                        }
                    }
                }
                if lossy > 0 {
                    println!("{} {what}: {lossy}/300 not canonical", m.name);
                }
            }
        }
    }

    fn strip(v: &Value) -> Value {
        match v {
            Value::Object(m) => Value::Object(
                m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect(),
            ),
            Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
            Value::Number(n) if n.as_f64().is_some() => json!(n.as_f64()),
            v => v.clone(),
        }
    }
}
