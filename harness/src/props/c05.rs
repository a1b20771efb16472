//! C05: dispatch by name, kind and params.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower_lsp::jsonrpc::Result as RpcResult;
use tower_lsp::lsp_types::*;
use tower_lsp::{async_trait, LanguageServer, LspService};

use super::c01::short;
use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::Sched;
use crate::fail::{Info, Res};
use crate::front::Front;
use crate::gen::*;
use crate::machine::matches_any;
use crate::wire::multiset_diff;

type Log = Arc<Mutex<Vec<Value>>>;

struct Probe(Log);

#[async_trait]
impl LanguageServer for Probe {
    async fn initialize(&self, _: InitializeParams) -> RpcResult<InitializeResult> {
        Ok(InitializeResult::default())
    }
    async fn shutdown(&self) -> RpcResult<()> {
        Ok(())
    }
}

#[derive(Clone, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
struct Strict {
    a: i32,
    #[serde(default)]
    b: Option<String>,
}

#[derive(Clone, Serialize, Deserialize)]
struct Loose {
    #[serde(default)]
    x: u8,
    #[serde(default)]
    y: Vec<bool>,
}

#[derive(Clone, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
enum Kind {
    Red,
    Blue(i32),
}

#[derive(Clone, Copy, PartialEq)]
enum Shape {
    /// No params at all.
    Bare,
    Params,
}

struct Entry {
    name: &'static str,
    request: bool,
    shape: Shape,
    /// What the handler sees, if the params decode.
    decode: fn(&Value) -> Option<Value>,
}

fn dec<T: Serialize + DeserializeOwned>(v: &Value) -> Option<Value> {
    serde_json::from_value::<T>(v.clone()).ok().map(|t| serde_json::to_value(t).unwrap())
}

macro_rules! probes {
    ($($rq:ident $rn:literal $nt:ident $nn:literal $ty:ty;)*) => {
        impl Probe {
            fn seen(&self, name: &str, v: Value) {
                self.0.lock().unwrap().push(json!([name, v]));
            }
            async fn bare(&self) -> RpcResult<Value> {
                self.seen("p/bare", Value::Null);
                Ok(json!("bare"))
            }
            async fn bare_note(&self) {
                self.seen("n/bare", Value::Null);
            }
            $(
                async fn $rq(&self, p: $ty) -> RpcResult<$ty> {
                    self.seen($rn, serde_json::to_value(&p).unwrap());
                    Ok(p)
                }
                async fn $nt(&self, p: $ty) {
                    self.seen($nn, serde_json::to_value(&p).unwrap());
                }
            )*
        }
        const ENTRIES: &[Entry] = &[
            Entry { name: "p/bare", request: true, shape: Shape::Bare, decode: dec::<()> },
            Entry { name: "n/bare", request: false, shape: Shape::Bare, decode: dec::<()> },
            $(
                Entry { name: $rn, request: true, shape: Shape::Params, decode: dec::<$ty> },
                Entry { name: $nn, request: false, shape: Shape::Params, decode: dec::<$ty> },
            )*
        ];
        fn build(log: &Log) -> (LspService<Probe>, tower_lsp::ClientSocket) {
            LspService::build(|_| Probe(log.clone()))
                .custom_method("p/bare", Probe::bare)
                .custom_method("n/bare", Probe::bare_note)
                $(.custom_method($rn, Probe::$rq).custom_method($nn, Probe::$nt))*
                .finish()
        }
    };
}

probes! {
    r_value "p/value" n_value "n/value" Value;
    r_i32 "p/i32" n_i32 "n/i32" i32;
    r_u8 "p/u8" n_u8 "n/u8" u8;
    r_bool "p/bool" n_bool "n/bool" bool;
    r_string "p/string" n_string "$/note" String;
    r_opt "p/opt" n_opt "n/opt" Option<i32>;
    r_unit "p/unit" n_unit "n/unit" ();
    r_vec "p/vec" n_vec "n/vec" Vec<String>;
    r_tuple "p/tuple" n_tuple "n/tuple" (i32, String);
    r_strict "p/strict" n_strict "n/strict" Strict;
    r_loose "$/loose" n_loose "n/loose" Loose;
    r_enum "p/enum" n_enum "n/enum" Kind;
    r_map "p/map" n_map "" BTreeMap<String, i32>;
    r_edit "p/é\"\\" n_edit "n/edit" Position;
}

const UNKNOWN: &[&str] = &[
    "p/Bare", "p/bare ", " p/bare", "p/bar", "p/barex", "P/bare", "p", "/", "p/", "bare", "n/i33",
    "textDocument/hoverr", "Initialize", "initialize2", "cancelRequest", "p/bare\u{0}", "x",
    "p/vec/", "workspace/executecommand", "rpc.discover",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    method: String,
    id: Option<u8>,
    params: Option<Value>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    wire: bool,
    bursts: Vec<Vec<Call>>,
}

fn arb_typed() -> BoxedStrategy<Value> {
    prop_oneof![
        3 => arb_small(),
        2 => (-300i64..300).prop_map(Value::from),
        2 => arb_int().prop_map(Value::from),
        1 => Just(Value::Null),
        1 => Just(json!({})),
        1 => Just(json!([])),
        1 => any::<bool>().prop_map(Value::from),
        1 => arb_string().prop_map(Value::from),
        1 => prop::collection::vec(arb_string(), 0..3).prop_map(|v| json!(v)),
        1 => (-5i32..5, arb_string()).prop_map(|(a, b)| json!([a, b])),
        1 => (-5i32..5, arb_string()).prop_map(|(a, b)| json!({"a": a, "b": b})),
        1 => (-5i32..5).prop_map(|a| json!({"a": a})),
        1 => (-5i32..5).prop_map(|a| json!({"a": a, "c": 1})),
        1 => (any::<u16>()).prop_map(|x| json!({"x": x, "y": [true]})),
        1 => proptest::sample::select(vec![json!("red"), json!("blue"), json!({"blue": 3}), json!({"red": null})]),
        1 => (0i32..5).prop_map(|x| json!({"k": x, "é": 2})),
        1 => (0i64..5).prop_map(|x| json!({"line": x, "character": 4})),
    ]
    .boxed()
}

fn arb_call() -> BoxedStrategy<Call> {
    let name = prop_oneof![
        12 => proptest::sample::select((0..ENTRIES.len()).collect::<Vec<_>>())
            .prop_map(|i| ENTRIES[i].name.to_string()),
        2 => proptest::sample::select(UNKNOWN.to_vec()).prop_map(String::from),
        1 => arb_string(),
        1 => proptest::sample::select(vec!["$/cancelRequest", "$/unknown"]).prop_map(String::from),
    ];
    (name, prop::option::weighted(0.6, any::<u8>()), prop::option::weighted(0.85, arb_typed()), any::<u8>())
        .prop_map(|(method, id, params, fit)| {
            // Mostly the kind the method has.
            let id = match ENTRIES.iter().find(|e| e.name == method) {
                Some(e) if fit % 4 != 0 => e.request.then(|| id.unwrap_or(fit)),
                _ => id,
            };
            Call { method, id, params }
        })
        .boxed()
}

pub fn strategy(thorough: bool) -> BoxedStrategy<Case> {
    let n = if thorough { 12 } else { 6 };
    (any::<bool>(), prop::collection::vec(prop::collection::vec(arb_call(), 1..6), 1..n))
        .prop_map(|(wire, bursts)| Case { wire, bursts })
        .boxed()
}

pub fn run(case: &Case) -> Res {
    let log: Log = Arc::default();
    let (service, socket) = build(&log);
    let mut f = Front::new(service, socket, case.wire, Some(50), Sched::default());
    let got = f.exchange(&request_value("initialize", Some(json!("init")), Some(json!({"capabilities": {}}))))?;
    ensure!(
        got == [ok_value(json!("init"), json!({"capabilities": {}}))],
        ["C05", "C07"],
        "initialize answered {got:?}"
    );
    let mut info = Info::default();
    let mut n = 0;
    for burst in &case.bursts {
        let mut want_log = Vec::new();
        let mut wants: Vec<(Value, Vec<Value>, String)> = Vec::new();
        let mut maybe: Vec<Value> = Vec::new();
        for c in burst {
            // Never an exit or another lifecycle message by accident.
            if matches!(c.method.as_str(), "exit" | "shutdown" | "initialize") {
                continue;
            }
            n += 1;
            let id = c.id.map(|form| distinct_id(form, n));
            let json = request_value(&c.method, id.clone(), c.params.clone());
            f.send(&json)?;
            let err = |codes: &[i64]| {
                codes.iter().map(|c| json!({"error": {"code": c}})).collect::<Vec<_>>()
            };
            let entry = ENTRIES.iter().find(|e| e.name == c.method);
            let seen = entry.and_then(|e| match (e.shape, &c.params) {
                (Shape::Bare, None) => Some(Value::Null),
                (Shape::Bare, Some(_)) | (Shape::Params, None) => None,
                (Shape::Params, Some(p)) => (e.decode)(p),
            });
            match (entry, seen, id) {
                (None, _, Some(id)) if c.method == "$/cancelRequest" => {
                    wants.push((id, err(&[-32600, -32602]), json.to_string()));
                    info.class(true, "wrong kind");
                }
                (None, _, Some(id)) if c.method.starts_with("$/") => maybe.push(id),
                (None, _, Some(id)) => {
                    // A built-in method name may come up by chance.
                    info.class(true, "unknown request");
                    wants.push((id, err(&[-32601]), json.to_string()));
                }
                (None, _, None) => info.class(true, "unknown notification"),
                (Some(e), Some(seen), Some(id)) if e.request => {
                    info.class(true, "request");
                    want_log.push(json!([e.name, seen]));
                    let r = if e.shape == Shape::Bare { json!("bare") } else { seen };
                    wants.push((id, vec![json!({ "result": r })], json.to_string()));
                }
                (Some(e), None, Some(id)) if e.request => {
                    info.class(c.params.is_none(), "missing params");
                    info.class(e.shape == Shape::Bare, "unexpected params");
                    info.class(e.shape == Shape::Params && c.params.is_some(), "undecodable params");
                    wants.push((id, err(&[-32602]), json.to_string()));
                }
                (Some(_), seen, Some(id)) => {
                    info.class(true, "wrong kind");
                    let codes: &[i64] = if seen.is_some() { &[-32600] } else { &[-32600, -32602] };
                    wants.push((id, err(codes), json.to_string()));
                }
                (Some(e), Some(seen), None) if !e.request => {
                    info.class(true, "notification");
                    want_log.push(json!([e.name, seen]));
                }
                (Some(e), _, None) => {
                    info.class(e.request, "request method as notification");
                    info.class(!e.request, "notification with bad params");
                }
            }
        }
        let mut got = f.run()?;
        let log = std::mem::take(&mut *log.lock().unwrap());
        if let Some(d) = multiset_diff(&log, &want_log) {
            ensure!(
                false,
                ["C05"],
                "handlers that ran for {}: {d}",
                burst.iter().map(|c| format!("{} {:?} {:?}", c.method, c.id, c.params)).collect::<Vec<_>>().join("; ")
            );
        }
        for (id, w, json) in wants {
            let p = got.iter().position(|g| g["id"] == id);
            ensure!(p.is_some(), ["C05", "C04"], "no response to {json}");
            let g = got.remove(p.unwrap());
            ensure!(
                matches_any(&g, &id, &w),
                ["C05"],
                "{json} was answered {}, expected {w:?}",
                short(&g)
            );
        }
        got.retain(|g| !maybe.contains(&g["id"]));
        ensure!(got.is_empty(), ["C05", "C04"], "unexpected output {got:?}");
    }
    info.class(case.wire, "through server");
    info.nontrivial = ["wrong kind", "undecodable params", "unknown request", "missing params"]
        .iter()
        .any(|c| info.classes.contains(c))
        && ["request", "notification"].iter().any(|c| info.classes.contains(c));
    Ok(info)
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "dispatch",
        rule: "bursts of calls over 30 custom methods of 15 signatures and unknown names, with \
               params that fit or not, as request or notification; non-trivial: at least one \
               handler runs and at least one message is refused",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(strategy),
        run,
    })]
}
