//! C19: JSON-RPC values.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response};
use tower_lsp::lsp_types::NumberOrString;

use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::Sched;
use crate::fail::{Fail, Info, Res};
use crate::gen::*;
use crate::io::OutCtl;
use crate::mock::*;
use crate::wire::{frame_with, multiset_diff, parse_all, render, Hdr, Style, STYLES};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Part {
    Params(Value),
    Id(Value),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Val {
    /// A method and builder calls, in order.
    Request(String, Vec<Part>),
    Ok(Value, Value),
    Err(Value, Value),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    val: Val,
    style: u8,
    /// Which of several equivalent constructors to use.
    how: u8,
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), Fail> {
    ensure!(got == want, ["C19"], "{what}: {got:?}, expected {want:?}");
    Ok(())
}

fn id_by(how: u8, v: &Value) -> Id {
    match v {
        Value::Number(n) => {
            let n = n.as_i64().unwrap();
            match (how % 3, i32::try_from(n)) {
                (0, Ok(m)) => Id::from(NumberOrString::Number(m)),
                (1, _) => Id::Number(n),
                _ => Id::from(n),
            }
        }
        Value::String(s) => match how % 4 {
            0 => Id::from(s.as_str()),
            1 => Id::from(NumberOrString::String(s.clone())),
            2 => Id::String(s.clone()),
            _ => Id::from(s.clone()),
        },
        _ if how % 2 == 0 => Id::default(),
        _ => Id::Null,
    }
}

fn run(case: &Case) -> Res {
    let style = STYLES[case.style as usize % STYLES.len()];
    let mut info = Info::default();
    let want;
    match &case.val {
        Val::Request(method, parts) => {
            let mut b = Request::build(method.clone());
            let (mut params, mut id) = (None, None);
            for p in parts {
                b = match p {
                    Part::Params(v) => {
                        params = Some(v.clone());
                        b.params(v.clone())
                    }
                    Part::Id(v) => {
                        id = Some(v.clone());
                        b.id(id_by(case.how, v))
                    }
                };
            }
            let r = b.finish();
            want = request_value(method, id.clone(), params.clone());
            same("method()", r.method(), method.as_str())?;
            same("params()", r.params(), params.as_ref())?;
            same("id()", r.id().map(id_json), id.clone())?;
            for (what, text) in [
                ("to_string", r.to_string()),
                ("serde_json::to_string", serde_json::to_string(&r).unwrap()),
                ("to_string_pretty", serde_json::to_string_pretty(&r).unwrap()),
            ] {
                let v: Value = serde_json::from_str(&text)
                    .map_err(|e| Fail::new(&["C19"], format!("{what} gives {text:?}: {e}")))?;
                same(what, v, want.clone())?;
                same("parse", text.parse::<Request>().map_err(|e| e.to_string()), Ok(r.clone()))?;
            }
            // With escapes, so that the formatter must pad or cut nothing.
            same("format with width", format!("{r:>3}").len() >= r.to_string().len(), true)?;
            same("to_value", serde_json::to_value(&r).unwrap(), want.clone())?;
            same("from_value", serde_json::from_value::<Request>(want.clone()).map_err(|e| e.to_string()), Ok(r.clone()))?;
            let text = render(&want, style);
            let p: Request = serde_json::from_slice(text.as_bytes())
                .map_err(|e| Fail::new(&["C19"], format!("{text:?} does not parse: {e}")))?;
            same("parse of an independent text", &p, &r)?;
            same("JSON form", request_json(&p), want.clone())?;
            let (m, i, ps) = r.into_parts();
            same("into_parts", (m.to_string(), i.as_ref().map(id_json), ps), (method.clone(), id.clone(), params.clone()))?;
            info.class(id.is_none(), "notification");
            info.class(id == Some(Value::Null), "null id");
            info.class(params == Some(Value::Null), "null params");
            info.class(params.is_none(), "absent params");
            info.nontrivial = params.is_some() || id.is_some();
        }
        Val::Ok(id, v) | Val::Err(id, v) => {
            let ok = matches!(&case.val, Val::Ok(..));
            let i = id_by(case.how, id);
            let r = match (ok, case.how % 2) {
                (true, 0) => Response::from_ok(i, v.clone()),
                (true, _) => Response::from_parts(i, Ok(v.clone())),
                (false, 0) => Response::from_error(i, make_error(v)),
                (false, _) => Response::from_parts(i, Err(make_error(v))),
            };
            want = if ok { ok_value(id.clone(), v.clone()) } else { err_value(id.clone(), v.clone()) };
            same("is_ok()", r.is_ok(), ok)?;
            same("is_error()", r.is_error(), !ok)?;
            same("result()", r.result(), ok.then_some(v))?;
            same("error()", r.error().map(error_json), (!ok).then(|| v.clone()))?;
            same("id()", id_json(r.id()), id.clone())?;
            for text in [serde_json::to_string(&r).unwrap(), serde_json::to_string_pretty(&r).unwrap()] {
                let p: Value = serde_json::from_str(&text).unwrap();
                same("to_string", p, want.clone())?;
                same("parse", text.parse::<Response>().map_err(|e| e.to_string()), Ok(r.clone()))?;
            }
            same("to_value", serde_json::to_value(&r).unwrap(), want.clone())?;
            same("from_value", serde_json::from_value::<Response>(want.clone()).map_err(|e| e.to_string()), Ok(r.clone()))?;
            let text = render(&want, style);
            let p: Response = serde_json::from_slice(text.as_bytes())
                .map_err(|e| Fail::new(&["C19"], format!("{text:?} does not parse: {e}")))?;
            same("parse of an independent text", &p, &r)?;
            same("JSON form", response_json(&p), want.clone())?;
            let (i, body) = r.into_parts();
            same("into_parts id", id_json(&i), id.clone())?;
            same("into_parts", body.map_err(|e| error_json(&e)), if ok { Ok(v.clone()) } else { Err(v.clone()) })?;
            info.class(ok, "result");
            info.class(!ok, "error");
            info.class(ok && v.is_null(), "null result");
            info.class(id.is_null(), "null id");
            info.nontrivial = true;
        }
    }
    Ok(info)
}

fn strategy() -> BoxedStrategy<Case> {
    let part = prop_oneof![
        1 => arb_json().prop_map(Part::Params),
        1 => arb_small().prop_map(Part::Params),
        1 => arb_id().prop_map(Part::Id),
    ];
    let val = prop_oneof![
        2 => (arb_method(), prop::collection::vec(part, 0..4)).prop_map(|(m, p)| Val::Request(m, p)),
        1 => (arb_id(), arb_json()).prop_map(|(i, v)| Val::Ok(i, v)),
        1 => (arb_id(), arb_error()).prop_map(|(i, v)| Val::Err(i, v)),
    ];
    (val, any::<u8>(), any::<u8>()).prop_map(|(val, style, how)| Case { val, style, how }).boxed()
}

// -- error codes

const STANDARD: &[(i64, ErrorCode)] = &[
    (-32700, ErrorCode::ParseError),
    (-32600, ErrorCode::InvalidRequest),
    (-32601, ErrorCode::MethodNotFound),
    (-32602, ErrorCode::InvalidParams),
    (-32603, ErrorCode::InternalError),
    (-32800, ErrorCode::RequestCancelled),
    (-32801, ErrorCode::ContentModified),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Codes(Vec<i64>);

fn run_codes(c: &Codes) -> Res {
    let mut info = Info::default();
    for n in &c.0 {
        let code = ErrorCode::from(*n);
        same("code()", code.code(), *n)?;
        same("i64::from", i64::from(code), *n)?;
        let want = STANDARD.iter().find(|(k, _)| k == n).map_or(ErrorCode::ServerError(*n), |s| s.1);
        same("variant", code, want)?;
        same("printed code", serde_json::to_value(code).unwrap(), json!(n))?;
        same("parsed code", serde_json::from_str::<ErrorCode>(&n.to_string()).ok(), Some(want))?;
        let e = Error { code, message: "m".into(), data: None };
        same("error", error_json(&serde_json::from_value(serde_json::to_value(&e).unwrap()).unwrap()), json!({"code": n, "message": "m"}))?;
        same("Error::new", Error::new(code).code.code(), *n)?;
        info.class(STANDARD.iter().any(|s| s.0 == *n), "standard code");
    }
    for (e, n) in [
        (Error::parse_error(), -32700),
        (Error::invalid_request(), -32600),
        (Error::method_not_found(), -32601),
        (Error::invalid_params("x"), -32602),
        (Error::internal_error(), -32603),
        (Error::request_cancelled(), -32800),
        (Error::content_modified(), -32801),
    ] {
        same("constructor", e.code.code(), n)?;
    }
    info.nontrivial = c.0.len() > 1;
    Ok(info)
}

fn strategy_codes() -> BoxedStrategy<Codes> {
    prop_oneof![
        1 => prop::collection::vec(any::<i64>(), 2..20),
        1 => prop::collection::vec(arb_code(), 2..20),
        2 => (-33000i64..-31900).prop_map(|a| (a..a + 120).collect()),
        1 => (i64::MIN..i64::MAX - 40).prop_map(|a| (a..a + 20).collect()),
        1 => (-300i64..300).prop_map(|a| (a..a + 40).collect()),
        // Standard codes plus multiples of powers of two, to expose narrowing.
        1 => (0usize..7, 8u32..63).prop_map(|(i, s)| {
            let k = STANDARD[i].0;
            vec![k, k.wrapping_add(1 << s), k.wrapping_sub(1 << s)]
        }),
    ]
    .prop_map(Codes)
    .boxed()
}

// -- classification on the wire

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wire {
    /// Message, style, extra members that mean nothing.
    msgs: Vec<(Value, u8, Vec<(String, Value)>)>,
    /// Sent by the server to the client.
    out: Vec<Value>,
    sched: Vec<u8>,
}

fn run_wire(c: &Wire) -> Res {
    let rec = Rec::default();
    let mut b = Bench::new(Some(3), OutCtl::plain(), Sched::new(&c.sched), rec.clone());
    let mut want = Vec::new();
    let mut info = Info::default();
    for (v, style, extra) in &c.msgs {
        let mut m: Map<String, Value> = v.as_object().unwrap().clone();
        for (k, x) in extra {
            m.entry(k.clone()).or_insert(x.clone());
            info.class(true, "unknown members");
        }
        let style = STYLES[*style as usize % STYLES.len()];
        let text = render(&Value::Object(m), style);
        b.input.data(frame_with(Hdr::Plain, text.as_bytes()));
        want.push(v.clone());
        info.class(v.get("method").is_some() && v.get("id").is_none(), "notification");
        info.class(v.get("method").is_some() && v.get("id") == Some(&Value::Null), "request with a null id");
        info.class(v.get("result").is_some(), "result");
        info.class(v.get("result") == Some(&Value::Null), "null result");
        info.class(v.get("error").is_some(), "error");
    }
    for o in &c.out {
        b.client.send(o.clone());
    }
    b.exec.run()?;
    let log = rec.log();
    ensure!(
        log == want,
        ["C19", "C01"],
        "delivered {:?}, expected {:?}",
        super::c01::short(&Value::from(log.clone())),
        super::c01::short(&Value::from(want.clone()))
    );
    let n_req = c.msgs.iter().filter(|(v, _, _)| v.get("method").is_some()).count();
    let calls = rec.0.lock().unwrap().requests;
    ensure!(calls == n_req, ["C19"], "{calls} messages were taken for requests or notifications, expected {n_req}");
    let got = parse_all(&b.out.written()).map_err(|e| Fail::new(&["C02", "C19"], e))?;
    if let Some(d) = multiset_diff(&got, &c.out) {
        return Err(Fail::new(&["C19", "C02"], format!("output: {d}")));
    }
    info.nontrivial = n_req > 0 && n_req < c.msgs.len();
    Ok(info)
}

fn strategy_wire() -> BoxedStrategy<Wire> {
    let extra = prop_oneof![
        4 => Just(vec![]),
        1 => prop::collection::vec(("x[a-z]{0,4}", arb_small()), 1..3),
    ];
    let msg = prop_oneof![arb_request(), arb_response()];
    (
        prop::collection::vec((msg, any::<u8>(), extra), 1..8),
        prop::collection::vec(arb_request(), 0..3),
        prop::collection::vec(any::<u8>(), 0..8),
    )
        .prop_map(|(msgs, out, sched)| Wire { msgs, out, sched })
        .boxed()
}

#[allow(unused)]
const _: Style = Style::Compact;

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![
        Box::new(C {
            name: "values",
            rule: "requests, notifications and responses built through every public constructor, checked \
                   against their accessors, printed, compared with an independent JSON form and parsed back, \
                   also from re-laid-out text; non-trivial: has params, an id, a result or an error",
            quick: 40_000,
            thorough: 800_000,
            strategy: Box::new(|_| strategy()),
            run,
        }),
        Box::new(C {
            name: "codes",
            rule: "error codes as integers: ranges, standard ones, and ones equal to standard ones modulo \
                   powers of two; non-trivial: more than one",
            quick: 10_000,
            thorough: 200_000,
            strategy: Box::new(|_| strategy_codes()),
            run: run_codes,
        }),
        Box::new(C {
            name: "classification",
            rule: "sequences of requests, notifications and responses with all id forms, null results and \
                   unknown members, through the server; non-trivial: both requests and responses",
            quick: 10_000,
            thorough: 200_000,
            strategy: Box::new(|_| strategy_wire()),
            run: run_wire,
        }),
    ]
}
