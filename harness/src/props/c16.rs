//! C16: progress streams.

use std::cell::RefCell;
use std::rc::Rc;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use tower_lsp::lsp_types::ProgressToken;
use tower_lsp::{
    Bounded, Cancellable, Client, NotCancellable, OngoingProgress, Progress, Unbounded,
};

use crate::watch::look;
use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::{yield_now, Sched};
use crate::fail::{Info, Res};
use crate::front::Front;
use crate::gen::*;
use crate::io::Act;
use crate::rig::{self, Ret, RigCtl};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Build {
    Percent(u32),
    Cancel,
    Message(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Report {
    message: Option<String>,
    percent: u32,
    button: Option<bool>,
    /// Turn the stream unbounded first.
    unbound: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    token: Value,
    title: String,
    build: Vec<Build>,
    begin: bool,
    reports: Vec<Report>,
    /// None: dropped without an end.
    finish: Option<Option<String>>,
    yields: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    mode: u8,
    acts: Vec<Act>,
    streams: Vec<Stream>,
    sched: Vec<u8>,
}

#[derive(Debug)]
enum P {
    Un(Progress<Unbounded, NotCancellable>),
    Bn(Progress<Bounded, NotCancellable>),
    Uc(Progress<Unbounded, Cancellable>),
    Bc(Progress<Bounded, Cancellable>),
}

#[derive(Debug)]
enum O {
    Un(OngoingProgress<Unbounded, NotCancellable>),
    Bn(OngoingProgress<Bounded, NotCancellable>),
    Uc(OngoingProgress<Unbounded, Cancellable>),
    Bc(OngoingProgress<Bounded, Cancellable>),
}

fn build(p: P, b: &Build, begin: &mut Map<String, Value>) -> P {
    match b {
        Build::Percent(n) => {
            let q = match p {
                P::Un(p) => P::Bn(p.with_percentage(*n)),
                P::Uc(p) => P::Bc(p.with_percentage(*n)),
                other => return other,
            };
            begin.insert("percentage".into(), json!(n));
            q
        }
        Build::Cancel => {
            let q = match p {
                P::Un(p) => P::Uc(p.with_cancel_button()),
                P::Bn(p) => P::Bc(p.with_cancel_button()),
                other => return other,
            };
            begin.insert("cancellable".into(), json!(true));
            q
        }
        Build::Message(m) => {
            begin.insert("message".into(), json!(m));
            match p {
                P::Un(p) => P::Un(p.with_message(m.clone())),
                P::Bn(p) => P::Bn(p.with_message(m.as_str())),
                P::Uc(p) => P::Uc(p.with_message(m.clone())),
                P::Bc(p) => P::Bc(p.with_message(m.as_str())),
            }
        }
    }
}

type Steps = Rc<RefCell<Vec<Value>>>;

async fn play(client: Client, s: Stream, want: Steps, bad: Rc<RefCell<Option<String>>>) {
    let token: ProgressToken = serde_json::from_value(s.token.clone()).unwrap();
    let put = |v: Value| want.borrow_mut().push(json!({"token": s.token, "value": v}));
    let mut begin = Map::new();
    begin.insert("kind".into(), json!("begin"));
    begin.insert("title".into(), json!(s.title));
    let mut p = P::Un(client.progress(token.clone(), s.title.clone()));
    for b in &s.build {
        p = build(p, b, &mut begin);
    }
    for _ in 0..s.yields {
        yield_now().await;
    }
    if !s.begin {
        return;
    }
    put(Value::Object(begin));
    look(&p);
    let mut o = match p {
        P::Un(p) => O::Un(p.begin().await),
        P::Bn(p) => O::Bn(p.begin().await),
        P::Uc(p) => O::Uc(p.begin().await),
        P::Bc(p) => O::Bc(p.begin().await),
    };
    for r in &s.reports {
        if r.unbound {
            o = match o {
                O::Bn(o) => O::Un(o.into_unbounded()),
                O::Bc(o) => O::Uc(o.into_unbounded()),
                other => other,
            };
        }
        let got = match &o {
            O::Un(o) => o.token(),
            O::Bn(o) => o.token(),
            O::Uc(o) => o.token(),
            O::Bc(o) => o.token(),
        };
        if *got != token {
            *bad.borrow_mut() = Some(format!("token() is {got:?}, not {token:?}"));
        }
        let mut v = Map::new();
        v.insert("kind".into(), json!("report"));
        let mut field = |k: &str, x: Value| drop(v.insert(k.into(), x));
        // The fields this kind of stream reports.
        let (pct, btn) = match &o {
            O::Un(_) => (None, None),
            O::Bn(_) => (Some(r.percent), None),
            O::Uc(_) if r.message.is_none() => (None, Some(r.button.unwrap_or(false))),
            O::Uc(_) => (None, r.button),
            O::Bc(_) => (Some(r.percent), r.button),
        };
        if let Some(n) = pct {
            field("percentage", json!(n));
        }
        if let Some(b) = btn {
            field("cancellable", json!(b));
        }
        let text = r.message.clone().unwrap_or_default();
        if r.message.is_some() || matches!(o, O::Un(_)) {
            field("message", json!(text));
        }
        put(Value::Object(v));
        look(&o);
        match (&o, &r.message) {
            (O::Un(o), _) => o.report(text).await,
            (O::Bn(o), None) => o.report(r.percent).await,
            (O::Bn(o), Some(m)) => o.report_with_message(m.as_str(), r.percent).await,
            (O::Uc(o), None) => o.report(r.button.unwrap_or(false)).await,
            (O::Uc(o), Some(m)) => o.report_with_message(m.as_str(), r.button).await,
            (O::Bc(o), None) => o.report(r.percent, r.button).await,
            (O::Bc(o), Some(m)) => o.report_with_message(m.as_str(), r.percent, r.button).await,
        }
        for _ in 0..s.yields {
            yield_now().await;
        }
    }
    match &s.finish {
        None => {}
        Some(None) => {
            put(json!({"kind": "end"}));
            match o {
                O::Un(o) => o.finish().await,
                O::Bn(o) => o.finish().await,
                O::Uc(o) => o.finish().await,
                O::Bc(o) => o.finish().await,
            }
        }
        Some(Some(m)) => {
            put(json!({"kind": "end", "message": m}));
            match o {
                O::Un(o) => o.finish_with_message(m.as_str()).await,
                O::Bn(o) => o.finish_with_message(m.clone()).await,
                O::Uc(o) => o.finish_with_message(m.as_str()).await,
                O::Bc(o) => o.finish_with_message(m.clone()).await,
            }
        }
    }
}

/// A begin without `cancellable` means that it is not.
fn canon(mut v: Value) -> Value {
    if v["value"]["kind"] == "begin" && v["value"]["cancellable"] == false {
        v["value"].as_object_mut().unwrap().remove("cancellable");
    }
    v
}

pub fn run(case: &Case) -> Res {
    let ctl = RigCtl::default();
    let (service, socket, client) = rig::service(&ctl, &[]);
    let sched = Sched::new(&case.sched);
    let mut f = match case.mode % 2 {
        0 => Front::futures(service, socket, sched),
        _ => Front::wire(service, socket, None, sched, &case.acts),
    };
    let init = rig::init_params(&rig::simple(Ret::Ok(json!("s"))), 0);
    f.exchange(&request_value("initialize", Some(json!(1)), Some(init)))?;
    let mut wants: Vec<(Value, Steps)> = Vec::new();
    let bad = Rc::new(RefCell::new(None));
    let mut tasks = Vec::new();
    for s in &case.streams {
        if wants.iter().any(|(t, _)| *t == s.token) {
            continue;
        }
        let steps = Steps::default();
        wants.push((s.token.clone(), steps.clone()));
        tasks.push(f.exec.spawn(play(client.clone(), s.clone(), steps, bad.clone())));
    }
    let got = f.run()?;
    ensure!(tasks.iter().all(|t| f.exec.is_done(*t)), ["C16", "C21"], "a progress call does not return");
    if let Some(b) = bad.borrow_mut().take() {
        return Err(crate::fail::Fail::new(&["C16"], b));
    }
    for v in &got {
        ensure!(
            v["method"] == "$/progress"
                && v.get("id").is_none()
                && wants.iter().any(|(t, _)| *t == v["params"]["token"]),
            ["C16"],
            "sent {v}"
        );
    }
    for (t, w) in &wants {
        let g: Vec<Value> =
            got.iter().map(|v| &v["params"]).filter(|p| p["token"] == *t).cloned().map(canon).collect();
        let w: Vec<Value> = w.borrow().iter().cloned().map(canon).collect();
        ensure!(g == w, ["C16"], "stream {t} sent {g:?}, expected {w:?}");
    }
    let mut info = Info::default();
    let begun: Vec<&Stream> = case.streams.iter().filter(|s| s.begin).collect();
    info.class(case.mode % 2 == 1, "through server");
    info.class(case.streams.iter().any(|s| !s.begin), "never begun");
    info.class(begun.len() > 1, "interleaved streams");
    info.class(begun.iter().any(|s| s.reports.iter().any(|r| r.unbound)), "turned unbounded");
    info.class(begun.iter().any(|s| s.finish.is_none()), "dropped without an end");
    info.nontrivial = begun.iter().any(|s| !s.reports.is_empty() && !s.build.is_empty());
    Ok(info)
}

fn arb_percent() -> BoxedStrategy<u32> {
    prop_oneof![4 => 0u32..=100, 1 => Just(0), 1 => Just(100), 1 => any::<u32>()].boxed()
}

fn arb_stream() -> BoxedStrategy<Stream> {
    let token = prop_oneof![
        3 => (-3i32..6).prop_map(Value::from),
        1 => any::<i32>().prop_map(Value::from),
        2 => (-3i32..6).prop_map(|n| Value::from(n.to_string())),
        2 => arb_string().prop_map(Value::from),
    ];
    let build = prop_oneof![
        1 => arb_percent().prop_map(Build::Percent),
        1 => Just(Build::Cancel),
        1 => arb_string().prop_map(Build::Message),
    ];
    let report = (
        prop::option::of(arb_string()),
        arb_percent(),
        prop::option::of(any::<bool>()),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(message, percent, button, unbound)| Report { message, percent, button, unbound });
    (
        token,
        arb_string(),
        prop::collection::vec(build, 0..4),
        prop::bool::weighted(0.9),
        prop::collection::vec(report, 0..6),
        prop::option::weighted(0.85, prop::option::of(arb_string())),
        0u8..3,
    )
        .prop_map(|(token, title, build, begin, reports, finish, yields)| Stream {
            token, title, build, begin, reports, finish, yields,
        })
        .boxed()
}

pub fn strategy() -> BoxedStrategy<Case> {
    let act = prop_oneof![2 => (1u32..60).prop_map(Act::Take), 1 => Just(Act::Pend)];
    (
        0u8..2,
        prop::collection::vec(act, 0..4),
        prop::collection::vec(arb_stream(), 1..4),
        prop::collection::vec(any::<u8>(), 0..12),
    )
        .prop_map(|(mode, acts, streams, sched)| Case { mode, acts, streams, sched })
        .boxed()
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "streams",
        rule: "one to three concurrent progress streams with generated tokens, builder calls, reports of every \
               type state and ends, compared per token with the calls made; non-trivial: a configured stream \
               with reports",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(|_| strategy()),
        run,
    })]
}
