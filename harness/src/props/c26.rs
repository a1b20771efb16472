//! C26: servers in one process do not notice each other.
//!
//! Each case runs in a process of its own, so that nothing is left over from other cases; a history
//! that fails beside others is run once more alone, again in a fresh process.

use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use std::task::Poll;

use futures::future::FutureExt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::c01;
use crate::campaign::{execute_with, hash64, Campaign, Outcome, C};
use crate::fail::{Fail, Info, Res};
use crate::io::{recording, OutCtl};
use crate::wire::parse_frames;
use crate::{clientside, machine, senders, slots, turns};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hist {
    Machine(machine::Case),
    Client(clientside::Case),
    Senders(senders::Case),
    Slots(slots::Case),
    Frames(c01::Case),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Mode {
    /// One after the other, on one thread.
    After,
    /// Taking turns step by step.
    Turns,
    /// On threads of their own.
    Free,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    servers: Vec<Hist>,
    mode: Mode,
    order: Vec<u8>,
}

async fn history(h: &Hist) -> Res {
    match h {
        Hist::Machine(c) => machine::history(c).await,
        Hist::Client(c) => clientside::history(c).await,
        Hist::Senders(c) => senders::history(c).await,
        Hist::Slots(c) => slots::history(c).await,
        Hist::Frames(c) => c01::history(c).await,
    }
}

/// What became of a server.
pub struct Fate {
    pub outcome: Outcome,
    /// All it wrote.
    pub outs: Vec<OutCtl>,
}

pub fn one(h: &Hist) -> Fate {
    let mut outs = vec![];
    let outcome = recording(&mut outs, || execute_with(|| turns::alone(history(h))));
    Fate { outcome, outs }
}

/// The history, with its panics caught.
async fn guarded(h: &Hist) -> Fate {
    let mut f = history(h).boxed_local();
    let mut outs = vec![];
    let outcome = futures::future::poll_fn(|cx| {
        let mut pending = false;
        let o = recording(&mut outs, || {
            execute_with(|| match f.poll_unpin(cx) {
                Poll::Ready(r) => r,
                Poll::Pending => {
                    pending = true;
                    Ok(Info::default())
                }
            })
        });
        if pending {
            Poll::Pending
        } else {
            Poll::Ready(o)
        }
    })
    .await;
    Fate { outcome, outs }
}

#[derive(Serialize, Deserialize)]
struct Task {
    case: Case,
    /// Report what was written, not only whether it is the same.
    detail: bool,
}

/// The messages a server wrote, in no particular order.
pub fn transcript(outs: &[OutCtl]) -> Vec<String> {
    let mut all = vec![];
    for o in outs {
        match parse_frames(&o.written()) {
            Ok((messages, rest)) => {
                all.extend(messages.iter().map(|v| v.to_string()));
                all.push(format!("{} more bytes", rest.len()));
            }
            Err(e) => all.push(e),
        }
    }
    all.sort();
    all
}

/// The child process: reads a case, runs it, and prints what became of each server.
pub fn isolated() -> i32 {
    let mut text = String::new();
    if std::io::stdin().read_to_string(&mut text).is_err() {
        return 2;
    }
    let Ok(Task { case: c, detail }) = serde_json::from_str::<Task>(&text) else { return 2 };
    let fates: Vec<Fate> = match c.mode {
        Mode::After => c.servers.iter().map(one).collect(),
        Mode::Turns => {
            turns::interleaved(&c.order, c.servers.iter().map(|h| guarded(h).boxed_local()).collect())
        }
        Mode::Free => std::thread::scope(|s| {
            let hs: Vec<_> = c.servers.iter().map(|h| s.spawn(move || one(h))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        }),
    };
    let report: Vec<Value> = fates
        .iter()
        .map(|f| match &f.outcome {
            Outcome::Pass(i) => {
                let t = transcript(&f.outs);
                json!({
                    "classes": i.classes.len(),
                    "messages": t.len(),
                    "hash": hash64(&t),
                    "detail": detail.then(|| t.iter().map(|s| s.chars().take(300).collect()).collect::<Vec<String>>()),
                })
            }
            Outcome::Fail(f) => json!({"fail": f.msg, "tags": f.tags}),
            Outcome::Broken(m) => json!({ "broken": m }),
        })
        .collect();
    println!("{}", Value::Array(report));
    0
}

/// Runs a case in a process of its own.
fn spawn(c: &Case, detail: bool) -> Vec<Value> {
    let exe = std::env::current_exe().expect("own path");
    let mut child = Command::new(exe)
        .arg("isolated")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("start a process");
    let text = serde_json::to_vec(&Task { case: c.clone(), detail }).unwrap();
    let mut stdin = child.stdin.take().unwrap();
    let _ = stdin.write_all(&text);
    drop(stdin);
    let mut out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let deadline = Instant::now() + Duration::from_secs(50);
    loop {
        if let Some(_status) = child.try_wait().expect("wait for the process") {
            break;
        }
        if Instant::now() > deadline {
            let _ = child.kill();
            let _ = child.wait();
            return vec![json!({"fail": "did not finish", "tags": []})];
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let s = reader.join().unwrap();
    match serde_json::from_str(&s) {
        Ok(Value::Array(v)) => v,
        _ => vec![json!({"fail": "the process died", "tags": []})],
    }
}

fn alone(h: &Hist, detail: bool) -> Vec<Value> {
    spawn(&Case { servers: vec![h.clone()], mode: Mode::After, order: vec![] }, detail)
}

/// How the transcripts differ, if they really do.
fn differs(c: &Case, i: usize) -> Option<String> {
    let text = |r: Option<&Value>| -> Option<Vec<String>> { serde_json::from_value(r?.get("detail")?.clone()).ok() };
    let a = text(alone(&c.servers[i], true).first())?;
    let t = text(spawn(c, true).get(i))?;
    if t == a {
        return None;
    }
    // Is it determined at all?
    for _ in 0..12 {
        if text(alone(&c.servers[i], true).first())? != a || text(spawn(c, true).get(i))? == a {
            return None;
        }
    }
    let only = |x: &[String], y: &[String]| -> Vec<String> { x.iter().filter(|m| !y.contains(m)).take(4).cloned().collect() };
    Some(format!("beside the others it wrote {:?}, alone {:?}", only(&t, &a), only(&a, &t)))
}

fn run(c: &Case) -> Res {
    let report = spawn(c, false);
    let mut nontrivial = 0;
    let mut undetermined = false;
    for (i, r) in report.iter().enumerate() {
        if let Some(b) = r.get("broken") {
            panic!("in an isolated process: {b}");
        }
        if r.get("fail").is_none() {
            nontrivial += (r["classes"].as_u64().unwrap_or(0) >= 4) as u32;
            let ours = alone(&c.servers[i], false);
            if ours.first().map(|o| &o["hash"]) != Some(&r["hash"]) {
                if let Some(how) = differs(c, i) {
                    return Err(Fail::new(
                        &["C26"],
                        format!("server {i} of {} writes something else beside the others ({:?}) than alone: {how}", c.servers.len(), c.mode),
                    ));
                }
                undetermined = true;
            }
            continue;
        }
        let msg = &r["fail"];
        // Does it happen without the others, too?
        let whole = report.len() != c.servers.len();
        for (j, h) in c.servers.iter().enumerate() {
            if !whole && j != i {
                continue;
            }
            if alone(h, false).iter().any(|r| r.get("fail").is_some()) {
                return Err(Fail::new(&[], format!("a server fails by itself: {msg}")));
            }
        }
        return Err(Fail::new(
            &["C26"],
            format!("server {i} of {} behaves differently beside the others ({:?}) than alone: {msg}", c.servers.len(), c.mode),
        ));
    }
    let mut info = Info { nontrivial: nontrivial >= 2, ..Info::default() };
    info.class(undetermined, "output_not_determined");
    info.class(c.mode == Mode::After, "one_after_another");
    info.class(c.mode == Mode::Turns, "taking_turns");
    info.class(c.mode == Mode::Free, "parallel");
    info.class(c.servers.iter().filter(|h| matches!(h, Hist::Client(_))).count() > 1, "several_asking_clients");
    info.class(c.servers.iter().filter(|h| matches!(h, Hist::Machine(_))).count() > 1, "several_lifecycles");
    Ok(info)
}

pub fn arb_hist() -> BoxedStrategy<Hist> {
    let w = machine::Weights { ids: 4, cancel: 4, exit: 1, pre_init: 80, shutdown: 2, ..machine::BASE };
    prop_oneof![
        4 => machine::arb_case(w, false).prop_map(Hist::Machine),
        3 => clientside::arb_case(super::client::BASE, false).prop_map(Hist::Client),
        1 => senders::arb_case(false).prop_map(Hist::Senders),
        1 => slots::arb_case(super::slot::BASE, false).prop_map(Hist::Slots),
        2 => c01::strategy(false).prop_map(Hist::Frames),
    ]
    .boxed()
}

fn strategy(_: bool) -> BoxedStrategy<Case> {
    let servers = prop_oneof![
        3 => prop::collection::vec(arb_hist(), 2..4),
        // Histories in step with each other.
        1 => arb_hist().prop_map(|h| vec![h.clone(), h]),
    ];
    (
        servers,
        proptest::sample::select(&[Mode::After, Mode::Turns, Mode::Turns, Mode::Free][..]),
        prop::collection::vec(any::<u8>(), 0..12),
    )
        .prop_map(|(servers, mode, order)| Case { servers, mode, order })
        .boxed()
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "several servers",
        rule: "two or three histories, each over a server of its own, in one process: taking turns step by \
               step, one after another, or on threads of their own; each is compared with its model and, \
               message for message, with what it does alone in a fresh process; non-trivial: at least two histories which cover four or more of the
               situations their own campaigns count",
        quick: 2_000,
        thorough: 60_000,
        strategy: Box::new(strategy),
        run,
    })]
}
