//! C09: the stream of client messages ends at exit, whatever is queued in it.

use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

use futures::future::FutureExt;
use futures::task::{waker, ArcWake};
use futures::{Stream, StreamExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::Request;
use tower_lsp::lsp_types::MessageType;

use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::{Exec, Sched};
use crate::fail::{Info, Res};
use crate::gen::*;
use crate::mock::{make_request, request_json};
use crate::rig::{self, AskReq, Ret, RigCtl, Script, Step};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// A task that sends this many messages.
    Tell(u8),
    /// A task that sends a request.
    Ask,
    /// A request whose handler waits at a gate, then says something.
    Handler,
    /// Polls the stream up to so many times.
    Poll(u8),
    Exit,
    /// Opens the gates.
    Open,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    unsplit: bool,
    shutdown: bool,
    ops: Vec<Op>,
    sched: Vec<u8>,
}

fn strategy(thorough: bool) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        4 => (1u8..5).prop_map(Op::Tell),
        2 => Just(Op::Ask),
        1 => Just(Op::Handler),
        4 => (1u8..6).prop_map(Op::Poll),
        1 => Just(Op::Exit),
        1 => Just(Op::Open),
    ];
    let n = if thorough { 24 } else { 12 };
    (
        any::<bool>(),
        prop::bool::weighted(0.2),
        prop::collection::vec(op, 1..n),
        prop::collection::vec(any::<u8>(), 0..8),
    )
        .prop_map(|(unsplit, shutdown, ops, sched)| Case { unsplit, shutdown, ops, sched })
        .boxed()
}

#[derive(Default)]
struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}

fn run(case: &Case) -> Res {
    let mut info = Info::default();
    let ctl = RigCtl::default();
    let (mut service, socket, client) = rig::service(&ctl, &[]);
    let mut exec = Exec::new(Sched::new(&case.sched));
    let mut stream: Pin<Box<dyn Stream<Item = Request>>> = if case.unsplit {
        Box::pin(socket)
    } else {
        Box::pin(socket.split().0)
    };
    let mut life = vec![request_value(
        "initialize",
        Some(json!("i")),
        Some(rig::init_params(&rig::simple(Ret::Ok(json!("s"))), 1 << 40)),
    )];
    if case.shutdown {
        ctl.0.lock().unwrap().shutdown = Some((1 << 41, rig::simple(Ret::Ok(Value::Null))));
        life.push(request_value("shutdown", Some(json!("d")), None));
    }
    for m in life {
        let r = service.call(make_request(&m)).now_or_never();
        ensure!(matches!(r, Some(Ok(Some(_)))), ["C07", "C09"], "no answer to {m}");
    }
    let flag = Arc::new(Flag::default());
    let mut waiting = false;
    let mut exited = false;
    let mut got: Vec<Value> = vec![];
    // (task, messages it sends)
    let mut tasks: Vec<(usize, usize)> = vec![];
    let mut handlers: Vec<(usize, Rc<RefCell<Option<Value>>>)> = vec![];
    let mut calls = 0;
    let mut ops = case.ops.clone();
    // In the end: everything is read, or the exit observed.
    ops.push(Op::Open);
    ops.push(Op::Poll(255));
    for op in &ops {
        match op {
            Op::Tell(n) => {
                let (c, k, n) = (client.clone(), tasks.len(), *n as usize);
                let t = exec.spawn(async move {
                    for i in 0..n {
                        c.log_message(MessageType::LOG, format!("{k}:{i}")).await;
                    }
                });
                tasks.push((t, if exited { 0 } else { n }));
                info.class(exited, "sender after exit");
            }
            Op::Ask => {
                if exited {
                    continue;
                }
                let c = client.clone();
                // Never answered.
                exec.spawn(async move {
                    let _ = c.send_request::<AskReq>(json!("ask")).await;
                });
            }
            Op::Handler => {
                if exited || case.shutdown {
                    continue;
                }
                calls += 1;
                let s = Script { steps: vec![Step::Gate, Step::Say], ret: Ret::Ok(json!(calls)) };
                let fut = service.call(make_request(&request_value(
                    "workspace/executeCommand",
                    Some(json!(calls)),
                    Some(rig::command_params(&s, calls)),
                )));
                let out: Rc<RefCell<Option<Value>>> = Rc::default();
                let o2 = out.clone();
                exec.spawn(async move {
                    let r = fut.await;
                    *o2.borrow_mut() = Some(match r {
                        Ok(Some(r)) => crate::mock::response_json(&r),
                        other => json!(format!("{other:?}")),
                    });
                });
                handlers.push((calls, out));
            }
            Op::Poll(n) => {
                for k in 0..*n as usize {
                    let w = waker(flag.clone());
                    flag.0.store(false, Ordering::SeqCst);
                    match stream.poll_next_unpin(&mut Context::from_waker(&w)) {
                        Poll::Ready(Some(r)) => {
                            let v = request_json(&r);
                            ensure!(!exited, ["C09", "C14"], "{v} came out after exit");
                            got.push(v);
                            waiting = false;
                        }
                        Poll::Ready(None) => {
                            ensure!(exited, ["C09", "C14", "C21"], "the client stream ended without exit");
                            info.class(k == 0 && *n < 255, "end observed early");
                            break;
                        }
                        Poll::Pending => {
                            ensure!(!exited, ["C09"], "the client stream does not end after exit");
                            waiting = true;
                            break;
                        }
                    }
                    exec.run()?;
                }
            }
            Op::Exit => {
                if exited {
                    continue;
                }
                let fut = service.call(make_request(&request_value("exit", None, None)));
                exec.spawn(async move {
                    let _ = fut.await;
                });
                exec.run()?;
                exited = true;
                let told: usize = tasks.iter().map(|t| t.1).sum();
                let said = got.iter().filter(|v| v["method"] == "window/logMessage").count();
                info.class(told > said, "messages queued at exit");
                if waiting {
                    ensure!(
                        flag.0.load(Ordering::SeqCst),
                        ["C09"],
                        "a task waiting for client messages is not woken by exit"
                    );
                    info.class(true, "stream waited for at exit");
                }
                for (n, out) in &handlers {
                    let done = ctl.log(*n).contains(&rig::Ev::End);
                    let got = out.borrow().clone();
                    let ok = match &got {
                        Some(v) if done => v["result"] == json!(n),
                        // It may have been at its last message when exit came.
                        Some(v) => v["error"]["code"] == -32800,
                        None => false,
                    };
                    ensure!(ok, ["C09"], "request {n} got {got:?} at exit");
                }
            }
            Op::Open => ctl.open_all(),
        }
        exec.run()?;
        if waiting && flag.0.swap(false, Ordering::SeqCst) {
            waiting = false;
        }
    }
    if exited {
        for (i, (t, _)) in tasks.iter().enumerate() {
            ensure!(exec.is_done(*t), ["C14", "C09"], "sender {i} still waits though the stream has ended");
        }
    } else {
        // Everything was sent, in order.
        for (k, (t, n)) in tasks.iter().enumerate() {
            let mine: Vec<String> = got
                .iter()
                .filter_map(|v| v["params"]["message"].as_str())
                .filter(|s| s.starts_with(&format!("{k}:")))
                .map(String::from)
                .collect();
            let want: Vec<String> = (0..*n).map(|i| format!("{k}:{i}")).collect();
            // Handlers say "call:1".
            let clash = handlers.iter().any(|(c, _)| c == &k);
            ensure!(clash || mine == want, ["C21"], "sender {k} sent {want:?}, got {mine:?}");
            ensure!(exec.is_done(*t), ["C21"], "sender {k} did not finish");
        }
    }
    info.class(exited, "exit");
    info.class(exited && !handlers.is_empty(), "requests in flight");
    info.nontrivial = info.classes.contains(&"messages queued at exit");
    Ok(info)
}

pub fn stream() -> Box<dyn Campaign> {
    Box::new(C {
        name: "stream",
        rule: "senders, handlers and exit around a client stream that is polled only now and then; \
               non-trivial: messages are queued when exit is received",
        quick: 12_000,
        thorough: 200_000,
        strategy: Box::new(strategy),
        run,
    })
}

