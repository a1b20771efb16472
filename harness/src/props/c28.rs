//! C28: a client handle outlives its server.

use std::cell::RefCell;
use std::rc::Rc;
use std::sync::mpsc;
use std::sync::Arc;
use std::time::Duration;

use futures::executor::block_on;
use futures::{SinkExt, StreamExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use tower::Service;
use tower_lsp::lsp_types::*;
use tower_lsp::Client;

use crate::campaign::{Campaign, C};
use crate::clientside::{arb_call, Back, Call, RAW, TABLE};
use crate::ends::arb_kind;
use crate::ensure;
use crate::exec::{Exec, Sched};
use crate::fail::{Fail, Info, Res};
use crate::gen::{ok_value, request_value};
use crate::io::{ErrKind, InCtl, InItem, OutCtl};
use crate::mock::{make_request, make_response, make_server, request_json, response_json};
use crate::rig::{self, Ev, Ret, RigCtl, Script, Step};
use crate::watch::look;
use crate::wire::frame_value;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Ending {
    /// The server's input ends.
    Eof,
    /// The server's input fails.
    InErr(ErrKind),
    /// The server's output fails.
    OutErr(ErrKind),
    /// The server is told to exit, and its input ends.
    Exit,
    /// The server is dropped.
    Dropped,
    /// The server is dropped before it ever ran.
    Unused,
    /// Nobody ever uses the socket: it is dropped whole, or after being split, in one order or the other.
    Socket(u8),
    /// Somebody reads these many messages from the socket, then drops the stream half only.
    Half(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// 0: never initialized; 1: initialized; 2: shut down.
    state: u8,
    ending: Ending,
    /// The output takes nothing while the calls before the end are made.
    hold: bool,
    before: Vec<Call>,
    after: Vec<Vec<Call>>,
    /// Run by a handler after the socket is gone.
    script: Script,
    sched: Vec<u8>,
}

type Results = Rc<RefCell<Vec<Option<Back>>>>;

fn call(exec: &mut Exec, client: &Client, c: &Call, results: &Results) -> usize {
    let n = results.borrow().len();
    results.borrow_mut().push(None);
    let r2 = results.clone();
    let e = &TABLE[c.kind as usize % TABLE.len()];
    let fut = (e.call)(client.clone(), c.args.clone());
    exec.spawn(async move {
        let r = fut.await;
        r2.borrow_mut()[n] = Some(r);
    });
    n
}

/// The stream of a progress begun before the end, reported to after it.
struct Stream {
    done: Rc<RefCell<u8>>,
    go: futures::channel::oneshot::Sender<()>,
}

fn progress(exec: &mut Exec, client: &Client) -> Stream {
    let (go, gone) = futures::channel::oneshot::channel::<()>();
    let done: Rc<RefCell<u8>> = Rc::default();
    let (d2, client) = (done.clone(), client.clone());
    exec.spawn(async move {
        let p = client.progress(ProgressToken::Number(7), "t").with_percentage(1).begin().await;
        *d2.borrow_mut() = 1;
        let _ = gone.await;
        p.report(2).await;
        p.report_with_message("more", 3).await;
        look(&p);
        p.finish_with_message("end").await;
        *d2.borrow_mut() = 2;
    });
    Stream { done, go }
}

fn life(state: u8) -> Vec<serde_json::Value> {
    let init = rig::init_params(&rig::simple(Ret::Ok(json!("s"))), 1 << 40);
    let mut v = vec![];
    if state > 0 {
        v.push(request_value("initialize", Some(json!("init")), Some(init)));
    }
    if state > 1 {
        v.push(request_value("shutdown", Some(json!("shut")), None));
    }
    v
}

fn run(case: &Case) -> Res {
    let ctl = RigCtl::default();
    let (mut service, socket, client) = rig::service(&ctl, &[]);
    let mut exec = Exec::new(Sched::new(&case.sched));
    let mut info = Info::default();
    let results: Results = Rc::default();
    let mut late_sink = None;
    let mut live = None;
    let stream;
    let ends = matches!(case.ending, Ending::Socket(_) | Ending::Half(_));
    if ends {
        for m in life(case.state) {
            let fut = service.call(make_request(&m));
            exec.spawn(async move {
                let _ = fut.await;
            });
            exec.run()?;
        }
        for c in &case.before {
            call(&mut exec, &client, c, &results);
        }
        stream = progress(&mut exec, &client);
        exec.run()?;
        match case.ending {
            Ending::Socket(how) => match how % 4 {
                0 => drop(socket),
                1 => drop(socket.split()),
                2 => {
                    let (stream, sink) = socket.split();
                    drop(sink);
                    drop(stream);
                }
                _ => {
                    let (sink, stream) = StreamExt::split(socket);
                    drop(stream);
                    drop(sink);
                }
            },
            Ending::Half(read) => {
                let (mut requests, sink) = socket.split();
                let task = exec.spawn(async move {
                    for _ in 0..read {
                        let _ = requests.next().await;
                    }
                });
                exec.run()?;
                info.class(exec.is_done(task) && read > 0, "messages read before the end");
                exec.kill(task);
                late_sink = Some(sink);
            }
            _ => unreachable!(),
        }
        live = Some(service);
        exec.run()?;
    } else {
        let (input, stdin) = InCtl::new();
        let (out, stdout) = OutCtl::plain();
        let task = exec.spawn(make_server(stdin, stdout, socket, None).serve(service));
        if case.ending != Ending::Unused {
            for m in life(case.state) {
                input.data(frame_value(&m));
                exec.run()?;
            }
            if case.hold {
                out.hold();
            }
        } else {
            // Drops it before it runs.
            exec.kill(task);
        }
        for c in &case.before {
            call(&mut exec, &client, c, &results);
        }
        stream = progress(&mut exec, &client);
        exec.run()?;
        match case.ending {
            Ending::Eof => input.eof(),
            Ending::InErr(k) => {
                input.push(InItem::Err(k));
                input.eof();
            }
            Ending::OutErr(k) => {
                out.fail_after(out.written_len(), k);
                input.data(frame_value(&request_value("x/none", Some(json!("none")), None)));
            }
            Ending::Exit => {
                input.data(frame_value(&request_value("exit", None, None)));
                input.eof();
            }
            _ => exec.kill(task),
        }
        exec.run()?;
        out.release();
        exec.run()?;
        if matches!(case.ending, Ending::OutErr(_)) {
            input.eof();
            exec.run()?;
        }
        if !exec.is_done(task) {
            // Whether a server returns is for other properties to say.
            info.class(true, "server goes on");
            return Ok(info);
        }
        info.class(case.hold, "output stuck before the end");
    }
    let kept = results.borrow().len();
    for (i, c) in case.before.iter().enumerate() {
        let e = &TABLE[c.kind as usize % TABLE.len()];
        let done = results.borrow()[i].is_some();
        ensure!(done || e.request, ["C28"], "{} was called before {:?} and has not returned after it", e.name, case.ending);
        info.class(!done, "request open at the end");
    }
    info.class(kept > 1, "calls before the end");
    if let Some(mut sink) = late_sink {
        let ok: Rc<RefCell<bool>> = Rc::default();
        let o2 = ok.clone();
        exec.spawn(async move {
            let _ = sink.send(make_response(&ok_value(json!(1_000_000), json!("late")))).await;
            *o2.borrow_mut() = true;
            // Not closed.
            std::future::pending::<()>().await;
        });
        exec.run()?;
        ensure!(*ok.borrow(), ["C28"], "the response half does not take a response after the stream half was dropped");
    }
    let began = *stream.done.borrow() > 0;
    ensure!(began, ["C28"], "the beginning of a progress stream does not return after {:?}", case.ending);
    let _ = stream.go.send(());
    exec.run()?;
    ensure!(*stream.done.borrow() == 2, ["C28"], "a progress stream does not return after {:?}", case.ending);
    let mut served = false;
    for group in &case.after {
        let first = results.borrow().len();
        for c in group {
            call(&mut exec, &client, c, &results);
        }
        look(&client);
        exec.run()?;
        for (i, c) in group.iter().enumerate() {
            let e = &TABLE[c.kind as usize % TABLE.len()];
            let got = results.borrow()[first + i].clone();
            match got {
                None => {
                    return Err(Fail::new(&["C28"], format!("{} does not return after {:?}", e.name, case.ending)));
                }
                Some(r) => ensure!(
                    r.is_err() || !e.request,
                    ["C28"],
                    "{} returned {r:?} after {:?}, though nobody can have answered",
                    e.name,
                    case.ending
                ),
            }
            info.class(e.request && case.state > 0, "request after the end");
            info.class(!e.request && (case.state > 0 || !e.gated), "notification after the end");
            info.class(c.kind as usize % TABLE.len() == RAW, "service call after the end");
        }
        // The service itself does not need the socket.
        if let (Some(service), 1, false) = (&mut live, case.state, served) {
            served = true;
            let m = request_value("x/req", Some(json!("r")), Some(case.script.params(3)));
            let fut = service.call(make_request(&m));
            let got = Rc::new(RefCell::new(None));
            let g2 = got.clone();
            exec.spawn(async move {
                let r = fut.await;
                *g2.borrow_mut() = Some(r.map(|r| r.map(|r| response_json(&r))).map_err(|_| ()));
            });
            exec.run()?;
            let got = got.borrow().clone();
            let log = ctl.log(3);
            let Some(Ok(Some(v))) = got else {
                return Err(Fail::new(
                    &["C28"],
                    format!("a handler using the client without a socket: the request is answered {got:?}; it ran {log:?}"),
                ));
            };
            if let Some((key, want)) = rig::expected(&case.script.ret, true) {
                let have = v.get(key).cloned().unwrap_or_default();
                let same = have == want || key == "error" && have["code"] == want["code"];
                ensure!(same, ["C28"], "a handler using the client without a socket: answered {v}, expected {key} {want}");
            }
            for ev in &log {
                if let Ev::Answer(_, r) = ev {
                    ensure!(r.is_err(), ["C28"], "a request to nobody was answered {r:?}");
                }
            }
            info.class(case.script.steps.iter().any(|s| !matches!(s, Step::Yield)), "handler using the client without a socket");
        }
    }
    let other = client.clone();
    drop(client);
    look(&other);
    drop(live);
    // Whoever still holds a handle may use it.
    let c = Call { kind: 0, args: json!([]), reply: crate::clientside::Reply::Ok(json!(null)) };
    let n = call(&mut exec, &other, &c, &results);
    drop(other);
    exec.run()?;
    let got = results.borrow()[n].clone();
    ensure!(matches!(got, Some(Err(_))), ["C28"], "the last handle's request returned {got:?} after {:?}", case.ending);
    info.class(case.state == 1, "initialized");
    info.class(case.state == 2, "shut down");
    info.class(ends, "socket dropped");
    info.class(matches!(case.ending, Ending::Dropped | Ending::Unused), "server dropped");
    info.class(matches!(case.ending, Ending::Eof | Ending::Exit), "input ended");
    info.class(matches!(case.ending, Ending::InErr(_) | Ending::OutErr(_)), "input or output failed");
    info.nontrivial = case.state > 0 && info.classes.contains(&"request after the end") && info.classes.contains(&"notification after the end");
    Ok(info)
}

fn strategy(t: bool) -> BoxedStrategy<Case> {
    let mix = super::client::BASE;
    let ending = prop_oneof![
        2 => Just(Ending::Eof),
        1 => arb_kind().prop_map(Ending::InErr),
        2 => arb_kind().prop_map(Ending::OutErr),
        1 => Just(Ending::Exit),
        2 => Just(Ending::Dropped),
        1 => Just(Ending::Unused),
        2 => (0..4u8).prop_map(Ending::Socket),
        2 => (0..4u8).prop_map(Ending::Half),
    ];
    let step = prop_oneof![Just(Step::Yield), Just(Step::Say), Just(Step::Tele), Just(Step::Ask)];
    let ret = prop_oneof![
        3 => crate::gen::arb_small().prop_map(Ret::Ok),
        1 => crate::gen::arb_error().prop_map(Ret::Err),
    ];
    let n = if t { 8 } else { 5 };
    (
        prop_oneof![1 => Just(0u8), 5 => Just(1u8), 2 => Just(2u8)],
        ending,
        any::<bool>(),
        prop::collection::vec(arb_call(mix), 0..n),
        prop::collection::vec(prop::collection::vec(arb_call(mix), 1..4), 1..n),
        (prop::collection::vec(step, 0..5), ret).prop_map(|(steps, ret)| Script { steps, ret }),
        prop::collection::vec(any::<u8>(), 0..12),
    )
        .prop_map(|(state, ending, hold, before, after, script, sched)| Case {
            state: if ending == Ending::Unused { 0 } else { state },
            ending,
            hold,
            before,
            after,
            script,
            sched,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    threads: u8,
    each: u8,
    /// Messages read before the socket is dropped.
    read: u8,
    split: bool,
    spin: u16,
}

fn arb_threads(_: bool) -> BoxedStrategy<Threads> {
    (1u8..5, 1u8..40, 0u8..80, any::<bool>(), prop_oneof![1 => Just(0u16), 3 => 0u16..20_000])
        .prop_map(|(threads, each, read, split, spin)| Threads { threads, each, read, split, spin })
        .boxed()
}

fn run_threads(c: &Threads) -> Res {
    let mut info = Info::default();
    let ctl = RigCtl::default();
    let (mut service, socket, client) = rig::service(&ctl, &[]);
    for m in life(1) {
        let got = block_on(service.call(make_request(&m)));
        ensure!(matches!(got, Ok(Some(_))), ["C07", "C28"], "initialize failed");
    }
    let (done_tx, done) = mpsc::channel();
    let sent = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let gone_tx = Arc::new((std::sync::Mutex::new(false), std::sync::Condvar::new()));
    for t in 0..c.threads {
        let (client, each, done, sent, gone) =
            (client.clone(), c.each, done_tx.clone(), sent.clone(), gone_tx.clone());
        std::thread::spawn(move || {
            block_on(async {
                for i in 0..each {
                    client.log_message(MessageType::INFO, format!("{t}:{i}")).await;
                    sent.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
            });
            let _ = done.send(None);
            let mut g = gone.0.lock().unwrap();
            while !*g {
                g = gone.1.wait(g).unwrap();
            }
            drop(g);
            let r = block_on(client.send_request::<rig::AskReq>(json!([t, 0])));
            let _ = done.send(Some(r.is_err()));
        });
    }
    let mut left = c.read as usize;
    let all = c.threads as usize * c.each as usize;
    left = left.min(all);
    let read_some = |stream: &mut (dyn futures::Stream<Item = tower_lsp::jsonrpc::Request> + Unpin)| {
        for _ in 0..left {
            if let Some(r) = block_on(stream.next()) {
                request_json(&r);
            }
        }
        (0..c.spin).for_each(|_| std::hint::spin_loop());
    };
    if c.split {
        let (mut stream, sink) = socket.split();
        read_some(&mut stream);
        drop(stream);
        drop(sink);
    } else {
        let mut socket = socket;
        read_some(&mut socket);
        drop(socket);
    }
    let before = sent.load(std::sync::atomic::Ordering::SeqCst);
    for _ in 0..c.threads {
        let got = done.recv_timeout(Duration::from_secs(60));
        ensure!(got.is_ok(), ["C28", "C21"], "a sender did not return though the socket was dropped");
    }
    *gone_tx.0.lock().unwrap() = true;
    gone_tx.1.notify_all();
    for _ in 0..c.threads {
        match done.recv_timeout(Duration::from_secs(60)) {
            Ok(Some(true)) => {}
            Ok(_) => return Err(Fail::new(&["C28"], "a request to nobody was answered")),
            Err(_) => return Err(Fail::new(&["C28"], "a request did not return though the socket had been dropped")),
        }
    }
    info.class(before < all, "dropped among the messages");
    info.class(c.split, "split");
    info.nontrivial = before < all && before > 0;
    Ok(info)
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![
        Box::new(C {
            name: "handles",
            rule: "calls of every method of the client handle before and after the end of its server: end or failure \
                   of the input, failure of the output, exit, the server dropped, or the socket dropped whole, \
                   half or unused (then handlers use the client, too); every call made after the end returns, \
                   requests with an error, and notifications made before it have returned; non-trivial: \
                   initialized, with requests and notifications after the end",
            quick: 12_000,
            thorough: 300_000,
            strategy: Box::new(strategy),
            run,
        }),
        Box::new(C {
            name: "dropped among threads",
            rule: "real threads sending notifications while the socket is read and dropped; every sender returns, and \
                   requests made afterwards fail; non-trivial: some but not all messages had been sent",
            quick: 2_000,
            thorough: 50_000,
            strategy: Box::new(arb_threads),
            run: run_threads,
        }),
    ]
}
