//! Recording service and loopback, to observe the transport alone.

use std::cell::RefCell;
use std::collections::VecDeque;
use std::convert::Infallible;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use futures::future::BoxFuture;
use futures::{Sink, Stream};
use serde_json::{Map, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response};
use tower_lsp::{Loopback, Server};

use crate::exec::{yield_now, Exec, Sched};
use crate::watch::{look, show};
use crate::io::{InCtl, Input, OutCtl, Output};

pub fn id_json(id: &Id) -> Value {
    match id {
        Id::Number(n) => Value::from(*n),
        Id::String(s) => Value::from(s.as_str()),
        Id::Null => Value::Null,
    }
}

pub fn json_id(v: &Value) -> Id {
    match v {
        Value::Number(n) => Id::Number(n.as_i64().expect("integer id")),
        Value::String(s) => Id::String(s.clone()),
        Value::Null => Id::Null,
        other => panic!("not an id: {other}"),
    }
}

/// The JSON form of a request, built from its accessors.
pub fn request_json(r: &Request) -> Value {
    look(r);
    show(r);
    let mut m = Map::new();
    m.insert("jsonrpc".into(), "2.0".into());
    m.insert("method".into(), r.method().into());
    if let Some(p) = r.params() {
        m.insert("params".into(), p.clone());
    }
    if let Some(i) = r.id() {
        m.insert("id".into(), id_json(i));
    }
    Value::Object(m)
}

pub fn error_json(e: &Error) -> Value {
    let mut m = Map::new();
    m.insert("code".into(), e.code.code().into());
    m.insert("message".into(), e.message.as_ref().into());
    if let Some(d) = &e.data {
        m.insert("data".into(), d.clone());
    }
    Value::Object(m)
}

/// The JSON form of a response, built from its accessors.
pub fn response_json(r: &Response) -> Value {
    look(r);
    r.error().into_iter().for_each(show);
    show(r.id());
    let mut m = Map::new();
    m.insert("jsonrpc".into(), "2.0".into());
    m.insert("id".into(), id_json(r.id()));
    if let Some(v) = r.result() {
        m.insert("result".into(), v.clone());
    }
    if let Some(e) = r.error() {
        m.insert("error".into(), error_json(e));
    }
    Value::Object(m)
}

pub fn make_error(v: &Value) -> Error {
    Error {
        code: ErrorCode::from(v["code"].as_i64().unwrap()),
        message: v["message"].as_str().unwrap().to_string().into(),
        data: v.get("data").cloned(),
    }
}

/// Builds a `Response` from its JSON form.
pub fn make_response(v: &Value) -> Response {
    let id = json_id(&v["id"]);
    match v.get("result") {
        Some(r) => Response::from_ok(id, r.clone()),
        None => Response::from_error(id, make_error(&v["error"])),
    }
}

/// Builds a `Request` from its JSON form.
pub fn make_request(v: &Value) -> Request {
    let mut b = Request::build(v["method"].as_str().unwrap().to_string());
    if let Some(p) = v.get("params") {
        b = b.params(p.clone());
    }
    if let Some(i) = v.get("id") {
        b = b.id(json_id(i));
    }
    let r = b.finish();
    look(&r);
    show(&r);
    r
}

/// What the service should do with the n-th message it receives.
#[derive(Clone, Default)]
pub struct Plan {
    pub reply: Option<Value>,
    /// Wake-and-pend this many times first.
    pub yields: u8,
    /// Wait until this gate is opened.
    pub gate: Option<u32>,
    /// Fail with a service error instead.
    pub fail: bool,
}

#[derive(Default)]
pub struct RecState {
    /// Messages in the order in which they were handed over.
    pub log: Vec<Value>,
    pub requests: usize,
    pub plans: VecDeque<Plan>,
    pub default_plan: Plan,
    pub ready_pends: VecDeque<u8>,
    pub running: Vec<usize>,
    pub max_running: usize,
    pub started: Vec<usize>,
    pub finished: Vec<usize>,
    open: Vec<u32>,
    gate_wakers: Vec<Waker>,
}

#[derive(Clone, Default)]
pub struct Rec(pub Arc<Mutex<RecState>>);

impl Rec {
    pub fn log(&self) -> Vec<Value> {
        self.0.lock().unwrap().log.clone()
    }
    pub fn open(&self, g: u32) {
        let mut s = self.0.lock().unwrap();
        s.open.push(g);
        let ws = std::mem::take(&mut s.gate_wakers);
        drop(s);
        ws.into_iter().for_each(Waker::wake);
    }
}

struct Running(Rec, usize, bool);
impl Drop for Running {
    fn drop(&mut self) {
        let mut s = self.0 .0.lock().unwrap();
        s.running.retain(|i| *i != self.1);
        if self.2 {
            s.finished.push(self.1);
        }
    }
}

pub struct RecService(pub Rec);

impl Service<Request> for RecService {
    type Response = Option<Response>;
    type Error = String;
    type Future = BoxFuture<'static, Result<Option<Response>, String>>;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        let mut s = self.0 .0.lock().unwrap();
        match s.ready_pends.front_mut() {
            Some(n) if *n > 0 => {
                *n -= 1;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            _ => {
                s.ready_pends.pop_front();
                Poll::Ready(Ok(()))
            }
        }
    }

    fn call(&mut self, req: Request) -> Self::Future {
        let rec = self.0.clone();
        let mut s = rec.0.lock().unwrap();
        s.log.push(request_json(&req));
        let idx = s.requests;
        s.requests += 1;
        let plan = s.plans.pop_front().unwrap_or_else(|| s.default_plan.clone());
        drop(s);
        Box::pin(async move {
            {
                let mut s = rec.0.lock().unwrap();
                s.started.push(idx);
                s.running.push(idx);
                s.max_running = s.max_running.max(s.running.len());
            }
            let mut guard = Running(rec.clone(), idx, false);
            for _ in 0..plan.yields {
                yield_now().await;
            }
            if let Some(g) = plan.gate {
                futures::future::poll_fn(|cx| {
                    let mut s = rec.0.lock().unwrap();
                    if s.open.contains(&g) {
                        Poll::Ready(())
                    } else {
                        s.gate_wakers.push(cx.waker().clone());
                        Poll::Pending
                    }
                })
                .await;
            }
            guard.2 = true;
            drop(guard);
            if plan.fail {
                return Err("service failure".to_string());
            }
            Ok(plan.reply.as_ref().map(make_response))
        })
    }
}

#[derive(Default)]
struct LoopState {
    out: VecDeque<Value>,
    closed: bool,
    waker: Option<Waker>,
}

/// Driver's end of the mock loopback: what to send to the client.
#[derive(Clone, Default)]
pub struct LoopCtl(Arc<Mutex<LoopState>>);

impl LoopCtl {
    pub fn send(&self, v: Value) {
        let mut s = self.0.lock().unwrap();
        s.out.push_back(v);
        if let Some(w) = s.waker.take() {
            w.wake();
        }
    }
    pub fn close(&self) {
        let mut s = self.0.lock().unwrap();
        s.closed = true;
        if let Some(w) = s.waker.take() {
            w.wake();
        }
    }
}

pub struct RecLoopback(pub Rec, pub LoopCtl);
pub struct LoopStream(LoopCtl);
pub struct LoopSink(Rec, RefCell<u8>);

impl Loopback for RecLoopback {
    type RequestStream = LoopStream;
    type ResponseSink = LoopSink;
    fn split(self) -> (LoopStream, LoopSink) {
        (LoopStream(self.1), LoopSink(self.0, RefCell::new(0)))
    }
}

impl Stream for LoopStream {
    type Item = Request;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Request>> {
        let mut s = self.0 .0.lock().unwrap();
        match s.out.pop_front() {
            Some(v) => Poll::Ready(Some(make_request(&v))),
            None if s.closed => Poll::Ready(None),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Sink<Response> for LoopSink {
    type Error = Infallible;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        // Every other call is not ready at first.
        let mut n = self.1.borrow_mut();
        *n = n.wrapping_add(1);
        if *n % 3 == 1 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, r: Response) -> Result<(), Infallible> {
        self.0 .0.lock().unwrap().log.push(response_json(&r));
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }
}

/// A server over the recording service, ready to be driven.
pub struct Bench {
    pub exec: Exec,
    pub task: usize,
    pub input: InCtl,
    pub out: OutCtl,
    pub rec: Rec,
    pub client: LoopCtl,
}

impl Bench {
    pub fn new(conc: Option<usize>, out: (OutCtl, Output), sched: Sched, rec: Rec) -> Bench {
        let (input, stdin) = InCtl::new();
        let (out, stdout) = out;
        let client = LoopCtl::default();
        let mut exec = Exec::new(sched);
        let server = make_server(stdin, stdout, RecLoopback(rec.clone(), client.clone()), conc);
        let task = exec.spawn(server.serve(RecService(rec.clone())));
        Bench { exec, task, input, out, rec, client }
    }
    pub fn done(&self) -> bool {
        self.exec.is_done(self.task)
    }
}

pub fn make_server<L>(i: Input, o: Output, l: L, conc: Option<usize>) -> Server<Input, Output, L>
where
    L: Loopback,
    <L::ResponseSink as Sink<Response>>::Error: std::error::Error,
{
    let s = Server::new(i, o, l);
    match conc {
        Some(n) => s.concurrency_level(n),
        None => s,
    }
}
