//! One interface to a server, driven through its futures or over byte streams.

use std::cell::RefCell;
use std::rc::Rc;
use std::task::{Context, Poll};

use futures::future::BoxFuture;
use futures::{Sink, SinkExt, Stream, StreamExt};
use serde_json::Value;
use tower::Service;
use tower_lsp::jsonrpc::{Request, Response};
use tower_lsp::{ClientSocket, ExitedError, LanguageServer, LspService};

use crate::exec::{Exec, Sched};
use crate::fail::Fail;
use crate::io::{Act, InCtl, OutCtl};
use crate::mock::{make_request, make_response, make_server, request_json, response_json};
use crate::wire::{frame_value, parse_frames};

/// Answers a message of the server the moment it comes out.
pub type Eager = Box<dyn FnMut(&Value) -> Option<Value>>;

type Fut = BoxFuture<'static, Result<Option<Response>, ExitedError>>;

enum Inner {
    Futures {
        call: Box<dyn FnMut(Request) -> Result<Fut, String>>,
        sink: futures::channel::mpsc::UnboundedSender<Response>,
        outputs: Rc<RefCell<Vec<Value>>>,
        /// Outcome of each call: None while pending.
        outcomes: Rc<RefCell<Vec<Option<Result<Option<Value>, ()>>>>>,
        drain: usize,
        eager: Rc<RefCell<Option<Eager>>>,
    },
    Wire { input: InCtl, out: OutCtl, task: usize, seen: usize },
}

pub struct Front {
    pub exec: Exec,
    inner: Inner,
}

impl Front {
    pub fn new<S: LanguageServer>(
        service: LspService<S>,
        socket: ClientSocket,
        wire: bool,
        conc: Option<usize>,
        sched: Sched,
    ) -> Front {
        if wire {
            Self::wire(service, socket, conc, sched, &[])
        } else {
            Self::futures(service, socket, sched)
        }
    }

    pub fn wire<S: LanguageServer>(
        service: LspService<S>,
        socket: ClientSocket,
        conc: Option<usize>,
        sched: Sched,
        acts: &[Act],
    ) -> Front {
        let mut exec = Exec::new(sched);
        let (input, stdin) = InCtl::new();
        let (out, stdout) = OutCtl::new(acts, true);
        let task = exec.spawn(make_server(stdin, stdout, socket, conc).serve(service));
        Front { exec, inner: Inner::Wire { input, out, task, seen: 0 } }
    }

    pub fn futures<S: LanguageServer>(service: LspService<S>, socket: ClientSocket, sched: Sched) -> Front {
        let (stream, sink) = socket.split();
        Self::parts(service, stream, sink, sched)
    }

    /// As `futures`, but using the socket as one stream and sink.
    pub fn unsplit<S: LanguageServer>(service: LspService<S>, socket: ClientSocket, sched: Sched) -> Front {
        let (sink, stream) = StreamExt::split(socket);
        Self::parts(service, stream, sink, sched)
    }

    pub fn parts<S: LanguageServer>(
        mut service: LspService<S>,
        mut stream: impl Stream<Item = Request> + Unpin + 'static,
        mut responses: impl Sink<Response> + Unpin + 'static,
        sched: Sched,
    ) -> Front {
        let mut exec = Exec::new(sched);
        let outputs: Rc<RefCell<Vec<Value>>> = Rc::default();
        let o2 = outputs.clone();
        let (sink, mut rx) = futures::channel::mpsc::unbounded::<Response>();
        let eager: Rc<RefCell<Option<Eager>>> = Rc::default();
        let (s2, e2) = (sink.clone(), eager.clone());
        let drain = exec.spawn(async move {
            while let Some(r) = stream.next().await {
                let v = request_json(&r);
                if let Some(answer) = e2.borrow_mut().as_mut().and_then(|f| f(&v)) {
                    let _ = s2.unbounded_send(make_response(&answer));
                }
                o2.borrow_mut().push(v);
            }
        });
        exec.spawn(async move {
            while let Some(r) = rx.next().await {
                if responses.send(r).await.is_err() {
                    break;
                }
            }
        });
        let call = Box::new(move |req: Request| {
            let waker = futures::task::noop_waker();
            match service.poll_ready(&mut Context::from_waker(&waker)) {
                Poll::Ready(Ok(())) | Poll::Ready(Err(_)) => Ok(service.call(req)),
                Poll::Pending => Err("the service is not ready".to_string()),
            }
        });
        Front { exec, inner: Inner::Futures { call, sink, outputs, outcomes: Rc::default(), drain, eager } }
    }

    /// Hands over a message (request, notification or response).
    pub fn send(&mut self, v: &Value) -> Result<(), Fail> {
        match &mut self.inner {
            Inner::Wire { input, .. } => input.data(frame_value(v)),
            Inner::Futures { call, sink, outputs, outcomes, .. } => {
                if v.get("method").is_some() {
                    let fut = call(make_request(v)).map_err(Fail::all)?;
                    let n = outcomes.borrow().len();
                    outcomes.borrow_mut().push(None);
                    let (o, oc) = (outputs.clone(), outcomes.clone());
                    self.exec.spawn(async move {
                        let r = fut.await.map(|r| r.map(|r| response_json(&r))).map_err(|_| ());
                        if let Ok(Some(v)) = &r {
                            o.borrow_mut().push(v.clone());
                        }
                        oc.borrow_mut()[n] = Some(r);
                    });
                } else {
                    let _ = sink.unbounded_send(make_response(v));
                }
            }
        }
        Ok(())
    }

    /// Sets what answers messages at once; false if this is not possible here.
    pub fn set_eager(&mut self, f: Eager) -> bool {
        match &self.inner {
            Inner::Futures { eager, .. } => {
                *eager.borrow_mut() = Some(f);
                true
            }
            Inner::Wire { .. } => false,
        }
    }

    /// Runs until everything waits, and returns what came out since.
    pub fn run(&mut self) -> Result<Vec<Value>, Fail> {
        self.exec.run()?;
        self.take()
    }

    pub fn take(&mut self) -> Result<Vec<Value>, Fail> {
        match &mut self.inner {
            Inner::Futures { outputs, .. } => Ok(outputs.borrow_mut().drain(..).collect()),
            Inner::Wire { out, seen, .. } => {
                let b = out.written();
                let (frames, rest) = parse_frames(&b[*seen..])
                    .map_err(|e| Fail::new(&["C02"], format!("bad output: {e}")))?;
                *seen = b.len() - rest.len();
                Ok(frames)
            }
        }
    }

    /// Sends a message and runs.
    pub fn exchange(&mut self, v: &Value) -> Result<Vec<Value>, Fail> {
        self.send(v)?;
        self.run()
    }

    pub fn eof(&mut self) {
        if let Inner::Wire { input, .. } = &self.inner {
            input.eof();
        }
    }

    /// Whether the server (or, without one, the client stream) has ended.
    pub fn ended(&self) -> bool {
        match &self.inner {
            Inner::Wire { task, .. } => self.exec.is_done(*task),
            Inner::Futures { drain, .. } => self.exec.is_done(*drain),
        }
    }

    pub fn is_wire(&self) -> bool {
        matches!(self.inner, Inner::Wire { .. })
    }

    pub fn out(&self) -> Option<&OutCtl> {
        match &self.inner {
            Inner::Wire { out, .. } => Some(out),
            _ => None,
        }
    }

    pub fn input(&self) -> Option<&InCtl> {
        match &self.inner {
            Inner::Wire { input, .. } => Some(input),
            _ => None,
        }
    }

    /// Calls whose future has not resolved.
    pub fn unresolved(&self) -> usize {
        match &self.inner {
            Inner::Futures { outcomes, .. } => outcomes.borrow().iter().filter(|o| o.is_none()).count(),
            _ => 0,
        }
    }
}
