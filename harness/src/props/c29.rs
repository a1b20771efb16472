//! C29: no traffic starves other traffic.

use std::cell::Cell;
use std::rc::Rc;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower_lsp::lsp_types::*;

use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::{Exec, Sched};
use crate::fail::{Fail, Info, Res};
use crate::gen::{ok_value, request_value};
use crate::io::{Act, InCtl, OutCtl};
use crate::mock::make_server;
use crate::rig::{self, Ev, Ret, RigCtl, Script, Step};
use crate::wire::{frame, frame_value, parse_frames};

/// Messages that may be written before a probe gets its turn.
const PATIENCE: u64 = 2_000;
/// Notifications that may be handled meanwhile.
const NOTIFIED: u64 = 6_000;
/// Turns other handlers may take meanwhile.
const SPINS: u64 = 6_000;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Probe {
    /// A request is answered.
    Request,
    /// A notification is handled.
    Note,
    /// A malformed message is answered.
    Bad,
    /// A message of a task to the client comes out.
    Message,
    /// A handler asks the client, and gets the reply.
    Ask,
    /// A request in flight is cancelled.
    Cancel,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    conc: u8,
    /// Tasks sending notifications without end.
    talkers: u8,
    /// Kilobytes added to each of their messages.
    pad: u8,
    /// Handlers sending notifications without end.
    chatting: u8,
    /// Handlers waking themselves without end.
    busy: u8,
    /// Requests under way, each answer being followed by another request.
    requests: u8,
    /// Malformed messages under way.
    bad: u8,
    /// There are always more notifications to read.
    notes: bool,
    acts: Vec<Act>,
    probes: Vec<(Probe, u8)>,
    sched: Vec<u8>,
}

struct World {
    exec: Exec,
    ctl: RigCtl,
    input: InCtl,
    out: OutCtl,
    server: usize,
    rest: Vec<u8>,
    calls: usize,
    notes_sent: u64,
    outputs: u64,
    bad_answers: u64,
    /// Messages that came out and are of interest.
    seen: Vec<Value>,
    case: Case,
}

fn script(steps: Vec<Step>) -> Script {
    Script { steps, ret: Ret::Ok(json!("ok")) }
}

const BAD: &[u8] = b"{\"jsonrpc\":\"2.0\",";

impl World {
    fn request(&mut self, kind: &str, steps: Vec<Step>) -> (usize, Value) {
        self.calls += 1;
        let id = json!(format!("{kind}{}", self.calls));
        let v = request_value("x/req", Some(id.clone()), Some(script(steps).params(self.calls)));
        self.input.data(frame_value(&v));
        (self.calls, id)
    }
    fn again(&mut self, kind: &str) {
        let steps = match kind {
            "flood" => vec![],
            "chat" => vec![Step::Say; 30],
            _ => vec![Step::Spin(20_000)],
        };
        self.request(kind, steps);
    }
    fn handled(&self) -> u64 {
        // Notes use call numbers from here on.
        self.ctl.0.lock().unwrap().log.range(NOTES..).filter(|(_, l)| l.contains(&Ev::End)).count() as u64
    }
    fn spins(&self) -> u64 {
        self.ctl.0.lock().unwrap().spins
    }
    fn idle(&self) -> bool {
        let c = &self.case;
        c.talkers == 0 && c.requests == 0 && c.bad == 0 && !c.notes && (c.conc < 3 || c.busy + c.chatting == 0)
    }
    /// Runs one task once and keeps the traffic going.
    fn step(&mut self) -> Result<(), Fail> {
        if self.case.notes && self.input.left() < 500 {
            for _ in 0..5 {
                self.notes_sent += 1;
                let s = script(vec![]);
                let v = request_value("x/note", None, Some(s.params(NOTES + self.notes_sent as usize)));
                self.input.data(frame_value(&v));
            }
        }
        if !self.exec.step() {
            return Err(Fail::new(&["C29", "C17"], "everything waits though there is traffic"));
        }
        if self.exec.is_done(self.server) {
            return Err(Fail::new(&["C29", "C17"], "the server has ended"));
        }
        if self.out.written_len() == 0 {
            return Ok(());
        }
        self.rest.extend(self.out.take());
        let (messages, rest) =
            parse_frames(&self.rest).map_err(|e| Fail::new(&["C02"], format!("bad output: {e}")))?;
        self.rest = rest;
        for v in messages {
            self.outputs += 1;
            if v.get("method").is_some() {
                let text = v["params"]["message"].as_str().unwrap_or("probe");
                if text.starts_with("probe") {
                    self.seen.push(v);
                }
                continue;
            }
            match &v["id"] {
                Value::Null => {
                    self.bad_answers += 1;
                    if self.case.bad > 0 {
                        self.input.data(frame(BAD));
                    }
                }
                Value::String(id) => match ["flood", "chat", "busy"].iter().find(|k| id.starts_with(**k)) {
                    Some(k) => self.again(k),
                    None => self.seen.push(v),
                },
                _ => self.seen.push(v),
            }
        }
        Ok(())
    }
    /// Runs until the condition holds.
    fn until(&mut self, what: &str, mut done: impl FnMut(&mut World) -> bool) -> Result<u64, Fail> {
        let (out0, spin0, handled0) = (self.outputs, self.spins(), self.handled());
        let mut polls = 0u64;
        loop {
            if done(self) {
                return Ok(self.outputs - out0);
            }
            self.step()?;
            polls += 1;
            let (out, spins) = (self.outputs - out0, self.spins() - spin0);
            let handled = if polls % 16 == 0 { self.handled() - handled0 } else { 0 };
            ensure!(
                out <= PATIENCE && handled <= NOTIFIED && spins <= SPINS && polls < 100_000,
                ["C29"],
                "{what}: not yet, but {out} messages were written, {handled} notifications handled, and \
                 other handlers took {spins} turns meanwhile"
            );
        }
    }
}

const NOTES: usize = 1_000_000;

fn run(case: &Case) -> Res {
    let ctl = RigCtl::default();
    let (service, socket, client) = rig::service(&ctl, &[]);
    let mut exec = Exec::new(Sched::new(&case.sched));
    let (input, stdin) = InCtl::new();
    let (out, stdout) = OutCtl::new(&case.acts, true);
    let conc = case.conc as usize;
    let server = exec.spawn(make_server(stdin, stdout, socket, Some(conc)).serve(service));
    let init = rig::init_params(&rig::simple(Ret::Ok(json!("s"))), 1 << 40);
    input.data(frame_value(&request_value("initialize", Some(json!("init")), Some(init))));
    exec.run()?;
    let mut w = World {
        exec,
        ctl,
        input,
        out,
        server,
        rest: vec![],
        calls: 0,
        notes_sent: 0,
        outputs: 0,
        bad_answers: 0,
        seen: vec![],
        case: case.clone(),
    };
    w.out.take();
    let stop = Rc::new(Cell::new(false));
    for _ in 0..case.talkers {
        let (client, stop, pad) = (client.clone(), stop.clone(), case.pad as usize);
        w.exec.spawn(async move {
            while !stop.get() {
                client.log_message(MessageType::LOG, "t".repeat(1 + 1024 * pad)).await;
            }
        });
    }
    // One slot remains for everything else.
    let mut slots = conc.saturating_sub(2);
    for _ in 0..case.busy.min(slots as u8) {
        slots -= 1;
        w.again("busy");
    }
    for _ in 0..case.chatting.min(slots as u8) {
        slots -= 1;
        w.again("chat");
    }
    for _ in 0..case.requests {
        w.again("flood");
    }
    for _ in 0..case.bad {
        w.input.data(frame(BAD));
    }
    let mut info = Info::default();
    for (n, (probe, warm)) in case.probes.iter().enumerate() {
        for _ in 0..*warm {
            if w.idle() {
                break;
            }
            w.step()?;
        }
        w.seen.clear();
        let name = format!("probe{n}");
        let answered = |id: Value, key: &'static str| {
            move |w: &mut World| w.seen.iter().any(|v| v.get("method").is_none() && v["id"] == id && v.get(key).is_some())
        };
        let took = match probe {
            Probe::Request => {
                let (_, id) = w.request("p", vec![]);
                w.until("a request is answered", answered(id, "result"))?
            }
            Probe::Note => {
                w.calls += 1;
                let call = w.calls;
                let v = request_value("x/note", None, Some(script(vec![]).params(call)));
                w.input.data(frame_value(&v));
                w.until("a notification is handled", move |w| w.ctl.log(call).contains(&Ev::End))?
            }
            Probe::Bad => {
                if case.bad > 0 {
                    continue;
                }
                let before = w.bad_answers;
                w.input.data(frame(BAD));
                w.until("a malformed message is answered", move |w| w.bad_answers > before)?
            }
            Probe::Message => {
                let (client, text) = (client.clone(), name.clone());
                w.exec.spawn(async move { client.log_message(MessageType::INFO, text).await });
                w.until("a message to the client comes out", move |w| {
                    w.seen.iter().any(|v| v["params"]["message"].as_str() == Some(&name))
                })?
            }
            Probe::Ask => {
                let (_, id) = w.request("p", vec![Step::Ask]);
                let a = w.until("a handler asks the client", |w| w.seen.iter().any(|v| v["method"] == "x/ask"))?;
                let ask = w.seen.iter().find(|v| v["method"] == "x/ask").unwrap()["id"].clone();
                w.input.data(frame_value(&ok_value(ask, json!("reply"))));
                a.max(w.until("a handler which asked the client is answered", answered(id, "result"))?)
            }
            Probe::Cancel => {
                if conc < 2 {
                    continue;
                }
                let (call, id) = w.request("p", vec![Step::Gate]);
                w.until("a request starts", move |w| w.ctl.log(call).contains(&Ev::Start))?;
                w.input.data(frame_value(&request_value("$/cancelRequest", None, Some(json!({ "id": id })))));
                w.until("a cancelled request is answered", answered(id, "error"))?
            }
        };
        info.class(took > 0, "other messages came first");
        info.class(took > 30, "many other messages came first");
        info.class(took > 150, "very many other messages came first");
        info.class(true, match probe {
            Probe::Request => "request",
            Probe::Note => "notification",
            Probe::Bad => "malformed message",
            Probe::Message => "client message",
            Probe::Ask => "client request",
            Probe::Cancel => "cancellation",
        });
    }
    stop.set(true);
    let messages = case.talkers > 0 || case.chatting > 0;
    let responses = case.requests > 0 || case.bad > 0;
    info.class(messages && responses, "messages and responses");
    info.class(messages && !responses, "messages only");
    info.class(responses && !messages, "responses only");
    info.class(case.busy > 0 && conc > 2, "busy handlers");
    info.class(case.notes, "notifications without end");
    info.nontrivial = w.outputs > 50 || w.spins() > 50 || case.notes;
    Ok(info)
}

fn strategy(t: bool) -> BoxedStrategy<Case> {
    // Notifications may be handled, and handlers may run, as often as they like while the output is slow.
    let acts = prop_oneof![
        2 => Just(vec![]),
        1 => (20u32..2000).prop_map(|n| vec![Act::Take(n)]),
        1 => (4000u32..20_000, 4000u32..20_000).prop_map(|(m, n)| vec![Act::Take(m), Act::Pend, Act::Take(n)]),
    ];
    let probe = prop_oneof![
        3 => Just(Probe::Request),
        1 => Just(Probe::Note),
        1 => Just(Probe::Bad),
        3 => Just(Probe::Message),
        2 => Just(Probe::Ask),
        2 => Just(Probe::Cancel),
    ];
    (
        1u8..9,
        prop_oneof![1 => Just(0u8), 3 => 1u8..5],
        prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(9u8)],
        prop_oneof![2 => Just(0u8), 1 => 1u8..4],
        prop_oneof![2 => Just(0u8), 1 => 1u8..3],
        prop_oneof![1 => Just(0u8), 2 => 1u8..16],
        prop_oneof![2 => Just(0u8), 1 => 1u8..6],
        prop::bool::weighted(0.3),
        acts,
        prop::collection::vec((probe, prop_oneof![Just(0u8), any::<u8>()]), 1..if t { 8 } else { 4 }),
        prop::collection::vec(any::<u8>(), 0..12),
    )
        .prop_map(|(conc, talkers, pad, chatting, busy, requests, bad, notes, acts, probes, sched)| Case {
            conc, talkers, pad, chatting, busy, requests, bad, notes, acts, probes, sched,
        })
        .boxed()
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "starvation",
        rule: "a server under endless traffic (tasks and handlers talking to the client, a new request after every \
               answer, malformed messages, notifications that never run out, handlers waking themselves) in \
               generated mixtures; requests, notifications, malformed messages, client messages, client \
               requests and cancellations among it get their turn before 2,000 others; non-trivial: more than \
               50 messages written or turns taken, or notifications without end",
        quick: 1_500,
        thorough: 40_000,
        strategy: Box::new(strategy),
        run,
    })]
}
