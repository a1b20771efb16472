//! Model of the server's handler slots: arrival order, concurrency limit, handlers waiting for
//! gates and for answers of the client, cancellations and exit (C12, C22, parts of C13 and C17).

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::ensure;
use crate::exec::Sched;
use crate::fail::{Fail, Info};
use crate::front::Front;
use crate::gen::*;
use crate::io::Act;
use crate::machine::matches_any;
use crate::rig::{self, Ev, Ret, RigCtl, Script, Step};
use crate::wire::frame_value;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Messages arriving together: (form, script, repeat).
    Send(Vec<(u8, Script, u8)>),
    /// Cancels the n-th cancellable running request.
    Cancel(u8),
    /// Opens the n-th gate at which a handler waits.
    Open(u8),
    /// Answers the n-th request sent to the client.
    Answer(u8, Value, bool),
    /// A response nobody waits for.
    Stray(u8),
    /// A malformed message.
    Junk,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub conc: Option<u8>,
    pub acts: Vec<Act>,
    pub bytewise: bool,
    pub ops: Vec<Op>,
    /// 0: no exit; 1: exit, then EOF; 2: exit, then a request; 3: EOF before the last gates open.
    pub end: u8,
    pub ids: u8,
    pub sched: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Life {
    Queued,
    Running,
    Done,
}

enum What {
    Request { custom: bool },
    Note,
    Cancel(usize),
}

struct Call {
    what: What,
    id: Option<Value>,
    script: Script,
    life: Life,
    pos: usize,
    aborted: bool,
    /// A cancellation naming it was sent and has not taken effect.
    targeted: bool,
    log: Vec<Ev>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum AskState {
    Open,
    Answered,
}

struct Ask {
    call: usize,
    step: usize,
    id: Value,
    state: AskState,
}

struct M {
    limit: usize,
    calls: Vec<Call>,
    gates: std::collections::HashSet<(usize, usize)>,
    asks: Vec<Ask>,
    answers: std::collections::HashMap<(usize, usize), Result<Value, i64>>,
    starts: Vec<usize>,
    /// What must come out: responses (id, member), says, asks.
    responses: Vec<(Value, Value)>,
    says: Vec<String>,
    new_asks: Vec<(usize, usize)>,
    exited: bool,
}

impl M {
    fn running(&self) -> usize {
        self.calls.iter().filter(|c| c.life == Life::Running).count()
    }
    fn outstanding(&self) -> usize {
        self.calls.iter().filter(|c| c.life != Life::Done).count()
    }

    fn finish_aborted(&mut self, i: usize, started: bool) {
        let c = &mut self.calls[i];
        if started {
            c.log.push(Ev::Dropped);
        }
        c.life = Life::Done;
        self.responses.push((c.id.clone().unwrap(), json!({"error": {"code": -32800}})));
    }

    /// Runs everything as far as it gets.
    fn settle(&mut self) {
        loop {
            let mut changed = false;
            for i in 0..self.calls.len() {
                if self.calls[i].life == Life::Running {
                    changed |= self.advance(i);
                }
            }
            while self.running() < self.limit {
                let Some(i) = self.calls.iter().position(|c| c.life == Life::Queued) else { break };
                changed = true;
                if self.calls[i].aborted {
                    self.finish_aborted(i, false);
                    continue;
                }
                if let What::Cancel(t) = self.calls[i].what {
                    self.calls[i].life = Life::Done;
                    self.calls[t].targeted = false;
                    if self.calls[t].life != Life::Done {
                        self.calls[t].aborted = true;
                    }
                    break; // lets the target go on
                }
                self.calls[i].life = Life::Running;
                self.calls[i].log.push(Ev::Start);
                self.starts.push(i);
                self.advance(i);
            }
            if !changed {
                return;
            }
        }
    }

    fn advance(&mut self, i: usize) -> bool {
        let mut moved = false;
        loop {
            if self.calls[i].aborted {
                self.finish_aborted(i, true);
                return true;
            }
            let c = &self.calls[i];
            let pos = c.pos;
            match c.script.steps.get(pos) {
                None => break,
                Some(Step::Gate) if !self.gates.contains(&(i, pos)) => return moved,
                Some(Step::Ask) => match self.answers.get(&(i, pos)) {
                    Some(a) => {
                        let a = a.clone();
                        self.calls[i].log.push(Ev::Answer(pos, a));
                    }
                    None => {
                        let known = self.asks.iter().any(|a| (a.call, a.step) == (i, pos))
                            || self.new_asks.contains(&(i, pos));
                        if !known {
                            self.new_asks.push((i, pos));
                        }
                        return moved;
                    }
                },
                Some(Step::Say) => {
                    if !self.exited {
                        self.says.push(format!("{i}:{pos}"));
                    }
                }
                Some(_) => {}
            }
            self.calls[i].log.push(Ev::Step(pos));
            self.calls[i].pos += 1;
            moved = true;
        }
        let c = &mut self.calls[i];
        c.log.push(Ev::End);
        c.life = Life::Done;
        if let (What::Request { custom }, Some(id)) = (&c.what, &c.id) {
            let (k, v) = rig::expected(&c.script.ret, *custom).unwrap();
            self.responses.push((id.clone(), json!({ k: v })));
        }
        true
    }
}

struct Run {
    m: M,
    f: Front,
    ctl: RigCtl,
    info: Info,
    bytewise: bool,
    ids: u8,
    /// Null-id error responses due.
    errors: usize,
    eof: bool,
}

const INIT: usize = 1 << 40;

pub fn run(case: &Case) -> Result<Info, Fail> {
    crate::turns::alone(history(case))
}

pub async fn history(case: &Case) -> Result<Info, Fail> {
    let ctl = RigCtl::default();
    let (service, socket, _client) = rig::service(&ctl, &[]);
    let limit = case.conc.unwrap_or(4).max(1) as usize;
    let conc = case.conc.map(|n| n.max(1) as usize);
    let mut f = Front::wire(service, socket, conc, Sched::new(&case.sched), &case.acts);
    let init = request_value(
        "initialize",
        Some(json!("init")),
        Some(rig::init_params(&rig::simple(Ret::Ok(json!("s"))), INIT)),
    );
    let got = f.exchange(&init)?;
    ensure!(got.len() == 1 && got[0].get("result").is_some(), ["C07", "C12", "C22"], "initialize: {got:?}");
    let m = M {
        limit,
        calls: vec![],
        gates: Default::default(),
        asks: vec![],
        answers: Default::default(),
        starts: vec![],
        responses: vec![],
        says: vec![],
        new_asks: vec![],
        exited: false,
    };
    let mut r = Run { m, f, ctl, info: Info::default(), bytewise: case.bytewise, ids: case.ids, errors: 0, eof: false };
    r.info.class(case.conc.is_none(), "default level");
    r.info.class(case.conc == Some(1), "level 1");
    // After exit, nobody answers a handler of a notification.
    let exits = case.end == 1 || case.end == 2;
    for op in &case.ops {
        crate::turns::pause().await;
        r.op(op, exits)?;
    }
    r.finish(case)?;
    Ok(r.info)
}

impl Run {
    fn input(&mut self, v: &Value) {
        let bytes = frame_value(v);
        let i = self.f.input().unwrap();
        if self.bytewise {
            for b in bytes {
                i.data(vec![b]);
            }
        } else {
            i.data(bytes);
        }
    }

    fn push(&mut self, what: What, id: Option<Value>, script: Script) {
        self.m.calls.push(Call {
            what,
            id,
            script,
            life: Life::Queued,
            pos: 0,
            aborted: false,
            targeted: false,
            log: vec![],
        });
    }

    fn op(&mut self, op: &Op, exits: bool) -> Result<(), Fail> {
        match op {
            Op::Send(msgs) => {
                for (form, script, rep) in msgs {
                    for _ in 0..=*rep {
                        if self.m.outstanding() >= self.m.limit + 95 {
                            break;
                        }
                        let n = self.m.calls.len();
                        let mut s = script.clone();
                        if matches!(s.ret, Ret::Never | Ret::Bad) {
                            s.ret = Ret::Ok(json!(n));
                        }
                        let request = form % 5 < 3;
                        if exits && !request {
                            for st in &mut s.steps {
                                if *st == Step::Ask {
                                    *st = Step::Gate;
                                }
                            }
                        }
                        let id = distinct_id(self.ids, n);
                        let (what, id, v) = match form % 5 {
                            0 | 1 => (
                                What::Request { custom: false },
                                Some(id.clone()),
                                request_value("workspace/executeCommand", Some(id), Some(rig::command_params(&s, n))),
                            ),
                            2 => (
                                What::Request { custom: true },
                                Some(id.clone()),
                                request_value("x/req", Some(id), Some(s.params(n))),
                            ),
                            3 => (
                                What::Note,
                                None,
                                request_value("workspace/didChangeConfiguration", None, Some(rig::config_params(&s, n))),
                            ),
                            _ => (What::Note, None, request_value("x/note", None, Some(s.params(n)))),
                        };
                        self.push(what, id, s);
                        self.input(&v);
                    }
                }
            }
            Op::Cancel(k) => {
                let cands: Vec<usize> = (0..self.m.calls.len())
                    .filter(|i| {
                        let c = &self.m.calls[*i];
                        let int32 = c.id.as_ref().map_or(false, |i| {
                            i.as_i64().map_or(i.is_string(), |n| i32::try_from(n).is_ok())
                        });
                        c.life == Life::Running && !c.targeted && int32
                    })
                    .collect();
                if cands.is_empty() || self.m.outstanding() >= self.m.limit + 95 {
                    return Ok(());
                }
                let t = cands[*k as usize % cands.len()];
                let id = self.m.calls[t].id.clone().unwrap();
                self.m.calls[t].targeted = true;
                self.push(What::Cancel(t), None, rig::simple(Ret::Ok(Value::Null)));
                self.input(&request_value("$/cancelRequest", None, Some(json!({ "id": id }))));
                self.info.class(true, "cancellation");
            }
            Op::Open(k) => {
                let gates: Vec<(usize, usize)> = self.waiting(Step::Gate, false);
                if gates.is_empty() {
                    return Ok(());
                }
                let n = *k as usize % gates.len();
                self.info.class(n > 0, "finished out of order");
                self.open(gates[n]);
            }
            Op::Answer(k, v, err) => {
                let open: Vec<usize> = (0..self.m.asks.len())
                    .filter(|i| {
                        let a = &self.m.asks[*i];
                        a.state == AskState::Open && !self.m.calls[a.call].targeted
                    })
                    .collect();
                if open.is_empty() {
                    return Ok(());
                }
                let n = *k as usize % open.len();
                self.info.class(n > 0, "answered out of order");
                self.answer(open[n], v, *err);
            }
            Op::Stray(k) => {
                // An answered id, an unknown one, or null.
                let used: Vec<Value> = self
                    .m
                    .asks
                    .iter()
                    .filter(|a| a.state == AskState::Answered)
                    .map(|a| a.id.clone())
                    .collect();
                let id = match k % 4 {
                    0 => Value::Null,
                    1 => json!(format!("stray {k}")),
                    2 => json!(1_000_000 + *k as i64),
                    _ if used.is_empty() => json!(-1),
                    _ => used[*k as usize % used.len()].clone(),
                };
                self.input(&ok_value(id, json!("stray")));
                self.info.class(true, "stray response");
            }
            Op::Junk => {
                self.f.input().unwrap().data(crate::wire::frame(b"{\"jsonrpc\":\"2.0\""));
                self.errors += 1;
            }
        }
        self.settle()
    }

    /// Running handlers waiting at such a step, optionally including targets of cancellations.
    fn waiting(&self, step: Step, targeted: bool) -> Vec<(usize, usize)> {
        self.m
            .calls
            .iter()
            .enumerate()
            .filter(|(_, c)| c.life == Life::Running && (targeted || !c.targeted))
            .filter(|(_, c)| c.script.steps.get(c.pos) == Some(&step))
            .map(|(i, c)| (i, c.pos))
            .collect()
    }

    fn open(&mut self, g: (usize, usize)) {
        self.m.gates.insert(g);
        self.ctl.open(g.0, g.1);
    }

    fn answer(&mut self, n: usize, v: &Value, err: bool) {
        let a = &mut self.m.asks[n];
        a.state = AskState::Answered;
        let key = (a.call, a.step);
        let id = a.id.clone();
        let abandoned = self.m.calls[key.0].life == Life::Done;
        self.info.class(abandoned, "answer to an abandoned request");
        let full = self.m.running() >= self.m.limit;
        let queued = self.m.calls.iter().any(|c| c.life == Life::Queued);
        let all_asking = self.waiting(Step::Ask, true).len() == self.m.limit;
        self.info.class(full && queued, "answer while slots are full and messages queue");
        self.info.class(all_asking && queued, "answer while every slot waits for the client");
        if err {
            let code = v.as_i64().unwrap_or(-7);
            self.m.answers.insert(key, Err(code));
            self.input(&err_value(id, error_value(code, "no", None)));
        } else {
            self.m.answers.insert(key, Ok(v.clone()));
            self.input(&ok_value(id, v.clone()));
        }
    }

    fn settle(&mut self) -> Result<(), Fail> {
        let got = self.f.run()?;
        self.m.settle();
        let queued = self.m.calls.iter().filter(|c| c.life == Life::Queued).count();
        self.info.class(queued > 0, "messages queue");
        self.info.class(queued > 30, "long queue");
        self.info.class(self.m.running() > 100, "more than 100 handlers at once");
        let asking = self.waiting(Step::Ask, true).len();
        self.info.class(asking == self.m.limit, "every slot waits for the client");
        self.compare(got)
    }

    fn compare(&mut self, got: Vec<Value>) -> Result<(), Fail> {
        let order = self.ctl.order();
        let starts: Vec<usize> =
            order.iter().filter(|(c, e)| *c != INIT && *e == Ev::Start).map(|(c, _)| *c).collect();
        let max = self.ctl.0.lock().unwrap().max_running;
        ensure!(
            max <= self.m.limit,
            ["C12"],
            "{max} handlers ran at once with concurrency level {}",
            self.m.limit
        );
        if starts != self.m.starts {
            let ordered = starts.windows(2).all(|w| w[0] < w[1]);
            let tags: &[&'static str] = if !ordered { &["C12"] } else { &["C12", "C22", "C10", "C09"] };
            return Err(Fail::new(tags, format!(
                "started {:?}, expected {:?} (level {})", tail(&starts), tail(&self.m.starts), self.m.limit
            )));
        }
        for (i, c) in self.m.calls.iter().enumerate() {
            let log = self.ctl.log(i);
            if log != c.log {
                let asked = c.script.steps.contains(&Step::Ask);
                let mut tags = vec!["C12"];
                if asked {
                    tags.extend(["C22", "C13"]);
                }
                if self.m.exited {
                    tags.extend(["C09", "C22"]);
                }
                if c.aborted {
                    tags.push("C10");
                }
                return Err(Fail::new(&tags, format!("handler {i}: {log:?}, expected {:?}", c.log)));
            }
        }
        // Output.
        let mut responses = std::mem::take(&mut self.m.responses);
        let mut says = std::mem::take(&mut self.m.says);
        let mut asks = std::mem::take(&mut self.m.new_asks);
        for v in got {
            match v["method"].as_str() {
                Some("window/logMessage") => {
                    let t = v["params"]["message"].as_str().unwrap_or("?");
                    match says.iter().position(|s| s == t) {
                        Some(p) => drop(says.remove(p)),
                        None => return Err(Fail::new(&["C21", "C14", "C12"], format!("unexpected {v}"))),
                    }
                }
                Some("x/ask") => {
                    let key = (v["params"][0].as_u64(), v["params"][1].as_u64());
                    let key = (key.0.unwrap_or(u64::MAX) as usize, key.1.unwrap_or(u64::MAX) as usize);
                    match asks.iter().position(|a| *a == key) {
                        Some(p) => drop(asks.remove(p)),
                        None => return Err(Fail::new(&["C13", "C21", "C22"], format!("unexpected {v}"))),
                    }
                    let id = v["id"].clone();
                    ensure!(!id.is_null(), ["C13"], "a request without an id: {v}");
                    ensure!(
                        self.m.asks.iter().all(|a| a.id != id),
                        ["C13"],
                        "two requests to the client carry the id {id}"
                    );
                    self.m.asks.push(Ask { call: key.0, step: key.1, id, state: AskState::Open });
                }
                Some(_) => return Err(Fail::new(&["C21", "C15"], format!("unexpected {v}"))),
                None => {
                    if v["id"].is_null() && v["error"]["code"] == -32700 && self.errors > 0 {
                        self.errors -= 1;
                        continue;
                    }
                    let p = responses
                        .iter()
                        .position(|(id, w)| matches_any(&v, id, std::slice::from_ref(w)));
                    match p {
                        Some(p) => drop(responses.remove(p)),
                        None => {
                            return Err(Fail::new(
                                if self.m.exited { &["C04", "C09", "C12", "C17"] } else { &["C04", "C12", "C22"] },
                                format!("unexpected response {v}; expected {responses:?}"),
                            ))
                        }
                    }
                }
            }
        }
        ensure!(self.errors == 0, ["C03", "C12"], "a malformed message was not answered");
        let mut t = vec!["C04", "C12", "C22"];
        if self.m.exited {
            t.extend(["C09", "C17"]);
        }
        if !responses.is_empty() {
            return Err(Fail::new(&t, format!("missing responses {responses:?}")));
        }
        // Messages of the last handlers after the end of the input are not promised (C21).
        ensure!(self.eof || says.is_empty(), ["C21", "C12"], "missing messages {says:?}");
        ensure!(asks.is_empty(), ["C22", "C13", "C21"], "missing requests to the client {asks:?}");
        Ok(())
    }

    fn finish(&mut self, case: &Case) -> Result<(), Fail> {
        let asks = self.m.calls.iter().any(|c| c.life != Life::Done && c.script.steps.contains(&Step::Ask));
        let exits = case.end == 1 || case.end == 2;
        if exits {
            let queued = self.m.calls.iter().any(|c| c.life == Life::Queued);
            let full = self.m.running() >= self.m.limit;
            self.info.class(true, "exit");
            self.info.class(full && queued, "exit while slots are full and messages queue");
            self.input(&request_value("exit", None, None));
            self.m.exited = true;
            for c in &mut self.m.calls {
                if c.life != Life::Done && c.id.is_some() {
                    c.aborted = true;
                }
            }
            // The exit notification itself occupies a slot for a moment, in its turn.
            self.settle()?;
            if case.end == 2 {
                // May or may not be answered; nothing may run for it.
                let s = rig::simple(Ret::Ok(json!("late")));
                let n = self.m.calls.len() + 1000;
                self.input(&request_value("x/req", Some(json!("late")), Some(s.params(n))));
                self.settle()?;
                ensure!(self.ctl.log(n).is_empty(), ["C09"], "a handler started after exit");
                self.info.class(true, "request after exit");
            } else {
                self.f.eof();
                self.settle()?;
            }
        }
        let early_eof = case.end == 3 && !asks;
        if early_eof {
            let queued = self.m.calls.iter().any(|c| c.life == Life::Queued);
            self.info.class(self.m.running() > 0, "handlers running at EOF");
            self.info.class(queued, "messages queued at EOF");
            self.eof = true;
            self.f.eof();
            self.settle()?;
        }
        let mut turn = 0usize;
        loop {
            let mut some = false;
            // Alternate between the first and the last that wait.
            let pick = |n: usize, t: usize| if t % 2 == 0 { 0 } else { n - 1 };
            let gates = self.waiting(Step::Gate, false);
            if !gates.is_empty() {
                self.open(gates[pick(gates.len(), turn)]);
                some = true;
            } else if !exits {
                let open: Vec<usize> = (0..self.m.asks.len())
                    .filter(|i| {
                        let a = &self.m.asks[*i];
                        a.state == AskState::Open && !self.m.calls[a.call].targeted
                    })
                    .collect();
                if !open.is_empty() {
                    self.answer(open[pick(open.len(), turn)], &json!(turn), false);
                    some = true;
                }
            }
            if !some {
                // Only targets of cancellations that found no slot are left.
                let gates = self.waiting(Step::Gate, true);
                if let Some(g) = gates.first() {
                    self.open(*g);
                    some = true;
                } else if let Some(n) =
                    (0..self.m.asks.len()).find(|i| !exits && self.m.asks[*i].state == AskState::Open)
                {
                    self.answer(n, &json!(turn), false);
                    some = true;
                }
            }
            if !some {
                break;
            }
            turn += 1;
            self.settle()?;
        }
        ensure!(self.m.outstanding() == 0, ["*"], "model: {} calls left", self.m.outstanding());
        if !exits && !early_eof {
            ensure!(!self.f.ended(), ["C17", "C22"], "the server returned while its input was open");
            self.f.eof();
            self.settle()?;
        }
        ensure!(
            self.f.ended(),
            if exits { ["C17", "C09"] } else { ["C17", "C17"] },
            "the server did not return though {} and all handlers have finished",
            if exits { "it received exit and a further event" } else { "its input has ended" }
        );
        Ok(())
    }
}

fn tail(v: &[usize]) -> &[usize] {
    &v[v.len().saturating_sub(12)..]
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub gate: u32,
    pub ask: u32,
    pub answer: u32,
    /// Levels 1 to `max_conc`, the default among them; or 80-255 with as many messages.
    pub max_conc: u8,
    pub wide: bool,
    pub end: [u32; 4],
}

pub fn arb_case(x: Mix, thorough: bool) -> BoxedStrategy<Case> {
    let step = prop_oneof![
        x.gate => Just(Step::Gate),
        x.ask => Just(Step::Ask),
        1 => Just(Step::Yield),
        1 => Just(Step::Say),
    ];
    let ret = prop_oneof![4 => arb_small().prop_map(Ret::Ok), 1 => arb_error().prop_map(Ret::Err)];
    let script = (prop::collection::vec(step, 0..3), ret).prop_map(|(steps, ret)| Script { steps, ret });
    let rep = if x.wide {
        prop_oneof![4 => Just(0u8), 3 => 1u8..30, 2 => 40u8..=250].boxed()
    } else {
        prop_oneof![30 => Just(0u8), 3 => 1u8..8, 1 => 20u8..99].boxed()
    };
    let msg = (any::<u8>(), script, rep);
    let op = prop_oneof![
        10 => prop::collection::vec(msg, 1..6).prop_map(Op::Send),
        x.gate + 2 => any::<u8>().prop_map(Op::Open),
        x.answer => (any::<u8>(), arb_small(), prop::bool::weighted(0.2))
            .prop_map(|(k, v, e)| Op::Answer(k, v, e)),
        2 => any::<u8>().prop_map(Op::Cancel),
        1 => any::<u8>().prop_map(Op::Stray),
        1 => Just(Op::Junk),
    ];
    let act = prop_oneof![2 => (1u32..60).prop_map(Act::Take), 1 => Just(Act::Pend)];
    let acts = prop_oneof![
        2 => Just(vec![]),
        1 => (prop::collection::vec(act, 0..4), 1u32..40).prop_map(|(mut v, n)| {
            v.push(Act::Take(n));
            v
        }),
    ];
    let conc = if x.wide {
        prop_oneof![3 => 80u8..=255, 2 => 99u8..=129].prop_map(Some).boxed()
    } else {
        prop_oneof![
            2 => Just(None),
            2 => Just(Some(1u8)),
            6 => (1..=x.max_conc).prop_map(Some),
        ]
        .boxed()
    };
    let end = prop_oneof![
        x.end[0] => Just(0u8), x.end[1] => Just(1u8), x.end[2] => Just(2u8), x.end[3] => Just(3u8)
    ];
    let n = match (x.wide, thorough) {
        (true, _) => 8,
        (_, true) => 30,
        _ => 16,
    };
    (
        conc,
        acts,
        prop::bool::weighted(0.1),
        prop::collection::vec(op, 1..n),
        end,
        proptest::sample::select(vec![0u8, 0, 0, 1, 2, 3, 4, 5]),
        prop::collection::vec(any::<u8>(), 0..12),
    )
        .prop_map(|(conc, acts, bytewise, ops, end, ids, sched)| Case {
            conc, acts, bytewise, ops, end, ids, sched,
        })
        .boxed()
}
