//! C02: outbound framing under arbitrary write behaviour.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::Sched;
use crate::fail::{Fail, Info, Res};
use crate::gen::*;
use crate::io::{Act, OutCtl};
use crate::mock::{Bench, Plan, Rec};
use crate::wire::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Prod {
    /// The service answers an incoming message with this response.
    Reply { value: Value, pad: u32, yields: u8 },
    /// The service has nothing to answer.
    Silent,
    /// A message from the client handle.
    Client { value: Value, pad: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// Productions in batches; the server settles after each batch.
    batches: Vec<Vec<Prod>>,
    script: Vec<Act>,
    cycle: bool,
    conc: u8,
    spurious: bool,
    delay_flushes: bool,
}

pub fn arb_script() -> BoxedStrategy<(Vec<Act>, bool)> {
    let act = prop_oneof![
        3 => prop_oneof![Just(1u32), 1u32..40, 1u32..5000].prop_map(Act::Take),
        1 => Just(Act::Pend),
        1 => Just(Act::Block),
    ];
    prop_oneof![
        1 => Just((vec![], false)),
        4 => (prop::collection::vec(act, 1..12), any::<bool>()),
    ]
    .boxed()
}

fn strategy(_: bool) -> BoxedStrategy<Case> {
    let prod = prop_oneof![
        4 => (arb_response(), arb_size(), 0u8..4)
            .prop_map(|(value, pad, yields)| Prod::Reply { value, pad, yields }),
        1 => Just(Prod::Silent),
        4 => (arb_request(), arb_size()).prop_map(|(value, pad)| Prod::Client { value, pad }),
    ];
    (
        prop::collection::vec(prop::collection::vec(prod, 1..6), 1..5),
        arb_script(),
        1u8..6,
        prop::bool::weighted(0.15),
    )
        .prop_map(|(batches, (script, cycle), conc, spurious)| Case {
            batches,
            script,
            cycle,
            conc,
            spurious,
            delay_flushes: cfg!(feature = "rt-tokio"),
        })
        .boxed()
}

fn padded(v: &Value, pad: u32) -> Value {
    let mut v = v.clone();
    if pad > 0 {
        let key = if v.get("method").is_some() { "params" } else { "result" };
        if key == "params" || v.get("result").is_some() {
            v[key] = json!({ "pad": filler(pad) });
        }
    }
    v
}

fn run(case: &Case) -> Res {
    const T: [&str; 1] = ["C02"];
    // Large payloads are not written one byte at a time.
    let total: u64 = case
        .batches
        .iter()
        .flatten()
        .map(|p| match p {
            Prod::Reply { pad, .. } | Prod::Client { pad, .. } => *pad as u64 + 200,
            Prod::Silent => 0,
        })
        .sum();
    let min = (total / 8000) as u32;
    let script: Vec<Act> = case
        .script
        .iter()
        .map(|a| match a {
            Act::Take(n) => Act::Take((*n).max(min)),
            other => *other,
        })
        .collect();

    let rec = Rec::default();
    let out = OutCtl::new(&script, case.cycle);
    out.0.delay_flushes(case.delay_flushes);
    let mut b = Bench::new(Some(case.conc as usize), out, Sched::default(), rec);
    b.exec.run()?;
    let mut want: Vec<Value> = Vec::new();
    let mut want_client: Vec<Value> = Vec::new();
    let mut blocked_seen = false;
    for batch in &case.batches {
        let mut bytes = Vec::new();
        for p in batch {
            match p {
                Prod::Reply { value, pad, yields } => {
                    let v = padded(value, *pad);
                    b.rec.0.lock().unwrap().plans.push_back(Plan {
                        reply: Some(v.clone()),
                        yields: *yields,
                        ..Plan::default()
                    });
                    want.push(v);
                    bytes.extend(frame_value(&request_value("x", None, None)));
                }
                Prod::Silent => {
                    b.rec.0.lock().unwrap().plans.push_back(Plan::default());
                    bytes.extend(frame_value(&request_value("x", None, None)));
                }
                Prod::Client { value, pad } => {
                    let v = padded(value, *pad);
                    want.push(v.clone());
                    want_client.push(v.clone());
                    b.client.send(v);
                }
            }
        }
        b.input.data(bytes);
        b.exec.run()?;
        if case.spurious {
            b.exec.spurious();
            b.exec.run()?;
        }
        while b.out.is_blocked() {
            blocked_seen = true;
            partial_ok(&b)?;
            b.out.release();
            b.exec.run()?;
        }
        partial_ok(&b)?;
        ensure!(b.out.unflushed() == 0, T, "{} bytes written but not flushed with nothing left to do", b.out.unflushed());
        let got = parse_all(&b.out.flushed()).map_err(|e| Fail::new(&T, e))?;
        if let Some(d) = multiset_diff(&got, &want) {
            return Err(Fail::new(&T, format!("output differs from what was produced: {d}")));
        }
        let clients: Vec<Value> = got.into_iter().filter(|v| v.get("method").is_some()).collect();
        ensure!(clients == want_client, ["C02", "C21"], "client messages reordered on the output");
    }
    b.input.eof();
    b.client.close();
    b.exec.run()?;
    while b.out.is_blocked() {
        b.out.release();
        b.exec.run()?;
    }
    ensure!(b.done(), ["C02", "C17"], "the server did not return after the end of the input");
    let got = parse_all(&b.out.flushed()).map_err(|e| Fail::new(&T, e))?;
    ensure!(got.len() == want.len(), T, "extra output when the server ended");

    let mut info = Info { nontrivial: want.len() >= 2 && !case.script.is_empty(), ..Info::default() };
    info.class(blocked_seen, "blocked_output");
    info.class(total > 8192, "beyond_8k");
    info.class(want.iter().any(|v| !v.to_string().is_ascii()), "multibyte");
    info.class(!want_client.is_empty() && want_client.len() < want.len(), "mixed_sources");
    Ok(info)
}

/// Whatever has been written so far must be a prefix of valid frames.
fn partial_ok(b: &Bench) -> Result<(), Fail> {
    parse_frames(&b.out.written()).map(|_| ()).map_err(|e| Fail::new(&["C02"], e))
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "output",
        rule: "batches of responses and client messages (unicode, up to 200 kB) written to an output \
               with scripted short writes, delays and blocks; non-trivial: at least two messages and \
               a scripted output",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(strategy),
        run,
    })]
}
