//! C12, C22: handler slots.

use crate::campaign::{Campaign, C};
use crate::fail::{Info, Res};
use crate::slots::{arb_case, run, Case, Mix};

fn has(i: &Info, any: &[&str]) -> bool {
    any.iter().any(|n| i.classes.contains(n))
}

fn judge(case: &Case, rule: fn(&Info) -> bool) -> Res {
    let mut info = run(case)?;
    info.nontrivial = rule(&info);
    Ok(info)
}

pub const BASE: Mix = Mix { gate: 4, ask: 4, answer: 5, max_conc: 5, wide: false, end: [4, 1, 1, 0] };

pub fn c12() -> Vec<Box<dyn Campaign>> {
    let mix = Mix { gate: 6, ask: 1, answer: 2, max_conc: 8, wide: false, end: [3, 1, 1, 3] };
    vec![Box::new(C {
        name: "slots",
        rule: "bursts of requests and notifications whose handlers wait at gates, at concurrency levels 1-8 \
               and the default; after every step exactly the first outstanding handlers in arrival order run; \
               non-trivial: messages queue for a slot and handlers finish out of order, or level 1 with a queue",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(move |t| arb_case(mix, t)),
        run: |c| {
            judge(c, |i| {
                has(i, &["messages queue"]) && has(i, &["finished out of order", "level 1"])
            })
        },
    }),
    Box::new(C {
        name: "many slots",
        rule: "the same at levels 80-255 with up to 250 messages at a time; non-trivial: more than 100 \
               handlers run at once, or messages queue",
        quick: 2_500,
        thorough: 40_000,
        strategy: Box::new(move |t| arb_case(Mix { wide: true, ..mix }, t)),
        run: |c| judge(c, |i| has(i, &["messages queue", "more than 100 handlers at once"])),
    })]
}

pub fn c22() -> Vec<Box<dyn Campaign>> {
    let mix = Mix { gate: 1, ask: 8, answer: 7, max_conc: 5, wide: false, end: [4, 1, 1, 0] };
    vec![Box::new(C {
        name: "waiting handlers",
        rule: "handlers that send requests to the client and wait for the answers, with every slot taken and \
               up to 95 messages queued; answers in any order, strays, cancellations, exit; non-trivial: an \
               answer or exit arrives while all slots are taken and messages queue",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(move |t| arb_case(mix, t)),
        run: |c| {
            judge(c, |i| {
                has(i, &[
                    "answer while every slot waits for the client",
                    "exit while slots are full and messages queue",
                ])
            })
        },
    })]
}
