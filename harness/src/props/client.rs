//! C13, C14, C15: the client handle.

use crate::campaign::{Campaign, C};
use crate::clientside::{arb_case, run, Case, Mix};
use crate::fail::{Info, Res};
use crate::senders;

fn has(i: &Info, any: &[&str]) -> bool {
    any.iter().any(|n| i.classes.contains(n))
}

fn judge(case: &Case, rule: fn(&Info) -> bool) -> Res {
    let mut info = run(case)?;
    info.nontrivial = rule(&info);
    Ok(info)
}

pub const BASE: Mix = Mix {
    reply: 6,
    stray: 1,
    drop: 1,
    life: 1,
    exit: 0,
    batch: 3,
    wrong: 1,
    pre: 0.95,
    requests_only: false,
};

pub fn c13() -> Vec<Box<dyn Campaign>> {
    let mix = Mix { reply: 9, stray: 4, drop: 3, batch: 5, wrong: 2, requests_only: true, ..BASE };
    vec![Box::new(C {
        name: "replies",
        rule: "concurrent requests of the client handle, replies in any order, second, foreign, look-alike \
               and mistyped ones, abandoned requests; over the split socket, the whole one and the server; \
               non-trivial: replies out of order or together, and a stray reply or an abandoned request",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(move |t| arb_case(mix, t)),
        run: |c| {
            judge(c, |i| {
                has(i, &["reply out of order", "several replies at once"])
                    && has(i, &["stray response", "abandoned request"])
            })
        },
    }), threads(300), Box::new(C {
        name: "many",
        rule: "up to 70,000 requests open at once (and others answered before), answered in shuffled order; \
               every case counts as non-trivial",
        quick: 16,
        thorough: 60,
        strategy: Box::new(senders::arb_many),
        run: senders::run_many,
    })]
}

pub fn c14() -> Vec<Box<dyn Campaign>> {
    let mix = Mix { reply: 2, life: 7, exit: 2, drop: 0, pre: 0.2, ..BASE };
    vec![Box::new(C {
        name: "gating",
        rule: "calls of every method of the client handle in every lifecycle state, with failing, cancelled \
               and pending initialize, shutdown and exit; non-trivial: a gated call before initialization and \
               a call after it, or a call after exit",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(move |t| arb_case(mix, t)),
        run: |c| {
            judge(c, |i| {
                has(i, &["gated call before initialize", "gated call while initializing"])
                    && has(i, &["call while initialized", "call after shutdown"])
                    || has(i, &["call after exit"])
            })
        },
    })]
}

pub fn c15() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "methods",
        rule: "calls of every method of the client handle with generated arguments and generated results or \
               errors; non-trivial: a call whose message was compared and a reply returned",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(move |t| arb_case(BASE, t)),
        run: |c| judge(c, |i| has(i, &["call while initialized"])),
    })]
}

/// On real threads.
fn threads(quick: u32) -> Box<dyn Campaign> {
    Box::new(C {
        name: "threads",
        rule: "real threads sending numbered messages and requests at once, answered in shuffled batches, through \
               the split socket or a running server; non-trivial: messages of different threads interleave",
        quick,
        thorough: 10_000,
        strategy: Box::new(senders::arb_threads),
        run: senders::run_threads,
    })
}

pub fn c21() -> Vec<Box<dyn Campaign>> {
    vec![
        Box::new(C {
            name: "senders",
            rule: "tasks and handlers sending numbered notifications and requests through a slow, blocked or \
                   held output or socket, some dropped midway; after every step each sender's messages are out \
                   in order, exactly once, as far as it got; non-trivial: a sender waits for the output and \
                   messages of several senders interleave",
            quick: 24_000,
            thorough: 400_000,
            strategy: Box::new(senders::arb_case),
            run: |c| {
                let mut i = senders::run(c)?;
                i.nontrivial = has(&i, &["a sender waits for the output"]) && has(&i, &["senders interleave"]);
                Ok(i)
            },
        }),
        threads(300),
    ]
}

pub fn exit_threads() -> Box<dyn Campaign> {
    Box::new(C {
        name: "exit among threads",
        rule: "real threads sending notifications to a fast or slow reader while exit arrives; the stream ends and \
               stays ended, every sender returns, and what came out is a prefix of each thread's messages; \
               non-trivial: some but not all messages had been sent at exit",
        quick: 2_000,
        thorough: 50_000,
        strategy: Box::new(senders::arb_exit_threads),
        run: senders::run_exit_threads,
    })
}
