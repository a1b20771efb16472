//! C04, C07-C11, C20: model-based histories, with weights and coverage rule per property.

use crate::campaign::{Campaign, C};
use crate::fail::{Info, Res};
use crate::machine::{arb_case, run, Case, Weights, BASE};
use crate::races;

fn has(i: &Info, any: &[&str]) -> bool {
    any.iter().any(|n| i.classes.contains(n))
}

fn judge(case: &Case, rule: fn(&Info) -> bool) -> Res {
    let mut info = run(case)?;
    info.nontrivial = rule(&info);
    Ok(info)
}

fn camp(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    w: Weights,
    run: fn(&Case) -> Res,
) -> Box<dyn Campaign> {
    Box::new(C {
        name,
        rule,
        quick,
        thorough: quick * 15,
        strategy: Box::new(move |t| arb_case(w, t)),
        run,
    })
}

const N: u32 = 24_000;

pub fn c04() -> Box<dyn Campaign> {
    camp(
        "histories",
        "histories of scripted requests and notifications against a reference model, directly and \
         through the server; non-trivial: several requests in flight at once",
        N,
        Weights { custom: 0.4, exit: 0, ..BASE },
        |c| judge(c, |i| has(i, &["several in flight"])),
    )
}

pub fn c07() -> Box<dyn Campaign> {
    camp(
        "lifecycle",
        "histories rich in initialize (ok, failing, cancelled, invalid), shutdown and requests in \
         every state; non-trivial: a message before initialization and a message after it or after \
         shutdown",
        N,
        Weights { pre_init: 35, init: 4, shutdown: 2, note: 4, cancel: 2, ..BASE },
        |c| {
            judge(c, |i| {
                has(i, &["message before initialized", "message while initializing"])
                    && has(i, &["message after shutdown", "several in flight", "shutdown"])
            })
        },
    )
}

pub fn c08() -> Box<dyn Campaign> {
    camp(
        "once",
        "histories with many overlapping initialize and shutdown requests; non-trivial: a surplus \
         initialize or shutdown request",
        N,
        Weights { pre_init: 30, init: 8, shutdown: 5, req: 4, note: 1, cancel: 4, odd: 1, open: 7, ..BASE },
        |c| {
            judge(c, |i| {
                has(i, &["initialize while initializing", "surplus initialize", "surplus shutdown"])
            })
        },
    )
}

pub fn c09() -> Box<dyn Campaign> {
    camp(
        "exit",
        "histories with exit notifications in any state and further messages; non-trivial: exit \
         with requests in flight, or messages after exit",
        N,
        Weights { pre_init: 70, init: 3, shutdown: 2, exit: 2, note: 4, cancel: 1, ..BASE },
        |c| judge(c, |i| has(i, &["exit with requests in flight", "message after exit"])),
    )
}

pub fn c10() -> Box<dyn Campaign> {
    camp(
        "cancellation",
        "histories rich in cancellations (in flight, before the first poll, answered, unknown and \
         differently typed ids); non-trivial: a cancellation of a request in flight together with \
         other requests, or of a look-alike id",
        N,
        Weights { pre_init: 90, init: 1, cancel: 10, ids: 9, ..BASE },
        |c| {
            judge(c, |i| {
                has(i, &["cancelled in flight"]) && has(i, &["several in flight"])
                    || has(i, &["cancel of differently typed id"])
            })
        },
    )
}

pub fn c11() -> Box<dyn Campaign> {
    camp(
        "ids",
        "histories over few ids, with duplicates and reuse; non-trivial: a duplicate of an id in \
         flight and a reuse of an answered one",
        N,
        Weights { ids: 4, cancel: 3, req: 14, note: 1, odd: 2, open: 8, ..BASE },
        |c| judge(c, |i| has(i, &["duplicate id"]) && has(i, &["id reused"])),
    )
}

pub fn c20() -> Box<dyn Campaign> {
    camp(
        "custom histories",
        "histories of custom and built-in methods with hijacking registrations; non-trivial: a \
         custom request together with a hijacking registration or a refusal",
        N,
        Weights { pre_init: 70, init: 2, shutdown: 1, custom: 0.8, cancel: 3, ids: 6, hijacks: true, exit: 1, ..BASE },
        |c| {
            judge(c, |i| {
                has(i, &["custom request"])
                    && has(i, &["hijacking registration", "message after shutdown", "duplicate id"])
            })
        },
    )
}

/// The service on real threads.
pub fn threads(mix: races::Mix) -> Box<dyn Campaign> {
    Box::new(C {
        name: "service threads",
        rule: "service futures polled by 2-4 real threads while requests, duplicates, cancellations, gate \
               openings, shutdown and exit race with them; what a race may decide is accepted either way; \
               non-trivial: a cancellation, a duplicate or exit races with a request in flight",
        quick: 2_500,
        thorough: 60_000,
        strategy: Box::new(move |t| races::arb_case(mix, t)),
        run: races::run,
    })
}

const MIX: races::Mix = races::Mix { init: 0.9, inits: 1, cancel: 4, exit: 1, ids: 8 };

pub fn c04_threads() -> Box<dyn Campaign> {
    threads(MIX)
}
pub fn c08_threads() -> Box<dyn Campaign> {
    threads(races::Mix { init: 0.1, inits: 12, ..MIX })
}
pub fn c09_threads() -> Box<dyn Campaign> {
    threads(races::Mix { exit: 12, ..MIX })
}
pub fn c10_threads() -> Box<dyn Campaign> {
    threads(races::Mix { cancel: 12, ..MIX })
}
pub fn c11_threads() -> Box<dyn Campaign> {
    threads(races::Mix { cancel: 2, ids: 3, ..MIX })
}

pub fn c09_exit_threads() -> Box<dyn Campaign> {
    Box::new(C {
        name: "exit threads",
        rule: "exit arriving on one thread while another one finishes the initialize request; the server stays \
               exited; non-trivial: exit with the request in flight",
        quick: 5_000,
        thorough: 100_000,
        strategy: Box::new(races::arb_exit),
        run: races::run,
    })
}
