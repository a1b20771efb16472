//! C27: watching a server makes no difference.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::c26::{arb_hist, one, transcript, Fate, Hist};
use super::{c03, c05, c06, c16, c20, c23};
use crate::campaign::{execute_with, Campaign, Outcome, C};
use crate::ends;
use crate::fail::{Fail, Info, Res};
use crate::io::recording;
use crate::watch::{watched, Watch, NOT};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Any {
    Hist(Hist),
    Progress(c16::Case),
    Ending(ends::Case),
    Strict(c23::Case),
    Malformed(c03::Case),
    Dispatch(c05::Case),
    Methods(c06::Case),
    Registrations(c20::Case),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    what: Any,
    level: u8,
    look: bool,
}

fn simply<T>(case: &T, run: fn(&T) -> Res) -> Fate {
    let mut outs = vec![];
    let outcome = recording(&mut outs, || execute_with(|| run(case)));
    Fate { outcome, outs }
}

fn play(c: &Any) -> Fate {
    match c {
        Any::Hist(h) => one(h),
        Any::Progress(p) => simply(p, c16::run),
        Any::Ending(p) => simply(p, ends::run),
        Any::Strict(p) => simply(p, c23::run),
        Any::Malformed(p) => simply(p, c03::run),
        Any::Dispatch(p) => simply(p, c05::run),
        Any::Methods(p) => simply(p, c06::run),
        Any::Registrations(p) => simply(p, c20::run),
    }
}

fn run(c: &Case) -> Res {
    let (plain, n, _) = watched(NOT, || play(&c.what));
    if n > 0 {
        panic!("logged while it should not");
    }
    let plain_info = match plain.outcome {
        Outcome::Pass(i) => i,
        Outcome::Fail(f) => return Err(Fail::new(&[], format!("fails without being watched: {}", f.msg))),
        Outcome::Broken(m) => panic!("{m}"),
    };
    let w = Watch { level: Watch::level(c.level as u64), look: c.look };
    let (seen, events, looks) = watched(w, || play(&c.what));
    match seen.outcome {
        Outcome::Pass(_) => {}
        Outcome::Fail(f) => {
            return Err(Fail::new(&["C27"], format!("while watched ({w:?}), but not otherwise: {}", f.msg)))
        }
        Outcome::Broken(m) => panic!("{m}"),
    }
    let (a, b) = (transcript(&plain.outs), transcript(&seen.outs));
    if a != b {
        // Is it determined at all? (The order in which exit aborts requests is not, and an output that
        // fails cuts it off somewhere.)
        let same = |w: Watch| transcript(&watched(w, || play(&c.what)).0.outs) == a;
        if (0..20).all(|_| same(NOT) && !same(w)) {
            let only = |x: &[String], y: &[String]| -> Vec<String> {
                x.iter().filter(|m| !y.contains(m)).take(4).cloned().collect()
            };
            return Err(Fail::new(
                &["C27"],
                format!("while watched ({w:?}) it writes {:?}, otherwise {:?}", only(&b, &a), only(&a, &b)),
            ));
        }
    }
    let mut info = Info { nontrivial: (plain_info.nontrivial || plain_info.classes.len() >= 4) && events + looks > 0, ..Info::default() };
    info.class(events > 0, "something was logged");
    info.class(events > 20, "much was logged");
    info.class(looks > 0, "values were formatted");
    info.class(!a.is_empty(), "output compared");
    info.class(matches!(c.what, Any::Progress(_)), "progress");
    Ok(info)
}

fn strategy(t: bool) -> BoxedStrategy<Case> {
    let what = prop_oneof![
        8 => arb_hist().prop_map(Any::Hist),
        1 => c16::strategy().prop_map(Any::Progress),
        2 => ends::arb_case(ends::Mix { fault: 0.4, end: [3, 3, 3] }, t).prop_map(Any::Ending),
        2 => c23::strategy(t).prop_map(Any::Strict),
        2 => c03::strategy(false).prop_map(Any::Malformed),
        1 => c05::strategy(t).prop_map(Any::Dispatch),
        1 => c06::strategy(t).prop_map(Any::Methods),
        1 => c20::strategy(t).prop_map(Any::Registrations),
    ];
    (what, prop_oneof![2 => Just(5u8), 3 => 0..6u8], proptest::bool::weighted(0.6))
        .prop_map(|(what, level, look)| Case { what, level: if look { level } else { level.max(1) }, look })
        .boxed()
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "watched",
        rule: "a history over a server, executed unwatched and then again with a subscriber that formats every \
               event up to a generated level, and/or with the crate's values (service, builder, socket, client \
               handle, progress, requests, responses, errors) formatted between and within calls; the outcome \
               and all that is written must be the same; non-trivial: the history covers four or more of the situations its own campaign counts or meets its own rule, with something \
               logged or formatted",
        quick: 6_000,
        thorough: 60_000,
        strategy: Box::new(strategy),
        run,
    })]
}
