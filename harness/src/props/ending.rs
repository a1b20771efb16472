//! C17, C18: the end of a server.

use crate::campaign::{Campaign, C};
use crate::ends::{arb_case, run, Case, Mix};
use crate::fail::{Info, Res};

fn has(i: &Info, any: &[&str]) -> bool {
    any.iter().any(|n| i.classes.contains(n))
}

fn judge(case: &Case, rule: fn(&Info) -> bool) -> Res {
    let mut info = run(case)?;
    info.nontrivial = rule(&info);
    Ok(info)
}

pub fn c17() -> Vec<Box<dyn Campaign>> {
    let mix = Mix { fault: 0.0, end: [3, 0, 3] };
    vec![Box::new(C {
        name: "endings",
        rule: "EOF, exit, exit and a further message at any point of a history, with handlers waiting at gates, \
               queueing for slots or sending messages into a slow or held output that is released later; \
               non-trivial: handlers are unfinished or the output is held when the end comes",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(move |t| arb_case(mix, t)),
        run: |c| {
            judge(c, |i| has(i, &["handlers unfinished at the end", "output held at the end"]))
        },
    })]
}

pub fn c18() -> Vec<Box<dyn Campaign>> {
    let mix = Mix { fault: 0.7, end: [2, 4, 1] };
    vec![Box::new(C {
        name: "faults",
        rule: "the same histories with read errors of every kind at any byte and write, flush and close errors \
               and zero-length writes at any byte or call; non-trivial: the input or output really failed",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(move |t| arb_case(mix, t)),
        run: |c| judge(c, |i| has(i, &["output failure", "input failure"])),
    })]
}
