//! C01: inbound framing under arbitrary fragmentation.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::campaign::{Campaign, C};
use crate::exec::Sched;
use crate::fail::{Info, Res};
use crate::gen::*;
use crate::io::{InItem, OutCtl};
use crate::mock::{Bench, Rec};
use crate::wire::*;
use crate::ensure;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Frame {
    pub hdr: Hdr,
    /// `None` = zero-length message.
    pub msg: Option<Value>,
    pub style: Style,
    /// Adds a filler of this many bytes to the payload.
    pub pad: u32,
}

impl Frame {
    pub fn value(&self) -> Option<Value> {
        let mut v = self.msg.clone()?;
        if self.pad > 0 {
            let key = if v.get("method").is_some() { "params" } else { "result" };
            if key == "params" || v.get("result").is_some() {
                v[key] = json!({ "pad": filler(self.pad) });
            }
        }
        Some(v)
    }
    pub fn body(&self) -> Vec<u8> {
        match self.value() {
            None => vec![],
            Some(v) => render(&v, self.style).into_bytes(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        frame_with(self.hdr, &self.body())
    }
}

pub fn arb_frame() -> BoxedStrategy<Frame> {
    let msg = prop_oneof![
        2 => Just(None),
        6 => arb_request().prop_map(Some),
        3 => arb_response().prop_map(Some),
    ];
    (arb_hdr(), msg, proptest::sample::select(STYLES), arb_size())
        .prop_map(|(hdr, msg, style, pad)| Frame { hdr, msg, style, pad })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    frames: Vec<Frame>,
    cuts: Cuts,
    /// Queue all pieces before running instead of settling after each.
    burst: bool,
    /// Insert an extra not-ready read before pieces.
    pends: bool,
    ready_pends: Vec<u8>,
    conc: u8,
    spurious: bool,
}

pub fn strategy(_: bool) -> BoxedStrategy<Case> {
    (
        prop::collection::vec(arb_frame(), 1..7),
        arb_cuts(),
        prop::bool::weighted(0.25),
        prop::bool::weighted(0.3),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(0u8..3, 1..4)],
        1u8..6,
        prop::bool::weighted(0.15),
    )
        .prop_map(|(frames, cuts, burst, pends, ready_pends, conc, spurious)| Case {
            frames,
            cuts,
            burst,
            pends,
            ready_pends,
            conc,
            spurious,
        })
        .boxed()
}

/// Offsets worth cutting at: frame start, end of header block, middles and ends of bodies.
pub fn marks(frames: &[Vec<u8>]) -> Vec<usize> {
    let mut v = Vec::new();
    let mut off = 0;
    for f in frames {
        v.push(off);
        v.push(off + 14);
        if let Some(h) = find(f, b"\r\n\r\n") {
            v.push(off + h + 2);
            v.push(off + h + 4);
            if let Some(p) = f[h..].iter().position(|b| *b >= 0x80) {
                v.push(off + h + p + 1);
            }
        }
        off += f.len();
    }
    v.push(off);
    v
}

fn run(case: &Case) -> Res {
    crate::turns::alone(history(case))
}

pub async fn history(case: &Case) -> Res {
    let raw: Vec<Vec<u8>> = case.frames.iter().map(|f| f.bytes()).collect();
    let data: Vec<u8> = raw.concat();
    // (end offset, message) of every non-empty frame.
    let mut want = Vec::new();
    let mut off = 0;
    for (f, r) in case.frames.iter().zip(&raw) {
        off += r.len();
        if let Some(v) = f.value() {
            want.push((off, v));
        }
    }
    let pieces = case.cuts.split(&data, &marks(&raw));

    let rec = Rec::default();
    rec.0.lock().unwrap().ready_pends = case.ready_pends.iter().copied().collect();
    let mut b = Bench::new(Some(case.conc as usize), OutCtl::plain(), Sched::default(), rec);
    b.exec.run()?;
    let mut fed = 0;
    for p in &pieces {
        crate::turns::pause().await;
        if case.pends {
            b.input.push(InItem::Pend);
        }
        b.input.data(p.to_vec());
        fed += p.len();
        if case.burst {
            continue;
        }
        b.exec.run()?;
        if case.spurious {
            b.exec.spurious();
            b.exec.run()?;
        }
        check(&b, &want, fed)?;
    }
    b.exec.run()?;
    check(&b, &want, fed)?;
    b.input.eof();
    b.exec.run()?;
    check(&b, &want, fed)?;
    ensure!(b.done(), ["C01", "C17"], "the server did not return after the end of a well-formed input");
    let out = b.out.written();
    ensure!(out.is_empty(), ["C01", "C04"], "output for well-formed input without replies: {:?}", lossy(&out));

    let mut info = Info { nontrivial: want.len() >= 2 && pieces.len() >= 2, ..Info::default() };
    info.class(case.frames.iter().any(|f| f.msg.is_none()), "empty_frame");
    info.class(data.len() > 8192, "beyond_8k");
    info.class(data.iter().any(|b| *b >= 0x80), "multibyte");
    info.class(case.frames.iter().any(|f| f.hdr != Hdr::Plain), "header_variant");
    info.class(pieces.len() > 50, "many_pieces");
    info.class(case.burst, "burst");
    Ok(info)
}

fn check(b: &Bench, want: &[(usize, Value)], fed: usize) -> Result<(), crate::fail::Fail> {
    let log = b.rec.log();
    let n = want.iter().filter(|(end, _)| *end <= fed).count();
    for (i, got) in log.iter().enumerate() {
        let Some((_, w)) = want.get(i) else {
            ensure!(false, ["C01"], "message delivered that was never sent: {got}");
            unreachable!()
        };
        ensure!(got == w, ["C01"], "message {i} was delivered as {} instead of {}", short(got), short(w));
    }
    ensure!(
        log.len() == n,
        ["C01"],
        "{} messages delivered after {fed} bytes, {n} were complete",
        log.len()
    );
    Ok(())
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() <= 300 {
        s
    } else {
        let mut c = 300;
        while !s.is_char_boundary(c) {
            c -= 1;
        }
        format!("{}... ({} bytes)", &s[..c], s.len())
    }
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![Box::new(C {
        name: "fragmentation",
        rule: "1-6 frames (requests, notifications, responses, empty) with header and layout \
               variants, split by generated cut points, delivered set compared after every piece; \
               non-trivial: at least two messages and at least two pieces",
        quick: 24_000,
        thorough: 400_000,
        strategy: Box::new(strategy),
        run,
    })]
}
