//! C03: malformed input is reported and never derails later messages.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::c01::{arb_frame, short, Frame};
use crate::campaign::{Campaign, C};
use crate::ensure;
use crate::exec::Sched;
use crate::fail::{Fail, Info, Res};
use crate::gen::*;
use crate::io::OutCtl;
use crate::mock::{Bench, Rec};
use crate::wire::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Seg {
    Good(Frame),
    /// Well-framed body that is not valid JSON (or not UTF-8): exactly one -32700.
    BadBody(Hdr, Vec<u8>),
    /// Well-framed valid JSON that is not a JSON-RPC message: exactly one -32600.
    NotRpc(Hdr, Value),
    /// Bytes that form no valid frame: at most one error per byte.
    Junk(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    segs: Vec<Seg>,
    tail: Option<Vec<u8>>,
    cuts: Cuts,
    conc: u8,
}

fn no_needle(b: &[u8]) -> bool {
    find(b, b"Content-").is_none()
}

/// Text that does not parse as JSON.
fn arb_bad_json() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        // Truncated messages.
        (arb_request(), any::<u16>()).prop_map(|(v, n)| {
            let s = v.to_string();
            let mut cut = 1 + n as usize % (s.len() - 1);
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            s[..cut.max(1)].as_bytes().to_vec()
        }),
        // Trailing junk.
        arb_request().prop_map(|v| format!("{v} x").into_bytes()),
        arb_request().prop_map(|v| format!("{v}{v}").into_bytes()),
        proptest::sample::select(vec![
            "{", "}", "]", "{]", "nul", "tru", "\"", "\"\\x\"", "{\"a\":}", "{\"a\" 1}", "[1,]",
            "{'jsonrpc':'2.0'}", " ", "\r\n", "01", "+1", "1.", "--", "NaN", "\u{feff}{}", "é", "😀",
            "{\"jsonrpc\":\"2.0\",\"method\":", "{\"jsonrpc\":\"2.0\",}", "Conten", "\0",
        ])
        .prop_map(|s| s.as_bytes().to_vec()),
    ]
    .prop_filter("must not be JSON", |b| {
        std::str::from_utf8(b).map(|s| serde_json::from_str::<Value>(s).is_err()).unwrap_or(false)
            && !b.is_empty()
    })
    .boxed()
}

/// Bodies that are not UTF-8.
fn arb_bad_utf8() -> BoxedStrategy<Vec<u8>> {
    (arb_request(), any::<u16>(), proptest::sample::select(vec![
        vec![0xffu8], vec![0xc3], vec![0xe2, 0x82], vec![0xf0, 0x9f, 0x98], vec![0x80],
        vec![0xed, 0xa0, 0x80], vec![0xc0, 0xaf], vec![0xfe, 0xff],
    ]))
        .prop_map(|(v, at, bad)| {
            let mut s = v.to_string().into_bytes();
            let p = at as usize % (s.len() + 1);
            s.splice(p..p, bad);
            s
        })
        .prop_filter("must not be UTF-8", |b| std::str::from_utf8(b).is_err())
        .boxed()
}

/// Valid JSON that is not a JSON-RPC message.
fn arb_not_rpc() -> BoxedStrategy<Value> {
    prop_oneof![
        2 => arb_scalar(),
        1 => arb_small(),
        // No or wrong version.
        2 => (arb_request(), prop::option::of(proptest::sample::select(vec![
            json!("1.0"), json!("2"), json!(""), json!(2.0), json!(2), json!(null), json!(["2.0"]),
            json!("2.0 "), json!("2.00"), json!(true),
        ]))).prop_map(|(mut v, ver)| {
            match ver {
                None => { v.as_object_mut().unwrap().remove("jsonrpc"); }
                Some(x) => v["jsonrpc"] = x,
            }
            v
        }),
        1 => (arb_response(), proptest::sample::select(vec![json!("1.0"), json!(2), json!(null)]))
            .prop_map(|(mut v, x)| { v["jsonrpc"] = x; v }),
        // Ids and method names of the wrong type.
        2 => (arb_request(), proptest::sample::select(vec![
            json!(1.5), json!(true), json!([1]), json!({"a": 1}), json!([]), json!(-0.5),
        ])).prop_map(|(mut v, x)| { v["id"] = x; v }),
        1 => (arb_request(), proptest::sample::select(vec![
            json!(1), json!(null), json!(true), json!(["a"]), json!({}),
        ])).prop_map(|(mut v, x)| { v["method"] = x; v }),
        // Batches.
        1 => prop::collection::vec(arb_request(), 0..3).prop_map(Value::Array),
    ]
    .prop_filter("must not be a JSON-RPC message", |v| !could_be_rpc(v))
    .boxed()
}

/// Conservative: anything a lenient reader could take for a message (or a tuple form of one).
fn could_be_rpc(v: &Value) -> bool {
    match v {
        Value::Object(m) => {
            let id_ok = match m.get("id") {
                None => true,
                Some(i) => i.is_i64() || i.is_string() || i.is_null(),
            };
            let method_ok = m.get("method").map_or(true, Value::is_string);
            m.get("jsonrpc") == Some(&json!("2.0")) && id_ok && method_ok
        }
        Value::Array(a) => a.first() == Some(&json!("2.0")),
        _ => false,
    }
}

fn arb_junk() -> BoxedStrategy<Vec<u8>> {
    let token = prop_oneof![
        proptest::sample::select(vec![
            "\r\n", "\r\n\r\n", "\n", "\n\n", "\r", ": ", ":", " ", "\t", "X: y", "X: y\r\n", "foo",
            "foobar", "{}", "{\"jsonrpc\":\"2.0\"}", "GET / HTTP/1.1", "GET / HTTP/1.1\r\n",
            "Accept: a\r\nHost: b\r\nVia: c\r\n", "A: b\r\nC: d\r\n\r\n", "Con", "Content", "ntent-Length: 3",
            "Length: 5\r\n\r\n", "content-length: 5\r\n\r\n", "CONTENT-LENGTH: 2\r\n\r\n{}", "\0", "é", "😀",
        ])
        .prop_map(|s| s.as_bytes().to_vec()),
        prop::collection::vec(any::<u8>(), 1..6),
        "[ -~]{1,10}".prop_map(String::into_bytes),
        Just(vec![0xffu8]),
    ];
    prop::collection::vec(token, 1..6)
        .prop_map(|v| v.concat())
        .prop_filter("must not contain the needle", |b| no_needle(b))
        .boxed()
}

/// A header block that is invalid, with an optional body without the needle.
fn arb_bad_header() -> BoxedStrategy<Vec<u8>> {
    let body = prop_oneof![
        2 => Just(String::new()),
        1 => Just("{\"a\":1}".to_string()),
        1 => "[a-z {}\":]{1,20}",
    ];
    let block = prop_oneof![
        // Invalid lengths.
        3 => proptest::sample::select(vec![
            "18446744073709551616", "abc", "-5", "", "5 5", "0x10", "5.0", "99999999999999999999999999", "1e3", "5;", "é", "1,2", "- 1",
        ]).prop_map(|v| format!("Content-Length: {v}\r\n\r\n").into_bytes()),
        1 => Just(b"Content-Length: \xff\xfe\r\n\r\n".to_vec()),
        // Invalid media types.
        2 => (proptest::sample::select(vec![
            "application/vscode-jsonrpc; charset=utf-16", "application/vscode-jsonrpc; charset=latin1",
            "foo; charset=", "foo; charset=utf-88", "a;charset=ascii",
        ]), any::<bool>()).prop_map(|(v, before)| {
            // With its seven-byte body, so that resynchronizing on either header is harmless.
            if before {
                format!("Content-Type: {v}\r\nContent-Length: 7\r\n\r\n{{\"a\":1}}").into_bytes()
            } else {
                format!("Content-Length: 7\r\nContent-Type: {v}\r\n\r\n{{\"a\":1}}").into_bytes()
            }
        }),
        1 => Just(b"Content-Type: \xff\r\nContent-Length: 7\r\n\r\n{\"a\":1}".to_vec()),
        // Length header missing.
        2 => proptest::sample::select(vec![
            "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n",
            "Content-LengthX: 5\r\n\r\n", "Foo: bar\r\n\r\n",
            "Content-Length-: 1\r\n\r\n", "A: b\r\nC: d\r\n\r\n", "Foo: Content-Length\r\n\r\n",
        ]).prop_map(|s| s.as_bytes().to_vec()),
        // Not header syntax at all.
        2 => proptest::sample::select(vec![
            "Content Length: 5\r\n\r\n", "\u{1}\r\n\r\n", "Foo\r\n\r\n", ": x\r\n\r\n", "A: b\r\n c\r\n\r\n",
            "A: 1\r\nB: 2\r\nC: 3\r\n\r\n", "(x): 1\r\n\r\n", "A: b\u{0}\r\n\r\n",
        ]).prop_map(|s| s.as_bytes().to_vec()),
    ];
    (block, body).prop_map(|(mut b, t)| { b.extend(t.as_bytes()); b }).boxed()
}

fn arb_seg(bodies_only: bool) -> BoxedStrategy<Seg> {
    let good = arb_frame().prop_map(Seg::Good);
    let bad = prop_oneof![
        (arb_hdr(), arb_bad_json()).prop_map(|(h, b)| Seg::BadBody(h, b)),
        (arb_hdr(), arb_bad_utf8()).prop_map(|(h, b)| Seg::BadBody(h, b)),
        (arb_hdr(), arb_not_rpc()).prop_map(|(h, v)| Seg::NotRpc(h, v)),
    ];
    if bodies_only {
        prop_oneof![2 => good, 3 => bad].boxed()
    } else {
        prop_oneof![
            2 => good,
            2 => bad,
            2 => arb_junk().prop_map(Seg::Junk),
            3 => arb_bad_header().prop_map(Seg::Junk),
        ]
        .boxed()
    }
}

/// The start of a frame whose body never arrives in full.
fn arb_tail() -> BoxedStrategy<Vec<u8>> {
    let len = prop_oneof![
        2 => proptest::sample::select(vec![
            usize::MAX, usize::MAX - 1, usize::MAX - 4096, isize::MAX as usize, isize::MAX as usize + 1,
            1 << 62, 1 << 50, u32::MAX as usize, 1 << 31,
        ]),
        1 => 100usize..100_000,
        1 => (1usize << 40)..usize::MAX,
    ];
    (len, prop_oneof![Just(&b""[..]), Just(&b"{}"[..]), Just(&b"{\"jsonrpc\":\"2.0\",\"method\":\"a\"}"[..])])
        .prop_map(|(len, body)| [format!("Content-Length: {len}\r\n\r\n").as_bytes(), body].concat())
        .boxed()
}

pub fn strategy(bodies_only: bool) -> BoxedStrategy<Case> {
    let tail = prop_oneof![4 => Just(None), 1 => arb_tail().prop_map(Some)];
    (prop::collection::vec(arb_seg(bodies_only), 1..7), arb_frame(), tail, arb_cuts(), 1u8..5)
        .prop_map(|(mut segs, last, tail, cuts, conc)| {
            segs.push(Seg::Good(Frame { pad: 0, ..last }));
            Case { segs, tail, cuts, conc }
        })
        .boxed()
}

pub fn run(case: &Case) -> Res {
    const T: [&str; 1] = ["C03"];
    let mut raw = Vec::new();
    let mut want = Vec::new();
    let (mut n_parse, mut n_invalid, mut junk) = (0usize, 0usize, 0usize);
    for s in &case.segs {
        match s {
            Seg::Good(f) => {
                raw.push(f.bytes());
                want.extend(f.value());
            }
            Seg::BadBody(h, b) => {
                raw.push(frame_with(*h, b));
                n_parse += 1;
            }
            Seg::NotRpc(h, v) => {
                raw.push(frame_with(*h, v.to_string().as_bytes()));
                n_invalid += 1;
            }
            Seg::Junk(b) => {
                junk += b.len();
                raw.push(b.clone());
            }
        }
    }
    if let Some(t) = &case.tail {
        raw.push(t.clone());
    }
    if junk > 0 {
        // After garbage, the next message starts at `Content-Length`: what precedes it is garbage.
        for (s, r) in case.segs.iter().zip(&raw) {
            if !matches!(s, Seg::Junk(_)) {
                junk += find(r, b"Content-Length").unwrap_or(0);
            }
        }
    }
    // The truncated frame may be reported; after garbage it may also be taken for more of it.
    let garbage = junk > 0;
    junk += case.tail.as_ref().map_or(0, |t| if garbage { t.len() } else { 1 });
    let data = raw.concat();
    let pieces = case.cuts.split(&data, &super::c01::marks(&raw));
    let mut b = Bench::new(Some(case.conc as usize), OutCtl::plain(), Sched::default(), Rec::default());
    b.out.set_limit(200 * (data.len() + 100));
    b.exec.run()?;
    for p in &pieces {
        b.input.data(p.to_vec());
        b.exec.run()?;
        ensure!(!b.out.over_limit(), T, "error responses without end");
    }
    // Everything is in: all good messages must have been delivered, without waiting for more.
    let log = b.rec.log();
    for (i, w) in want.iter().enumerate() {
        match log.get(i) {
            Some(g) => ensure!(g == w, T, "message {i} delivered as {} instead of {}", short(g), short(w)),
            None => ensure!(false, T, "well-formed message {i} of {} was not delivered: {}", want.len(), short(w)),
        }
    }
    ensure!(log.len() == want.len(), T, "a malformed part was delivered as a message: {}", short(&log[want.len()]));
    b.input.eof();
    b.exec.run()?;
    ensure!(!b.out.over_limit(), T, "error responses without end");
    ensure!(b.done(), ["C03", "C17"], "the server did not return at the end of the input");
    ensure!(b.rec.log().len() == want.len(), T, "a malformed part was delivered as a message at the end of the input");

    let out = parse_all(&b.out.flushed()).map_err(|e| Fail::new(&["C03", "C02"], e))?;
    let mut codes = Vec::new();
    for v in &out {
        let code = v["error"]["code"].as_i64();
        ensure!(
            v.get("id") == Some(&Value::Null) && code.is_some() && v["jsonrpc"] == "2.0",
            T,
            "malformed input was answered with {}",
            short(v)
        );
        codes.push(code.unwrap());
    }
    let count = |c: i64| codes.iter().filter(|x| **x == c).count();
    ensure!(codes.iter().all(|c| *c == -32700 || *c == -32600), T, "unexpected codes {codes:?}");
    ensure!(count(-32700) >= n_parse, T, "{n_parse} bodies were not JSON or UTF-8, but codes are {codes:?}");
    ensure!(count(-32600) >= n_invalid, T, "{n_invalid} bodies were not JSON-RPC, but codes are {codes:?}");
    ensure!(
        codes.len() <= n_parse + n_invalid + junk,
        T,
        "{} errors for {n_parse}+{n_invalid} bad bodies and {junk} junk bytes",
        codes.len()
    );
    let mut info = Info {
        nontrivial: n_parse + n_invalid + junk > 0 && !want.is_empty(),
        ..Info::default()
    };
    info.class(n_parse > 0, "bad_body");
    info.class(n_invalid > 0, "not_rpc");
    info.class(garbage, "junk_or_bad_header");
    info.class(pieces.len() > 1, "fragmented");
    info.class(case.tail.is_some(), "truncated frame at the end");
    Ok(info)
}

/// Arbitrary byte soup: the server stays well-behaved whatever arrives.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Soup {
    parts: Vec<Vec<u8>>,
    cuts: Cuts,
}

fn soup(_: bool) -> BoxedStrategy<Soup> {
    let part = prop_oneof![
        2 => proptest::sample::select(vec![
            "Content-Length", "Content-Length: ", "Content-Length: 2\r\n\r\n{}", "Content-Length: 0\r\n\r\n",
            "Content-Type: ", "charset=utf-8", ": ", "\r\n", "\r\n\r\n", "5", "12", "{}", "Content-Length: 3\r\n\r\n",
            "Content-Length: 1000\r\n\r\n", "{\"jsonrpc\":\"2.0\",\"method\":\"a\"}", "Content-L", "ength: 4",
        ]).prop_map(|s| s.as_bytes().to_vec()),
        1 => arb_junk(),
        1 => arb_bad_header(),
        1 => arb_frame().prop_map(|f| Frame { pad: 0, ..f }.bytes()),
        1 => prop::collection::vec(any::<u8>(), 1..10),
    ];
    (prop::collection::vec(part, 1..14), arb_cuts())
        .prop_map(|(parts, cuts)| Soup { parts, cuts })
        .boxed()
}

fn run_soup(case: &Soup) -> Res {
    const T: [&str; 1] = ["C03"];
    let data = case.parts.concat();
    let marks: Vec<usize> = case
        .parts
        .iter()
        .scan(0, |s, p| {
            *s += p.len();
            Some(*s)
        })
        .collect();
    let pieces = case.cuts.split(&data, &marks);
    let mut b = Bench::new(Some(2), OutCtl::plain(), Sched::default(), Rec::default());
    b.out.set_limit(200 * (data.len() + 100));
    b.exec.run()?;
    for p in &pieces {
        b.input.data(p.to_vec());
        b.exec.run()?;
        ensure!(!b.out.over_limit(), T, "error responses without end");
        ensure!(!b.done() && b.input.consumed(), T, "the server stopped reading before the end of the input");
    }
    b.input.eof();
    b.exec.run()?;
    ensure!(!b.out.over_limit(), T, "error responses without end");
    ensure!(b.done(), ["C03", "C17"], "the server did not return at the end of the input");
    let out = parse_all(&b.out.flushed()).map_err(|e| Fail::new(&["C03", "C02"], e))?;
    ensure!(out.len() <= data.len(), T, "{} errors for {} bytes", out.len(), data.len());
    for v in &out {
        ensure!(
            v.get("id") == Some(&Value::Null) && v["error"]["code"].is_i64(),
            T,
            "malformed input was answered with {}",
            short(v)
        );
    }
    let delivered = b.rec.log().len();
    let mut info = Info { nontrivial: !out.is_empty(), ..Info::default() };
    info.class(delivered > 0, "some_delivered");
    info.class(out.len() > 2, "several_errors");
    Ok(info)
}

pub fn campaigns() -> Vec<Box<dyn Campaign>> {
    vec![
        Box::new(C {
            name: "bad_bodies",
            rule: "valid frames interleaved with frames whose bodies are not UTF-8, not JSON or not \
                   JSON-RPC, fragmented; exact error counts; non-trivial: at least one malformed part \
                   and one valid message",
            quick: 16_000,
            thorough: 250_000,
            strategy: Box::new(|_| strategy(true)),
            run,
        }),
        Box::new(C {
            name: "mixed_garbage",
            rule: "as bad_bodies, plus invalid header blocks and garbage between frames",
            quick: 24_000,
            thorough: 400_000,
            strategy: Box::new(|_| strategy(false)),
            run,
        }),
        Box::new(C {
            name: "byte_soup",
            rule: "concatenations of header fragments, tokens, garbage and frames; the server must \
                   keep reading, bound its errors and return at EOF; non-trivial: at least one error reported",
            quick: 24_000,
            thorough: 400_000,
            strategy: Box::new(soup),
            run: run_soup,
        }),
    ]
}
