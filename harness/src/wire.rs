//! Framing, written independently of the code under test.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// Header block of a well-formed frame.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Hdr {
    Plain,
    /// `Content-Length:N` without the space.
    Tight,
    TypeAfter,
    TypeBefore,
    TypeAfterUtf8,
    TypeBeforeUtf8,
    TypeExtraParam,
    TypeSpaces,
    ZeroPadded,
}

pub const HDRS: &[Hdr] = &[
    Hdr::Plain,
    Hdr::Tight,
    Hdr::TypeAfter,
    Hdr::TypeBefore,
    Hdr::TypeAfterUtf8,
    Hdr::TypeBeforeUtf8,
    Hdr::TypeExtraParam,
    Hdr::TypeSpaces,
    Hdr::ZeroPadded,
];

pub fn arb_hdr() -> impl Strategy<Value = Hdr> {
    prop_oneof![4 => Just(Hdr::Plain), 3 => proptest::sample::select(HDRS)]
}

pub fn header(h: Hdr, len: usize) -> String {
    let cl = format!("Content-Length: {len}\r\n");
    let ct = |v: &str| format!("Content-Type: {v}\r\n");
    let utf_8 = "application/vscode-jsonrpc; charset=utf-8";
    let utf8 = "application/vscode-jsonrpc; charset=utf8";
    match h {
        Hdr::Plain => format!("{cl}\r\n"),
        Hdr::Tight => format!("Content-Length:{len}\r\n\r\n"),
        Hdr::TypeAfter => format!("{cl}{}\r\n", ct(utf_8)),
        Hdr::TypeBefore => format!("{}{cl}\r\n", ct(utf_8)),
        Hdr::TypeAfterUtf8 => format!("{cl}{}\r\n", ct(utf8)),
        Hdr::TypeBeforeUtf8 => format!("{}{cl}\r\n", ct(utf8)),
        Hdr::TypeExtraParam => {
            format!("{cl}{}\r\n", ct("application/vscode-jsonrpc; foo=bar; charset=utf-8"))
        }
        Hdr::TypeSpaces => format!("{}{cl}\r\n", ct("application/vscode-jsonrpc;charset=utf-8")),
        Hdr::ZeroPadded => format!("Content-Length: 00{len}\r\n\r\n"),
    }
}

pub fn frame_with(h: Hdr, body: &[u8]) -> Vec<u8> {
    let mut v = header(h, body.len()).into_bytes();
    v.extend_from_slice(body);
    v
}

pub fn frame(body: &[u8]) -> Vec<u8> {
    frame_with(Hdr::Plain, body)
}

pub fn frame_value(v: &Value) -> Vec<u8> {
    frame(v.to_string().as_bytes())
}

/// How a JSON text is laid out.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Style {
    Compact,
    Pretty,
    /// Every non-ASCII character as \u escapes.
    Escaped,
    /// Whitespace around the value.
    Padded,
    /// Object members in reverse order.
    Reversed,
}

pub const STYLES: &[Style] =
    &[Style::Compact, Style::Pretty, Style::Escaped, Style::Padded, Style::Reversed];

pub fn render(v: &Value, s: Style) -> String {
    match s {
        Style::Compact => v.to_string(),
        Style::Pretty => serde_json::to_string_pretty(v).unwrap().replace('\n', "\r\n"),
        Style::Padded => format!(" \n\t{v}\r\n "),
        Style::Escaped => {
            let mut out = String::new();
            for c in v.to_string().chars() {
                if c.is_ascii() {
                    out.push(c);
                } else {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        out.push_str(&format!("\\u{u:04x}"));
                    }
                }
            }
            out
        }
        Style::Reversed => match v {
            Value::Object(m) => {
                let mut parts: Vec<String> = m
                    .iter()
                    .map(|(k, v)| format!("{}:{}", Value::from(k.as_str()), v))
                    .collect();
                parts.reverse();
                format!("{{{}}}", parts.join(","))
            }
            _ => v.to_string(),
        },
    }
}

/// Strictly splits output bytes into frames. Returns the bodies and the rest that is not yet a
/// complete frame; the rest must be a prefix of some valid frame.
pub fn parse_frames(mut b: &[u8]) -> Result<(Vec<Value>, Vec<u8>), String> {
    let mut out = Vec::new();
    loop {
        let Some(end) = find(b, b"\r\n\r\n") else {
            check_partial_header(b)?;
            return Ok((out, b.to_vec()));
        };
        let len = content_length(&b[..end])?;
        let body = &b[end + 4..];
        if body.len() < len {
            check_partial_body(body)?;
            return Ok((out, b.to_vec()));
        }
        let text = std::str::from_utf8(&body[..len])
            .map_err(|e| format!("frame body is not UTF-8: {e}"))?;
        let v: Value = serde_json::from_str(text)
            .map_err(|e| format!("frame body of declared length {len} is not JSON: {e}: {text:?}"))?;
        out.push(v);
        b = &body[len..];
    }
}

/// As `parse_frames`, but nothing may be left over.
pub fn parse_all(b: &[u8]) -> Result<Vec<Value>, String> {
    let (v, rest) = parse_frames(b)?;
    if rest.is_empty() {
        Ok(v)
    } else {
        Err(format!("incomplete frame at the end of the output: {:?}", lossy(&rest)))
    }
}

fn content_length(head: &[u8]) -> Result<usize, String> {
    let head = std::str::from_utf8(head).map_err(|_| "header is not UTF-8".to_string())?;
    let mut len = None;
    for line in head.split("\r\n") {
        let (name, value) =
            line.split_once(':').ok_or_else(|| format!("bad header line {line:?}"))?;
        let value = value.trim();
        if name.eq_ignore_ascii_case("content-length") {
            if len.is_some() || value.is_empty() || !value.bytes().all(|c| c.is_ascii_digit()) {
                return Err(format!("bad Content-Length header in {head:?}"));
            }
            len = Some(value.parse::<usize>().map_err(|e| e.to_string())?);
        } else if !name.eq_ignore_ascii_case("content-type") {
            return Err(format!("unexpected header {line:?}"));
        }
    }
    len.ok_or_else(|| format!("no Content-Length in {head:?}"))
}

fn check_partial_header(b: &[u8]) -> Result<(), String> {
    let text = lossy(b);
    let line = text.split("\r\n").next().unwrap_or("").to_ascii_lowercase();
    let ok = ["content-length:", "content-type:"]
        .iter()
        .any(|n| line.starts_with(n) || n.starts_with(&line));
    if ok {
        Ok(())
    } else {
        Err(format!("output does not continue with a frame header: {text:?}"))
    }
}

fn check_partial_body(b: &[u8]) -> Result<(), String> {
    if b.is_empty() || b[0] == b'{' {
        Ok(())
    } else {
        Err(format!("frame body does not start an object: {:?}", lossy(b)))
    }
}

pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned()
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

/// How the input bytes are split into reads.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cuts {
    Whole,
    Bytewise,
    /// Piece sizes, repeated.
    Sizes(Vec<u16>),
    /// Cut points as positions modulo the total length.
    At(Vec<u32>),
    /// Cut points relative to interesting offsets: (which one, delta).
    Near(Vec<(u16, i8)>),
}

pub fn arb_cuts() -> impl Strategy<Value = Cuts> {
    prop_oneof![
        2 => Just(Cuts::Whole),
        2 => Just(Cuts::Bytewise),
        3 => prop::collection::vec(1u16..200, 1..5).prop_map(Cuts::Sizes),
        1 => prop::collection::vec(4000u16..17000, 1..3).prop_map(Cuts::Sizes),
        3 => prop::collection::vec(any::<u32>(), 1..12).prop_map(Cuts::At),
        4 => prop::collection::vec((any::<u16>(), -3i8..4), 1..12).prop_map(Cuts::Near),
    ]
}

impl Cuts {
    /// Splits `data`; `marks` are the interesting offsets (frame starts, header ends, ...).
    pub fn split<'a>(&self, data: &'a [u8], marks: &[usize]) -> Vec<&'a [u8]> {
        let n = data.len();
        let mut at: Vec<usize> = match self {
            Cuts::Whole => vec![],
            Cuts::Bytewise if n <= 4000 => (1..n).collect(),
            Cuts::Bytewise => (1..n).step_by(n / 2000).collect(),
            Cuts::Sizes(s) => {
                let mut v = Vec::new();
                let mut pos = 0usize;
                let min = n / 4000;
                for s in s.iter().cycle() {
                    pos += (*s as usize).max(1).max(min);
                    if pos >= n {
                        break;
                    }
                    v.push(pos);
                }
                v
            }
            Cuts::At(v) => v.iter().map(|p| *p as usize % n.max(1)).collect(),
            Cuts::Near(v) => v
                .iter()
                .filter(|_| !marks.is_empty())
                .map(|(m, d)| {
                    (marks[*m as usize % marks.len()] as i64 + *d as i64).clamp(0, n as i64) as usize
                })
                .collect(),
        };
        at.sort();
        at.dedup();
        let mut out = Vec::new();
        let mut prev = 0;
        for p in at {
            if p > prev && p < n {
                out.push(&data[prev..p]);
                prev = p;
            }
        }
        if prev < n {
            out.push(&data[prev..]);
        }
        out
    }
}

/// Compares JSON values as multisets; describes the difference.
pub fn multiset_diff(got: &[Value], want: &[Value]) -> Option<String> {
    let mut g: Vec<String> = got.iter().map(|v| v.to_string()).collect();
    let mut w: Vec<String> = want.iter().map(|v| v.to_string()).collect();
    g.sort();
    w.sort();
    if g == w {
        return None;
    }
    let missing = minus(&w, &g);
    let extra = minus(&g, &w);
    Some(format!("missing {missing:?}, unexpected {extra:?}"))
}

fn minus(a: &[String], b: &[String]) -> Vec<String> {
    let mut b: Vec<&String> = b.iter().collect();
    let mut out = Vec::new();
    for x in a {
        if let Some(p) = b.iter().position(|y| *y == x) {
            b.swap_remove(p);
        } else {
            let mut s = x.clone();
            if s.len() > 400 {
                let mut cut = 400;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            out.push(s);
        }
    }
    out.truncate(6);
    out
}
