//! Strategies shared by the campaigns.

use proptest::prelude::*;
use serde_json::{json, Map, Value};

/// Strings: empty, ASCII, escapes, multi-byte, control characters.
pub fn arb_string() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        4 => "[a-zA-Z0-9_/.$ -]{1,12}",
        2 => "[\"\\\\/\u{8}\u{c}\n\r\t\u{0}\u{1f}\u{7f}]{1,6}",
        3 => "[aé€😀\u{10ffff}\u{feff}\u{2028}ß漢]{1,8}",
        1 => any::<String>(),
        1 => Just("Content-Length: 5\r\n\r\nhello".to_string()),
    ]
    .boxed()
}

/// Integers that survive JSON unchanged.
pub fn arb_int() -> BoxedStrategy<i64> {
    prop_oneof![
        4 => -5i64..20,
        1 => proptest::sample::select(vec![
            i64::MIN, i64::MAX, i32::MIN as i64, i32::MAX as i64, u32::MAX as i64,
            -1, 0, 1, 1 << 53, -(1 << 53), (1 << 31), -(1i64 << 31) - 1,
        ]),
        1 => any::<i64>(),
    ]
    .boxed()
}

pub fn arb_number() -> BoxedStrategy<Value> {
    prop_oneof![
        4 => arb_int().prop_map(Value::from),
        // Binary fractions: exact in every decimal parser.
        1 => (-10_000i64..10_000).prop_map(|n| json!(n as f64 / 8.0 + 0.0625)),
        1 => proptest::sample::select(vec![json!(u64::MAX), json!(i64::MAX as u64 + 1), json!(1e10), json!(-0.5)]),
    ]
    .boxed()
}

pub fn arb_scalar() -> BoxedStrategy<Value> {
    prop_oneof![
        1 => Just(Value::Null),
        1 => any::<bool>().prop_map(Value::from),
        2 => arb_number(),
        3 => arb_string().prop_map(Value::from),
    ]
    .boxed()
}

pub fn arb_json() -> BoxedStrategy<Value> {
    arb_scalar()
        .prop_recursive(4, 24, 5, |inner| {
            prop_oneof![
                prop::collection::vec(inner.clone(), 0..5).prop_map(Value::Array),
                prop::collection::vec((arb_key(), inner), 0..5)
                    .prop_map(|kv| Value::Object(kv.into_iter().collect::<Map<_, _>>())),
            ]
        })
        .boxed()
}

pub fn arb_key() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z]{1,5}",
        1 => arb_string(),
        2 => proptest::sample::select(vec![
            "id", "jsonrpc", "method", "params", "result", "error", "code", "message", "data"
        ]).prop_map(String::from),
    ]
    .boxed()
}

/// A small JSON value, mostly flat.
pub fn arb_small() -> BoxedStrategy<Value> {
    prop_oneof![
        3 => arb_scalar(),
        1 => Just(json!({})),
        1 => Just(json!([])),
        1 => Just(json!([null])),
        2 => (arb_key(), arb_scalar()).prop_map(|(k, v)| Value::Object([(k, v)].into_iter().collect())),
        1 => prop::collection::vec(arb_scalar(), 1..3).prop_map(Value::Array),
        1 => arb_json(),
    ]
    .boxed()
}

pub fn arb_params() -> BoxedStrategy<Option<Value>> {
    prop_oneof![
        1 => Just(None),
        1 => Just(Some(Value::Null)),
        5 => arb_small().prop_map(Some),
    ]
    .boxed()
}

/// A request id as JSON: integer, string or null.
pub fn arb_id() -> BoxedStrategy<Value> {
    prop_oneof![
        5 => arb_int().prop_map(Value::from),
        3 => arb_string().prop_map(Value::from),
        1 => (-3i64..10).prop_map(|n| Value::from(n.to_string())),
        1 => Just(Value::Null),
    ]
    .boxed()
}

/// Ids that are pairwise distinct by construction when indexed differently.
pub fn distinct_id(form: u8, i: usize) -> Value {
    match form % 7 {
        0 => Value::from(i as i64),
        1 => Value::from(i.to_string()),
        2 => Value::from(-(i as i64) - 1),
        3 => Value::from(i64::MAX - i as i64),
        4 => Value::from(i64::MIN + i as i64),
        5 => Value::from(format!("é😀\"\\ {i}")),
        _ => Value::from((1i64 << 40) + i as i64),
    }
}

pub fn arb_method() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z]{1,6}/[a-zA-Z]{1,8}",
        1 => arb_string(),
        2 => proptest::sample::select(vec![
            "initialize", "exit", "shutdown", "$/cancelRequest", "textDocument/hover", "", "$/x",
        ]).prop_map(String::from),
    ]
    .boxed()
}

/// The `error` member of a response.
pub fn arb_error() -> BoxedStrategy<Value> {
    (arb_code(), arb_string(), prop::option::of(arb_small()))
        .prop_map(|(code, message, data)| error_value(code, &message, data))
        .boxed()
}

pub fn error_value(code: i64, message: &str, data: Option<Value>) -> Value {
    let mut m = Map::new();
    m.insert("code".into(), code.into());
    m.insert("message".into(), message.into());
    // `"data": null` and an absent member are the same to the crate's parser.
    if let Some(d) = data.filter(|d| !d.is_null()) {
        m.insert("data".into(), d);
    }
    Value::Object(m)
}

pub fn arb_code() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => proptest::sample::select(vec![
            -32700i64, -32600, -32601, -32602, -32603, -32800, -32801, -32002, -32000, -32099, 0, 1,
            -1, -32604, -32802, -32001,
        ]),
        1 => arb_int(),
    ]
    .boxed()
}

pub fn request_value(method: &str, id: Option<Value>, params: Option<Value>) -> Value {
    let mut m = Map::new();
    m.insert("jsonrpc".into(), "2.0".into());
    m.insert("method".into(), method.into());
    if let Some(p) = params {
        m.insert("params".into(), p);
    }
    if let Some(id) = id {
        m.insert("id".into(), id);
    }
    Value::Object(m)
}

pub fn ok_value(id: Value, result: Value) -> Value {
    json!({"jsonrpc": "2.0", "result": result, "id": id})
}

pub fn err_value(id: Value, error: Value) -> Value {
    json!({"jsonrpc": "2.0", "error": error, "id": id})
}

/// A response message.
pub fn arb_response() -> BoxedStrategy<Value> {
    prop_oneof![
        3 => (arb_id(), arb_small()).prop_map(|(i, r)| ok_value(i, r)),
        1 => (arb_id(), arb_error()).prop_map(|(i, e)| err_value(i, e)),
    ]
    .boxed()
}

/// A request or notification message.
pub fn arb_request() -> BoxedStrategy<Value> {
    (arb_method(), prop::option::of(arb_id()), arb_params())
        .prop_map(|(m, i, p)| request_value(&m, i, p))
        .boxed()
}

/// A large filler string of about `n` bytes with multi-byte characters inside.
pub fn filler(n: u32) -> String {
    let unit = "0123456789é漢😀 abc";
    let mut s = unit.repeat(n as usize / unit.len() + 1);
    let mut cut = n as usize;
    while !s.is_char_boundary(cut) {
        cut -= 1;
    }
    s.truncate(cut);
    s
}

/// Body sizes around buffer boundaries.
pub fn arb_size() -> BoxedStrategy<u32> {
    prop_oneof![
        30 => Just(0u32),
        4 => 1u32..400,
        3 => 7900u32..8500,
        1 => 16000u32..17000,
        1 => 60000u32..70000,
        1 => 100000u32..200000,
    ]
    .boxed()
}
