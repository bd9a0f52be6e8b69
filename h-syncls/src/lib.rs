//! Models and generators of protocol messages, independent of sync-ls' own
//! encoding.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::io::{self, BufRead, Read};
use sync_ls::{dap, lsp, RequestId, ResponseError};
use vcommon::gen;

pub mod drive;
pub mod stress;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Id {
    N(i32),
    S(String),
}

impl Id {
    pub fn real(&self) -> RequestId {
        match self {
            Id::N(n) => (*n).into(),
            Id::S(s) => s.clone().into(),
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Id::N(n) => json!(n),
            Id::S(s) => json!(s),
        }
    }
    pub fn of(id: &RequestId) -> Id {
        match serde_json::to_value(id).unwrap() {
            Value::Number(n) => Id::N(n.as_i64().unwrap() as i32),
            Value::String(s) => Id::S(s),
            v => panic!("an id that is neither number nor string: {v}"),
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Er {
    pub code: i32,
    pub message: String,
    pub data: Option<Value>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Lm {
    Req { id: Id, method: String, params: Value },
    Res { id: Id, result: Option<Value>, error: Option<Er> },
    Not { method: String, params: Value },
}

pub fn non_null(v: Option<Value>) -> Option<Value> {
    v.filter(|v| !v.is_null())
}

impl Lm {
    pub fn real(&self) -> lsp::Message {
        match self.clone() {
            Lm::Req { id, method, params } => lsp::Request {
                id: id.real(),
                method,
                params,
            }
            .into(),
            Lm::Res { id, result, error } => lsp::Response {
                id: id.real(),
                result,
                error: error.map(|e| ResponseError {
                    code: e.code,
                    message: e.message,
                    data: e.data,
                }),
            }
            .into(),
            Lm::Not { method, params } => lsp::Notification { method, params }.into(),
        }
    }
    pub fn of(m: &lsp::Message) -> Lm {
        match m.clone() {
            lsp::Message::Request(r) => Lm::Req {
                id: Id::of(&r.id),
                method: r.method,
                params: r.params,
            },
            lsp::Message::Response(r) => Lm::Res {
                id: Id::of(&r.id),
                result: r.result,
                error: r.error.map(|e| Er {
                    code: e.code,
                    message: e.message,
                    data: e.data,
                }),
            },
            lsp::Message::Notification(n) => Lm::Not {
                method: n.method,
                params: n.params,
            },
        }
    }
    /// A null result or null error data reads as an absent one.
    pub fn norm(self) -> Lm {
        match self {
            Lm::Res { id, result, error } => Lm::Res {
                id,
                result: non_null(result),
                error: error.map(|e| Er { data: non_null(e.data), ..e }),
            },
            m => m,
        }
    }
    /// The members of the JSON object on the wire (`None`: may be absent or null).
    pub fn members(&self) -> Vec<(&'static str, Value)> {
        match self {
            Lm::Req { id, method, params } => vec![("id", id.json()), ("method", json!(method)), ("params", params.clone())],
            Lm::Res { id, result, error } => {
                let mut v = vec![("id", id.json())];
                if let Some(r) = result {
                    v.push(("result", r.clone()));
                }
                if let Some(e) = error {
                    let mut o = Map::new();
                    o.insert("code".into(), json!(e.code));
                    o.insert("message".into(), json!(e.message));
                    if let Some(d) = &e.data {
                        o.insert("data".into(), d.clone());
                    }
                    v.push(("error", Value::Object(o)));
                }
                v
            }
            Lm::Not { method, params } => vec![("method", json!(method)), ("params", params.clone())],
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Dm {
    Req {
        seq: i64,
        command: String,
        arguments: Value,
    },
    Res {
        request_seq: i64,
        success: bool,
        message: Option<String>,
        body: Option<Value>,
    },
    Evt {
        seq: i64,
        event: String,
        body: Value,
    },
}

impl Dm {
    pub fn real(&self) -> dap::Message {
        match self.clone() {
            Dm::Req { seq, command, arguments } => dap::Request { seq, command, arguments }.into(),
            Dm::Res {
                request_seq,
                success,
                message,
                body,
            } => dap::Response {
                request_seq,
                success,
                message,
                body,
            }
            .into(),
            Dm::Evt { seq, event, body } => dap::Event { seq, event, body }.into(),
        }
    }
    pub fn of(m: &dap::Message) -> Dm {
        match m.clone() {
            dap::Message::Request(r) => Dm::Req {
                seq: r.seq,
                command: r.command,
                arguments: r.arguments,
            },
            dap::Message::Response(r) => Dm::Res {
                request_seq: r.request_seq,
                success: r.success,
                message: r.message,
                body: r.body,
            },
            dap::Message::Event(e) => Dm::Evt {
                seq: e.seq,
                event: e.event,
                body: e.body,
            },
        }
    }
    pub fn norm(self) -> Dm {
        match self {
            Dm::Res {
                request_seq,
                success,
                message,
                body,
            } => Dm::Res {
                request_seq,
                success,
                message,
                body: non_null(body),
            },
            m => m,
        }
    }
    pub fn members(&self) -> Vec<(&'static str, Value)> {
        match self {
            Dm::Req { seq, command, arguments } => {
                vec![
                    ("type", json!("request")),
                    ("seq", json!(seq)),
                    ("command", json!(command)),
                    ("arguments", arguments.clone()),
                ]
            }
            Dm::Res {
                request_seq,
                success,
                message,
                body,
            } => {
                let mut v = vec![
                    ("type", json!("response")),
                    ("request_seq", json!(request_seq)),
                    ("success", json!(success)),
                ];
                if let Some(m) = message {
                    v.push(("message", json!(m)));
                }
                if let Some(b) = body {
                    v.push(("body", b.clone()));
                }
                v
            }
            Dm::Evt { seq, event, body } => {
                vec![
                    ("type", json!("event")),
                    ("seq", json!(seq)),
                    ("event", json!(event)),
                    ("body", body.clone()),
                ]
            }
        }
    }
}

/// A message of either protocol.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Am {
    L(Lm),
    D(Dm),
}

impl Am {
    pub fn members(&self) -> Vec<(&'static str, Value)> {
        match self {
            Am::L(m) => m.members(),
            Am::D(m) => m.members(),
        }
    }
    pub fn real(&self) -> sync_ls::Message {
        match self {
            Am::L(m) => sync_ls::Message::Lsp(m.real()),
            Am::D(m) => sync_ls::Message::Dap(m.real()),
        }
    }
    pub fn of(m: &sync_ls::Message) -> Am {
        match m {
            sync_ls::Message::Lsp(m) => Am::L(Lm::of(m)),
            sync_ls::Message::Dap(m) => Am::D(Dm::of(m)),
        }
    }
    pub fn norm(self) -> Am {
        match self {
            Am::L(m) => Am::L(m.norm()),
            Am::D(m) => Am::D(m.norm()),
        }
    }
}

pub fn id() -> BoxedStrategy<Id> {
    prop_oneof![
        4 => (0i32..20).prop_map(Id::N),
        1 => any::<i32>().prop_map(Id::N),
        1 => prop::sample::select(vec![i32::MIN, i32::MAX, -1, 0]).prop_map(Id::N),
        2 => (0i32..20).prop_map(|n| Id::S(n.to_string())),
        2 => gen::text(5).prop_map(Id::S),
        1 => (0u32..3, 1usize..400).prop_map(|(a, n)| Id::S(format!("{}{a}", "0123456789".repeat(n)))),
    ]
    .boxed()
}

pub fn method() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec![
            "initialize", "shutdown", "textDocument/hover", "workspace/executeCommand", "$/cancelRequest", "a/b", "", "id",
        ]).prop_map(str::to_owned),
        1 => gen::text(8),
    ]
    .boxed()
}

/// Codes with a meaning in JSON-RPC or LSP among arbitrary ones.
pub fn error_code() -> BoxedStrategy<i32> {
    let known = vec![
        -32700, -32600, -32601, -32602, -32603, -32099, -32001, -32002, -32000, -32899, -32803, -32802, -32801, -32800, 0, -1, 1,
    ];
    prop_oneof![1 => any::<i32>(), 2 => prop::sample::select(known)].boxed()
}

pub fn error() -> BoxedStrategy<Er> {
    (error_code(), gen::text(8), prop::option::of(gen::json(3, 8)))
        .prop_map(|(code, message, data)| Er { code, message, data })
        .boxed()
}

pub fn lsp_msg() -> BoxedStrategy<Lm> {
    let v = || gen::json(4, 20);
    prop_oneof![
        (id(), method(), v()).prop_map(|(id, method, params)| Lm::Req { id, method, params }),
        (
            id(),
            prop_oneof![
                4 => v().prop_map(|v| (Some(v), None)),
                3 => error().prop_map(|e| (None, Some(e))),
                1 => Just((None, None)),
            ]
        )
            .prop_map(|(id, (result, error))| Lm::Res { id, result, error }),
        (method(), v()).prop_map(|(method, params)| Lm::Not { method, params }),
    ]
    .boxed()
}

pub fn seq() -> BoxedStrategy<i64> {
    prop_oneof![4 => 0i64..50, 1 => any::<i64>(), 1 => prop::sample::select(vec![i64::MIN, i64::MAX, 1 << 31, (1 << 32) + 1, -1])].boxed()
}

pub fn dap_msg() -> BoxedStrategy<Dm> {
    let v = || gen::json(4, 20);
    prop_oneof![
        (seq(), method(), v()).prop_map(|(seq, command, arguments)| Dm::Req { seq, command, arguments }),
        (seq(), any::<bool>(), prop::option::of(gen::text(6)), prop::option::of(v())).prop_map(|(request_seq, success, message, body)| Dm::Res {
            request_seq,
            success,
            message,
            body
        }),
        (seq(), method(), v()).prop_map(|(seq, event, body)| Dm::Evt { seq, event, body }),
    ]
    .boxed()
}

/// A buffered reader that hands out its bytes in pieces of the given sizes,
/// now and then interrupted, and counts what was consumed.
pub struct Chunked<'a> {
    data: &'a [u8],
    pub pos: usize,
    chunks: &'a [u8],
    next: usize,
    avail: usize,
    interrupted: bool,
}

impl<'a> Chunked<'a> {
    pub fn new(data: &'a [u8], chunks: &'a [u8]) -> Self {
        Chunked {
            data,
            pos: 0,
            chunks,
            next: 0,
            avail: 0,
            interrupted: false,
        }
    }
}

impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Chunked<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.avail == 0 {
            let c = if self.chunks.is_empty() {
                200
            } else {
                self.chunks[self.next % self.chunks.len()]
            };
            self.next += 1;
            if c == 0 && !self.interrupted {
                self.interrupted = true;
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.interrupted = false;
            // 255 stands for "everything at once".
            let want = if c == 255 { usize::MAX } else { (c as usize).max(1) };
            self.avail = want.min(self.data.len() - self.pos);
        }
        Ok(&self.data[self.pos..self.pos + self.avail])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.avail, "consumed more than was handed out");
        self.pos += n;
        self.avail -= n;
    }
}

pub fn chunks() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![255]),
        1 => Just(vec![1]),
        3 => prop::collection::vec(prop_oneof![0u8..4, 1u8..40, Just(255u8)], 1..8),
    ]
    .boxed()
}

/// Writes a frame the way a client might: extra headers, any header case.
pub fn frame(body: &[u8], before: &[(String, String)], name: &str, after: &[(String, String)]) -> Vec<u8> {
    let mut out = Vec::new();
    for (k, v) in before {
        out.extend_from_slice(format!("{k}: {v}\r\n").as_bytes());
    }
    out.extend_from_slice(format!("{name}: {}\r\n", body.len()).as_bytes());
    for (k, v) in after {
        out.extend_from_slice(format!("{k}: {v}\r\n").as_bytes());
    }
    out.extend_from_slice(b"\r\n");
    out.extend_from_slice(body);
    out
}

pub fn header_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just("Content-Length".to_owned()),
        1 => Just("content-length".to_owned()),
        1 => Just("CONTENT-LENGTH".to_owned()),
        2 => prop::collection::vec(any::<bool>(), 14).prop_map(|v| {
            "content-length".chars().zip(v).map(|(c, u)| if u { c.to_ascii_uppercase() } else { c }).collect()
        }),
    ]
    .boxed()
}

pub fn other_headers() -> BoxedStrategy<Vec<(String, String)>> {
    // Now and then a great many of them, or very long ones.
    let one = prop_oneof![
        45 => Just(("Content-Type".to_owned(), "application/vscode-jsonrpc; charset=utf-8".to_owned())),
        15 => ("X-[A-Za-z-]{0,8}", "[ -~]{0,12}"),
        15 => ("[A-Za-z-]{1,8}", "([ -~]|é|中){0,6}"),
        1 => ("[A-Za-z-]{1,8}", "[a-z]{1,3}", 0usize..9000).prop_map(|(k, v, n)| (k, v.repeat(n / v.len()))),
        1 => ("[A-Za-z-]{1,4}", 0usize..900).prop_map(|(k, n)| (format!("X-{}", k.repeat(n / k.len())), "v".into())),
    ];
    prop_oneof![30 => prop::collection::vec(one.clone(), 0..3), 1 => prop::collection::vec(one, 12..120)]
    .prop_map(|v| v.into_iter().filter(|(k, _)| !k.eq_ignore_ascii_case("content-length")).collect())
    .boxed()
}

/// Additional members of an object that has the members `own`.
pub fn more(own: &'static [&'static str]) -> BoxedStrategy<serde_json::Map<String, Value>> {
    gen::members(2)
        .prop_map(move |v| v.into_iter().filter(|(k, _)| !own.contains(&k.as_str())).collect())
        .boxed()
}
