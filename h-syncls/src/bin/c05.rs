//! C05: protocol messages survive the wire unchanged, however it is split.
use h_syncls::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::{BufReader, Cursor, Write};
use std::sync::{Arc, Mutex};
use sync_ls::{Message, MessageKind};
use vcommon::{bx, ensure, ensure_eq, Check, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    msgs: Vec<Am>,
    chunks: Vec<u8>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Framed {
    msgs: Vec<(Am, Vec<(String, String)>, String, Vec<(String, String)>, bool)>,
    chunks: Vec<u8>,
    dap: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Cut {
    msgs: Vec<Am>,
    chunks: Vec<u8>,
    cut: u32,
}

fn msgs(max: usize) -> BoxedStrategy<Vec<Am>> {
    prop_oneof![
        3 => prop::collection::vec(lsp_msg().prop_map(Am::L), 0..max),
        1 => prop::collection::vec(dap_msg().prop_map(Am::D), 0..max),
    ]
    .boxed()
}

fn is_dap(m: &[Am]) -> bool {
    matches!(m.first(), Some(Am::D(_)))
}

fn read(dap: bool, r: &mut Chunked) -> std::io::Result<Option<Message>> {
    if dap {
        Message::read_dap(r)
    } else {
        Message::read_lsp(r)
    }
}

/// The expected JSON object, allowing null members to be left out.
fn same_object(text: &[u8], m: &Am) -> Result<(), String> {
    let got: Value = serde_json::from_slice(text).map_err(|e| format!("body is not JSON: {e}"))?;
    let Value::Object(mut got) = got else {
        return Err("body is not an object".into());
    };
    if got.remove("jsonrpc") != Some("2.0".into()) {
        return Err("body is not tagged jsonrpc 2.0".into());
    }
    let want: BTreeMap<&str, Value> = m.members().into_iter().collect();
    for (k, v) in &want {
        match got.remove(*k) {
            Some(g) if g == *v => {}
            // A null result is what makes a response a success: it must be there.
            None if v.is_null() && *k != "result" => {}
            g => return Err(format!("member {k}: wrote {g:?}, expected {v:?}")),
        }
    }
    if !got.is_empty() {
        return Err(format!("unexpected members {got:?}"));
    }
    Ok(())
}

fn write_all(ms: &[Am]) -> Result<(Vec<u8>, Vec<(usize, usize)>), vcommon::Fail> {
    let mut wire = Vec::new();
    let mut spans = vec![];
    for m in ms {
        let before = wire.len();
        m.real().write(&mut wire).map_err(|e| format!("write failed: {e}"))?;
        let f = &wire[before..];
        let head = f.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no header end")?;
        let head_text = std::str::from_utf8(&f[..head]).map_err(|_| "header is not text")?;
        let mut len = None;
        for l in head_text.split("\r\n") {
            let (k, v) = l.split_once(": ").ok_or_else(|| format!("bad header line {l:?}"))?;
            if k == "Content-Length" {
                len = v.parse::<usize>().ok();
            }
        }
        let body = &f[head + 4..];
        ensure_eq!(len, Some(body.len()), "Content-Length");
        ensure!(std::str::from_utf8(body).is_ok(), "body is not UTF-8");
        same_object(body, m)?;
        spans.push((before + head + 4, wire.len()));
    }
    Ok((wire, spans))
}

fn round_trip(c: &Case) -> Verdict {
    let (wire, _) = write_all(&c.msgs)?;
    let mut r = Chunked::new(&wire, &c.chunks);
    let dap = is_dap(&c.msgs);
    for (i, m) in c.msgs.iter().enumerate() {
        match read(dap, &mut r) {
            Ok(Some(got)) => ensure_eq!(Am::of(&got).norm(), m.clone().norm(), "message {i}"),
            Ok(None) => return Err(format!("message {i}: end of stream instead").into()),
            Err(e) => return Err(format!("message {i}: error {e}").into()),
        }
    }
    match read(dap, &mut r) {
        Ok(None) => {}
        o => return Err(format!("after the last message: {:?}", o.map(|m| m.map(|m| Am::of(&m)))).into()),
    }
    // A response whose result is null must stay distinguishable on the wire.
    Ok(c.msgs.len() > 1 && c.chunks != [255])
}

fn foreign(c: &Framed) -> Verdict {
    let mut wire = vec![];
    for (m, before, name, after, pretty) in &c.msgs {
        let mut o = serde_json::Map::new();
        for (k, v) in m.members() {
            o.insert(k.into(), v);
        }
        let body = if *pretty {
            serde_json::to_string_pretty(&o)
        } else {
            serde_json::to_string(&o)
        }
        .unwrap();
        wire.extend(frame(body.as_bytes(), before, name, after));
    }
    let mut r = Chunked::new(&wire, &c.chunks);
    for (i, (m, ..)) in c.msgs.iter().enumerate() {
        match read(c.dap, &mut r) {
            Ok(Some(got)) => ensure_eq!(Am::of(&got).norm(), m.clone().norm(), "message {i}"),
            Ok(None) => return Err(format!("message {i}: end of stream instead").into()),
            Err(e) => return Err(format!("message {i}: error {e}").into()),
        }
    }
    ensure!(matches!(read(c.dap, &mut r), Ok(None)), "no clean end");
    Ok(c.msgs.iter().any(|m| !m.1.is_empty() || !m.3.is_empty() || m.2 != "Content-Length"))
}

fn truncated(c: &Cut) -> Verdict {
    let (wire, spans) = write_all(&c.msgs)?;
    if wire.is_empty() {
        return Ok(false);
    }
    // Half of the cuts fall around the start and the end of a body.
    let cut = if c.cut % 2 == 0 {
        (c.cut / 2) as usize % (wire.len() + 1)
    } else {
        let k = (c.cut / 2) as usize;
        let (s, e) = spans[k % spans.len()];
        let pts = [s, s + 1, e - 1, e, e.saturating_sub(2), s - 1, s - 2, s - 3];
        pts[(k / spans.len()) % pts.len()].min(wire.len())
    };
    let dap = is_dap(&c.msgs);
    let mut r = Chunked::new(&wire[..cut], &c.chunks);
    let whole = spans.iter().filter(|(_, e)| *e <= cut).count();
    for i in 0..whole {
        match read(dap, &mut r) {
            Ok(Some(got)) => ensure_eq!(Am::of(&got).norm(), c.msgs[i].clone().norm(), "message {i}"),
            o => return Err(format!("complete message {i}: {:?}", o.map(|m| m.is_some())).into()),
        }
    }
    let last = spans.get(whole.wrapping_sub(1)).map_or(0, |s| s.1);
    let in_body = spans.iter().any(|(s, e)| *s <= cut && cut < *e);
    match read(dap, &mut r) {
        Ok(Some(m)) => return Err(format!("a message out of a truncated stream: {:?}", Am::of(&m)).into()),
        Ok(None) => ensure!(!in_body, "a stream ending inside a body ended cleanly"),
        Err(e) => ensure!(cut != last, "a stream ending between messages failed: {e}"),
    }
    Ok(in_body)
}

/// A message whose body has exactly 2^`k` + `d` bytes, between two small ones.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Long {
    k: u32,
    d: i32,
    unit: String,
    at: bool,
    dap: bool,
    chunks: Vec<u8>,
    small: (Am, Am),
}

impl Long {
    fn msgs(&self) -> Vec<Am> {
        let of = |s: String| {
            let v = if self.at {
                Value::String(s)
            } else {
                serde_json::json!({ "text": s, "end": [1, null] })
            };
            if self.dap {
                Am::D(Dm::Evt {
                    seq: 7,
                    event: "output".into(),
                    body: v,
                })
            } else {
                Am::L(Lm::Req {
                    id: Id::N(7),
                    method: "a/b".into(),
                    params: v,
                })
            }
        };
        let size = |m: &Am| {
            let mut w = vec![];
            m.real().write(&mut w).unwrap();
            w.len() - w.windows(4).position(|w| w == b"\r\n\r\n").unwrap() - 4
        };
        let none = size(&of(String::new()));
        let one = size(&of(self.unit.clone())) - none;
        let room = ((1usize << self.k) as i64 + self.d as i64).max(0) as usize;
        let room = room.saturating_sub(none);
        let text = self.unit.repeat(room / one) + &"a".repeat(room % one);
        vec![self.small.0.clone(), of(text), self.small.1.clone()]
    }
}

/// Takes what it is given in pieces, and shows only what has been flushed.
struct Flushed<'a> {
    seen: &'a mut Vec<u8>,
    held: Vec<u8>,
    sizes: &'a [u8],
    n: usize,
}

impl Write for Flushed<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let c = self.sizes.get(self.n % self.sizes.len().max(1)).copied().unwrap_or(255);
        self.n += 1;
        let n = b.len().min(if c == 255 { usize::MAX } else { 251 * c as usize + 1 });
        self.held.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.seen.append(&mut self.held);
        Ok(())
    }
}

fn long(c: &Long) -> Verdict {
    let msgs = c.msgs();
    let (wire, spans) = write_all(&msgs)?;
    let mut seen = vec![];
    {
        let mut out = Flushed {
            seen: &mut seen,
            held: vec![],
            sizes: &c.chunks,
            n: 0,
        };
        for (m, (_, end)) in msgs.iter().zip(&spans) {
            m.real().write(&mut out).map_err(|e| format!("write failed: {e}"))?;
            ensure_eq!(out.seen.len(), *end, "bytes that left the writer when a message was written");
        }
    }
    ensure!(seen == wire, "bytes written in pieces differ from those written at once");
    let mut r = std::io::BufReader::with_capacity(1 << (3 + c.chunks.len()), Cursor::new(&wire));
    let mut r2 = Chunked::new(&wire, &[255]);
    for (i, m) in msgs.iter().enumerate() {
        let one = if c.dap { Message::read_dap(&mut r) } else { Message::read_lsp(&mut r) };
        for got in [one, read(c.dap, &mut r2)] {
            match got {
                Ok(Some(got)) => ensure!(
                    Am::of(&got).norm() == m.clone().norm(),
                    "message {i} of {} bytes reads back different",
                    spans[i].1 - spans[i].0
                ),
                Ok(None) => return Err(format!("message {i}: end of stream instead").into()),
                Err(e) => return Err(format!("message {i}: error {e}").into()),
            }
        }
    }
    ensure!(matches!(read(c.dap, &mut r2), Ok(None)), "no clean end");
    Ok(true)
}

fn long_case() -> BoxedStrategy<Long> {
    let unit = prop::sample::select(vec!["a", "é", "中", "😀", "\u{1}", "\"", "}\r\n\r\n", "Content-Length: 2\r\n\r\n{}"]);
    let k = prop_oneof![30 => 8u32..17, 6 => 17u32..21, 1 => 21u32..25];
    (k, -4i32..5, unit, any::<bool>(), any::<bool>(), chunks())
        .prop_flat_map(|(k, d, unit, at, dap, chunks)| {
            let small = || {
                if dap {
                    bx(dap_msg().prop_map(Am::D))
                } else {
                    bx(lsp_msg().prop_map(Am::L))
                }
            };
            (small(), small()).prop_map(move |small| Long {
                k,
                d,
                unit: unit.into(),
                at,
                dap,
                chunks: chunks.clone(),
                small,
            })
        })
        .boxed()
}

#[derive(Clone, Default)]
struct Sink(Arc<Mutex<Vec<u8>>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        // Short writes are allowed by the contract of Write.
        let n = b.len().min(7);
        self.0.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Both directions through the reader and writer threads of the transport.
fn transport(c: &Case) -> Verdict {
    let (wire, _) = write_all(&c.msgs)?;
    let dap = is_dap(&c.msgs);
    let sink = Sink::default();
    let cap = c.chunks.iter().map(|c| (*c as usize).max(1)).max().unwrap_or(1);
    let (tx, rx, threads) = {
        let (wire, sink) = (wire.clone(), sink.clone());
        sync_ls::transport::io_transport(
            if dap { MessageKind::Dap } else { MessageKind::Lsp },
            move || BufReader::with_capacity(cap, Cursor::new(wire)),
            move || sink,
        )
    };
    // The transport stops reading after an exit notification.
    let end = c
        .msgs
        .iter()
        .position(|m| matches!(m, Am::L(Lm::Not { method, .. }) if method == "exit"))
        .map_or(c.msgs.len(), |p| p + 1);
    let out = c.msgs.clone();
    let sender = std::thread::spawn(move || {
        for m in out {
            if tx.send(m.real()).is_err() {
                return false;
            }
        }
        true
    });
    let mut got = vec![];
    while let Ok(m) = rx.recv() {
        got.push(Am::of(&m).norm());
    }
    let want: Vec<_> = c.msgs[..end].iter().map(|m| m.clone().norm()).collect();
    ensure_eq!(got, want, "messages received over the transport");
    ensure!(sender.join().unwrap(), "the writer went away");
    threads.join().map_err(|e| format!("transport threads: {e}"))?;
    ensure!(*sink.0.lock().unwrap() == wire, "bytes written by the transport differ");
    Ok(c.msgs.len() > 1)
}

fn main() {
    Check::main(
        "C05",
        "sequences of LSP or DAP messages (arbitrary JSON, ids, unicode) are written and read back through a reader that splits the stream at generated points; non-trivial: more than one message over a split stream, a foreign header, a cut inside a body",
        |c| {
            c.assume("JSON nesting stays far below serde_json's recursion limit of 128; numbers are integers or dyadic fractions");
            c.assume("a null result or error data reads back as an absent one (JSON null and absence are one value in the message type)");
            let case = |max| move || bx((msgs(max), chunks()).prop_map(|(msgs, chunks)| Case { msgs, chunks }));
            c.prop("round_trip", Opts::new(150_000), case(6), round_trip);
            c.prop(
                "foreign_framing",
                Opts::new(100_000),
                || {
                    let one = |m: BoxedStrategy<Am>| (m, other_headers(), header_name(), other_headers(), any::<bool>());
                    bx(prop_oneof![
                        3 => (prop::collection::vec(one(bx(lsp_msg().prop_map(Am::L))), 0..4), Just(false)),
                        1 => (prop::collection::vec(one(bx(dap_msg().prop_map(Am::D))), 0..4), Just(true)),
                    ]
                    .prop_flat_map(|(msgs, dap)| (Just(msgs), chunks(), Just(dap)))
                    .prop_map(|(msgs, chunks, dap)| Framed { msgs, chunks, dap }))
                },
                foreign,
            );
            c.prop(
                "truncation",
                Opts::new(150_000),
                || bx((msgs(4), chunks(), any::<u32>()).prop_map(|(msgs, chunks, cut)| Cut { msgs, chunks, cut })),
                truncated,
            );
            c.prop("long", Opts::new(1500), long_case, long);
            c.prop(
                "huge",
                Opts::new(2).thorough(10).shards(2).shrink(3),
                || bx((long_case(), 26u32..28).prop_map(|(c, k)| Long { k, d: 1, chunks: vec![255; 9], ..c })),
                long,
            );
            c.prop(
                "transport_threads",
                Opts::new(8000),
                || {
                    bx((
                        prop_oneof![
                            3 => prop::collection::vec(prop_oneof![12 => lsp_msg(), 1 => Just(Lm::Not { method: "exit".into(), params: Value::Null }), 1 => Just(Lm::Not { method: "exit2".into(), params: Value::Null })].prop_map(Am::L), 0..6),
                            1 => prop::collection::vec(dap_msg().prop_map(Am::D), 0..6),
                        ],
                        chunks(),
                    )
                        .prop_map(|(msgs, chunks)| Case { msgs, chunks }))
                },
                transport,
            );
        },
    )
}
