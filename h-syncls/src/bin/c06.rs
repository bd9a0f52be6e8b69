//! C06: no byte stream crashes the reader or makes it invent a message.
use h_syncls::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use sync_ls::Message;
use vcommon::{bx, ensure, ensure_eq, gen, Check, Fail, Hex, Opts, Verdict};

/// Counts, per thread, live and peak bytes, and refuses absurd requests.
struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
const REFUSE: usize = 1 << 31;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        note(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
fn note(d: isize) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + d);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}
#[global_allocator]
static ALLOC: Counting = Counting;

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    bytes: Hex,
    chunks: Vec<u8>,
    dap: bool,
}

/// What an independent reading of the framing rules says about the bytes.
#[derive(Debug)]
enum Ref {
    /// Definitely one frame: (end offset, body range).
    Frame(usize, std::ops::Range<usize>),
    /// Ends before anything of a frame was seen.
    Empty,
    /// Ends inside the headers or body, or is malformed: no message.
    No,
    /// Several readings are defensible (repeated or oddly spelled lengths):
    /// possible frame ends.
    Maybe(Vec<std::ops::Range<usize>>),
}

fn reference(b: &[u8]) -> Ref {
    if b.is_empty() {
        return Ref::Empty;
    }
    let mut at = 0;
    let mut lens: Vec<String> = vec![];
    let mut odd = false;
    loop {
        let Some(nl) = b[at..].iter().position(|c| *c == b'\n') else {
            return Ref::No;
        };
        let line = &b[at..at + nl + 1];
        at += nl + 1;
        if !line.ends_with(b"\r\n") {
            return Ref::No;
        }
        let line = &line[..line.len() - 2];
        if line.is_empty() {
            break;
        }
        let Ok(line) = std::str::from_utf8(line) else { return Ref::No };
        let Some((k, v)) = line.split_once(": ") else {
            // "Name:value" is malformed here; be undecided about it.
            if line.contains(':') {
                odd = true;
                if let Some((k, v)) = line.split_once(':') {
                    if k.trim().eq_ignore_ascii_case("content-length") {
                        lens.push(v.trim().to_owned());
                    }
                }
                continue;
            }
            return Ref::No;
        };
        if k.eq_ignore_ascii_case("content-length") {
            lens.push(v.to_owned());
        } else if k.trim().eq_ignore_ascii_case("content-length") {
            odd = true;
            lens.push(v.to_owned());
        }
    }
    if lens.is_empty() {
        return Ref::No;
    }
    let plain = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
    let fit = |s: &str| -> Option<std::ops::Range<usize>> {
        let n: usize = s.parse().ok()?;
        let end = at.checked_add(n)?;
        (end <= b.len()).then_some(at..end)
    };
    if lens.len() == 1 && !odd && plain(&lens[0]) && (lens[0].len() == 1 || !lens[0].starts_with('0')) {
        return match fit(&lens[0]) {
            Some(r) => Ref::Frame(r.end, r),
            None => Ref::No,
        };
    }
    let opts: Vec<_> = lens.iter().filter_map(|l| fit(l.trim().trim_start_matches('+'))).collect();
    if opts.is_empty() {
        Ref::No
    } else {
        Ref::Maybe(opts)
    }
}

/// The body as a message, by an independent decoding of its JSON shape;
/// `Err`: certainly none, `Ok(None)`: undecided.
fn shape(body: &[u8], dap: bool) -> Result<Option<Am>, ()> {
    let text = std::str::from_utf8(body).map_err(|_| ())?;
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => return Err(()),
    };
    let Value::Object(o) = v else {
        // Derived decoders also take sequences; no statement about those.
        return if v.is_array() { Ok(None) } else { Err(()) };
    };
    if dap {
        let s = |k: &str| o.get(k).and_then(|v| v.as_str()).map(str::to_owned);
        let n = |k: &str| o.get(k).and_then(|v| v.as_i64());
        let null = |k: &str| o.get(k).cloned().unwrap_or(Value::Null);
        match s("type").as_deref() {
            Some("request") => match (n("seq"), s("command")) {
                (Some(seq), Some(command)) => Ok(Some(Am::D(Dm::Req {
                    seq,
                    command,
                    arguments: null("arguments"),
                }))),
                _ => Err(()),
            },
            Some("event") => match (n("seq"), s("event")) {
                (Some(seq), Some(event)) => Ok(Some(Am::D(Dm::Evt {
                    seq,
                    event,
                    body: null("body"),
                }))),
                _ => Err(()),
            },
            Some("response") => {
                let message = match o.get("message") {
                    None | Some(Value::Null) => None,
                    Some(Value::String(s)) => Some(s.clone()),
                    _ => return Err(()),
                };
                match (n("request_seq"), o.get("success").and_then(|v| v.as_bool())) {
                    (Some(request_seq), Some(success)) => Ok(Some(Am::D(Dm::Res {
                        request_seq,
                        success,
                        message,
                        body: non_null(o.get("body").cloned()),
                    }))),
                    _ => Err(()),
                }
            }
            _ => Err(()),
        }
    } else {
        let id = match o.get("id") {
            Some(Value::String(s)) => Some(Id::S(s.clone())),
            Some(Value::Number(n)) => match n.as_i64().and_then(|n| i32::try_from(n).ok()) {
                Some(n) => Some(Id::N(n)),
                None => return Ok(None),
            },
            None => None,
            Some(_) => return Ok(None),
        };
        let method = match o.get("method") {
            None => None,
            Some(Value::String(s)) => Some(s.clone()),
            Some(_) => return Ok(None),
        };
        let params = o.get("params").cloned().unwrap_or(Value::Null);
        match (id, method) {
            (Some(id), Some(method)) => Ok(Some(Am::L(Lm::Req { id, method, params }))),
            (None, Some(method)) => Ok(Some(Am::L(Lm::Not { method, params }))),
            (None, None) => Err(()),
            (Some(id), None) => {
                let error = match o.get("error") {
                    None | Some(Value::Null) => None,
                    Some(Value::Object(e)) => {
                        let code = e.get("code").and_then(|c| c.as_i64()).and_then(|c| i32::try_from(c).ok());
                        let msg = e.get("message").and_then(|m| m.as_str());
                        match (code, msg) {
                            (Some(code), Some(m)) => Some(Er {
                                code,
                                message: m.into(),
                                data: non_null(e.get("data").cloned()),
                            }),
                            _ => return Err(()),
                        }
                    }
                    Some(Value::Array(_)) => return Ok(None),
                    Some(_) => return Err(()),
                };
                Ok(Some(Am::L(Lm::Res {
                    id,
                    result: non_null(o.get("result").cloned()),
                    error,
                })))
            }
        }
    }
}

/// Repeated members make both readings defensible.
fn repeats_members(body: &[u8]) -> bool {
    let Ok(Value::Object(o)) = serde_json::from_slice::<Value>(body) else {
        return false;
    };
    let text = String::from_utf8_lossy(body);
    // A cheap over-approximation: some member name occurs twice as a string.
    o.keys().any(|k| text.matches(&serde_json::to_string(k).unwrap()).count() > 1) || text.contains("\\u")
}

fn judge(c: &Case) -> Verdict {
    let bytes = &c.bytes.0;
    let mut r = Chunked::new(bytes, &c.chunks);
    let mut n = 0;
    loop {
        let at = r.pos;
        let rest = &bytes[at..];
        LIVE.with(|l| l.set(0));
        PEAK.with(|p| p.set(0));
        let got = vcommon::no_panic(|| if c.dap { Message::read_dap(&mut r) } else { Message::read_lsp(&mut r) });
        let peak = PEAK.with(|p| p.get());
        let bound = (1 << 18) + 400 * rest.len() as isize;
        ensure!(peak < bound, "peak allocation of {peak} bytes for {} bytes of input", rest.len());
        let got = got.map_err(|p| Fail::from(format!("reader panicked: {p}")))?;
        let used = r.pos - at;
        let want = reference(rest);
        match (got, want) {
            (Ok(None), Ref::Empty) => return Ok(n > 0),
            (Ok(None), Ref::Frame(..)) => return Err("a complete frame read as end of stream".into()),
            (Err(e), Ref::Empty) => return Err(format!("clean end of stream reported as {e}").into()),
            (Ok(None) | Err(_), Ref::No | Ref::Maybe(_)) => return Ok(true),
            (Err(e), Ref::Frame(_, body)) => {
                let body = &rest[body];
                if let Ok(Some(m)) = shape(body, c.dap) {
                    ensure!(repeats_members(body), "a well-formed frame was refused ({e}): {m:?}");
                }
                return Ok(true);
            }
            (Ok(Some(m)), Ref::Empty | Ref::No) => return Err(format!("invented {:?} from bytes that are no frame", Am::of(&m)).into()),
            (Ok(Some(m)), want) => {
                let bodies = match want {
                    Ref::Frame(_, r) => vec![r],
                    Ref::Maybe(v) => v,
                    _ => unreachable!(),
                };
                let Some(body) = bodies.iter().find(|b| b.end == used) else {
                    return Err(format!(
                        "consumed {used} bytes; the frame ends at {:?}",
                        bodies.iter().map(|b| b.end).collect::<Vec<_>>()
                    )
                    .into());
                };
                let body = &rest[body.clone()];
                match shape(body, c.dap) {
                    Ok(Some(want)) => {
                        if !repeats_members(body) {
                            ensure_eq!(Am::of(&m).norm(), want, "message decoded from a well-formed frame")
                        }
                    }
                    Ok(None) => {}
                    Err(()) => return Err(format!("invented {:?} from a body that is no message", Am::of(&m)).into()),
                }
                n += 1;
            }
        }
    }
}

#[derive(Debug, Clone)]
enum Piece {
    Good(Am, String),
    Headed(Vec<u8>, Am),
    Raw(Vec<u8>),
    Len(String, Vec<u8>),
    /// A length with something around it, and the body it would be of.
    Around(&'static str, Am, &'static str),
    /// A header line of about 2^k bytes with any ending.
    Line(u32, i8, &'static str, Am),
    /// A message of about 2^k bytes with one byte changed.
    Long(u32, i8, &'static str, prop::sample::Index, Option<u8>),
}

fn hostile_len() -> BoxedStrategy<String> {
    prop_oneof![
        2 => (0u32..64).prop_map(|n| (1u128 << n).to_string()),
        1 => any::<u64>().prop_map(|n| n.to_string()),
        1 => any::<u128>().prop_map(|n| n.to_string()),
        1 => prop::sample::select(vec!["-1", "+2", "0x2", " 2", "2 ", "", "1e3", "02", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "4294967296", "٢", "2.0", "NaN"]).prop_map(str::to_owned),
        1 => (0u32..60).prop_map(|n| n.to_string()),
    ]
    .boxed()
}

/// The members of the outer two levels of objects.
fn objects(v: &Value, at: &mut Vec<String>, all: &mut Vec<(Vec<String>, String)>) {
    let Value::Object(o) = v else { return };
    for (k, v) in o {
        all.push((at.clone(), k.clone()));
        if at.is_empty() {
            at.push(k.clone());
            objects(v, at, all);
            at.pop();
        }
    }
}

fn body_bytes(dap: bool) -> BoxedStrategy<Vec<u8>> {
    let msg = if dap {
        bx(dap_msg().prop_map(Am::D))
    } else {
        bx(lsp_msg().prop_map(Am::L))
    };
    let text = bx(msg.prop_map(|m| {
        let o: serde_json::Map<String, Value> = m.members().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        serde_json::to_vec(&o).unwrap()
    }));
    let edits = prop::collection::vec((any::<prop::sample::Index>(), 0u8..5, any::<u8>()), 0..4);
    let around = || {
        prop::sample::select(vec!["", "", " ", "\n", "\t\r\n", "\0", "\u{feff}", "\u{a0}", "\u{2028}", "\u{b}", "// x\n", "/**/", ",", ";", "{}", "null", "]", "}", "\u{1e}", ")]}'\n"])
    };
    let members = prop::collection::vec((any::<prop::sample::Index>(), 0u8..5, gen::json(1, 3)), 1..3);
    prop_oneof![
        1 => (around(), text.clone(), around()).prop_map(|(a, b, z)| [a.as_bytes(), &b, z.as_bytes()].concat()),
        // Messages that lack a member somewhere, or have another one there.
        2 => (text.clone(), members).prop_map(|(b, edits)| {
            let mut v: Value = serde_json::from_slice(&b).unwrap();
            for (i, k, x) in edits {
                let mut all = vec![];
                objects(&v, &mut vec![], &mut all);
                let (path, key) = &all[i.index(all.len().max(1)).min(all.len() - 1)];
                let mut o = &mut v;
                for p in path {
                    o = &mut o[p.as_str()];
                }
                let o = o.as_object_mut().unwrap();
                let old = o.remove(key).unwrap();
                match k {
                    0 => (),
                    1 => drop(o.insert(key.to_uppercase(), old)),
                    2 => drop(o.insert(key.clone(), Value::Null)),
                    3 => drop(o.insert(format!("{key}s"), old)),
                    _ => drop(o.insert(key.clone(), x)),
                }
                if v.as_object().is_some_and(|o| o.is_empty()) {
                    break;
                }
            }
            serde_json::to_vec(&v).unwrap()
        }),
        3 => (text, edits).prop_map(|(mut b, e)| {
            for (i, k, x) in e {
                if b.is_empty() { break }
                let i = i.index(b.len());
                match k {
                    0 => b[i] = x,
                    1 => { b.remove(i); }
                    2 => b.insert(i, x),
                    3 => b.truncate(i),
                    _ => b.insert(i, b"{}[]\",:\\0-"[x as usize % 10]),
                }
            }
            b
        }),
        3 => gen::json(3, 12).prop_map(|v| serde_json::to_vec(&v).unwrap()),
        // Objects whose members have the right names and the wrong types.
        4 => prop::collection::vec((gen::key(), gen::json(2, 6)), 0..6).prop_map(|kv| {
            let o: serde_json::Map<String, Value> = kv.into_iter().collect();
            serde_json::to_vec(&o).unwrap()
        }),
        1 => (2usize..6000, any::<bool>()).prop_map(|(n, arr)| {
            let (a, b) = if arr { ("[", "]") } else { ("{\"a\":", "}") };
            format!("{}1{}", a.repeat(n), b.repeat(n)).into_bytes()
        }),
        1 => prop::collection::vec(any::<u8>(), 0..30),
    ]
    .boxed()
}

fn piece(dap: bool) -> BoxedStrategy<Piece> {
    let msg = || {
        if dap {
            bx(dap_msg().prop_map(Am::D))
        } else {
            bx(lsp_msg().prop_map(Am::L))
        }
    };
    let header = prop_oneof![
        "[A-Za-z-]{0,8}: [ -~]{0,8}\r\n".prop_map(|s| s.into_bytes()),
        (1usize..80, 0usize..6).prop_map(|(n, k)| format!("X-A: {}\r\n", "v".repeat(8 << (k * 2))).repeat(if k > 3 { 1 } else { n }).into_bytes()),
        "[A-Za-z-]{0,8}:?[ -~]{0,4}\r?\n".prop_map(|s| s.into_bytes()),
        hostile_len().prop_map(|l| format!("Content-Length: {l}\r\n").into_bytes()),
        hostile_len().prop_map(|l| format!("content-length:{l}\r\n").into_bytes()),
        prop::collection::vec(any::<u8>(), 0..6),
        Just(b"\xff\xfe: 1\r\n".to_vec()),
        Just(b"\r\n".to_vec()),
    ];
    prop_oneof![
        4 => (msg(), header_name()).prop_map(|(m, n)| Piece::Good(m, n)),
        2 => (prop::collection::vec(header, 1..3), msg()).prop_map(|(h, m)| Piece::Headed(h.concat(), m)),
        4 => body_bytes(dap).prop_map(Piece::Raw),
        2 => (hostile_len(), body_bytes(dap)).prop_map(|(l, b)| Piece::Len(l, b)),
        1 => (
            prop::sample::select(vec!["", "", "", "+", "-", "0", " ", "0x", "\"", "1: "]),
            msg(),
            prop::sample::select(vec!["", ": ", ": x", ": 1", ": Content-Length: 3", " ", ",", ";", ".0", "\t", "\0", "_", "u64", "\r", "e0"]),
        )
            .prop_map(|(a, m, b)| Piece::Around(a, m, b)),
        1 => (
            prop_oneof![8 => 4u32..12, 1 => 12u32..17],
            -3i8..4,
            prop::sample::select(vec!["\r\n", "\r\n", "\n", "", "\r", "\r\r\n", " \r\n"]),
            msg(),
        )
            .prop_map(|(k, d, e, m)| Piece::Line(k, d, e, m)),
        1 => (
            prop_oneof![8 => 6u32..13, 2 => 13u32..17],
            -3i8..4,
            prop::sample::select(vec!["a", "é", "中", "😀"]),
            any::<prop::sample::Index>(),
            prop::option::of(any::<u8>()),
        )
            .prop_map(|(k, d, u, i, b)| Piece::Long(k, d, u, i, b)),
    ]
    .boxed()
}

fn stream(dap: bool) -> BoxedStrategy<Case> {
    (
        prop::collection::vec(piece(dap), 0..4),
        chunks(),
        prop::collection::vec((any::<prop::sample::Index>(), 0u8..4, any::<u8>()), 0..3),
        any::<bool>(),
    )
        .prop_map(move |(ps, chunks, edits, edit)| {
            let mut b = vec![];
            let json = |m: &Am| {
                let o: serde_json::Map<String, Value> = m.members().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
                serde_json::to_vec(&o).unwrap()
            };
            for p in ps {
                match p {
                    Piece::Good(m, n) => b.extend(frame(&json(&m), &[], &n, &[])),
                    Piece::Headed(h, m) => {
                        b.extend(h);
                        b.extend(frame(&json(&m), &[], "Content-Length", &[]));
                    }
                    Piece::Raw(body) => b.extend(frame(&body, &[], "Content-Length", &[])),
                    Piece::Len(l, body) => {
                        b.extend(format!("Content-Length: {l}\r\n\r\n").into_bytes());
                        b.extend(body);
                    }
                    Piece::Around(x, m, y) => {
                        let body = json(&m);
                        b.extend(format!("Content-Length: {x}{}{y}\r\n\r\n", body.len()).into_bytes());
                        b.extend(body);
                    }
                    Piece::Line(k, d, e, m) => {
                        let n = ((1usize << k) as i64 + d as i64) as usize;
                        b.extend(b"X-Pad: ");
                        b.extend(vec![b'x'; n.saturating_sub(7 + e.len())]);
                        b.extend(e.as_bytes());
                        b.extend(frame(&json(&m), &[], "Content-Length", &[]));
                    }
                    Piece::Long(k, d, u, i, x) => {
                        let n = ((1usize << k) as i64 + d as i64) as usize;
                        let s = u.repeat(n.saturating_sub(36) / u.len());
                        let m = if dap {
                            Am::D(Dm::Evt {
                                seq: 1,
                                event: "e".into(),
                                body: Value::String(s),
                            })
                        } else {
                            Am::L(Lm::Not {
                                method: "e".into(),
                                params: Value::String(s),
                            })
                        };
                        let mut body = json(&m);
                        if let Some(x) = x {
                            let i = i.index(body.len());
                            body[i] = x;
                        }
                        b.extend(frame(&body, &[], "Content-Length", &[]));
                    }
                }
            }
            if edit {
                for (i, k, x) in edits {
                    if b.is_empty() {
                        break;
                    }
                    let i = i.index(b.len());
                    match k {
                        0 => b[i] = x,
                        1 => {
                            b.remove(i);
                        }
                        2 => b.insert(i, x),
                        _ => b.truncate(i),
                    }
                }
            }
            Case { bytes: Hex(b), chunks, dap }
        })
        .boxed()
}

fn main() {
    Check::main(
        "C06",
        "byte streams of well-formed frames, frames with hostile lengths and headers, mutated and random bodies, random bytes; judged against an independent reading of the framing rules; non-trivial: the stream is not empty and did not consist of nothing but one clean end",
        |c| {
            c.assume("repeated or oddly spelled Content-Length headers, repeated JSON members and ids that are no string or 32-bit integer may be refused or accepted");
            c.assume("memory bound: 256 KiB plus 400 bytes per byte of input");
            c.prop("lsp", Opts::new(250_000), || stream(false), judge);
            c.prop("dap", Opts::new(150_000), || stream(true), judge);
            c.prop(
                "random",
                Opts::new(60_000),
                || {
                    bx((prop::collection::vec(prop_oneof![3 => any::<u8>(), 5 => prop::sample::select(b"Content-Length: 0123\r\n{}\"".to_vec())], 0..60), chunks(), any::<bool>())
                        .prop_map(|(b, chunks, dap)| Case { bytes: Hex(b), chunks, dap }))
                },
                judge,
            );
        },
    )
}
