//! C07: recording and replaying a session.
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use h_syncls::drive::near;
use h_syncls::{chunks, frame, header_name, other_headers};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sync_ls::transport::{with_stdio_transport, MirrorArgs};
use sync_ls::*;
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, gen, Check, Opts, Verdict};

const PATIENCE: Duration = Duration::from_secs(30);

// ------------------------------------------------- the server that is recorded

type Log = Arc<Mutex<Vec<Value>>>;

struct Init(LspClient, Log);
struct Srv {
    client: LspClient,
    log: Log,
    count: u64,
}
impl Initializer for Init {
    type I = Value;
    type S = Srv;
    fn initialize(self, p: Value) -> (Srv, AnySchedulableResponse) {
        let mut s = Srv { client: self.0, log: self.1, count: 0 };
        s.saw("initialize", &p);
        (s, just_ok(p))
    }
}
impl Srv {
    fn saw(&mut self, what: &str, v: &Value) -> u64 {
        self.count += 1;
        self.log.lock().unwrap().push(json!([what, v]));
        self.count
    }
}

macro_rules! lsp {
    ($($name:ident $m:literal)*) => { $(enum $name {}
        impl lsp_types::request::Request for $name { type Params = Value; type Result = Value; const METHOD: &'static str = $m; }
        impl lsp_types::notification::Notification for $name { type Params = Value; const METHOD: &'static str = $m; }
        impl dapts::IRequest for $name { type Arguments = Value; type Response = Value; const COMMAND: &'static str = $m; }
        impl dapts::IEvent for $name { type Body = Value; const EVENT: &'static str = $m; }
    )* };
}
lsp! { Echo "echo" Later "later" Ask "ask" Note "note" Shutdown "shutdown" Disconnect "disconnect" Out "out" Tell "tell" }

fn later(s: &mut Srv, v: Value) -> AnySchedulableResponse {
    let n = s.saw("later", &v);
    let ms = v["ms"].as_u64().unwrap_or(0);
    let fail = v["fail"].as_bool().unwrap_or(false);
    just_future(async move {
        tokio::time::sleep(Duration::from_millis(ms)).await;
        if fail {
            Err(internal_error(format!("{n}")))
        } else {
            Ok(json!([n, v]))
        }
    })
}

fn server(kind: &str, args: MirrorArgs, log_file: &str) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
    let log = Log::default();
    let is_replay = !args.replay.is_empty();
    let r = if kind == "lsp" {
        with_stdio_transport::<LspMessage>(args, |conn| {
            let root = LspClientRoot::new(rt.handle().clone(), conn.sender);
            let client = root.weak();
            let mut d = LspBuilder::<Init>::new(Init(client.clone(), log.clone()), client)
                .with_request::<Echo>(|s, v| {
                    let n = s.saw("echo", &v);
                    just_ok(json!([n, v]))
                })
                .with_request::<Later>(later)
                .with_request::<Ask>(|s, v| {
                    let n = s.saw("ask", &v);
                    s.client.to_typed::<Srv>().send_lsp_request::<Out>(v, move |s, r| {
                        let v = json!([n, r.result]);
                        s.saw("answer", &v);
                        s.client.send_notification::<Tell>(&v);
                    });
                    just_ok(json!(n))
                })
                .with_notification_::<Note>(|s, v| {
                    let n = s.saw("note", &v);
                    s.client.send_notification::<Tell>(&json!([n, v]));
                    Ok(())
                })
                .with_request::<Shutdown>(|s, v| {
                    s.saw("shutdown", &v);
                    just_ok(Value::Null)
                })
                .build();
            d.start(conn.receiver, is_replay)
        })
    } else {
        with_stdio_transport::<DapMessage>(args, |conn| {
            let root = LspClientRoot::new(rt.handle().clone(), conn.sender);
            let client = root.weak();
            let mut b = DapBuilder::<Init>::new(Init(client.clone(), log.clone()), client)
                .with_request::<Echo>(|s, v| {
                    let n = s.saw("echo", &v);
                    just_ok(json!([n, v]))
                })
                .with_request::<Later>(later)
                .with_request::<Ask>(|s, v| {
                    let n = s.saw("ask", &v);
                    s.client.to_typed::<Srv>().send_dap_event::<Tell>(v);
                    just_ok(json!(n))
                })
                .with_request::<Disconnect>(|s, v| {
                    s.saw("disconnect", &v);
                    just_ok(Value::Null)
                });
            b.notif_handlers.insert(
                "note",
                Box::new(|s, v| {
                    let n = s.saw("note", &v);
                    s.client.to_typed::<Srv>().send_dap_event::<Tell>(json!([n, v]));
                    Ok(())
                }),
            );
            b.build().start(conn.receiver, is_replay)
        })
    };
    let ok = r.map_err(|e| e.to_string());
    let log = std::mem::take(&mut *log.lock().unwrap());
    std::fs::write(log_file, serde_json::to_vec(&json!({"log": log, "end": format!("{ok:?}")})).unwrap()).unwrap();
    // The reader may still wait for input, as in a real server.
    std::process::exit(if ok.is_ok() { 0 } else { 4 });
}

// ---------------------------------------------------------------- cases

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Item {
    Init(Value),
    Initialized,
    Echo(Value),
    Later { v: Value, ms: u16, fail: bool },
    Ask(Value),
    /// Answers request number n of the server.
    Answer(u8, Value),
    Note(Value),
    Unknown(Value),
    UnknownNote(Value),
    /// A notification with a name like those that end a session.
    Near(String, Value),
    Shutdown,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    dap: bool,
    items: Vec<Item>,
    /// Headers of each frame, cycled.
    headers: Vec<(Vec<(String, String)>, String, Vec<(String, String)>)>,
    chunks: Vec<u8>,
    /// Ends with an exit notification (LSP); else the input just ends.
    exit: bool,
    /// Bytes behind the exit notification.
    behind: Vec<u8>,
    /// Bytes of an older recording in the same file.
    #[serde(default)]
    old: Option<u32>,
    /// Also records to a file that cannot take any more.
    #[serde(default)]
    full: bool,
    #[serde(default)]
    spaces: Vec<(String, String)>,
}

impl Case {
    fn body(&self, n: usize, item: &Item) -> Value {
        let id = n as i64 + 10;
        if self.dap {
            let req = |c: &str, v: Value| json!({"seq": id, "type": "request", "command": c, "arguments": v});
            match item {
                Item::Init(v) => req("initialize", v.clone()),
                Item::Initialized => json!({"seq": id, "type": "event", "event": "initialized"}),
                Item::Echo(v) => req("echo", v.clone()),
                Item::Later { v, ms, fail } => req("later", json!({"v": v, "ms": ms, "fail": fail})),
                Item::Ask(v) => req("ask", v.clone()),
                Item::Answer(k, v) => json!({"seq": id, "type": "response", "request_seq": k, "success": true, "command": "x", "body": v}),
                Item::Note(v) => json!({"seq": id, "type": "event", "event": "note", "body": v}),
                Item::Unknown(v) => req("unknown", v.clone()),
                Item::UnknownNote(v) => json!({"seq": id, "type": "event", "event": "unknown", "body": v}),
                Item::Near(name, v) => json!({"seq": id, "type": "event", "event": name, "body": v}),
                Item::Shutdown => req("disconnect", json!({})),
            }
        } else {
            let req = |c: &str, v: &Value| json!({"jsonrpc": "2.0", "id": id, "method": c, "params": v});
            let note = |c: &str, v: &Value| json!({"jsonrpc": "2.0", "method": c, "params": v});
            match item {
                Item::Init(v) => req("initialize", v),
                Item::Initialized => note("initialized", &json!({})),
                Item::Echo(v) => req("echo", v),
                Item::Later { v, ms, fail } => req("later", &json!({"v": v, "ms": ms, "fail": fail})),
                Item::Ask(v) => req("ask", v),
                Item::Answer(k, v) => json!({"jsonrpc": "2.0", "id": k, "result": v}),
                Item::Note(v) => note("note", v),
                Item::Unknown(v) => req("unknown", v),
                Item::UnknownNote(v) => note("unknown", v),
                Item::Near(name, v) => note(name, v),
                Item::Shutdown => req("shutdown", &Value::Null),
            }
        }
    }
    fn is_request(i: &Item) -> bool {
        !matches!(i, Item::Initialized | Item::Answer(..) | Item::Note(_) | Item::UnknownNote(_) | Item::Near(..))
    }
    fn frame(&self, n: usize, v: &Value) -> Vec<u8> {
        let (a, name, b) = &self.headers[n % self.headers.len()];
        let mut body = serde_json::to_vec(v).unwrap();
        body.splice(..0, self.around(n).0.bytes());
        body.extend(self.around(n).1.bytes());
        frame(&body, a, name, b)
    }
    /// Space around the body, which is part of the frame.
    fn around(&self, n: usize) -> (&str, &str) {
        self.spaces.get(n % self.spaces.len().max(1)).map(|(a, b)| (a.as_str(), b.as_str())).unwrap_or_default()
    }
    fn ids(&self) -> BTreeSet<i64> {
        self.items.iter().enumerate().filter(|(_, i)| Self::is_request(i)).map(|(n, _)| n as i64 + 10).collect()
    }
    /// Whether the output is determined by the input, byte for byte.
    fn fixed(&self) -> bool {
        !self.items.iter().any(|i| matches!(i, Item::Later { .. }))
    }
}

#[derive(Debug, PartialEq)]
struct Ran {
    out: Vec<u8>,
    log: Value,
}

/// Frames of an output stream, strictly.
fn frames(mut b: &[u8]) -> Result<Vec<Value>, String> {
    let mut v = vec![];
    while !b.is_empty() {
        let Some(p) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return Err(format!("output ends in half a frame: {:?}", String::from_utf8_lossy(b))) };
        let head = std::str::from_utf8(&b[..p]).map_err(|e| e.to_string())?;
        let n: usize = head.strip_prefix("Content-Length: ").and_then(|n| n.parse().ok()).ok_or_else(|| format!("output header {head:?}"))?;
        let body = b.get(p + 4..p + 4 + n).ok_or("output ends in half a body")?;
        v.push(serde_json::from_slice(body).map_err(|e| e.to_string())?);
        b = &b[p + 4 + n..];
    }
    Ok(v)
}

/// The frames complete so far.
fn complete(b: &[u8]) -> usize {
    let (mut at, mut n) = (0, 0);
    while let Some(p) = b[at..].windows(4).position(|w| w == b"\r\n\r\n") {
        let Some(len) = std::str::from_utf8(&b[at..at + p]).ok().and_then(|h| h.strip_prefix("Content-Length: ")).and_then(|h| h.parse::<usize>().ok()) else { break };
        if at + p + 4 + len > b.len() {
            break;
        }
        at += p + 4 + len;
        n += 1;
    }
    let _ = n;
    at
}

fn answered(b: &[u8], dap: bool) -> BTreeSet<i64> {
    frames(&b[..complete(b)]).unwrap_or_default().iter().filter_map(|v| response_to(v, dap)).collect()
}

fn response_to(v: &Value, dap: bool) -> Option<i64> {
    if dap {
        (v["type"] == "response").then(|| v["request_seq"].as_i64()).flatten()
    } else {
        v.get("method").is_none().then(|| v["id"].as_i64()).flatten()
    }
}

fn run(c: &Case, dir: &Path, tag: &str, mirror: Option<&Path>, replay: Option<&Path>) -> Result<Ran, String> {
    let log = dir.join(format!("{tag}.log"));
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("--server").arg(if c.dap { "dap" } else { "lsp" }).arg(&log);
    cmd.arg(mirror.map(|p| p.to_str().unwrap()).unwrap_or(""));
    cmd.arg(replay.map(|p| p.to_str().unwrap()).unwrap_or(""));
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut child = cmd.spawn().map_err(|e| e.to_string())?;
    let mut stdin = child.stdin.take();
    let out: Arc<Mutex<Vec<u8>>> = Default::default();
    let mut stdout = child.stdout.take().unwrap();
    let o2 = out.clone();
    let reader = std::thread::spawn(move || {
        let mut buf = [0u8; 8192];
        while let Ok(n) = stdout.read(&mut buf) {
            if n == 0 {
                break;
            }
            o2.lock().unwrap().extend_from_slice(&buf[..n]);
        }
    });
    let res = (|| -> Result<(), String> {
        if replay.is_none() {
            let w = stdin.as_mut().unwrap();
            let mut head = vec![];
            for (n, i) in c.items.iter().enumerate() {
                head.extend(c.frame(n, &c.body(n, i)));
            }
            put(w, &head, &c.chunks);
            // The client waits for its answers before it ends the session.
            let ids = c.ids();
            let t = Instant::now();
            while !ids.is_subset(&answered(&out.lock().unwrap(), c.dap)) {
                if t.elapsed() > PATIENCE || matches!(child.try_wait(), Ok(Some(_))) {
                    return Err(format!("{tag}: requests {ids:?}, answered {:?}", answered(&out.lock().unwrap(), c.dap)));
                }
                std::thread::sleep(Duration::from_micros(200));
            }
            if c.exit && !c.dap {
                let mut tail = c.frame(c.items.len(), &json!({"jsonrpc": "2.0", "method": "exit"}));
                tail.extend(&c.behind);
                put(w, &tail, &c.chunks);
            }
            stdin = None;
        }
        let t = Instant::now();
        loop {
            if let Ok(Some(s)) = child.try_wait() {
                if !s.success() {
                    return Err(format!("{tag}: the server exited with {s}"));
                }
                return Ok(());
            }
            if t.elapsed() > PATIENCE {
                return Err(format!("{tag}: the server does not exit"));
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    })();
    if res.is_err() {
        let _ = child.kill();
        let _ = child.wait();
    }
    let _ = reader.join();
    res?;
    let log: Value = serde_json::from_slice(&std::fs::read(&log).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let out = std::mem::take(&mut *out.lock().unwrap());
    Ok(Ran { out, log })
}

fn put(w: &mut impl Write, b: &[u8], chunks: &[u8]) {
    let mut at = 0;
    let mut k = 0;
    while at < b.len() {
        let n = match chunks.get(k % chunks.len().max(1)) {
            None | Some(255) => b.len() - at,
            Some(n) => (*n as usize * 7).max(1).min(b.len() - at),
        };
        // The server may be gone already.
        if w.write_all(&b[at..at + n]).and_then(|_| w.flush()).is_err() {
            return;
        }
        at += n;
        k += 1;
    }
}

fn judge(c: &Case) -> Verdict {
    let dir = Scratch::new();
    let rec = dir.path().join("session.rec");
    if let Some(n) = c.old {
        std::fs::write(&rec, b"old session\r\n".repeat(n as usize)).map_err(|e| e.to_string())?;
    }
    let plain = run(c, dir.path(), "plain", None, None)?;
    let mirrored = run(c, dir.path(), "mirrored", Some(&rec), None)?;
    let mut want = vec![];
    for (n, i) in c.items.iter().enumerate() {
        want.extend(c.frame(n, &c.body(n, i)));
    }
    if c.exit && !c.dap {
        want.extend(c.frame(c.items.len(), &json!({"jsonrpc": "2.0", "method": "exit"})));
    }
    let got = std::fs::read(&rec).map_err(|e| e.to_string())?;
    ensure!(got == want, "the recording is not the input consumed: {:?}, expected {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want));
    let full = Path::new("/dev/full");
    let unrecorded = if c.full && full.exists() { Some(run(c, dir.path(), "unrecorded", Some(full), None)?) } else { None };
    let replayed = run(c, dir.path(), "replayed", None, Some(&rec))?;
    ensure!(std::fs::read(&rec).map_err(|e| e.to_string())? == want, "replaying changed the recording");
    let runs = [("mirrored", &mirrored), ("replayed", &replayed)];
    for (what, r) in runs.into_iter().chain(unrecorded.as_ref().map(|r| ("mirrored to a full disk", r))) {
        ensure_eq!(r.log, plain.log, "{what}: messages handled");
        let all: Vec<i64> = frames(&r.out)?.iter().filter_map(|v| response_to(v, c.dap)).collect();
        ensure_eq!({ let mut a = all.clone(); a.sort(); a }, c.ids().into_iter().collect::<Vec<_>>(), "{what}: requests answered");
        if c.fixed() {
            ensure!(r.out == plain.out, "{what}: output {:?}, expected {:?}", String::from_utf8_lossy(&r.out), String::from_utf8_lossy(&plain.out));
        } else {
            let sorted = |b: &[u8]| -> Result<Vec<String>, String> {
                let mut v: Vec<_> = frames(b)?.iter().map(|v| v.to_string()).collect();
                v.sort();
                Ok(v)
            };
            ensure_eq!(sorted(&r.out)?, sorted(&plain.out)?, "{what}: output, in any order");
        }
    }
    Ok(c.items.len() >= 3)
}

fn case(dap: bool, slow: bool) -> BoxedStrategy<Case> {
    let v = || gen::json(3, 8);
    let item = |later: bool| {
        prop_oneof![
            5 => v().prop_map(Item::Echo),
            if later { 5 } else { 0 } => (v(), if slow { 50u16..1500 } else { 0u16..25 }, any::<bool>()).prop_map(|(v, ms, fail)| Item::Later { v, ms, fail }),
            2 => v().prop_map(Item::Ask),
            2 => (0u8..4, v()).prop_map(|(k, v)| Item::Answer(k, v)),
            2 => v().prop_map(Item::Note),
            1 => v().prop_map(Item::Unknown),
            2 => prop_oneof![v().prop_map(Item::UnknownNote), (near(&[&["exit", "shutdown", "initialized", "terminated", "disconnect"]]), v()).prop_map(|(n, v)| Item::Near(n, v))],
            1 => v().prop_map(Item::Init),
            1 => Just(Item::Shutdown),
            1 => gen::text(4000).prop_map(|s| Item::Echo(json!(s.repeat(4)))),
        ]
    };
    let items = prop_oneof![
        prop::collection::vec(item(true), if slow { 1..5 } else { 0..12 }),
        prop::collection::vec(item(false), 0..12),
    ];
    bx((
        prop::bool::weighted(0.95),
        items,
        prop::collection::vec((other_headers(), header_name(), other_headers()), 1..3),
        chunks(),
        any::<bool>(),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 0..30), 1 => Just(frame(b"{\"method\":\"note\",\"params\":1}", &[], "Content-Length", &[]))],
        prop_oneof![2 => Just(None), 1 => prop_oneof![0u32..20, 0u32..5000].prop_map(Some)],
        (prop::bool::weighted(0.1), prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(("[ \t\r\n]{0,3}", "[ \t\r\n]{0,3}"), 1..4)]),
    )
        .prop_map(move |(ready, mut items, headers, chunks, exit, behind, old, (full, spaces))| {
            if ready {
                items.insert(0, Item::Init(json!({"a": 1})));
                items.insert(1, Item::Initialized);
            }
            Case { dap, items, headers, chunks, exit, behind, old, full, spaces }
        }))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--server") {
        server(&args[2], MirrorArgs { mirror: args[4].clone(), replay: args[5].clone() }, &args[3]);
        return;
    }
    Check::main(
        "C07",
        "sessions run three times against a real server process over its standard streams: plain, recorded, and replayed from the recording; non-trivial: at least three messages",
        |c| {
            c.assume("the recorded sessions are well formed and the client waits for its answers before it ends the session");
            c.assume("answers computed asynchronously may come in another order when replayed");
            c.prop("lsp", Opts::new(1500).thorough(40).shards(16).shrink(200).retries(3), || case(false, false), judge);
            c.prop("dap", Opts::new(700).thorough(40).shards(16).shrink(200).retries(3), || case(true, false), judge);
            c.prop("slow answers", Opts::new(48).thorough(40).shards(24).shrink(20).retries(3), || bx(any::<bool>().prop_flat_map(|dap| case(dap, true))), judge);
        },
    )
}
