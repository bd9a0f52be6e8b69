//! C08: debug adapter sessions.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crossbeam_channel::{bounded, unbounded, SendTimeoutError};
use h_syncls::drive::near;
use h_syncls::{error, more, non_null, Dm, Er};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use sync_ls::*;
use vcommon::{bx, ensure, ensure_eq, gen, Check, Opts, Verdict};

const PATIENCE: Duration = Duration::from_secs(20);

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Plan {
    Ok(Value),
    Err(Er),
    Reject(Er),
    Later(u32),
    /// Only self-answering handlers: nothing was answered.
    Nothing,
    /// Answers twice.
    Twice(Value, Value),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Params {
    /// Events sent to the client: which, body.
    tell: Vec<(u8, Value)>,
    /// Events the adapter sends itself.
    fire: Vec<Value>,
    plan: Plan,
    v: Value,
    /// Members the handlers do not look at.
    #[serde(flatten)]
    more: Map<String, Value>,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum Kind {
    Typed,
    Raw,
    TypedRaw,
    Init,
    Disconnect,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Step {
    Req { seq: i64, kind: Kind, which: u8, params: Params },
    Malformed { seq: i64, kind: Kind, which: u8, params: Value },
    Unknown { seq: i64, command: String, params: Value },
    Event { seq: i64, which: u8, body: Value, fail: Option<Er> },
    UnknownEvent { seq: i64, name: String, body: Value },
    Response { request_seq: i64, success: bool, body: Option<Value> },
    Fire(Value),
    Resolve { which: u8, result: Result<Value, Er> },
    /// The handlers that are still running take that long.
    Hours(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct History {
    registered: u16,
    steps: Vec<Step>,
}

macro_rules! commands {
    ($($name:ident = $m:literal : $p:ty);* $(;)?) => { $(
        enum $name {}
        impl dapts::IRequest for $name { type Arguments = $p; type Response = Value; const COMMAND: &'static str = $m; }
    )* };
}
commands! { T0 = "next": Params; T1 = "nextX": Params; R0 = "stepIn": Value; R1 = "stepInTargets": Value; Q0 = "pause": Params; Q1 = "Next": Params; Dis = "disconnect": Value; }
enum W0 {}
impl dapts::IEvent for W0 {
    const EVENT: &'static str = "stopped";
    type Body = Value;
}
enum W1 {}
impl dapts::IEvent for W1 {
    const EVENT: &'static str = "next";
    type Body = Value;
}
const TYPED: [&str; 2] = ["next", "nextX"];
const RAW: [&str; 2] = ["stepIn", "stepInTargets"];
const TRAW: [&str; 2] = ["pause", "Next"];
const EVTS: [&str; 2] = ["evt", "initialized"];
const TELL: [&str; 2] = ["stopped", "next"];

#[derive(Debug, Clone, PartialEq)]
enum Run {
    Handler { name: String, seq: Option<i64>, args: Value },
    Fired { v: Value, ready: bool },
}

#[derive(Default)]
struct Log {
    runs: Mutex<Vec<Run>>,
    slots: Mutex<HashMap<u32, tokio::sync::oneshot::Receiver<Result<Value, Er>>>>,
}
struct Srv {
    log: Arc<Log>,
    client: LspClient,
}
struct Args {
    log: Arc<Log>,
    client: LspClient,
}
struct Fired(Value);

fn rerr(e: Er) -> ResponseError {
    ResponseError { code: e.code, message: e.message, data: e.data }
}

impl Srv {
    fn run(&self, name: &str, id: Option<&RequestId>, args: Value) {
        let seq = id.map(|i| match serde_json::to_value(i).unwrap() {
            Value::Number(n) => n.as_i64().unwrap(),
            Value::String(s) => s.parse().unwrap_or(i64::MIN + 7),
            _ => i64::MIN + 7,
        });
        self.log.runs.lock().unwrap().push(Run::Handler { name: name.into(), seq, args });
    }
    fn fx(&self, p: &Params) {
        for (w, v) in &p.tell {
            let c = self.client.to_typed::<Srv>();
            match w % 2 {
                0 => c.send_dap_event::<W0>(v.clone()),
                _ => c.send_dap_event::<W1>(v.clone()),
            }
        }
        for v in &p.fire {
            self.client.send_event(Fired(v.clone()));
        }
    }
    fn plain(&self, p: Plan) -> AnySchedulableResponse {
        match p {
            Plan::Ok(v) => just_ok(v),
            Plan::Err(e) => just_result(Err(rerr(e))),
            Plan::Reject(e) => Err(rerr(e)),
            Plan::Later(k) => {
                let rx = self.log.slots.lock().unwrap().remove(&k).expect("slot");
                just_future(async move { rx.await.expect("slot dropped").map_err(rerr) })
            }
            p => panic!("{p:?} in a plain handler"),
        }
    }
    fn selfmade(&self, id: RequestId, p: Plan) -> ScheduledResult {
        match p {
            Plan::Ok(v) => {
                self.client.respond_result(id, Ok(v));
                Ok(Some(()))
            }
            Plan::Nothing => Ok(None),
            Plan::Twice(a, b) => {
                self.client.respond_result(id.clone(), Ok(a));
                self.client.respond_result(id, Ok(b));
                Ok(Some(()))
            }
            p => {
                let r = self.plain(p);
                self.client.schedule(id, r)
            }
        }
    }
}

impl Initializer for Args {
    type I = Params;
    type S = Srv;
    fn initialize(self, p: Params) -> (Srv, AnySchedulableResponse) {
        let s = Srv { log: self.log, client: self.client };
        s.run("initialize", None, json!(p));
        s.fx(&p);
        let r = s.plain(p.plan);
        (s, r)
    }
}

fn typed<R: dapts::IRequest>(s: &mut Srv, p: Params) -> AnySchedulableResponse {
    s.run(R::COMMAND, None, json!(p));
    s.fx(&p);
    s.plain(p.plan)
}
fn typed_raw<R: dapts::IRequest>(s: &mut Srv, id: RequestId, p: Params) -> ScheduledResult {
    s.run(R::COMMAND, Some(&id), json!(p));
    s.fx(&p);
    s.selfmade(id, p.plan)
}
fn raw<R: dapts::IRequest>(s: &mut Srv, id: RequestId, v: Value) -> ScheduledResult {
    s.run(R::COMMAND, Some(&id), v.clone());
    match serde_json::from_value::<Params>(v) {
        Ok(p) => {
            s.fx(&p);
            s.selfmade(id, p.plan)
        }
        Err(_) => Err(rerr(Er { code: -77, message: "raw".into(), data: None })),
    }
}
fn evt<const N: usize>(s: &mut Srv, v: Value) -> LspResult<()> {
    s.run(&format!("evt:{}", EVTS[N]), None, v.clone());
    match serde_json::from_value::<Er>(v["fail"].clone()) {
        Ok(e) => Err(rerr(e)),
        Err(_) => Ok(()),
    }
}

fn build(reg: u16, log: Arc<Log>, client: LspClient) -> DapBuilder<Args> {
    let mut b = DapBuilder::<Args>::new(Args { log: log.clone(), client: client.clone() }, client);
    let on = |k: u16| reg >> k & 1 == 1;
    if on(0) {
        b = b.with_request::<T0>(typed::<T0>);
    }
    if on(1) {
        b = b.with_request::<T1>(typed::<T1>);
    }
    if on(2) {
        b = b.with_raw_request::<R0>(raw::<R0>);
    }
    if on(3) {
        b = b.with_raw_request::<R1>(raw::<R1>);
    }
    if on(4) {
        b = b.with_request_::<Q0>(typed_raw::<Q0>);
    }
    if on(5) {
        b = b.with_request_::<Q1>(typed_raw::<Q1>);
    }
    if on(6) {
        b.notif_handlers.insert(EVTS[0], Box::new(evt::<0>));
    }
    if on(7) {
        b.notif_handlers.insert(EVTS[1], Box::new(evt::<1>));
    }
    if on(8) {
        b = b.with_raw_request::<Dis>(raw::<Dis>);
    }
    if on(9) {
        b = b.with_event(&Fired(Value::Null), move |mut s, e: Fired| {
            let ready = s.ready().is_some();
            log.runs.lock().unwrap().push(Run::Fired { v: e.0, ready });
            Ok(())
        });
    }
    b
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Uninit,
    Ready,
    Down,
}

enum Want {
    Ok(Value),
    Err(String),
    Refused,
}

struct Model {
    reg: u16,
    st: St,
    pending: BTreeSet<i64>,
    resp: Vec<(i64, Want)>,
    later: BTreeMap<u32, i64>,
    runs: Vec<Run>,
    tells: Vec<(String, Value)>,
    fired: VecDeque<Value>,
}

impl Model {
    fn on(&self, k: u16) -> bool {
        self.reg >> k & 1 == 1
    }
    fn answer(&mut self, seq: i64, w: Want) {
        if self.pending.remove(&seq) {
            self.resp.push((seq, w));
        }
    }
    fn plan(&mut self, seq: i64, p: &Plan) {
        match p {
            Plan::Ok(v) | Plan::Twice(v, _) => self.answer(seq, Want::Ok(v.clone())),
            Plan::Err(e) | Plan::Reject(e) => self.answer(seq, Want::Err(e.message.clone())),
            Plan::Nothing => self.answer(seq, Want::Ok(Value::Null)),
            Plan::Later(k) => {
                self.later.insert(*k, seq);
            }
        }
    }
    fn fx(&mut self, p: &Params) {
        for (w, v) in &p.tell {
            self.tells.push((TELL[*w as usize % 2].into(), v.clone()));
        }
        self.fired.extend(p.fire.iter().cloned());
    }
    fn request(&mut self, seq: i64, kind: Option<Kind>, which: u8, p: Result<&Params, &Value>) {
        self.pending.insert(seq);
        let w = which as usize % 2;
        match (self.st, kind) {
            (St::Uninit, Some(Kind::Init)) => match p {
                Ok(p) => {
                    self.runs.push(Run::Handler { name: "initialize".into(), seq: None, args: json!(p) });
                    self.st = St::Ready;
                    self.fx(p);
                    self.plan(seq, &p.plan);
                }
                Err(_) => self.answer(seq, Want::Refused),
            },
            (St::Uninit | St::Down, _) | (_, None | Some(Kind::Init)) => self.answer(seq, Want::Refused),
            (St::Ready, Some(kind)) => {
                let (bit, name, is_typed, takes_id) = match kind {
                    Kind::Typed => (w as u16, TYPED[w], true, false),
                    Kind::Raw => (2 + w as u16, RAW[w], false, true),
                    Kind::TypedRaw => (4 + w as u16, TRAW[w], true, true),
                    Kind::Disconnect => (8, "disconnect", false, true),
                    Kind::Init => unreachable!(),
                };
                if !self.on(bit) {
                    return self.answer(seq, Want::Refused);
                }
                match p {
                    Ok(p) => {
                        self.runs.push(Run::Handler { name: name.into(), seq: takes_id.then_some(seq), args: json!(p) });
                        self.fx(p);
                        self.plan(seq, &p.plan);
                    }
                    Err(_) if is_typed => return self.answer(seq, Want::Refused),
                    Err(v) => {
                        self.runs.push(Run::Handler { name: name.into(), seq: Some(seq), args: v.clone() });
                        self.answer(seq, Want::Err("raw".into()));
                    }
                }
                if kind == Kind::Disconnect {
                    self.st = St::Down;
                }
            }
        }
    }
    fn drain(&mut self) {
        while let Some(v) = self.fired.pop_front() {
            if self.on(9) && self.st != St::Down {
                self.runs.push(Run::Fired { v, ready: self.st == St::Ready });
            }
        }
    }
}

fn name(kind: Kind, which: u8) -> String {
    let w = which as usize % 2;
    match kind {
        Kind::Typed => TYPED[w],
        Kind::Raw => RAW[w],
        Kind::TypedRaw => TRAW[w],
        Kind::Init => "initialize",
        Kind::Disconnect => "disconnect",
    }
    .into()
}

fn judge(h: &History) -> Verdict {
    // The clock of the asynchronous handlers moves only with `Step::Hours`.
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let (ev_tx, ev_rx) = unbounded::<Event>();
    let (out_tx, out_rx) = unbounded::<Message>();
    let (in_tx, in_rx) = bounded::<Message>(0);
    let conn: Connection<DapMessage> = Connection::<Message>::verif_from_channels((ev_tx, ev_rx.clone()), (out_tx, in_rx)).into();
    let root = LspClientRoot::new(rt.handle().clone(), conn.sender);
    let client = root.weak();
    let log = Arc::new(Log::default());
    let mut senders = HashMap::new();
    for s in &h.steps {
        if let Step::Req { params: Params { plan: Plan::Later(k), .. }, .. } = s {
            let (tx, rx) = tokio::sync::oneshot::channel();
            senders.insert(*k, tx);
            log.slots.lock().unwrap().insert(*k, rx);
        }
    }
    let driver = {
        let (reg, log, client, rx) = (h.registered, log.clone(), client.clone(), conn.receiver);
        std::thread::Builder::new().name("driver".into()).spawn(move || build(reg, log, client).build().start_(rx).map_err(|e| e.to_string())).unwrap()
    };
    let mut m = Model {
        reg: h.registered,
        st: St::Uninit,
        pending: Default::default(),
        resp: vec![],
        later: Default::default(),
        runs: vec![],
        tells: vec![],
        fired: Default::default(),
    };
    let mut seqs = HashSet::new();
    let mut fresh = 5_000_000_000i64;
    let mut states = HashSet::new();
    let (mut pend_max, mut handled) = (0, 0);
    let send = |m: Message| -> Result<(), String> {
        let t = Instant::now();
        let mut m = m;
        loop {
            match in_tx.send_timeout(m, Duration::from_millis(50)) {
                Ok(()) => return Ok(()),
                Err(SendTimeoutError::Disconnected(_)) => return Err("the adapter loop ended".into()),
                Err(SendTimeoutError::Timeout(b)) => m = b,
            }
            if driver.is_finished() {
                return Err("the adapter loop ended".into());
            }
            if t.elapsed() > PATIENCE {
                return Err("the adapter stopped taking messages".into());
            }
        }
    };
    let nop = || Message::Dap(Dm::Evt { seq: 1, event: "verif/nop".into(), body: Value::Null }.real());
    let last = Step::Resolve { which: 0, result: Ok(json!("last")) };
    let steps = h.steps.iter().map(Some).chain([None]);
    for (at, step) in steps.enumerate() {
        states.insert(m.st as u8);
        let fix = |seq: i64, m: &Model, fresh: &mut i64| {
            if m.pending.contains(&seq) {
                *fresh += 1;
                *fresh
            } else {
                seq
            }
        };
        let mut resolve = vec![];
        match step {
            Some(Step::Req { seq, kind, which, params }) => {
                let seq = fix(*seq, &m, &mut fresh);
                m.request(seq, Some(*kind), *which, Ok(params));
                send(Message::Dap(Dm::Req { seq, command: name(*kind, *which), arguments: json!(params) }.real()))?;
            }
            Some(Step::Malformed { seq, kind, which, params }) => {
                let seq = fix(*seq, &m, &mut fresh);
                m.request(seq, Some(*kind), *which, Err(params));
                send(Message::Dap(Dm::Req { seq, command: name(*kind, *which), arguments: params.clone() }.real()))?;
            }
            Some(Step::Unknown { seq, command, params }) => {
                let seq = fix(*seq, &m, &mut fresh);
                m.request(seq, None, 0, Err(params));
                send(Message::Dap(Dm::Req { seq, command: command.clone(), arguments: params.clone() }.real()))?;
            }
            Some(Step::Event { seq, which, body, fail }) => {
                let w = *which as usize % 2;
                let body = json!({"v": body, "fail": fail});
                if m.st == St::Ready && m.on(6 + w as u16) {
                    m.runs.push(Run::Handler { name: format!("evt:{}", EVTS[w]), seq: None, args: body.clone() });
                }
                send(Message::Dap(Dm::Evt { seq: *seq, event: EVTS[w].into(), body }.real()))?;
            }
            Some(Step::UnknownEvent { seq, name, body }) => {
                send(Message::Dap(Dm::Evt { seq: *seq, event: name.clone(), body: body.clone() }.real()))?;
            }
            Some(Step::Response { request_seq, success, body }) => {
                send(Message::Dap(Dm::Res { request_seq: *request_seq, success: *success, message: None, body: body.clone() }.real()))?;
            }
            Some(Step::Fire(v)) => {
                m.fired.push_back(v.clone());
                client.send_event(Fired(v.clone()));
            }
            Some(Step::Resolve { which, result }) => resolve.push((*which, result)),
            Some(Step::Hours(n)) => rt.block_on(tokio::time::advance(Duration::from_secs(*n as u64 * 3600 + 1))),
            None => {
                let Step::Resolve { which, result } = &last else { unreachable!() };
                resolve.extend((0..m.later.len()).map(|_| (*which, result)));
            }
        }
        for (which, result) in resolve {
            if m.later.is_empty() {
                continue;
            }
            let k = *m.later.keys().nth(which as usize % m.later.len()).unwrap();
            let seq = m.later.remove(&k).unwrap();
            m.answer(
                seq,
                match result {
                    Ok(v) => Want::Ok(v.clone()),
                    Err(e) => Want::Err(e.message.clone()),
                },
            );
            let _ = senders.remove(&k).unwrap().send(result.clone());
        }
        pend_max = pend_max.max(m.later.len());
        m.drain();
        let t = Instant::now();
        let mut quiet = 0;
        while quiet < 4 {
            send(nop())?;
            if ev_rx.is_empty() {
                quiet += 1;
            } else {
                quiet = 0;
            }
            ensure!(t.elapsed() < PATIENCE, "step {at}: the adapter does not take its events");
        }
        rt.block_on(async {
            for _ in 0..12 {
                tokio::task::yield_now().await;
            }
        });
        // Compare.
        let (mut resp, mut tells) = (vec![], vec![]);
        while let Ok(msg) = out_rx.try_recv() {
            let Message::Dap(d) = &msg else { return Err("an LSP message from a debug adapter".into()) };
            match Dm::of(d) {
                Dm::Res { request_seq, success, message, body } => resp.push((request_seq, success, message, body)),
                Dm::Evt { seq, event, body } => {
                    ensure!(seqs.insert(seq), "step {at}: event sequence number {seq} was used twice");
                    tells.push((event, body));
                }
                m => return Err(format!("step {at}: sent {m:?}").into()),
            }
        }
        let want = std::mem::take(&mut m.resp);
        let mut a: Vec<_> = resp.iter().map(|r| r.0).collect();
        let mut b: Vec<_> = want.iter().map(|r| r.0).collect();
        a.sort();
        b.sort();
        ensure_eq!(a, b, "step {at}: responses to");
        for (seq, w) in want {
            let (_, success, message, body) = resp.iter().find(|r| r.0 == seq).unwrap();
            match w {
                Want::Ok(v) => ensure!(*success && non_null(body.clone()) == non_null(Some(v.clone())), "step {at}: request {seq} got {success} {message:?} {body:?}, expected {v}"),
                Want::Err(e) => ensure!(!success && message.as_deref() == Some(&e), "step {at}: request {seq} got {success} {message:?} {body:?}, expected failure {e:?}"),
                Want::Refused => ensure!(!success && message.is_some(), "step {at}: request {seq} got {success} {message:?} {body:?}, expected a refusal"),
            }
        }
        ensure_eq!(tells, std::mem::take(&mut m.tells), "step {at}: events sent");
        let runs = std::mem::take(&mut *log.runs.lock().unwrap());
        handled += runs.len();
        ensure_eq!(runs, std::mem::take(&mut m.runs), "step {at}: handlers run");
        ensure_eq!(client.has_pending_requests(), !m.pending.is_empty(), "step {at}: pending requests reported");
    }
    drop(in_tx);
    let t = Instant::now();
    while !driver.is_finished() {
        ensure!(t.elapsed() < PATIENCE, "the adapter did not end when its input closed");
        std::thread::yield_now();
    }
    match driver.join() {
        Ok(Ok(())) => Ok(states.len() >= 2 && handled >= 2 || pend_max >= 2),
        Ok(Err(e)) => Err(format!("the adapter ended with {e}").into()),
        Err(_) => Err("the adapter panicked".into()),
    }
}

fn seq() -> BoxedStrategy<i64> {
    bx(prop_oneof![6 => 0i64..40, 1 => any::<i64>(), 1 => any::<i32>().prop_map(|n| n as i64), 2 => (0i64..40, prop::sample::select(vec![1i64 << 31, 1 << 32, 1 << 33, -(1 << 32), 3 << 31])).prop_map(|(a, b)| a + b)])
}

fn params(selfmade: bool) -> BoxedStrategy<Params> {
    let v = || gen::json(2, 4);
    let base = prop_oneof![4 => v().prop_map(Plan::Ok), 2 => error().prop_map(Plan::Err), 1 => error().prop_map(Plan::Reject), 4 => any::<u32>().prop_map(Plan::Later)];
    let plan = if selfmade {
        bx(prop_oneof![5 => base, 1 => Just(Plan::Nothing), 1 => (v(), v()).prop_map(|(a, b)| Plan::Twice(a, b))])
    } else {
        bx(base)
    };
    bx((prop::collection::vec((any::<u8>(), v()), 0..3), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(v(), 0..2)], plan, v(), more(&["tell", "fire", "plan", "v"]))
        .prop_map(|(tell, fire, plan, v, more)| Params { tell, fire, plan, v, more }))
}

fn step(life: u32) -> BoxedStrategy<Step> {
    let kinds = vec![Kind::Typed, Kind::Raw, Kind::TypedRaw];
    bx(prop_oneof![
        10 => (seq(), prop::sample::select(kinds.clone()), any::<u8>()).prop_flat_map(|(seq, kind, which)| params(kind != Kind::Typed).prop_map(move |params| Step::Req { seq, kind, which, params })),
        2 * life => (seq(), params(false)).prop_map(|(seq, params)| Step::Req { seq, kind: Kind::Init, which: 0, params }),
        life => (seq(), gen::json(2, 4)).prop_map(|(seq, params)| Step::Malformed { seq, kind: Kind::Init, which: 0, params }),
        life => (seq(), params(true)).prop_map(|(seq, params)| Step::Req { seq, kind: Kind::Disconnect, which: 0, params }),
        2 => (seq(), prop::sample::select(kinds), any::<u8>(), gen::json(2, 4)).prop_map(|(seq, kind, which, params)| Step::Malformed { seq, kind, which, params }),
        2 => (seq(), prop::sample::select(vec!["nex", "next ", "", "unknown", "Disconnect", "Initialize", "evt", "stopped"]), gen::json(1, 3)).prop_map(|(seq, c, params)| Step::Unknown { seq, command: c.into(), params }),
        1 => (seq(), near(&[&TYPED, &RAW, &TRAW, &["initialize", "disconnect"]]), params(true)).prop_map(|(seq, command, p)| Step::Unknown { seq, command, params: json!(p) }),
        1 => (seq(), near(&[&EVTS]), gen::json(1, 3)).prop_map(|(seq, name, body)| Step::UnknownEvent { seq, name, body: json!({"v": body}) }),
        4 => (seq(), any::<u8>(), gen::json(2, 4), prop::option::weighted(0.3, error())).prop_map(|(seq, which, body, fail)| Step::Event { seq, which, body, fail }),
        1 => (seq(), prop::sample::select(vec!["ev", "next", "disconnect", "initialize", "exit", ""]), gen::json(1, 3)).prop_map(|(seq, n, body)| Step::UnknownEvent { seq, name: n.into(), body }),
        1 => (seq(), any::<bool>(), prop::option::of(gen::json(1, 3))).prop_map(|(request_seq, success, body)| Step::Response { request_seq, success, body }),
        2 => gen::json(1, 3).prop_map(Step::Fire),
        1 => (0u8..30).prop_map(Step::Hours),
        6 => (any::<u8>(), prop_oneof![2 => gen::json(2, 4).prop_map(Ok), 1 => error().prop_map(Err)]).prop_map(|(which, result)| Step::Resolve { which, result }),
    ])
}

fn history(life: u32) -> BoxedStrategy<History> {
    let first = params(false).prop_map(|params| Step::Req { seq: 1, kind: Kind::Init, which: 0, params });
    bx((prop_oneof![1 => Just(u16::MAX), 1 => any::<u16>()], prop::option::weighted(if life > 2 { 0.2 } else { 0.95 }, first), prop::collection::vec(step(life), 0..20)).prop_map(|(registered, first, mut steps)| {
        if let Some(f) = first {
            steps.insert(0, f);
        }
        let mut n = 0;
        for s in &mut steps {
            if let Step::Req { params: Params { plan: Plan::Later(k), .. }, .. } = s {
                n += 1;
                *k = n;
            }
        }
        History { registered, steps }
    }))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Threads(Vec<Vec<u8>>);

/// Very many events from a few threads.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Many {
    threads: u8,
    each: u32,
}

fn threads(c: &Threads) -> Verdict {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let (ev_tx, ev_rx) = unbounded::<Event>();
    let (out_tx, out_rx) = unbounded::<Message>();
    let (_in_tx, in_rx) = unbounded::<Message>();
    let conn: Connection<DapMessage> = Connection::<Message>::verif_from_channels((ev_tx, ev_rx), (out_tx, in_rx)).into();
    let root = LspClientRoot::new(rt.handle().clone(), conn.sender);
    let client = root.weak();
    let barrier = Arc::new(std::sync::Barrier::new(c.0.len()));
    let hs: Vec<_> = c
        .0
        .iter()
        .cloned()
        .enumerate()
        .map(|(t, work)| {
            let (client, barrier) = (client.to_typed::<Srv>(), barrier.clone());
            std::thread::spawn(move || {
                barrier.wait();
                for (i, w) in work.into_iter().enumerate() {
                    let v = json!([t, i]);
                    if w % 2 == 0 {
                        client.send_dap_event::<W0>(v)
                    } else {
                        client.send_dap_event::<W1>(v)
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().map_err(|_| "sending an event panicked".to_string())?;
    }
    let mut got = BTreeMap::new();
    let mut seqs = HashSet::new();
    while let Ok(m) = out_rx.try_recv() {
        let Message::Dap(d) = &m else { return Err("not a DAP message".into()) };
        let Dm::Evt { seq, event, body } = Dm::of(d) else { return Err("not an event".into()) };
        ensure!(seqs.insert(seq), "event sequence number {seq} was used twice");
        let w = if event == TELL[0] { 0 } else { 1 };
        let (Some(t), Some(i)) = (body[0].as_u64(), body[1].as_u64()) else { return Err(format!("body {body}").into()) };
        ensure!(got.insert((t, i), w).is_none(), "event {body} arrived twice");
    }
    let want: BTreeMap<_, _> = c.0.iter().enumerate().flat_map(|(t, w)| w.iter().enumerate().map(move |(i, w)| ((t as u64, i as u64), w % 2))).collect();
    ensure_eq!(got, want, "events that arrived");
    Ok(c.0.len() >= 2)
}

fn main() {
    Check::main(
        "C08",
        "debug adapter sessions of requests of every handler kind, events, responses and internal events, with lifecycle steps in any order and sequence numbers of the whole 64-bit range, compared with a model after every step; plus events sent from many threads; non-trivial: at least two handlers ran in at least two states or two answers were pending at once (sessions), at least two threads (threads)",
        |c| {
            c.assume("a sequence number is used again only after its request was answered");
            c.assume("a disconnect request counts as handled when a handler is registered for it and was run, whatever it answers");
            c.prop("sessions", Opts::new(40_000).thorough(40), || history(1), judge);
            c.prop("lifecycle", Opts::new(20_000).thorough(40), || history(5), judge);
            c.prop("threads", Opts::new(2000).thorough(40).shards(4).retries(20), || bx(prop::collection::vec(prop::collection::vec(any::<u8>(), 1..40), 1..6).prop_map(Threads)), threads);
            c.prop("many events", Opts::new(16).thorough(20).shrink(30), || bx((1u8..4, 1u32..60_000).prop_map(|(threads, each)| Many { threads, each })), |c| {
                threads(&Threads((0..c.threads).map(|_| (0..c.each).map(|i| (i % 3) as u8).collect()).collect()))?;
                Ok(c.each > 1)
            });
        },
    )
}
