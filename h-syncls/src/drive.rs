//! Drives a real LSP server loop step by step and compares what it does with a
//! model of the protocol.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crossbeam_channel::{bounded, unbounded, Receiver, Sender};
use lsp_types::notification::Notification as Notif;
use lsp_types::request::Request as Req;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sync_ls::*;
use vcommon::gen;

use crate::{error, id, non_null, Er, Id, Lm};

// ---------------------------------------------------------------- case

/// What a handler does while it runs.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Fx {
    /// Sends the client a request; its response handler does `then`.
    Ask {
        which: u8,
        params: Value,
        cast: bool,
        then: Vec<Fx>,
    },
    Tell {
        which: u8,
        params: Value,
    },
    Event {
        ty: u8,
        v: Value,
        then: Vec<Fx>,
    },
}

/// How a request is answered.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Plan {
    Ok(Value),
    Err(Er),
    /// The handler refuses to start.
    Reject(Er),
    /// Answered by a later step.
    Later(u32),
    /// Only for handlers that answer themselves:
    /// answers, then reports that it did.
    SelfOk(Value),
    SelfErr(Er),
    /// reports that nothing was answered.
    Nothing,
    /// answers and still reports that nothing was answered.
    SelfAndNothing(Value),
    /// answers twice.
    Twice(Value, Value),
    /// answers and then fails.
    SelfAndReject(Value, Er),
    /// answers with a value that has no JSON form, at once or through the
    /// scheduler.
    Unwritable(bool),
}

/// A map whose keys are not strings.
fn unwritable() -> std::collections::BTreeMap<Vec<u8>, u8> {
    [(vec![1], 2)].into()
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Params {
    pub fx: Vec<Fx>,
    pub plan: Plan,
    pub v: Value,
    /// Members the handlers do not look at.
    #[serde(flatten)]
    pub more: serde_json::Map<String, Value>,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    /// `with_request`
    Typed,
    /// `with_raw_request`
    Raw,
    /// `with_request_`
    TypedRaw,
    /// `with_command`
    Cmd,
    /// `with_command_`
    RawCmd,
    /// `with_resource`
    Res,
    /// `with_resource_`
    RawRes,
    Init,
    Shutdown,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Step {
    /// A request to a handler of the pool, registered or not.
    Req {
        id: Id,
        kind: Kind,
        which: u8,
        params: Params,
    },
    /// The same with parameters the handler cannot take.
    Malformed {
        id: Id,
        kind: Kind,
        which: u8,
        params: Value,
    },
    /// A request for something that is never registered.
    Unknown {
        id: Id,
        method: String,
        params: Value,
    },
    Note {
        which: u8,
        fx: Vec<Fx>,
        v: Value,
        fail: Option<Er>,
        typed: bool,
        bad: bool,
    },
    Initialized {
        fx: Vec<Fx>,
        v: Value,
    },
    UnknownNote {
        method: String,
        params: Value,
    },
    Exit,
    /// Answers the n-th request the server sent.
    Answer {
        which: u8,
        form: Form,
        result: Option<Value>,
        error: Option<Er>,
    },
    Event {
        ty: u8,
        v: Value,
        then: Vec<Fx>,
    },
    /// Completes the n-th pending asynchronous answer.
    Resolve {
        which: u8,
        result: Result<Value, Er>,
    },
    /// Lets milliseconds go by.
    Wait(u16),
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Form {
    Same,
    AsString,
    Unknown,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct History {
    /// Bits of the registered handlers.
    pub registered: u64,
    /// Queue everything first and start the server then.
    pub preload: bool,
    pub steps: Vec<Step>,
}

// ---------------------------------------------------------------- server

macro_rules! methods {
    ($tr:path; $($name:ident = $m:literal : $p:ty);* $(;)?) => { $(
        pub enum $name {}
        impl $tr for $name { type Params = $p; type Result = Value; const METHOD: &'static str = $m; }
    )* };
}
methods! { lsp_types::request::Request;
    T0 = "t/1": Params; T1 = "t/10": Params; T2 = "T/1": Params;
    R0 = "r/1": Value; R1 = "textDocument/hover": Value; R2 = "R/1": Value;
    Q0 = "q/1": Params; Q1 = "q/10": Params; Q2 = "t/1 ": Params;
    O0 = "out/0": Value; O1 = "out/1": Value; O2 = "t/1": Value;
    Sd = "shutdown": Value;
}
macro_rules! notes {
    ($($name:ident = $m:literal : $p:ty);* $(;)?) => { $(
        pub enum $name {}
        impl Notif for $name { type Params = $p; const METHOD: &'static str = $m; }
    )* };
}
notes! { N0 = "n/1": Value; N1 = "$/n": Value; N2 = "t/1": Value; Ini = "initialized": Value; Ex = "exit": Value;
X0 = "nt/1": NoteParams; X1 = "nt/10": NoteParams; X2 = "textDocument/didX": NoteParams;
W0 = "w/0": Value; W1 = "w/1": Value; }

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct NoteParams {
    pub fx: Vec<Fx>,
    pub v: Value,
    pub fail: Option<Er>,
}

pub const TYPED: [&str; 3] = ["t/1", "t/10", "T/1"];
pub const RAW: [&str; 3] = ["r/1", "textDocument/hover", "R/1"];
pub const TYPED_RAW: [&str; 3] = ["q/1", "q/10", "t/1 "];
pub const CMD: [&str; 3] = ["cmd", "tinymist.x", "t/1"];
pub const RAW_CMD: [&str; 3] = ["raw", "raw.x", "Cmd"];
pub const RES: [&str; 3] = ["/res/a", "/res/a/b", "res"];
pub const RAW_RES: [&str; 3] = ["/raw/a", "/raw/b", "raw"];
pub const NOTES: [&str; 3] = ["n/1", "$/n", "t/1"];
pub const TYPED_NOTES: [&str; 3] = ["nt/1", "nt/10", "textDocument/didX"];
pub const OUT: [&str; 3] = ["out/0", "out/1", "t/1"];
pub const TELL: [&str; 2] = ["w/0", "w/1"];

pub fn bit(kind: u8, which: u8) -> u64 {
    1 << (kind as u64 * 3 + which as u64)
}
const B_TYPED: u8 = 0;
const B_RAW: u8 = 1;
const B_TYPED_RAW: u8 = 2;
const B_CMD: u8 = 3;
const B_RAW_CMD: u8 = 4;
const B_RES: u8 = 5;
const B_RAW_RES: u8 = 6;
const B_NOTE: u8 = 7;
const B_TYPED_NOTE: u8 = 8;
const B_EVENT: u8 = 9;
const B_MISC: u8 = 10; // shutdown, initialized, exit

#[derive(Debug, Clone, PartialEq)]
pub enum Run {
    Handler {
        name: String,
        id: Option<Id>,
        args: Value,
    },
    Event {
        ty: u8,
        v: Value,
        ready: bool,
    },
    Response {
        token: u64,
        cast: bool,
        result: Option<Value>,
        error: Option<Er>,
    },
}

#[derive(Default)]
pub struct Log {
    runs: Mutex<Vec<Run>>,
    busy: AtomicBool,
    overlap: AtomicBool,
    slots: Mutex<HashMap<u32, tokio::sync::oneshot::Receiver<Result<Value, Er>>>>,
    selfs: Mutex<HashMap<u32, RequestId>>,
    tokens: Mutex<u64>,
}

impl Log {
    fn enter(&self) -> Busy<'_> {
        if self.busy.swap(true, Ordering::SeqCst) {
            self.overlap.store(true, Ordering::SeqCst);
        }
        Busy(self)
    }
    fn push(&self, r: Run) {
        self.runs.lock().unwrap().push(r);
    }
}
struct Busy<'a>(&'a Log);
impl Drop for Busy<'_> {
    fn drop(&mut self) {
        self.0.busy.store(false, Ordering::SeqCst);
    }
}

pub struct Sub {
    log: Arc<Log>,
    client: LspClient,
}
pub struct Srv {
    sub: Sub,
}

pub struct Args {
    log: Arc<Log>,
    client: LspClient,
}

fn rerr(e: Er) -> ResponseError {
    ResponseError {
        code: e.code,
        message: e.message,
        data: e.data,
    }
}

pub struct E0(Value, Vec<Fx>);
pub struct E1(Value, Vec<Fx>);
pub struct E2(Value, Vec<Fx>);

impl Sub {
    fn fx(&self, fx: &[Fx]) {
        for f in fx {
            match f {
                Fx::Ask { which, params, cast, then } => {
                    let token = {
                        let mut t = self.log.tokens.lock().unwrap();
                        *t += 1;
                        *t
                    };
                    let typed = self.client.to_typed::<Srv>();
                    let then = then.clone();
                    match (cast, which % 3) {
                        (true, 0) => typed
                            .cast(|s| &mut s.sub)
                            .send_lsp_request::<O0>(params.clone(), move |s, r| s.answered(token, true, r, &then)),
                        (true, 1) => typed
                            .cast(|s| &mut s.sub)
                            .send_lsp_request::<O1>(params.clone(), move |s, r| s.answered(token, true, r, &then)),
                        (true, _) => typed
                            .cast(|s| &mut s.sub)
                            .send_lsp_request::<O2>(params.clone(), move |s, r| s.answered(token, true, r, &then)),
                        (false, 0) => typed.send_lsp_request::<O0>(params.clone(), move |s, r| s.sub.answered(token, false, r, &then)),
                        (false, 1) => typed.send_lsp_request::<O1>(params.clone(), move |s, r| s.sub.answered(token, false, r, &then)),
                        (false, _) => typed.send_lsp_request::<O2>(params.clone(), move |s, r| s.sub.answered(token, false, r, &then)),
                    }
                }
                Fx::Tell { which, params } => match which % 2 {
                    0 => self.client.send_notification::<W0>(params),
                    _ => self.client.send_notification::<W1>(params),
                },
                Fx::Event { ty, v, then } => send_event(&self.client, *ty, v.clone(), then.clone()),
            }
        }
    }
    fn answered(&mut self, token: u64, cast: bool, r: lsp::Response, then: &[Fx]) {
        let _b = self.log.enter();
        let Lm::Res { result, error, .. } = Lm::of(&r.into()) else {
            unreachable!()
        };
        self.log.push(Run::Response { token, cast, result, error });
        self.fx(then);
    }
}

fn send_event(client: &LspClient, ty: u8, v: Value, then: Vec<Fx>) {
    match ty % 4 {
        0 => client.send_event(E0(v, then)),
        1 => client.to_typed::<Srv>().send_event(E1(v, then)),
        2 => client.send_event(E2(v, then)),
        // A type nobody registers.
        _ => client.send_event((v, 1u8)),
    }
}

fn plain(log: &Arc<Log>, plan: Plan) -> AnySchedulableResponse {
    match plan {
        Plan::Ok(v) => just_ok(v),
        Plan::Err(e) => just_result(Err(rerr(e))),
        Plan::Reject(e) => Err(rerr(e)),
        Plan::Later(k) => {
            let rx = log.slots.lock().unwrap().remove(&k).expect("slot");
            just_future(async move { rx.await.expect("slot dropped").map_err(rerr) })
        }
        p => panic!("plan {p:?} in a plain handler"),
    }
}

fn selfmade(s: &mut Srv, id: RequestId, plan: Plan) -> ScheduledResult {
    let c = &s.sub.client;
    match plan {
        Plan::Ok(v) | Plan::SelfOk(v) => {
            c.respond_result(id, Ok(v));
            Ok(Some(()))
        }
        Plan::Err(e) | Plan::SelfErr(e) => {
            c.respond_result::<Value>(id, Err(rerr(e)));
            Ok(Some(()))
        }
        Plan::Reject(e) => Err(rerr(e)),
        Plan::Later(k) => {
            if k % 2 == 0 {
                s.sub.log.selfs.lock().unwrap().insert(k, id);
                Ok(Some(()))
            } else {
                let r = plain(&s.sub.log, Plan::Later(k));
                c.schedule(id, r)
            }
        }
        Plan::Nothing => Ok(None),
        Plan::SelfAndNothing(v) => {
            c.respond_lsp(lsp::Response::new_ok(id, v));
            Ok(None)
        }
        Plan::Twice(a, b) => {
            c.respond_result(id.clone(), Ok(a));
            c.respond_result(id, Ok(b));
            Ok(Some(()))
        }
        Plan::SelfAndReject(v, e) => {
            c.respond_result(id, Ok(v));
            Err(rerr(e))
        }
        Plan::Unwritable(false) => {
            c.respond_result(id, Ok(unwritable()));
            Ok(Some(()))
        }
        Plan::Unwritable(true) => c.schedule(id, just_ok(unwritable())),
    }
}

fn name_of<R: Req>() -> String {
    R::METHOD.to_owned()
}

fn typed<R: Req>(s: &mut Srv, p: Params) -> AnySchedulableResponse {
    let _b = s.sub.log.clone();
    let _b = _b.enter();
    s.sub.log.push(Run::Handler {
        name: name_of::<R>(),
        id: None,
        args: serde_json::to_value(&p).unwrap(),
    });
    s.sub.fx(&p.fx);
    plain(&s.sub.log, p.plan)
}
fn raw<R: Req>(s: &mut Srv, id: RequestId, v: Value) -> ScheduledResult {
    let log = s.sub.log.clone();
    let _b = log.enter();
    s.sub.log.push(Run::Handler {
        name: name_of::<R>(),
        id: Some(Id::of(&id)),
        args: v.clone(),
    });
    match serde_json::from_value::<Params>(v) {
        Ok(p) => {
            s.sub.fx(&p.fx);
            selfmade(s, id, p.plan)
        }
        Err(_) => Err(rerr(Er {
            code: -77,
            message: "raw".into(),
            data: None,
        })),
    }
}
fn typed_raw<R: Req>(s: &mut Srv, id: RequestId, p: Params) -> ScheduledResult {
    let log = s.sub.log.clone();
    let _b = log.enter();
    s.sub.log.push(Run::Handler {
        name: name_of::<R>(),
        id: Some(Id::of(&id)),
        args: serde_json::to_value(&p).unwrap(),
    });
    s.sub.fx(&p.fx);
    selfmade(s, id, p.plan)
}
fn list_params(args: &[Value], at: usize) -> Params {
    args.get(at).and_then(|v| serde_json::from_value(v.clone()).ok()).unwrap_or(Params {
        fx: vec![],
        plan: Plan::Reject(Er {
            code: -78,
            message: "args".into(),
            data: None,
        }),
        v: Value::Null,
        more: Default::default(),
    })
}
fn cmd<const K: usize, const N: usize>(s: &mut Srv, a: Vec<Value>) -> AnySchedulableResponse {
    let log = s.sub.log.clone();
    let _b = log.enter();
    let (name, at) = if K == 0 { (CMD[N], 0) } else { (RES[N], 1) };
    s.sub.log.push(Run::Handler {
        name: format!("{}:{name}", if K == 0 { "cmd" } else { "res" }),
        id: None,
        args: json!(a),
    });
    let p = list_params(&a, at);
    s.sub.fx(&p.fx);
    plain(&s.sub.log, p.plan)
}
fn raw_cmd<const K: usize, const N: usize>(s: &mut Srv, id: RequestId, a: Vec<Value>) -> ScheduledResult {
    let log = s.sub.log.clone();
    let _b = log.enter();
    let (name, at) = if K == 0 { (RAW_CMD[N], 0) } else { (RAW_RES[N], 1) };
    s.sub.log.push(Run::Handler {
        name: format!("{}:{name}", if K == 0 { "cmd" } else { "res" }),
        id: Some(Id::of(&id)),
        args: json!(a),
    });
    let p = list_params(&a, at);
    s.sub.fx(&p.fx);
    selfmade(s, id, p.plan)
}
fn note<N: Notif>(s: &mut Srv, v: Value) -> LspResult<()> {
    let log = s.sub.log.clone();
    let _b = log.enter();
    s.sub.log.push(Run::Handler {
        name: N::METHOD.to_owned(),
        id: None,
        args: v.clone(),
    });
    match serde_json::from_value::<NoteParams>(v) {
        Ok(p) => {
            s.sub.fx(&p.fx);
            p.fail.map_or(Ok(()), |e| Err(rerr(e)))
        }
        Err(_) => Ok(()),
    }
}
fn typed_note<N: Notif>(s: &mut Srv, p: NoteParams) -> LspResult<()> {
    let log = s.sub.log.clone();
    let _b = log.enter();
    s.sub.log.push(Run::Handler {
        name: N::METHOD.to_owned(),
        id: None,
        args: serde_json::to_value(&p).unwrap(),
    });
    s.sub.fx(&p.fx);
    p.fail.map_or(Ok(()), |e| Err(rerr(e)))
}
fn event(ty: u8, mut st: ServiceState<'_, Args, Srv>, v: Value, fx: Vec<Fx>) -> anyhow::Result<()> {
    let ready = st.ready().is_some();
    let (log, client) = match &st {
        ServiceState::Ready(s) => (s.sub.log.clone(), s.sub.client.clone()),
        ServiceState::Uninitialized(Some(a)) => (a.log.clone(), a.client.clone()),
        ServiceState::Uninitialized(None) => panic!("no arguments"),
    };
    let _b = log.enter();
    log.push(Run::Event { ty, v, ready });
    Sub { log: log.clone(), client }.fx(&fx);
    Ok(())
}

impl Initializer for Args {
    type I = Params;
    type S = Srv;
    fn initialize(self, p: Params) -> (Srv, AnySchedulableResponse) {
        let log = self.log.clone();
        let _b = log.enter();
        let s = Srv {
            sub: Sub {
                log: self.log,
                client: self.client,
            },
        };
        s.sub.log.push(Run::Handler {
            name: "initialize".into(),
            id: None,
            args: serde_json::to_value(&p).unwrap(),
        });
        s.sub.fx(&p.fx);
        let r = plain(&s.sub.log, p.plan);
        (s, r)
    }
}

fn build(reg: u64, log: Arc<Log>, client: LspClient) -> LspBuilder<Args> {
    let mut b = LspBuilder::<Args>::new(Args { log, client: client.clone() }, client);
    let on = |k: u8, w: u8| reg & bit(k, w) != 0;
    macro_rules! reg {
        ($k:expr, $w:expr, $e:expr) => {
            if on($k, $w) {
                #[allow(clippy::redundant_closure_call)]
                {
                    b = $e(b);
                }
            }
        };
    }
    reg!(B_TYPED, 0, |b: LspBuilder<Args>| b.with_request::<T0>(typed::<T0>));
    reg!(B_TYPED, 1, |b: LspBuilder<Args>| b.with_request::<T1>(typed::<T1>));
    reg!(B_TYPED, 2, |b: LspBuilder<Args>| b.with_request::<T2>(typed::<T2>));
    reg!(B_RAW, 0, |b: LspBuilder<Args>| b.with_raw_request::<R0>(raw::<R0>));
    reg!(B_RAW, 1, |b: LspBuilder<Args>| b.with_raw_request::<R1>(raw::<R1>));
    reg!(B_RAW, 2, |b: LspBuilder<Args>| b.with_raw_request::<R2>(raw::<R2>));
    reg!(B_TYPED_RAW, 0, |b: LspBuilder<Args>| b.with_request_::<Q0>(typed_raw::<Q0>));
    reg!(B_TYPED_RAW, 1, |b: LspBuilder<Args>| b.with_request_::<Q1>(typed_raw::<Q1>));
    reg!(B_TYPED_RAW, 2, |b: LspBuilder<Args>| b.with_request_::<Q2>(typed_raw::<Q2>));
    reg!(B_CMD, 0, |b: LspBuilder<Args>| b.with_command(CMD[0], cmd::<0, 0>));
    reg!(B_CMD, 1, |b: LspBuilder<Args>| b.with_command(CMD[1], cmd::<0, 1>));
    reg!(B_CMD, 2, |b: LspBuilder<Args>| b.with_command(CMD[2], cmd::<0, 2>));
    reg!(B_RAW_CMD, 0, |b: LspBuilder<Args>| b.with_command_(RAW_CMD[0], raw_cmd::<0, 0>));
    reg!(B_RAW_CMD, 1, |b: LspBuilder<Args>| b.with_command_(RAW_CMD[1], raw_cmd::<0, 1>));
    reg!(B_RAW_CMD, 2, |b: LspBuilder<Args>| b.with_command_(RAW_CMD[2], raw_cmd::<0, 2>));
    reg!(B_RES, 0, |b: LspBuilder<Args>| b.with_resource(RES[0], cmd::<1, 0>));
    reg!(B_RES, 1, |b: LspBuilder<Args>| b.with_resource(RES[1], cmd::<1, 1>));
    reg!(B_RES, 2, |b: LspBuilder<Args>| b.with_resource(RES[2], cmd::<1, 2>));
    let p = |s: &str| -> Arc<std::path::Path> { std::path::Path::new(s).into() };
    reg!(B_RAW_RES, 0, |b: LspBuilder<Args>| b.with_resource_(p(RAW_RES[0]), raw_cmd::<1, 0>));
    reg!(B_RAW_RES, 1, |b: LspBuilder<Args>| b.with_resource_(p(RAW_RES[1]), raw_cmd::<1, 1>));
    reg!(B_RAW_RES, 2, |b: LspBuilder<Args>| b.with_resource_(p(RAW_RES[2]), raw_cmd::<1, 2>));
    reg!(B_NOTE, 0, |b: LspBuilder<Args>| b.with_notification_::<N0>(note::<N0>));
    reg!(B_NOTE, 1, |b: LspBuilder<Args>| b.with_notification_::<N1>(note::<N1>));
    reg!(B_NOTE, 2, |b: LspBuilder<Args>| b.with_notification_::<N2>(note::<N2>));
    reg!(B_TYPED_NOTE, 0, |b: LspBuilder<Args>| b.with_notification::<X0>(typed_note::<X0>));
    reg!(B_TYPED_NOTE, 1, |b: LspBuilder<Args>| b.with_notification::<X1>(typed_note::<X1>));
    reg!(B_TYPED_NOTE, 2, |b: LspBuilder<Args>| b.with_notification::<X2>(typed_note::<X2>));
    reg!(B_EVENT, 0, |b: LspBuilder<Args>| b
        .with_event(&E0(Value::Null, vec![]), |s, e: E0| event(0, s, e.0, e.1)));
    reg!(B_EVENT, 1, |b: LspBuilder<Args>| b
        .with_event(&E1(Value::Null, vec![]), |s, e: E1| event(1, s, e.0, e.1)));
    reg!(B_EVENT, 2, |b: LspBuilder<Args>| b
        .with_event(&E2(Value::Null, vec![]), |s, e: E2| event(2, s, e.0, e.1)));
    reg!(B_MISC, 0, |b: LspBuilder<Args>| b.with_raw_request::<Sd>(raw::<Sd>));
    reg!(B_MISC, 1, |b: LspBuilder<Args>| b.with_notification_::<Ini>(note::<Ini>));
    reg!(B_MISC, 2, |b: LspBuilder<Args>| b.with_notification_::<Ex>(note::<Ex>));
    b
}

// ---------------------------------------------------------------- model

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum St {
    Uninit,
    Initing,
    Ready,
    Down,
    Gone,
}

#[derive(Debug, Clone)]
pub enum WantResp {
    Ok(Value),
    Err(Er),
    /// A refusal with one of these codes.
    Code(Vec<i32>),
}

/// Which promise a difference breaks.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum What {
    /// A response is missing, duplicated or under another id.
    RespCount,
    /// A request was refused, or not refused, or with another code.
    RespClass,
    /// The response carries something else.
    RespContent,
    /// The pending flag differs.
    Pending,
    /// Requests sent by the server.
    OutReq,
    /// Notifications sent by the server.
    OutNote,
    /// Handlers run, in order, with their arguments.
    Runs,
    /// Response handlers run.
    RespRuns,
    /// The server loop ended or hangs when it should not, or did not end.
    Loop,
}

pub struct Diff(pub What, pub String);

struct Model {
    reg: u64,
    st: St,
    pending: BTreeSet<Id>,
    /// slot -> request
    later: BTreeMap<u32, (Id, bool)>,
    resp: Vec<(Id, WantResp)>,
    asks: Vec<(u64, usize, Value)>,
    tells: Vec<(String, Value)>,
    runs: Vec<Run>,
    resp_runs: Vec<Run>,
    tokens: u64,
    /// outstanding request of the server: token -> (cast, then)
    open: BTreeMap<u64, (bool, Vec<Fx>)>,
    events: std::collections::VecDeque<(u8, Value, Vec<Fx>)>,
}

impl Model {
    fn on(&self, k: u8, w: u8) -> bool {
        self.reg & bit(k, w) != 0
    }
    fn fx(&mut self, fx: &[Fx]) {
        for f in fx {
            match f {
                Fx::Ask { which, params, cast, then } => {
                    self.tokens += 1;
                    self.asks.push((self.tokens, *which as usize % 3, params.clone()));
                    self.open.insert(self.tokens, (*cast, then.clone()));
                }
                Fx::Tell { which, params } => self.tells.push((TELL[*which as usize % 2].into(), params.clone())),
                Fx::Event { ty, v, then } => self.events.push_back((*ty % 4, v.clone(), then.clone())),
            }
        }
    }
    fn answer(&mut self, id: &Id, w: WantResp) {
        if self.pending.remove(id) {
            self.resp.push((id.clone(), w));
        }
    }
    fn refuse(&mut self, id: &Id, codes: &[i32]) {
        self.answer(id, WantResp::Code(codes.to_vec()));
    }
    fn plain(&mut self, id: &Id, plan: &Plan) {
        match plan {
            Plan::Ok(v) => self.answer(id, WantResp::Ok(v.clone())),
            Plan::Err(e) | Plan::Reject(e) => self.answer(id, WantResp::Err(e.clone())),
            Plan::Later(k) => {
                self.later.insert(*k, (id.clone(), false));
            }
            _ => unreachable!(),
        }
    }
    fn selfmade(&mut self, id: &Id, plan: &Plan) {
        match plan {
            Plan::SelfOk(v) | Plan::SelfAndNothing(v) | Plan::Twice(v, _) | Plan::SelfAndReject(v, _) => self.answer(id, WantResp::Ok(v.clone())),
            Plan::SelfErr(e) => self.answer(id, WantResp::Err(e.clone())),
            Plan::Unwritable(_) => self.refuse(id, &[-32603]),
            Plan::Nothing => self.answer(id, WantResp::Ok(Value::Null)),
            Plan::Later(k) => {
                self.later.insert(*k, (id.clone(), *k % 2 == 0));
            }
            p => self.plain(id, p),
        }
    }

    /// A request as it arrives.
    fn request(&mut self, id: &Id, kind: Kind, which: u8, params: Result<&Params, &Value>) {
        self.pending.insert(id.clone());
        let w = which as usize % 3;
        match (self.st, kind) {
            (St::Uninit, Kind::Init) => match params {
                Ok(p) => {
                    self.runs.push(Run::Handler {
                        name: "initialize".into(),
                        id: None,
                        args: json!(p),
                    });
                    self.fx(&p.fx);
                    self.st = St::Initing;
                    self.plain(id, &p.plan);
                }
                Err(_) => self.refuse(id, &[-32600, -32602]),
            },
            (St::Initing, Kind::Init) => self.refuse(id, &[-32002, -32600]),
            (St::Uninit | St::Initing, _) => self.refuse(id, &[-32002]),
            (St::Down, _) | (St::Ready, Kind::Init) => self.refuse(id, &[-32600]),
            (St::Gone, _) => unreachable!(),
            (St::Ready, kind) => {
                let (b, name, takes_id, is_typed): (u8, String, bool, bool) = match kind {
                    Kind::Typed => (B_TYPED, TYPED[w].into(), false, true),
                    Kind::Raw => (B_RAW, RAW[w].into(), true, false),
                    Kind::TypedRaw => (B_TYPED_RAW, TYPED_RAW[w].into(), true, true),
                    Kind::Cmd => (B_CMD, format!("cmd:{}", CMD[w]), false, false),
                    Kind::RawCmd => (B_RAW_CMD, format!("cmd:{}", RAW_CMD[w]), true, false),
                    Kind::Res => (B_RES, format!("res:{}", RES[w]), false, false),
                    Kind::RawRes => (B_RAW_RES, format!("res:{}", RAW_RES[w]), true, false),
                    Kind::Shutdown => (B_MISC, "shutdown".into(), true, false),
                    Kind::Init => unreachable!(),
                };
                let bitw = if kind == Kind::Shutdown { 0 } else { w as u8 };
                let is_cmd = matches!(kind, Kind::Cmd | Kind::RawCmd | Kind::Res | Kind::RawRes);
                if let Err(v) = params {
                    // Malformed in the way built by `wire`.
                    if is_cmd {
                        return self.refuse(id, &[-32600, -32602, -32601]);
                    }
                    if !self.on(b, bitw) {
                        return self.refuse(id, &[-32601]);
                    }
                    if is_typed {
                        return self.refuse(id, &[-32600, -32602]);
                    }
                    self.runs.push(Run::Handler {
                        name,
                        id: Some(id.clone()),
                        args: v.clone(),
                    });
                    self.answer(
                        id,
                        WantResp::Err(Er {
                            code: -77,
                            message: "raw".into(),
                            data: None,
                        }),
                    );
                    if kind == Kind::Shutdown {
                        self.st = St::Down;
                    }
                    return;
                }
                let p = params.unwrap();
                if !self.on(b, bitw) {
                    return self.refuse(id, &[-32601]);
                }
                let args = match kind {
                    Kind::Cmd | Kind::RawCmd => args(json!([p, 1]), which),
                    Kind::Res => args(json!([RES[w], p]), which),
                    Kind::RawRes => args(json!([RAW_RES[w], p]), which),
                    _ => json!(p),
                };
                self.runs.push(Run::Handler {
                    name,
                    id: takes_id.then(|| id.clone()),
                    args,
                });
                self.fx(&p.fx);
                if takes_id {
                    self.selfmade(id, &p.plan)
                } else {
                    self.plain(id, &p.plan)
                }
                if kind == Kind::Shutdown {
                    self.st = St::Down;
                }
            }
        }
    }

    fn note(&mut self, name: &str, registered: bool, p: &NoteParams) {
        if self.st == St::Ready && registered {
            self.runs.push(Run::Handler {
                name: name.into(),
                id: None,
                args: json!(p),
            });
            self.fx(&p.fx);
        }
    }

    fn answered(&mut self, token: u64, result: Option<Value>, error: Option<Er>) {
        if self.st != St::Ready {
            return;
        }
        if let Some((cast, then)) = self.open.remove(&token) {
            self.resp_runs.push(Run::Response { token, cast, result, error });
            self.fx(&then);
        }
    }

    fn one_event(&mut self) {
        let Some((ty, v, fx)) = self.events.pop_front() else { return };
        if self.st == St::Down || ty == 3 || !self.on(B_EVENT, ty) {
            return;
        }
        self.runs.push(Run::Event {
            ty,
            v,
            ready: self.st != St::Uninit,
        });
        self.fx(&fx);
    }
}

// ---------------------------------------------------------------- engine

/// A step as the message that goes over the wire.
/// Arguments of a command; some have a great many more.
fn args(mut first: Value, which: u8) -> Value {
    if which > 240 {
        first.as_array_mut().unwrap().extend((0..which as u32 * 2).map(|i| json!(i)));
    }
    first
}

fn wire(step: &Step, id: &Id) -> Option<Lm> {
    Some(match step {
        Step::Req { kind, which, params, .. } => {
            let w = *which as usize % 3;
            let (method, params) = match kind {
                Kind::Typed => (TYPED[w], json!(params)),
                Kind::Raw => (RAW[w], json!(params)),
                Kind::TypedRaw => (TYPED_RAW[w], json!(params)),
                Kind::Cmd => ("workspace/executeCommand", json!({"command": CMD[w], "arguments": args(json!([params, 1]), *which)})),
                Kind::RawCmd => (
                    "workspace/executeCommand",
                    json!({"command": RAW_CMD[w], "arguments": args(json!([params, 1]), *which), "workDoneToken": 3}),
                ),
                Kind::Res => (
                    "workspace/executeCommand",
                    json!({"command": "tinymist.getResources", "arguments": args(json!([RES[w], params]), *which)}),
                ),
                Kind::RawRes => (
                    "workspace/executeCommand",
                    json!({"command": "tinymist.getResources", "arguments": args(json!([RAW_RES[w], params]), *which)}),
                ),
                Kind::Init => ("initialize", json!(params)),
                Kind::Shutdown => ("shutdown", json!(params)),
            };
            Lm::Req {
                id: id.clone(),
                method: method.into(),
                params,
            }
        }
        Step::Malformed { kind, which, params, .. } => {
            let w = *which as usize % 3;
            let (method, params) = match kind {
                Kind::Typed => (TYPED[w], params.clone()),
                Kind::Raw => (RAW[w], params.clone()),
                Kind::TypedRaw => (TYPED_RAW[w], params.clone()),
                Kind::Cmd => ("workspace/executeCommand", json!({"comand": params})),
                Kind::RawCmd => ("workspace/executeCommand", json!({"command": RAW_CMD[w], "arguments": 4})),
                Kind::Res => ("workspace/executeCommand", json!({"command": "tinymist.getResources", "arguments": []})),
                Kind::RawRes => (
                    "workspace/executeCommand",
                    json!({"command": "tinymist.getResources", "arguments": [[params]]}),
                ),
                Kind::Init => ("initialize", params.clone()),
                Kind::Shutdown => ("shutdown", params.clone()),
            };
            Lm::Req {
                id: id.clone(),
                method: method.into(),
                params,
            }
        }
        Step::Unknown { method, params, .. } => Lm::Req {
            id: id.clone(),
            method: method.clone(),
            params: params.clone(),
        },
        Step::Note {
            which,
            fx,
            v,
            fail,
            typed,
            bad,
        } => {
            let p = NoteParams {
                fx: fx.clone(),
                v: v.clone(),
                fail: fail.clone(),
            };
            let w = *which as usize % 3;
            let method = if *typed { TYPED_NOTES[w] } else { NOTES[w] };
            Lm::Not {
                method: method.into(),
                params: if *bad { json!({"v": v}) } else { json!(p) },
            }
        }
        Step::Initialized { fx, v } => Lm::Not {
            method: "initialized".into(),
            params: json!(NoteParams {
                fx: fx.clone(),
                v: v.clone(),
                fail: None
            }),
        },
        Step::UnknownNote { method, params } => Lm::Not {
            method: method.clone(),
            params: params.clone(),
        },
        Step::Exit => Lm::Not {
            method: "exit".into(),
            params: Value::Null,
        },
        _ => return None,
    })
}

pub struct Outcome {
    pub diffs: Vec<Diff>,
    pub at: usize,
    /// For the non-triviality rules.
    pub async_pending_max: usize,
    pub answered_asks: usize,
    pub refusals: usize,
    pub runs: usize,
    pub states: BTreeSet<u8>,
}

const PATIENCE: Duration = Duration::from_secs(20);

pub fn run(h: &History) -> Outcome {
    let mut o = Outcome {
        diffs: vec![],
        at: 0,
        async_pending_max: 0,
        answered_asks: 0,
        refusals: 0,
        runs: 0,
        states: BTreeSet::new(),
    };
    // The clock of the async handlers stands still unless a step moves it.
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let (ev_tx, ev_rx) = unbounded::<Event>();
    let (out_tx, out_rx) = unbounded::<Message>();
    let (in_tx, in_rx): (Sender<Message>, Receiver<Message>) = if h.preload { unbounded() } else { bounded(0) };
    let conn: Connection<LspMessage> = Connection::<Message>::verif_from_channels((ev_tx, ev_rx.clone()), (out_tx, in_rx.clone())).into();
    let root = LspClientRoot::new(rt.handle().clone(), conn.sender);
    let client = root.weak();
    let log = Arc::new(Log::default());
    let (done_tx, done_rx) = bounded::<Result<Result<(), String>, String>>(1);

    let mut m = Model {
        reg: h.registered,
        st: St::Uninit,
        pending: BTreeSet::new(),
        later: BTreeMap::new(),
        resp: vec![],
        asks: vec![],
        tells: vec![],
        runs: vec![],
        resp_runs: vec![],
        tokens: 0,
        open: BTreeMap::new(),
        events: Default::default(),
    };
    let mut senders: HashMap<u32, tokio::sync::oneshot::Sender<Result<Value, Er>>> = HashMap::new();
    // Every slot a plan may use gets its channel up front.
    for s in &h.steps {
        if let Step::Req {
            params: Params { plan: Plan::Later(k), .. },
            ..
        } = s
        {
            let (tx, rx) = tokio::sync::oneshot::channel();
            senders.insert(*k, tx);
            log.slots.lock().unwrap().insert(*k, rx);
        }
    }
    // The service cannot travel between threads with its boxed handlers, so the
    // driver is built where it runs.
    let start = {
        let (reg, log, client, rx) = (h.registered, log.clone(), client.clone(), conn.receiver);
        move || {
            let mut d = build(reg, log, client).build();
            d.start_(rx).map_err(|e| e.to_string())
        }
    };
    let mut start = Some(start);
    let spawn = |f: Box<dyn FnOnce() -> Result<(), String> + Send>| {
        let done_tx = done_tx.clone();
        std::thread::Builder::new()
            .name("driver".into())
            .spawn(move || {
                let r = vcommon::no_panic(f);
                let _ = done_tx.send(r);
            })
            .unwrap()
    };
    if !h.preload {
        spawn(Box::new(start.take().unwrap()));
    }
    let mut ended: Option<Result<Result<(), String>, String>> = None;
    let mut token_id: BTreeMap<u64, Id> = BTreeMap::new();
    let mut used_ids: BTreeSet<Id> = BTreeSet::new();
    let mut fresh = 1_000_000;
    let nop = || {
        Message::Lsp(
            lsp::Notification {
                method: "verif/nop".into(),
                params: Value::Null,
            }
            .into(),
        )
    };

    // In preload mode asks are answered only after the queue ran; so answers
    // and resolutions are done in a second, lockstep phase.
    let phases: Vec<Vec<&Step>> = if h.preload {
        let first: Vec<&Step> = h
            .steps
            .iter()
            .filter(|s| !matches!(s, Step::Answer { .. } | Step::Resolve { .. } | Step::Wait(..)))
            .collect();
        let second: Vec<&Step> = h
            .steps
            .iter()
            .filter(|s| matches!(s, Step::Answer { .. } | Step::Resolve { .. } | Step::Wait(..)))
            .collect();
        vec![first, second]
    } else {
        vec![vec![], h.steps.iter().collect()]
    };

    macro_rules! bail {
        ($w:expr, $($a:tt)+) => {{ o.diffs.push(Diff($w, format!($($a)+))); return o; }};
    }

    let feed = |m: &mut Model, step: &Step, id: &Id| -> Option<Message> {
        let lm = wire(step, id)?;
        match step {
            Step::Req { kind, which, params, .. } => m.request(id, *kind, *which, Ok(params)),
            Step::Malformed { kind, which, params, .. } => m.request(id, *kind, *which, Err(params)),
            Step::Unknown { .. } => {
                m.pending.insert(id.clone());
                match m.st {
                    St::Uninit | St::Initing => m.refuse(id, &[-32002]),
                    St::Ready => {
                        // An unknown command or resource, or an unknown method.
                        m.refuse(id, &[-32601])
                    }
                    _ => m.refuse(id, &[-32600]),
                }
            }
            Step::Note {
                which,
                fx,
                v,
                fail,
                typed,
                bad,
            } => {
                let w = *which as usize % 3;
                let p = NoteParams {
                    fx: fx.clone(),
                    v: v.clone(),
                    fail: fail.clone(),
                };
                let (name, on) = if *typed {
                    (TYPED_NOTES[w], m.on(B_TYPED_NOTE, w as u8))
                } else {
                    (NOTES[w], m.on(B_NOTE, w as u8))
                };
                if !*bad {
                    m.note(name, on, &p);
                } else if !*typed && on && m.st == St::Ready {
                    m.runs.push(Run::Handler {
                        name: name.into(),
                        id: None,
                        args: json!({"v": v}),
                    });
                }
            }
            Step::Initialized { fx, v } => {
                if m.st == St::Initing {
                    m.st = St::Ready;
                }
                let p = NoteParams {
                    fx: fx.clone(),
                    v: v.clone(),
                    fail: None,
                };
                let on = m.on(B_MISC, 1);
                m.note("initialized", on, &p);
            }
            Step::UnknownNote { .. } => {}
            Step::Exit => {
                if m.st == St::Ready && m.on(B_MISC, 2) {
                    m.runs.push(Run::Handler {
                        name: "exit".into(),
                        id: None,
                        args: Value::Null,
                    });
                }
                m.st = St::Gone;
            }
            _ => unreachable!(),
        }
        Some(Message::Lsp(lm.real()))
    };

    // Phase one: everything is queued before the server starts.
    if h.preload {
        let mut exited = false;
        let mut queue: Vec<(&Step, Id)> = vec![];
        let mut early_events = vec![];
        for step in &phases[0] {
            match step {
                Step::Event { ty, v, then } => {
                    early_events.push((*ty % 4, v.clone(), then.clone()));
                    send_event(&client, *ty, v.clone(), then.clone());
                }
                _ => {
                    let id = match step {
                        Step::Req { id, .. } | Step::Malformed { id, .. } | Step::Unknown { id, .. } => {
                            if used_ids.insert(id.clone()) {
                                id.clone()
                            } else {
                                fresh += 1;
                                Id::N(fresh)
                            }
                        }
                        _ => Id::N(0),
                    };
                    if let Some(lm) = wire(step, &id) {
                        in_tx.send(Message::Lsp(lm.real())).unwrap();
                    }
                    queue.push((step, id));
                }
            }
        }
        m.events.extend(early_events);
        for (step, id) in queue {
            if exited {
                break;
            }
            o.states.insert(m.st as u8);
            feed(&mut m, step, &id);
            exited = m.st == St::Gone;
        }
        if !exited {
            while !m.events.is_empty() {
                m.one_event();
            }
        }
        spawn(Box::new(start.take().unwrap()));
    }

    for step in [None].into_iter().chain(phases[1].iter().copied().map(Some)) {
        let Some(step) = step else {
            if !h.preload {
                continue;
            }
            // Wait for the queue to drain, then look.
            let t = Instant::now();
            while m.st != St::Gone && !(in_rx.is_empty() && ev_rx.is_empty()) && ended.is_none() {
                if let Ok(r) = done_rx.try_recv() {
                    ended = Some(r);
                }
                if t.elapsed() > PATIENCE {
                    bail!(What::Loop, "the server stopped taking messages");
                }
                std::thread::sleep(Duration::from_micros(50));
            }
            if let Some(d) = settle(
                &mut m,
                &rt,
                &client,
                &in_tx,
                &in_rx,
                &ev_rx,
                &out_rx,
                &done_rx,
                &mut ended,
                &log,
                &mut token_id,
                &nop,
                h.preload,
                &mut o,
            ) {
                o.diffs.extend(d);
                return o;
            }
            continue;
        };
        if m.st == St::Gone {
            break;
        }
        o.at += 1;
        o.states.insert(m.st as u8);
        match step {
            Step::Answer { which, form, result, error } => {
                if token_id.is_empty() {
                    continue;
                }
                let (token, real) = token_id
                    .iter()
                    .nth(*which as usize % token_id.len())
                    .map(|(a, b)| (*a, b.clone()))
                    .unwrap();
                let id = match form {
                    Form::Same => real,
                    Form::AsString => match real {
                        Id::N(n) => Id::S(n.to_string()),
                        Id::S(s) => Id::S(format!("{s}x")),
                    },
                    Form::Unknown => Id::N(900_000 + *which as i32),
                };
                if *form == Form::Same {
                    if m.st == St::Ready && m.open.contains_key(&token) {
                        o.answered_asks += 1;
                    }
                    m.answered(token, result.clone(), error.clone());
                }
                let msg = Lm::Res {
                    id,
                    result: result.clone(),
                    error: error.clone(),
                };
                if in_tx.send_timeout(Message::Lsp(msg.real()), PATIENCE).is_err() {
                    bail!(What::Loop, "the server does not take a response");
                }
            }
            Step::Event { ty, v, then } => {
                m.events.push_back((*ty % 4, v.clone(), then.clone()));
                send_event(&client, *ty, v.clone(), then.clone());
            }
            Step::Wait(ms) => {
                std::thread::sleep(Duration::from_millis(*ms as u64));
                // The handlers that are still running take up to a day.
                rt.block_on(tokio::time::advance(Duration::from_secs(*ms as u64 * 216)));
            }
            Step::Resolve { which, result } => {
                if m.later.is_empty() {
                    continue;
                }
                let k = *m.later.keys().nth(*which as usize % m.later.len()).unwrap();
                let (id, by_hand) = m.later.remove(&k).unwrap();
                m.answer(
                    &id,
                    match result {
                        Ok(v) => WantResp::Ok(v.clone()),
                        Err(e) => WantResp::Err(e.clone()),
                    },
                );
                if by_hand {
                    let id = log.selfs.lock().unwrap().remove(&k);
                    match id {
                        Some(id) => client.respond_result(id, result.clone().map_err(rerr)),
                        None => bail!(What::Runs, "handler of slot {k} did not run"),
                    }
                } else {
                    let _ = senders.remove(&k).unwrap().send(result.clone());
                }
            }
            _ => {
                let id = match step {
                    Step::Req { id, .. } | Step::Malformed { id, .. } | Step::Unknown { id, .. } => {
                        // An id may be used again once its request was answered.
                        if m.pending.contains(id) {
                            fresh += 1;
                            Id::N(fresh)
                        } else {
                            id.clone()
                        }
                    }
                    _ => Id::N(0),
                };
                let msg = feed(&mut m, step, &id).unwrap();
                if in_tx.send_timeout(msg, PATIENCE).is_err() {
                    bail!(What::Loop, "the server does not take a message");
                }
            }
        }
        o.async_pending_max = o.async_pending_max.max(m.later.len());
        if let Some(d) = settle(
            &mut m,
            &rt,
            &client,
            &in_tx,
            &in_rx,
            &ev_rx,
            &out_rx,
            &done_rx,
            &mut ended,
            &log,
            &mut token_id,
            &nop,
            h.preload,
            &mut o,
        ) {
            o.diffs.extend(d);
            return o;
        }
    }
    // Closing the input ends the loop.
    drop(in_tx);
    if ended.is_none() {
        match done_rx.recv_timeout(PATIENCE) {
            Ok(r) => ended = Some(r),
            Err(_) => bail!(What::Loop, "the server did not end when its input closed"),
        }
    }
    match ended {
        Some(Ok(Ok(()))) => {}
        Some(Ok(Err(e))) => bail!(What::Loop, "the server ended with an error: {e}"),
        Some(Err(p)) => bail!(What::Loop, "the server panicked: {p}"),
        None => unreachable!(),
    }
    // Answers that come after the loop ended still reach the client.
    for (k, (id, by_hand)) in std::mem::take(&mut m.later) {
        m.answer(&id, WantResp::Ok(json!(k)));
        if by_hand {
            if let Some(id) = log.selfs.lock().unwrap().remove(&k) {
                client.respond_result(id, Ok(json!(k)));
            }
        } else {
            let _ = senders.remove(&k).unwrap().send(Ok(json!(k)));
        }
    }
    spin(&rt);
    compare(&mut m, &client, &out_rx, &log, &mut token_id, &mut o);
    if m.pending.is_empty() && client.has_pending_requests() && o.diffs.is_empty() {
        o.diffs.push(Diff(What::Pending, "requests pending at the end".into()));
    }
    o
}

fn spin(rt: &tokio::runtime::Runtime) {
    rt.block_on(async {
        for _ in 0..12 {
            tokio::task::yield_now().await;
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn settle(
    m: &mut Model,
    rt: &tokio::runtime::Runtime,
    client: &LspClient,
    in_tx: &Sender<Message>,
    in_rx: &Receiver<Message>,
    ev_rx: &Receiver<Event>,
    out_rx: &Receiver<Message>,
    done_rx: &Receiver<Result<Result<(), String>, String>>,
    ended: &mut Option<Result<Result<(), String>, String>>,
    log: &Arc<Log>,
    token_id: &mut BTreeMap<u64, Id>,
    nop: &dyn Fn() -> Message,
    queued: bool,
    o: &mut Outcome,
) -> Option<Vec<Diff>> {
    if m.st == St::Gone {
        if ended.is_none() {
            match done_rx.recv_timeout(PATIENCE) {
                Ok(r) => *ended = Some(r),
                Err(_) => return Some(vec![Diff(What::Loop, "the server did not end on exit".into())]),
            }
        }
        match ended.as_ref().unwrap() {
            Ok(Ok(())) => {}
            e => return Some(vec![Diff(What::Loop, format!("on exit the server ended with {e:?}"))]),
        }
    } else {
        while !m.events.is_empty() {
            m.one_event();
        }
        // An event taken from the queue may be running and send another one;
        // each message taken means that one more of such a chain is done.
        let mut quiet = 0;
        loop {
            let t = Instant::now();
            loop {
                // The message before this one is done when the next is taken.
                match in_tx.send_timeout(nop(), Duration::from_millis(20)) {
                    Ok(()) => break,
                    Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => {}
                    Err(crossbeam_channel::SendTimeoutError::Timeout(_)) => {}
                }
                if let Ok(r) = done_rx.try_recv() {
                    return Some(vec![Diff(What::Loop, format!("the server loop ended: {r:?}"))]);
                }
                if t.elapsed() > PATIENCE {
                    return Some(vec![Diff(What::Loop, "the server stopped taking messages".into())]);
                }
            }
            if queued {
                // A queued message is done when a second one was taken.
                let t = Instant::now();
                let _ = in_tx.send(nop());
                while !in_rx.is_empty() {
                    if let Ok(r) = done_rx.try_recv() {
                        return Some(vec![Diff(What::Loop, format!("the server loop ended: {r:?}"))]);
                    }
                    if t.elapsed() > PATIENCE {
                        return Some(vec![Diff(What::Loop, "the server stopped taking messages".into())]);
                    }
                    std::thread::sleep(Duration::from_micros(20));
                }
            }
            if ev_rx.is_empty() {
                quiet += 1;
                if quiet > 6 {
                    break;
                }
                continue;
            }
            quiet = 0;
            let t = Instant::now();
            while !ev_rx.is_empty() {
                if let Ok(r) = done_rx.try_recv() {
                    return Some(vec![Diff(What::Loop, format!("the server loop ended: {r:?}"))]);
                }
                if t.elapsed() > PATIENCE {
                    return Some(vec![Diff(What::Loop, "the server stopped taking events".into())]);
                }
                std::thread::yield_now();
            }
        }
        if let Ok(r) = done_rx.try_recv() {
            return Some(vec![Diff(What::Loop, format!("the server loop ended: {r:?}"))]);
        }
    }
    spin(rt);
    compare(m, client, out_rx, log, token_id, o);
    if o.diffs.is_empty() {
        None
    } else {
        Some(vec![])
    }
}

fn compare(m: &mut Model, client: &LspClient, out_rx: &Receiver<Message>, log: &Log, token_id: &mut BTreeMap<u64, Id>, o: &mut Outcome) {
    let mut diff = |w: What, s: String| o.diffs.push(Diff(w, s));
    let (mut resp, mut asks, mut tells) = (vec![], vec![], vec![]);
    while let Ok(msg) = out_rx.try_recv() {
        let Message::Lsp(l) = &msg else {
            diff(What::RespContent, "a DAP message from an LSP server".into());
            continue;
        };
        match Lm::of(l) {
            Lm::Res { id, result, error } => resp.push((id, result, error)),
            Lm::Req { id, method, params } => asks.push((id, method, params)),
            Lm::Not { method, params } => tells.push((method, params)),
        }
    }
    let want = std::mem::take(&mut m.resp);
    let ids: Vec<_> = resp.iter().map(|r| r.0.clone()).collect();
    let want_ids: Vec<_> = want.iter().map(|r| r.0.clone()).collect();
    let mut a = ids.clone();
    let mut b = want_ids.clone();
    a.sort();
    b.sort();
    if a != b {
        diff(What::RespCount, format!("responses to {ids:?}, expected to {want_ids:?}"));
    } else {
        for (id, w) in &want {
            let (_, result, error) = resp.iter().find(|r| r.0 == *id).unwrap();
            match w {
                WantResp::Ok(v) => {
                    if error.is_some() || result.is_none() {
                        diff(What::RespClass, format!("request {id:?} got {result:?} {error:?}, expected {v}"));
                    } else if result.as_ref() != Some(v) {
                        diff(What::RespContent, format!("request {id:?} got {result:?}, expected {v}"));
                    }
                }
                WantResp::Err(e) => match error {
                    Some(g) if result.is_none() && g.code == e.code => {
                        if (&g.message, non_null(g.data.clone())) != (&e.message, non_null(e.data.clone())) {
                            diff(What::RespContent, format!("request {id:?} got {g:?}, expected {e:?}"));
                        }
                    }
                    g => diff(What::RespClass, format!("request {id:?} got {result:?} {g:?}, expected {e:?}")),
                },
                WantResp::Code(c) => {
                    o.refusals += 1;
                    match error {
                        Some(g) if result.is_none() && c.contains(&g.code) => {}
                        g => diff(
                            What::RespClass,
                            format!("request {id:?} got {result:?} {g:?}, expected an error with code {c:?}"),
                        ),
                    }
                }
            }
        }
    }
    let want_asks = std::mem::take(&mut m.asks);
    let got: Vec<_> = asks.iter().map(|(_, m, p)| (m.clone(), p.clone())).collect();
    let exp: Vec<_> = want_asks.iter().map(|(_, w, p)| (OUT[*w].to_owned(), p.clone())).collect();
    if got != exp {
        diff(What::OutReq, format!("requests sent {got:?}, expected {exp:?}"));
    } else {
        for ((token, ..), (id, ..)) in want_asks.iter().zip(&asks) {
            if token_id.values().any(|i| i == id) {
                diff(What::OutReq, format!("request id {id:?} was used twice"));
            }
            token_id.insert(*token, id.clone());
        }
    }
    let want_tells = std::mem::take(&mut m.tells);
    if tells != want_tells {
        diff(What::OutNote, format!("notifications sent {tells:?}, expected {want_tells:?}"));
    }
    let mut runs = vec![];
    let mut resp_runs = vec![];
    for r in std::mem::take(&mut *log.runs.lock().unwrap()) {
        match r {
            Run::Response { .. } => resp_runs.push(r),
            _ => runs.push(r),
        }
    }
    let want_runs = std::mem::take(&mut m.runs);
    o.runs += runs.len();
    if runs != want_runs {
        diff(What::Runs, format!("handlers run {runs:?}, expected {want_runs:?}"));
    }
    let norm = |v: Vec<Run>| -> Vec<Run> {
        v.into_iter()
            .map(|r| match r {
                Run::Response { token, cast, result, error } => Run::Response {
                    token,
                    cast,
                    result: non_null(result),
                    error: error.map(|e| Er { data: non_null(e.data), ..e }),
                },
                r => r,
            })
            .collect()
    };
    let (g, w) = (norm(resp_runs), norm(std::mem::take(&mut m.resp_runs)));
    if g != w {
        diff(What::RespRuns, format!("response handlers run {g:?}, expected {w:?}"));
    }
    if log.overlap.load(Ordering::SeqCst) {
        diff(What::Runs, "two handlers ran at once".into());
    }
    if client.has_pending_requests() == m.pending.is_empty() {
        diff(
            What::Pending,
            format!(
                "pending requests reported: {}; unanswered: {:?}",
                client.has_pending_requests(),
                m.pending
            ),
        );
    }
}

// ---------------------------------------------------------------- generators

pub fn fx(depth: u32) -> BoxedStrategy<Vec<Fx>> {
    let v = || gen::json(2, 4);
    if depth == 0 {
        return prop_oneof![
            6 => Just(vec![]),
            1 => (any::<u8>(), v()).prop_map(|(which, params)| vec![Fx::Tell { which, params }]),
            1 => (any::<u8>(), v(), any::<bool>()).prop_map(|(which, params, cast)| vec![Fx::Ask { which, params, cast, then: vec![] }]),
        ]
        .boxed();
    }
    let one = prop_oneof![
        1 => (any::<u8>(), v()).prop_map(|(which, params)| Fx::Tell { which, params }),
        3 => (any::<u8>(), v(), any::<bool>(), fx(depth - 1)).prop_map(|(which, params, cast, then)| Fx::Ask { which, params, cast, then }),
        2 => (any::<u8>(), v(), fx(depth - 1)).prop_map(|(ty, v, then)| Fx::Event { ty, v, then }),
    ];
    prop_oneof![3 => Just(vec![]), 2 => prop::collection::vec(one, 1..3)].boxed()
}

fn v() -> BoxedStrategy<Value> {
    gen::json(2, 6)
}

pub fn plan(selfmade: bool) -> BoxedStrategy<Plan> {
    let base = prop_oneof![
        4 => v().prop_map(Plan::Ok),
        2 => error().prop_map(Plan::Err),
        1 => error().prop_map(Plan::Reject),
        4 => any::<u32>().prop_map(Plan::Later),
    ];
    if selfmade {
        prop_oneof![
            5 => base,
            1 => v().prop_map(Plan::SelfOk),
            1 => error().prop_map(Plan::SelfErr),
            1 => Just(Plan::Nothing),
            1 => v().prop_map(Plan::SelfAndNothing),
            1 => (v(), v()).prop_map(|(a, b)| Plan::Twice(a, b)),
            1 => (v(), error()).prop_map(|(a, e)| Plan::SelfAndReject(a, e)),
            1 => any::<bool>().prop_map(Plan::Unwritable),
        ]
        .boxed()
    } else {
        base.boxed()
    }
}

fn params(selfmade: bool, f: BoxedStrategy<Vec<Fx>>) -> BoxedStrategy<Params> {
    (f, plan(selfmade), v(), crate::more(&["fx", "plan", "v"]))
        .prop_map(|(fx, plan, v, more)| Params { fx, plan, v, more })
        .boxed()
}

pub fn request(f: fn() -> BoxedStrategy<Vec<Fx>>) -> BoxedStrategy<Step> {
    let kinds = [
        Kind::Typed,
        Kind::Typed,
        Kind::Raw,
        Kind::TypedRaw,
        Kind::Cmd,
        Kind::RawCmd,
        Kind::Res,
        Kind::RawRes,
    ];
    (id(), prop::sample::select(kinds.to_vec()), any::<u8>())
        .prop_flat_map(move |(id, kind, which)| {
            let selfmade = matches!(kind, Kind::Raw | Kind::TypedRaw | Kind::RawCmd | Kind::RawRes);
            params(selfmade, f()).prop_map(move |params| Step::Req {
                id: id.clone(),
                kind,
                which,
                params,
            })
        })
        .boxed()
}

pub fn lifecycle() -> BoxedStrategy<Step> {
    prop_oneof![
        3 => (id(), params(false, fx(1))).prop_map(|(id, params)| Step::Req { id, kind: Kind::Init, which: 0, params }),
        1 => (id(), params(false, fx(1)), 0u8..4).prop_map(|(id, p, how)| Step::Malformed { id, kind: Kind::Init, which: 0, params: wrapped(json!(p), how) }),
        2 => (id(), gen::json(2, 4)).prop_map(|(id, params)| Step::Malformed { id, kind: Kind::Init, which: 0, params }),
        4 => (fx(1), v()).prop_map(|(fx, v)| Step::Initialized { fx, v }),
        2 => (id(), params(true, fx(1))).prop_map(|(id, params)| Step::Req { id, kind: Kind::Shutdown, which: 0, params }),
        1 => (id(), gen::json(1, 2)).prop_map(|(id, params)| Step::Malformed { id, kind: Kind::Shutdown, which: 0, params }),
        1 => Just(Step::Exit),
    ]
    .boxed()
}

/// A name close to one of `names` that is none of them.
pub fn near(names: &'static [&'static [&'static str]]) -> BoxedStrategy<String> {
    let all: Vec<&str> = names.iter().flat_map(|n| n.iter().copied()).collect();
    (prop::sample::select(all.clone()), 0u8..24)
        .prop_map(|(n, how)| match how {
            0 => format!("{n} "),
            1 => format!(" {n}"),
            2 => format!("{n}\n"),
            3 => n.to_uppercase(),
            4 => n
                .chars()
                .map(|c| {
                    if c.is_lowercase() {
                        c.to_ascii_uppercase()
                    } else {
                        c.to_ascii_lowercase()
                    }
                })
                .collect(),
            5 => n[..n.len() - 1].to_owned(),
            6 => n[1..].to_owned(),
            7 => format!("{n}x"),
            8 => format!("x{n}"),
            9 => format!("../{n}"),
            10 => format!("/../{n}"),
            11 => format!("{n}/.."),
            12 => format!("{n}/../x"),
            13 => format!("x/../{n}"),
            14 => format!("{n}?x"),
            15 => format!("{n}#x"),
            16 => n.replacen('/', "%2F", 1),
            17 => n.replace('/', "\\"),
            18 => format!("{n}\u{0}"),
            19 => format!("$/{n}"),
            20 => format!("custom/{n}"),
            21 => format!("tinymist.{n}"),
            22 => format!("{n}.{n}"),
            _ => n.replace(['/', '.'], "_"),
        })
        .prop_filter("registered", move |n| {
            !all.iter().any(|a| std::path::Path::new(a) == std::path::Path::new(n))
        })
        .boxed()
}

const EXECUTE: &str = "workspace/executeCommand";
const RESOURCES: &str = "tinymist.getResources";

fn wrapped(p: Value, how: u8) -> Value {
    match how {
        0 => json!([p]),
        1 => json!([[p], 1]),
        2 => json!({"params": p}),
        _ => json!(p.to_string()),
    }
}

pub fn trouble() -> BoxedStrategy<Step> {
    let kinds = [Kind::Typed, Kind::Raw, Kind::TypedRaw, Kind::Cmd, Kind::RawCmd, Kind::Res, Kind::RawRes];
    prop_oneof![
        // All but what is asked for.
        1 => (id(), prop::sample::select(kinds.to_vec()), any::<u8>(), params(false, fx(1)), 0u8..4).prop_map(|(id, kind, which, p, how)| Step::Malformed { id, kind, which, params: wrapped(json!(p), how) }),
        3 => (id(), prop::sample::select(kinds.to_vec()), any::<u8>(), gen::json(2, 6)).prop_map(|(id, kind, which, params)| Step::Malformed { id, kind, which, params }),
        2 => (id(), prop::sample::select(vec!["t", "t/", "t/1/", "T/10", "unknown", "", "Shutdown", "Initialize", "exit", "initialized", "$/x"]), v())
            .prop_map(|(id, m, params)| Step::Unknown { id, method: m.into(), params }),
        2 => (id(), near(&[&TYPED, &RAW, &TYPED_RAW, &["initialize", "shutdown"]]), params(true, fx(1)))
            .prop_map(|(id, method, p)| Step::Unknown { id, method, params: json!(p) }),
        1 => (id(), near(&[&CMD, &RAW_CMD, &[RESOURCES]]), params(true, fx(1)))
            .prop_map(|(id, c, p)| Step::Unknown { id, method: EXECUTE.into(), params: json!({"command": c, "arguments": [p, 1]}) }),
        1 => (id(), near(&[&[RESOURCES]]), prop::sample::select(RES.to_vec()), params(true, fx(1)))
            .prop_map(|(id, c, r, p)| Step::Unknown { id, method: EXECUTE.into(), params: json!({"command": c, "arguments": [r, p]}) }),
        1 => (id(), near(&[&RES, &RAW_RES]), params(true, fx(1)))
            .prop_map(|(id, r, p)| Step::Unknown { id, method: EXECUTE.into(), params: json!({"command": RESOURCES, "arguments": [r, p]}) }),
        1 => (id(), near(&[&[EXECUTE]]), prop::sample::select(CMD.to_vec()), params(true, fx(1)))
            .prop_map(|(id, method, c, p)| Step::Unknown { id, method, params: json!({"command": c, "arguments": [p, 1]}) }),
        1 => (id(), prop::sample::select(vec!["cm", "cmd.", "tinymist.getResource", "", "CMD"]), v())
            .prop_map(|(id, c, p)| Step::Unknown { id, method: "workspace/executeCommand".into(), params: json!({"command": c, "arguments": [p]}) }),
        1 => (id(), prop::sample::select(vec!["/res", "/nores/a", "", "/res/a/b/c", "Res"]), v())
            .prop_map(|(id, c, p)| Step::Unknown { id, method: "workspace/executeCommand".into(), params: json!({"command": "tinymist.getResources", "arguments": [c, p]}) }),
    ]
    .boxed()
}

pub fn note_step() -> BoxedStrategy<Step> {
    prop_oneof![
        5 => (any::<u8>(), fx(2), v(), prop::option::of(error()), any::<bool>(), prop::bool::weighted(0.1))
            .prop_map(|(which, fx, v, fail, typed, bad)| Step::Note { which, fx, v, fail, typed, bad }),
        1 => (near(&[&NOTES, &TYPED_NOTES, &["initialized", "exit"]]), fx(1), v())
            .prop_map(|(method, fx, v)| Step::UnknownNote { method, params: json!({"fx": fx, "v": v}) }),
        1 => (prop::sample::select(vec!["n", "n/", "N/1", "", "$/cancelRequest", "shutdown", "initialize", "Exit", "exit/"]), v())
            .prop_map(|(m, params)| Step::UnknownNote { method: m.into(), params }),
    ]
    .boxed()
}

pub fn answer() -> BoxedStrategy<Step> {
    (
        any::<u8>(),
        prop_oneof![8 => Just(Form::Same), 1 => Just(Form::AsString), 1 => Just(Form::Unknown)],
        prop_oneof![3 => v().prop_map(|v| (Some(v), None)), 1 => error().prop_map(|e| (None, Some(e))), 1 => Just((None, None))],
    )
        .prop_map(|(which, form, (result, error))| Step::Answer { which, form, result, error })
        .boxed()
}

pub fn event_step() -> BoxedStrategy<Step> {
    (any::<u8>(), v(), fx(2)).prop_map(|(ty, v, then)| Step::Event { ty, v, then }).boxed()
}

pub fn resolve() -> BoxedStrategy<Step> {
    (any::<u8>(), prop_oneof![2 => v().prop_map(Ok), 1 => error().prop_map(Err)])
        .prop_map(|(which, result)| Step::Resolve { which, result })
        .boxed()
}

/// A history that first gets the server ready, then does `steps`.
pub fn ready_then(steps: BoxedStrategy<Vec<Step>>) -> BoxedStrategy<History> {
    let head = (id(), v(), v()).prop_map(|(id, a, b)| {
        vec![
            Step::Req {
                id,
                kind: Kind::Init,
                which: 0,
                params: Params {
                    fx: vec![],
                    plan: Plan::Ok(a),
                    v: b,
                    more: Default::default(),
                },
            },
            Step::Initialized { fx: vec![], v: Value::Null },
        ]
    });
    history(
        (head, steps)
            .prop_map(|(mut h, s)| {
                h.extend(s);
                h
            })
            .boxed(),
    )
}

pub fn history(steps: BoxedStrategy<Vec<Step>>) -> BoxedStrategy<History> {
    let reg = prop_oneof![2 => Just(u64::MAX), 2 => any::<u64>(), 1 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a | b)];
    (reg, prop::bool::weighted(0.25), steps)
        .prop_map(|(registered, preload, mut steps)| {
            // Every asynchronous answer has a slot of its own; its parity says
            // who answers.
            let mut n = 0;
            for s in &mut steps {
                if let Step::Req {
                    params: Params { plan: Plan::Later(k), .. },
                    ..
                } = s
                {
                    n += 1;
                    *k = 2 * n + (*k % 2);
                }
            }
            History { registered, preload, steps }
        })
        .boxed()
}

/// Judges a history for the given promises.
pub fn judge(h: &History, mine: &[What], nontrivial: impl Fn(&Outcome) -> bool) -> vcommon::Verdict {
    let o = run(h);
    let bad: Vec<_> = o
        .diffs
        .iter()
        .filter(|d| mine.contains(&d.0))
        .map(|d| format!("{:?}: {}", d.0, d.1))
        .collect();
    if !bad.is_empty() {
        return Err(format!("at step {}: {}", o.at, bad.join("; ")).into());
    }
    Ok(nontrivial(&o))
}
