//! Many requests in flight at once, on worker threads.
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crossbeam_channel::unbounded;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sync_ls::*;
use vcommon::{ensure, ensure_eq, Verdict};

use crate::{Id, Lm};

const PATIENCE: Duration = Duration::from_secs(20);

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Job {
    pub id: Id,
    /// How often the answer yields before it is there.
    pub work: u8,
    /// How many threads answer, 0: the scheduler does.
    pub dup: u8,
    pub fail: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Answers {
    pub jobs: Vec<Job>,
    pub threads: usize,
}

struct Init(LspClient);
struct Srv(LspClient);
impl Initializer for Init {
    type I = Value;
    type S = Srv;
    fn initialize(self, _: Value) -> (Srv, AnySchedulableResponse) {
        (Srv(self.0), just_ok(Value::Null))
    }
}

enum Work {}
impl lsp_types::request::Request for Work {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "work";
}
enum Out {}
impl lsp_types::request::Request for Out {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "out";
}
/// Runs a server loop on the messages of `feed`, until it ends.
fn serve(
    threads: usize,
    feed: impl FnOnce(&LspClient, &crossbeam_channel::Sender<Message>, &crossbeam_channel::Receiver<Message>) -> Verdict,
) -> Verdict {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).build().unwrap();
    let (ev_tx, ev_rx) = unbounded::<Event>();
    let (out_tx, out_rx) = unbounded::<Message>();
    let (in_tx, in_rx) = unbounded::<Message>();
    let conn: Connection<LspMessage> = Connection::<Message>::verif_from_channels((ev_tx, ev_rx), (out_tx, in_rx)).into();
    let root = LspClientRoot::new(rt.handle().clone(), conn.sender);
    let client = root.weak();
    let rx = conn.receiver;
    let c = client.clone();
    let driver = std::thread::spawn(move || {
        LspBuilder::<Init>::new(Init(c.clone()), c)
            .with_raw_request::<Work>(|s, id, v| {
                let n = v["work"].as_u64().unwrap();
                let fail = v["fail"].as_bool().unwrap();
                let dup = v["dup"].as_u64().unwrap();
                if dup > 0 {
                    for k in 0..dup {
                        let (c, id, v) = (s.0.clone(), id.clone(), v.clone());
                        s.0.handle.spawn(async move {
                            for _ in 0..n {
                                tokio::task::yield_now().await;
                            }
                            if fail {
                                c.respond_result::<Value>(id, Err(internal_error(format!("{v} {k}"))));
                            } else {
                                c.respond_result(id, Ok(json!([v, k])));
                            }
                        });
                    }
                    return Ok(Some(()));
                }
                let r = just_future(async move {
                    for _ in 0..n {
                        tokio::task::yield_now().await;
                    }
                    if fail {
                        Err(internal_error(v.to_string()))
                    } else {
                        Ok(v)
                    }
                });
                s.0.clone().schedule(id, r)
            })
            .build()
            .start_(rx)
            .map_err(|e| e.to_string())
    });
    in_tx
        .send(Message::Lsp(
            lsp::Request::new(RequestId::from(-1), "initialize".into(), json!({})).into(),
        ))
        .unwrap();
    in_tx
        .send(Message::Lsp(lsp::Notification::new("initialized".into(), json!({})).into()))
        .unwrap();
    let t = Instant::now();
    let hello = out_rx.recv_timeout(PATIENCE);
    ensure!(hello.is_ok(), "no answer to initialize after {:?}", t.elapsed());
    let v = feed(&client, &in_tx, &out_rx);
    drop(in_tx);
    let t = Instant::now();
    while !driver.is_finished() {
        if t.elapsed() > PATIENCE {
            return Err("the server did not end when its input closed".into());
        }
        std::thread::sleep(Duration::from_micros(50));
    }
    let ended = driver.join();
    rt.shutdown_background();
    let v = v?;
    match ended {
        Ok(Ok(())) => Ok(v),
        Ok(Err(e)) => Err(format!("the server ended with {e}").into()),
        Err(_) => Err("the server panicked".into()),
    }
}

pub fn answers(c: &Answers) -> Verdict {
    serve(c.threads, |client, tx, rx| {
        let params = |j: &Job| json!({"n": format!("{:?}", j.id), "work": j.work, "fail": j.fail, "dup": j.dup});
        for j in &c.jobs {
            let m = Lm::Req {
                id: j.id.clone(),
                method: "work".into(),
                params: params(j),
            };
            tx.send(Message::Lsp(m.real())).unwrap();
        }
        let mut got: BTreeMap<Id, (Option<Value>, Option<String>)> = BTreeMap::new();
        for _ in &c.jobs {
            let Ok(Message::Lsp(m)) = rx.recv_timeout(PATIENCE) else {
                return Err(format!("only {} of {} requests were answered", got.len(), c.jobs.len()).into());
            };
            let Lm::Res { id, result, error } = Lm::of(&m) else {
                return Err("not a response".into());
            };
            ensure!(
                got.insert(id.clone(), (result, error.map(|e| e.message))).is_none(),
                "request {id:?} was answered twice"
            );
        }
        for j in &c.jobs {
            let Some(g) = got.get(&j.id) else {
                return Err(format!("request {:?} was not answered", j.id).into());
            };
            let v = params(j);
            let ok = if j.dup == 0 {
                *g == if j.fail { (None, Some(v.to_string())) } else { (Some(v.clone()), None) }
            } else {
                (0..j.dup).any(|k| {
                    *g == if j.fail {
                        (None, Some(format!("{v} {k}")))
                    } else {
                        (Some(json!([v, k])), None)
                    }
                })
            };
            ensure!(ok, "request {:?} got {g:?}", j.id);
        }
        ensure!(!client.has_pending_requests(), "requests are still pending after all were answered");
        // Late duplicates.
        std::thread::sleep(Duration::from_micros(300));
        ensure!(rx.is_empty(), "a request was answered twice");
        Ok(c.jobs.len() >= 2)
    })
}

/// A great many requests, all of them unanswered for a while.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Crowd {
    pub n: u32,
    pub work: u8,
    pub threads: usize,
}

pub fn crowd(c: &Crowd) -> Verdict {
    let jobs = (0..c.n)
        .map(|i| Job { id: if i % 3 == 0 { Id::S(i.to_string()) } else { Id::N(i as i32) }, work: c.work, dup: 0, fail: i % 7 == 0 })
        .collect();
    answers(&Answers { jobs, threads: c.threads })
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Asks {
    pub threads: Vec<Vec<(u8, bool)>>,
    /// Seeds the order of the answers.
    pub order: u64,
    /// How often each is answered.
    pub copies: u8,
}

pub fn asks(c: &Asks) -> Verdict {
    let ran: Arc<Mutex<Vec<(String, Value)>>> = Default::default();
    let v = serve(2, |client, tx, rx| {
        let total: usize = c.threads.iter().map(|t| t.len()).sum();
        let hs: Vec<_> = c
            .threads
            .iter()
            .enumerate()
            .map(|(t, work)| {
                let (client, ran, work) = (client.clone(), ran.clone(), work.clone());
                std::thread::spawn(move || {
                    for (i, (spin, own)) in work.into_iter().enumerate() {
                        for _ in 0..spin {
                            std::hint::spin_loop();
                        }
                        let name = format!("{t}.{i}");
                        let (ran, p) = (ran.clone(), json!({"n": name}));
                        if own {
                            client.to_typed::<Srv>().send_lsp_request::<Out>(p, move |_, r| {
                                ran.lock().unwrap().push((name, r.result.unwrap_or(Value::Null)));
                            });
                        } else {
                            client.send_lsp_request_::<Out>(p, move |s, r| {
                                assert!(s.is::<Srv>());
                                ran.lock().unwrap().push((name, r.result.unwrap_or(Value::Null)));
                            });
                        }
                    }
                })
            })
            .collect();
        let mut open: Vec<(RequestId, String)> = vec![];
        let mut ids = HashSet::new();
        let mut want = vec![];
        let mut rng = c.order | 1;
        let mut seen = 0;
        while seen < total || !open.is_empty() {
            // Take what is there; answer one of those seen at random.
            let take = seen < total && (open.is_empty() || rng % 3 != 0);
            rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            rng ^= rng >> 33;
            rng |= 1;
            if take {
                let Ok(Message::Lsp(lsp::Message::Request(r))) = rx.recv_timeout(PATIENCE) else {
                    return Err(format!("only {seen} of {total} requests arrived").into());
                };
                seen += 1;
                ensure_eq!(r.method, "out", "method of a request");
                let Some(n) = r.params["n"].as_str() else {
                    return Err(format!("request with parameters {}", r.params).into());
                };
                ensure!(ids.insert(r.id.clone()), "request id {:?} was used twice", r.id);
                want.push(n.to_owned());
                open.push((r.id, n.to_owned()));
            } else {
                let k = (rng >> 20) as usize % open.len();
                let (id, n) = open.swap_remove(k);
                for copy in 0..c.copies {
                    tx.send(Message::Lsp(lsp::Response::new_ok(id.clone(), json!([n, copy])).into())).unwrap();
                }
            }
        }
        for h in hs {
            h.join().unwrap();
        }
        let uniq: HashSet<_> = want.iter().collect();
        ensure_eq!(uniq.len(), total, "different requests that arrived");
        Ok(c.threads.len() >= 2)
    })?;
    let ran = std::mem::take(&mut *ran.lock().unwrap());
    let names: HashSet<_> = ran.iter().map(|r| r.0.clone()).collect();
    let total: usize = c.threads.iter().map(|t| t.len()).sum();
    ensure_eq!((names.len(), ran.len()), (total, total), "response handlers run (distinct, all)");
    for (n, v) in ran {
        ensure_eq!(v, json!([n, 0]), "response handed to the handler of request {}", n);
    }
    Ok(v)
}

/// Very many requests outstanding at once.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Many {
    pub n: u32,
    /// How many are answered while the others are still being sent.
    pub early: u8,
    pub order: u64,
}

pub fn many(c: &Many) -> Verdict {
    let ran: Arc<Mutex<Vec<(u32, Value)>>> = Default::default();
    serve(1, |client, tx, rx| {
        let mut rng = c.order | 1;
        let mut open: Vec<(RequestId, u32)> = vec![];
        let mut ids = HashSet::new();
        let answer = |open: &mut Vec<(RequestId, u32)>, rng: &mut u64| {
            *rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let (id, n) = open.swap_remove((*rng >> 33) as usize % open.len());
            tx.send(Message::Lsp(lsp::Response::new_ok(id, json!(n)).into())).unwrap();
        };
        for i in 0..c.n {
            let ran = ran.clone();
            client.send_lsp_request_::<Out>(json!(i), move |_, r| ran.lock().unwrap().push((i, r.result.unwrap_or(Value::Null))));
            let Ok(Message::Lsp(lsp::Message::Request(r))) = rx.recv_timeout(PATIENCE) else {
                return Err(format!("request {i} did not arrive").into());
            };
            ensure_eq!(r.params, json!(i), "parameters of a request");
            ensure!(ids.insert(r.id.clone()), "request id {:?} was used twice", r.id);
            open.push((r.id, i));
            if i % 256 < c.early as u32 {
                answer(&mut open, &mut rng);
            }
        }
        while !open.is_empty() {
            answer(&mut open, &mut rng);
        }
        Ok(true)
    })?;
    let ran = std::mem::take(&mut *ran.lock().unwrap());
    ensure_eq!(ran.len(), c.n as usize, "response handlers run");
    for (n, v) in ran {
        ensure_eq!(v, json!(n), "response handed to the handler of request {}", n);
    }
    Ok(c.n >= 1000)
}
