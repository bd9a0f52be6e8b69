//! C29: semantic token edits turn the tokens the editor has into the current ones.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::Arc;
use lsp_types::{SemanticToken, SemanticTokensEdit, SemanticTokensFullDeltaResult, SemanticTokensResult};
use tinymist_query::analysis::{semantic_tokens::tokens_of, Analysis, AnalysisRevLock, LocalContext};
use tinymist_query::{CompilerQueryRequest, SemanticRequest, SemanticTokensDeltaRequest, SemanticTokensFullRequest};
use typst::syntax::Source;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

type Text = Vec<u8>;

fn text(t: &Text) -> String {
    t.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" ")
}

fn flat(t: &[SemanticToken]) -> Vec<u32> {
    t.iter().flat_map(|t| [t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]).collect()
}

/// What an editor does with edits.
fn apply(base: &[u32], mut edits: Vec<SemanticTokensEdit>) -> Result<Vec<u32>, Fail> {
    let mut out = base.to_vec();
    edits.sort_by_key(|e| std::cmp::Reverse(e.start));
    let mut limit = base.len();
    for e in edits {
        let (a, b) = (e.start as usize, e.start as usize + e.delete_count as usize);
        ensure!(b <= limit, "an edit of {a}..{b} of {} numbers (or one that overlaps another)", limit);
        out.splice(a..b, flat(&e.data.unwrap_or_default()));
        limit = a;
    }
    Ok(out)
}

struct Pending {
    path: usize,
    text: Text,
    /// The tokens of the result the request names, if the editor has them.
    prev: Option<(String, Option<Vec<u32>>)>,
    lock: AnalysisRevLock,
    ctx: LocalContext,
}

struct Response {
    id: Option<String>,
    tokens: Result<Vec<u32>, Vec<SemanticTokensEdit>>,
}

fn file(path: usize) -> PathBuf {
    format!("/p{path}.typ").into()
}

fn ask(a: &Analysis, path: usize, t: &Text, prev: Option<(String, Option<Vec<u32>>)>) -> Pending {
    let req = match &prev {
        Some((id, _)) => CompilerQueryRequest::SemanticTokensDelta(SemanticTokensDeltaRequest { path: file(path), previous_result_id: id.clone() }),
        None => CompilerQueryRequest::SemanticTokensFull(SemanticTokensFullRequest { path: file(path) }),
    };
    let mut lock = a.lock_revision(Some(&req));
    let ctx = LocalContext { tokens: lock.tokens.take(), source: Source::detached(text(t)) };
    Pending { path, text: t.clone(), prev, lock, ctx }
}

fn answer(p: &mut Pending) -> Option<Response> {
    match &p.prev {
        None => {
            let r = SemanticTokensFullRequest { path: file(p.path) }.request(&mut p.ctx)?;
            match r {
                SemanticTokensResult::Tokens(t) => Some(Response { id: t.result_id, tokens: Ok(flat(&t.data)) }),
                SemanticTokensResult::Partial(_) => None,
            }
        }
        Some((id, _)) => {
            let r = SemanticTokensDeltaRequest { path: file(p.path), previous_result_id: id.clone() }.request(&mut p.ctx)?;
            match r {
                SemanticTokensFullDeltaResult::Tokens(t) => Some(Response { id: t.result_id, tokens: Ok(flat(&t.data)) }),
                SemanticTokensFullDeltaResult::TokensDelta(t) => Some(Response { id: t.result_id, tokens: Err(t.edits) }),
                SemanticTokensFullDeltaResult::PartialTokensDelta { .. } => None,
            }
        }
    }
}

fn judge(p: &Pending, r: Response, have: &mut HashMap<(usize, String), Vec<u32>>) -> Result<bool, Fail> {
    let want = flat(&tokens_of(&text(&p.text)));
    let by_edits = r.tokens.is_err();
    let got = match r.tokens {
        Ok(t) => t,
        Err(edits) => {
            let (id, base) = p.prev.as_ref().unwrap();
            let Some(base) = base else { return Err(format!("edits to the result {id:?}, which the editor does not have").into()) };
            if *base == want {
                ensure!(edits.is_empty(), "edits to equal tokens: {edits:?}");
            }
            apply(base, edits)?
        }
    };
    ensure_eq!(got, want, "the tokens the editor ends up with");
    if let Some(id) = r.id {
        have.insert((p.path, id), got);
    }
    Ok(by_edits)
}

fn pair((a, b): &(Text, Text)) -> Verdict {
    let an = Analysis::default();
    let mut have = HashMap::new();
    let mut p = ask(&an, 0, a, None);
    let r = answer(&mut p).ok_or("no answer")?;
    let id = r.id.clone().ok_or("a full result has no id")?;
    judge(&p, r, &mut have)?;
    drop(p);
    let base = have.get(&(0, id.clone())).cloned();
    let mut p = ask(&an, 0, b, Some((id, base)));
    let r = answer(&mut p).ok_or("no answer")?;
    ensure!(r.tokens.is_err(), "a request for edits to the last result is answered with all tokens");
    judge(&p, r, &mut have)?;
    Ok(a != b && !a.is_empty() && !b.is_empty())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Edit(u8, Text),
    Full(u8),
    /// Edits to the k-th last result received for the file.
    Delta(u8, u8),
    Bogus(u8, String),
    /// The request waiting for the k-th longest time is handled.
    Run(u8),
    /// All that wait are handled, at once.
    RunAll,
    Drop(u8),
    Other,
    Clear,
}

fn session(ops: &Vec<Op>) -> Verdict {
    let an = Arc::new(Analysis::default());
    let mut texts: Vec<Text> = vec![vec![]; 3];
    let mut have: HashMap<(usize, String), Vec<u32>> = HashMap::new();
    let mut last: Vec<Vec<String>> = vec![vec![]; 3];
    let mut waiting: Vec<Pending> = vec![];
    let mut others = vec![];
    let mut edits = 0;
    for op in ops {
        let step = |waiting: &mut Vec<Pending>, op: &Op| -> Result<Vec<(Pending, Option<Response>)>, Fail> {
            no_panic(|| match op {
                Op::Run(k) if !waiting.is_empty() => {
                    let mut p = waiting.remove(*k as usize % waiting.len());
                    let r = answer(&mut p);
                    vec![(p, r)]
                }
                Op::RunAll => {
                    let hs: Vec<_> = waiting.drain(..).map(|mut p| std::thread::spawn(move || { let r = answer(&mut p); (p, r) })).collect();
                    let all: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
                    all.into_iter().map(|r| r.expect("a handler panics")).collect()
                }
                Op::Drop(k) if !waiting.is_empty() => {
                    waiting.remove(*k as usize % waiting.len());
                    vec![]
                }
                _ => vec![],
            })
            .map_err(|m| Fail::from(format!("it panics at {op:?}: {m}")))
        };
        match op {
            Op::Edit(f, t) => texts[*f as usize % 3] = t.clone(),
            Op::Full(f) => {
                let f = *f as usize % 3;
                waiting.push(no_panic(|| ask(&an, f, &texts[f], None)).map_err(|m| Fail::from(format!("asking panics: {m}")))?);
            }
            Op::Delta(f, k) => {
                let f = *f as usize % 3;
                let Some(id) = last[f].iter().rev().nth(*k as usize).cloned() else { continue };
                let base = have.get(&(f, id.clone())).cloned();
                waiting.push(no_panic(|| ask(&an, f, &texts[f], Some((id, base)))).map_err(|m| Fail::from(format!("asking panics: {m}")))?);
            }
            Op::Bogus(f, id) => {
                let f = *f as usize % 3;
                let base = have.get(&(f, id.clone())).cloned();
                waiting.push(no_panic(|| ask(&an, f, &texts[f], Some((id.clone(), base)))).map_err(|m| Fail::from(format!("asking with {id:?} panics: {m}")))?);
            }
            Op::Other => others.push(an.lock_revision(Some(&CompilerQueryRequest::Other))),
            Op::Clear => an.clear_cache(),
            Op::Run(_) | Op::RunAll | Op::Drop(_) => {
                for (p, r) in step(&mut waiting, op)? {
                    let r = r.ok_or("no answer")?;
                    if let Some(id) = &r.id {
                        last[p.path].retain(|x| x != id);
                        last[p.path].push(id.clone());
                    }
                    edits += judge(&p, r, &mut have)? as u32;
                    // The request is over.
                    no_panic(move || { let Pending { lock, ctx, .. } = p; drop(ctx); drop(lock) }).map_err(|m| Fail::from(format!("finishing panics: {m}")))?;
                }
            }
        }
    }
    no_panic(move || drop((waiting, others))).map_err(|m| Fail::from(format!("finishing panics: {m}")))?;
    Ok(edits > 0)
}

fn tokens() -> BoxedStrategy<Text> {
    bx(prop_oneof![4 => prop::collection::vec(0u8..4, 0..8), 1 => prop::collection::vec(any::<u8>(), 0..40)])
}

fn pairs() -> BoxedStrategy<(Text, Text)> {
    let cut = (tokens(), tokens(), tokens(), tokens()).prop_map(|(p, a, b, s)| ([&p[..], &a, &s].concat(), [&p[..], &b, &s].concat()));
    let twice = (tokens(), 0usize..4, 0usize..4).prop_map(|(p, n, m)| (p.repeat(n), p.repeat(m)));
    let several = (tokens(), prop::collection::vec((any::<u8>(), any::<u8>(), 0u8..3), 0..6)).prop_map(|(p, ch)| {
        let mut q = p.clone();
        for (at, v, how) in ch {
            let n = q.len();
            match how {
                0 => q.insert(at as usize % (n + 1), v),
                1 if n > 0 => drop(q.remove(at as usize % n)),
                2 if n > 0 => q[at as usize % n] = v,
                _ => {}
            }
        }
        (p, q)
    });
    bx(prop_oneof![2 => cut, 1 => twice, 3 => several, 1 => (tokens(), tokens()), 1 => tokens().prop_map(|t| (t.clone(), t))])
}

fn op() -> BoxedStrategy<Op> {
    let f = || prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)];
    bx(prop_oneof![
        4 => (f(), tokens()).prop_map(|(f, t)| Op::Edit(f, t)),
        3 => f().prop_map(Op::Full),
        5 => (f(), prop_oneof![4 => Just(0u8), 1 => 1u8..4]).prop_map(|(f, k)| Op::Delta(f, k)),
        1 => (f(), prop_oneof![(0u32..12).prop_map(|n| n.to_string()), vcommon::gen::near_number().prop_map(|n| n.to_string()), Just(u64::MAX.to_string())]).prop_map(|(f, s)| Op::Bogus(f, s)),
        6 => (0u8..4).prop_map(Op::Run),
        1 => Just(Op::RunAll),
        1 => (0u8..4).prop_map(Op::Drop),
        1 => Just(Op::Other),
        1 => Just(Op::Clear),
    ])
}

fn main() {
    Check::main("C29", "a pair when the lists differ and neither is empty; a session when an answer with edits was applied", |c| {
        c.assume("tokens come from a stand-in tokenizer; an editor names results it received, or none that exist");
        c.prop("edits", Opts::new(60_000).thorough(20).shards(8), pairs, pair);
        c.prop("sessions", Opts::new(40_000).thorough(20).shards(8), || bx(prop::collection::vec(op(), 1..40)), session);
    })
}
