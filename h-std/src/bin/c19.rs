//! C19: errors keep their cause, context and arguments.
use ecow::EcoString;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use tinymist_std::error::prelude::*;
use tinymist_std::error::{DiagMessage, DiagSeverity, ErrKindExt};
use tinymist_std::{ErrKind, Error};
use vcommon::{bx, ensure, ensure_eq, gen, no_panic, Check, Fail, Opts, Verdict};

const LOCS: &[&str] = &["", "read file", "parse", "a: b", "{loc}", "位置", "compile \"main\"", "with", "x", "unknown", "line\nbreak", "100%"];
const KEYS: &[&str] = &["path", "error", "k", "key with space", "loc", "数", "with", "a\"b"];

thread_local!(static LOGGED: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) });
/// Keeps what is logged as an error or a warning.
struct Keep;
impl log::Log for Keep {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        LOGGED.with(|l| l.borrow_mut().push(r.args().to_string()));
    }
    fn flush(&self) {}
}

/// Where an error comes from.
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Base {
    Str(String),
    StringRef(String),
    Owned(String),
    Eco(String),
    Display(String),
    Io(String),
    Anyhow(String),
    AnyhowChain(String, String),
    Utf8(Vec<u8>),
    Json(String),
    KindNone,
    KindMsg(String),
    KindDiag(String),
    NoValue,
    Bail(String),
    Once(u8, i64, String),
}

/// How a level is put around an error.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Level {
    how: u8,
    loc: u8,
    args: Option<Vec<(u8, String)>>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    base: Base,
    first: Level,
    levels: Vec<Level>,
    ok: Option<i32>,
}

type Args = Option<Vec<(&'static str, String)>>;

fn args_of(l: &Level) -> Args {
    l.args.as_ref().map(|a| a.iter().map(|(k, v)| (KEYS[*k as usize % KEYS.len()], v.clone())).collect())
}
fn boxed(a: &Args) -> Option<Box<[(&'static str, String)]>> {
    a.clone().map(|v| v.into_boxed_slice())
}
fn loc_of(l: &Level) -> &'static str {
    LOCS[l.loc as usize % LOCS.len()]
}

/// What a level is expected to say.
#[derive(Debug, Clone)]
struct Said {
    loc: &'static str,
    args: Vec<(&'static str, String)>,
    has_args: bool,
}

thread_local!(static CALLS: Cell<u32> = const { Cell::new(0) });

/// Attaches a level to the failure `e` of type `E` the way `how` says.
fn attach<E: ErrKindExt + std::fmt::Display>(e: E, l: &Level) -> (Error, Said) {
    let (loc, args) = (loc_of(l), args_of(l));
    let said = |a: Args| Said { loc, has_args: a.is_some(), args: a.unwrap_or_default() };
    let list = args.clone().unwrap_or_default();
    CALLS.with(|c| c.set(0));
    let f = || {
        CALLS.with(|c| c.set(c.get() + 1));
        boxed(&args)
    };
    match l.how % 10 {
        0 => (Err::<(), _>(e).context(loc).unwrap_err(), said(None)),
        1 => (Err::<(), _>(e).with_context(loc, f).unwrap_err(), said(args.clone())),
        2 => (Err::<(), _>(e).context_ut(loc).unwrap_err(), said(None)),
        3 => (Err::<(), _>(e).with_context_ut(loc, f).unwrap_err(), said(args.clone())),
        4 => (map_err::<E>(loc)(e), said(None)),
        5 => (map_err_with_args::<E, _>(loc, list.clone())(e), said(Some(list))),
        6 => (map_string_err::<E>(loc)(e), said(None)),
        7 => (map_string_err_with_args::<E, _>(loc, list.clone())(e), said(Some(list))),
        8 => (map_into_err::<E, E>(loc)(e), said(None)),
        _ => (map_into_err_with_args::<E, E, _>(loc, list.clone())(e), said(Some(list))),
    }
}

fn bails(s: &str) -> tinymist_std::Result<()> {
    bail!("{s}")
}

/// The first error, what its level says and the message underneath.
fn make(c: &Case) -> (Error, Said, Option<String>) {
    let l = &c.first;
    let go = |(e, s): (Error, Said), m: String| (e, s, Some(m));
    match &c.base {
        Base::Str(s) => go(attach(s.as_str(), l), s.clone()),
        Base::StringRef(s) => go(attach(s, l), s.clone()),
        Base::Owned(s) => go(attach(s.clone(), l), s.clone()),
        Base::Eco(s) => go(attach(EcoString::from(s.as_str()), l), s.clone()),
        Base::Display(s) => go(attach(s as &dyn std::fmt::Display, l), s.clone()),
        Base::Io(s) => go(attach(std::io::Error::new(std::io::ErrorKind::Other, s.clone()), l), s.clone()),
        Base::Anyhow(s) => match l.how {
            10.. => {
                let e: Error = anyhow::anyhow!("{s}").into();
                (e, Said { loc: "", args: vec![], has_args: false }, Some(s.clone()))
            }
            _ => go(attach(anyhow::anyhow!("{s}"), l), s.clone()),
        },
        Base::AnyhowChain(s, t) => go(attach(anyhow::anyhow!("{s}").context(t.clone()), l), t.clone()),
        Base::Utf8(b) => {
            let mut b = b.clone();
            // What cannot be in a text, or a character cut off.
            b.extend([&[0xff][..], &[0xc3], &[0xe4, 0xbd], &[0xf0, 0x9f, 0x98], &[0xc3, b'a'], &[0x80]][l.loc as usize % 6]);
            let e = std::str::from_utf8(&b).unwrap_err();
            go(attach(e, l), e.to_string())
        }
        Base::Json(s) => {
            let text = format!("[1 {s} 2");
            let e = serde_json::from_str::<serde_json::Value>(&text).unwrap_err();
            let m = e.to_string();
            go(attach(e, l), m)
        }
        Base::KindNone => kind(ErrKind::None, l, None),
        Base::KindMsg(s) => kind(ErrKind::Msg(s.as_str().into()), l, Some(s.clone())),
        Base::KindDiag(s) => kind(
            ErrKind::Diag(Box::new(DiagMessage { package: "p".into(), path: "q".into(), message: s.as_str().into(), severity: DiagSeverity::Warning, range: None })),
            l,
            Some(s.clone()),
        ),
        Base::NoValue => {
            let (loc, args) = (loc_of(l), args_of(l));
            if l.how % 2 == 0 {
                (None::<()>.context(loc).unwrap_err(), Said { loc, args: vec![], has_args: false }, None)
            } else {
                let e = None::<()>.with_context(loc, || boxed(&args)).unwrap_err();
                (e, Said { loc, has_args: args.is_some(), args: args.unwrap_or_default() }, None)
            }
        }
        Base::Bail(s) => {
            let e = bails(s).unwrap_err();
            let loc = e.loc();
            (e, Said { loc, args: vec![], has_args: false }, Some(s.clone()))
        }
        Base::Once(n, i, s) => {
            let loc = loc_of(l);
            let (e, args, msg) = match n % 5 {
                0 => (error_once!(loc, num: i, text: s), vec![("num", i.to_string()), ("text", s.clone())], None),
                1 => (error_once!(loc), vec![], None),
                2 => (error_once_map!(loc, text: s, num: i)(s.clone()), vec![("text", s.clone()), ("num", i.to_string())], Some(s.clone())),
                3 => (error_once_map_string!(loc, only: i)(s), vec![("only", i.to_string())], Some(s.clone())),
                _ => (error_once_map!(loc)(s.clone()), vec![], Some(s.clone())),
            };
            (e, Said { loc, args, has_args: matches!(n % 5, 0..=3) }, msg)
        }
    }
}

fn kind(k: ErrKind, l: &Level, m: Option<String>) -> (Error, Said, Option<String>) {
    let (loc, args) = (loc_of(l), args_of(l));
    let said = |a: Args| Said { loc, has_args: a.is_some(), args: a.unwrap_or_default() };
    let (e, s) = match l.how % 4 {
        0 => (Err::<(), _>(k).context(loc).unwrap_err(), said(None)),
        1 => (Err::<(), _>(k).with_context(loc, || boxed(&args)).unwrap_err(), said(args.clone())),
        2 => (map_err(loc)(k), said(None)),
        _ => (Error::new(loc, k, boxed(&args)), said(args.clone())),
    };
    (e, s, m)
}

/// Finds `what` (as it is, or escaped as debug output does) from `pos` on.
fn find(text: &str, pos: usize, what: &str) -> Option<usize> {
    let escaped = format!("{what:?}");
    let escaped = &escaped[1..escaped.len() - 1];
    let a = text[pos..].find(what).map(|i| pos + i + what.len());
    let b = text[pos..].find(escaped).map(|i| pos + i + escaped.len());
    match (a, b) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, b) => a.or(b),
    }
}

fn own(e: &Error, s: &Said) -> Result<(), Fail> {
    ensure_eq!(e.loc(), s.loc, "the location of {s:?}");
    ensure_eq!(e.arguments(), &s.args[..], "the arguments of {s:?}");
    Ok(())
}

fn printed(e: &Error, stack: &[Said], msg: &Option<String>) -> Result<(), Fail> {
    let text = e.to_string();
    // Locations, outermost first, then the message.
    let mut pos = 0;
    for s in stack.iter().rev() {
        pos = find(&text, pos, s.loc).ok_or_else(|| Fail::from(format!("the location {:?} is missing, or not outermost first, in {text:?}", s.loc)))?;
    }
    if let Some(m) = msg {
        let at = find(&text, pos, m).ok_or_else(|| Fail::from(format!("the message {m:?} is missing after its locations in {text:?}")))?;
        pos = at;
    }
    let _ = pos;
    // The arguments of every level, in order.
    for s in stack {
        let mut pos = 0;
        for (k, v) in &s.args {
            let at = find(&text, pos, k).and_then(|p| find(&text, p, v));
            pos = at.ok_or_else(|| Fail::from(format!("the arguments {:?} are missing, or out of order, in {text:?}", s.args)))?;
        }
    }
    if let ([s], Some(m)) = (stack, msg) {
        if s.loc.is_empty() {
            if s.has_args {
                ensure!(text.starts_with(m.as_str()), "a message without a location prints as {text:?}, not starting with {m:?}");
            } else {
                ensure_eq!(text, *m, "printing a message without a location");
            }
        }
    }
    Ok(())
}

fn judge(c: &Case) -> Verdict {
    no_panic(|| judge_inner(c)).map_err(|p| format!("panicked: {p}"))?
}

fn judge_inner(c: &Case) -> Verdict {
    // Successes pass through, without computing context.
    if let Some(v) = c.ok {
        let l = &c.first;
        let called = Cell::new(0);
        let f = || {
            called.set(called.get() + 1);
            None
        };
        ensure_eq!(Ok::<i32, String>(v).context(loc_of(l)).ok(), Some(v), "context on success");
        ensure_eq!(Ok::<i32, String>(v).with_context(loc_of(l), f).ok(), Some(v), "with_context on success");
        ensure_eq!(Ok::<i32, String>(v).context_ut(loc_of(l)).ok(), Some(v), "context_ut on success");
        ensure_eq!(Ok::<i32, String>(v).with_context_ut(loc_of(l), f).ok(), Some(v), "with_context_ut on success");
        ensure_eq!(Some(v).context(loc_of(l)).ok(), Some(v), "context on a value");
        ensure_eq!(Some(v).with_context(loc_of(l), f).ok(), Some(v), "with_context on a value");
        ensure_eq!(Ok::<i32, String>(v).log_error("x"), Some(v), "log_error on success");
        ensure_eq!(
            Ok::<i32, String>(v).log_error_with(|| {
                called.set(called.get() + 1);
                String::new()
            }),
            Some(v),
            "log_error_with on success"
        );
        ensure_eq!(called.get(), 0, "context was computed on success");
    }
    let (mut e, said, msg) = make(c);
    if let Base::Bail(_) = c.base {
        ensure!(e.loc().contains(file!()), "bail gives the location {:?}", e.loc());
    }
    own(&e, &said)?;
    let mut stack = vec![said];
    printed(&e, &stack, &msg)?;
    for l in &c.levels {
        let before = e.to_string();
        let said;
        if l.how == 13 {
            e = anyhow::Error::from(e).into();
            ensure_eq!(e.to_string(), before, "an error handed on as an `anyhow::Error`");
            said = Said { loc: "", args: vec![], has_args: false };
        } else if l.how >= 10 {
            let (loc, args) = (loc_of(l), args_of(l).unwrap_or_default());
            (e, said) = if l.how % 2 == 0 {
                (wrap_err(loc)(e), Said { loc, args: vec![], has_args: false })
            } else {
                (wrap_err_with_args(loc, args.clone())(e), Said { loc, has_args: true, args })
            };
            match e.kind() {
                ErrKind::Inner(inner) => {
                    ensure_eq!(inner.to_string(), before, "the wrapped error");
                    own(inner, stack.last().unwrap())?;
                }
                k => return Err(format!("wrapping an error gives the kind {k:?}").into()),
            }
        } else {
            (e, said) = attach(e, l);
        }
        own(&e, &said)?;
        stack.push(said);
        printed(&e, &stack, &msg)?;
        ensure!(e.to_string().contains(&before), "{:?} does not contain the text {before:?} of the error it was made from", e.to_string());
        ensure_eq!(e.clone().to_string(), e.to_string(), "a clone's text");
    }
    let text = e.to_string();
    LOGGED.with(|l| l.borrow_mut().clear());
    ensure_eq!(Err::<i32, _>(e.clone()).log_error("some message"), None, "log_error on failure");
    ensure_eq!(Err::<i32, _>(e).log_error_with(|| "its own message".into()), None, "log_error_with on failure");
    let logged = LOGGED.with(|l| l.take());
    ensure!(
        logged.len() == 2 && logged[0].contains("some message") && logged[1].contains("its own message") && logged.iter().all(|l| l.contains(&text)),
        "of {text:?} is logged {logged:?}"
    );
    Ok(!c.levels.is_empty() || stack[0].args.len() > 1)
}

fn case() -> BoxedStrategy<Case> {
    let t = || prop_oneof![40 => gen::text(8), 1 => (gen::text(3), 1usize..2000).prop_map(|(t, n)| t.repeat(n))];
    let base = prop_oneof![
        t().prop_map(Base::Str),
        t().prop_map(Base::StringRef),
        t().prop_map(Base::Owned),
        t().prop_map(Base::Eco),
        t().prop_map(Base::Display),
        t().prop_map(Base::Io),
        t().prop_map(Base::Anyhow),
        (t(), t()).prop_map(|(a, b)| Base::AnyhowChain(a, b)),
        prop::collection::vec(0u8..128, 0..6).prop_map(Base::Utf8),
        t().prop_map(Base::Json),
        Just(Base::KindNone),
        t().prop_map(Base::KindMsg),
        t().prop_map(Base::KindDiag),
        Just(Base::NoValue),
        t().prop_map(Base::Bail),
        (any::<u8>(), any::<i64>(), t()).prop_map(|(a, b, c)| Base::Once(a, b, c)),
    ];
    let level = || {
        (0u8..14, prop_oneof![1 => Just(0u8), 3 => any::<u8>()], prop::option::of(prop_oneof![20 => prop::collection::vec((any::<u8>(), gen::text(5)), 0..4), 1 => prop::collection::vec((any::<u8>(), gen::text(2)), 4..40)]))
            .prop_map(|(how, loc, args)| Level { how, loc, args })
    };
    (base, level(), prop::collection::vec(level(), 0..4), any::<Option<i32>>())
        .prop_map(|(base, first, levels, ok)| Case { base, first, levels, ok })
        .boxed()
}

fn main() {
    let _ = log::set_logger(&Keep);
    log::set_max_level(log::LevelFilter::Warn);
    Check::main("C19", "a case makes an error from a generated source and puts up to three levels around it; it counts as non-trivial if there is at least one more level or the first has several arguments", |c| {
        c.assume("an argument's text may be printed as it is or with the escapes of debug output");
        c.prop("levels", Opts::new(500_000), || bx(case()), judge);
    });
}
