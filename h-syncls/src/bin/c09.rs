//! C09: a message is classified by its shape.
use h_syncls::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use sync_ls::{lsp, ExtractError};
use vcommon::{bx, ensure, ensure_eq, gen, Check, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    msg: Lm,
    /// Unknown members, and members of the other kinds.
    extra: Vec<(String, Value)>,
    order: Vec<u16>,
    spaces: u8,
    chunks: Vec<u8>,
}

fn case() -> BoxedStrategy<Case> {
    let extra = prop::collection::vec(
        (prop_oneof![2 => gen::key(), 3 => gen::word(), 1 => Just("jsonrpc".to_owned()), 1 => Just("Id".to_owned()), 1 => Just("paramsx".to_owned())], prop_oneof![3 => gen::json(3, 8), 1 => Just(Value::from("2.0")), 1 => error().prop_map(|e| serde_json::json!({"code": e.code, "message": e.message}))]),
        0..4,
    );
    (lsp_msg(), extra, prop::collection::vec(any::<u16>(), 0..12), 0u8..4, chunks())
        .prop_map(|(msg, mut extra, order, spaces, chunks)| {
            let own: Vec<&str> = match &msg {
                Lm::Req { .. } => vec!["id", "method", "params"],
                // A method beside an id makes a request, whatever else there is.
                Lm::Res { .. } => vec!["id", "method", "result", "error"],
                Lm::Not { .. } => vec!["id", "method", "params"],
            };
            let mut seen = std::collections::HashSet::new();
            extra.retain(|(k, _)| !own.contains(&k.as_str()) && seen.insert(k.clone()));
            Case { msg, extra, order, spaces, chunks }
        })
        .boxed()
}

/// The members in the case's order, as text.
fn text(c: &Case, drop_null: bool) -> String {
    let mut ms: Vec<(String, Value)> = c.msg.members().into_iter().map(|(k, v)| (k.to_owned(), v)).collect();
    if drop_null {
        ms.retain(|(k, v)| !(k == "params" && v.is_null()));
    }
    ms.extend(c.extra.iter().cloned());
    let mut keyed: Vec<(u16, (String, Value))> =
        ms.into_iter().enumerate().map(|(i, m)| (c.order.get(i).copied().unwrap_or(i as u16), m)).collect();
    keyed.sort_by_key(|(o, _)| *o);
    let (open, colon, comma) = match c.spaces {
        0 => ("{", ":", ","),
        1 => ("{ ", ": ", ", "),
        2 => ("{\n\t", " :\r\n ", " ,\n"),
        _ => ("  {", ":  ", ",\t"),
    };
    let body: Vec<String> = keyed
        .into_iter()
        .map(|(_, (k, v))| {
            let k = if c.spaces == 3 && !k.is_empty() && k.is_ascii() {
                // Keys may be spelled with escapes.
                format!("\"\\u{:04x}{}", k.as_bytes()[0], &serde_json::to_string(&k[1..]).unwrap()[1..])
            } else {
                serde_json::to_string(&k).unwrap()
            };
            format!("{k}{colon}{v}")
        })
        .collect();
    format!("{open}{}{}", body.join(comma), if c.spaces == 2 { "\n}" } else { "}" })
}

fn classify(c: &Case) -> Verdict {
    for drop_null in [false, true] {
        let t = text(c, drop_null);
        let m: lsp::Message = serde_json::from_str(&t).map_err(|e| format!("refused {t}: {e}"))?;
        ensure_eq!(Lm::of(&m).norm(), c.msg.clone().norm(), "decoded from {t}");
        let wire = frame(t.as_bytes(), &[], "Content-Length", &[]);
        let mut r = Chunked::new(&wire, &c.chunks);
        let m = lsp::Message::read(&mut r).map_err(|e| format!("refused {t}: {e}"))?.ok_or("no message")?;
        ensure_eq!(Lm::of(&m).norm(), c.msg.clone().norm(), "read from {t}");
    }
    // Ids of different form stay different ids.
    if let Lm::Req { id, .. } | Lm::Res { id, .. } = &c.msg {
        let other = match id {
            Id::N(n) => Id::S(n.to_string()),
            Id::S(s) => match s.parse::<i32>() {
                Ok(n) => Id::N(n),
                Err(_) => Id::S(format!("\"{s}\"")),
            },
        };
        ensure!(id.real() != other.real(), "ids {id:?} and {other:?} are equal");
        ensure!(id.real() == id.clone().real(), "id differs from itself");
        if matches!((id, &other), (Id::N(_), Id::S(_))) {
            ensure!(id.real().to_string() != other.real().to_string(), "ids {id:?} and {other:?} print the same");
        }
    }
    Ok(!c.extra.is_empty() && !c.order.is_empty())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Ext {
    id: Id,
    method: String,
    ask: String,
    params: Value,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(deny_unknown_fields)]
struct P {
    a: i32,
    b: Option<String>,
}

fn extract(c: &Ext) -> Verdict {
    let req = lsp::Request { id: c.id.real(), method: c.method.clone(), params: c.params.clone() };
    let not = lsp::Notification { method: c.method.clone(), params: c.params.clone() };
    let want: Result<P, _> = serde_json::from_value(c.params.clone());
    let same = c.method == c.ask;
    match req.clone().extract::<P>(&c.ask) {
        Ok((id, p)) => {
            ensure!(same, "extracted {:?} as {:?}", c.method, c.ask);
            ensure_eq!(Id::of(&id), c.id, "extracted id");
            ensure_eq!(Some(p), want.as_ref().ok().cloned(), "extracted params");
        }
        Err(ExtractError::MethodMismatch(r)) => {
            ensure!(!same, "mismatch reported for the right method");
            ensure_eq!(Lm::of(&r.into()), Lm::of(&req.into()), "request handed back");
        }
        Err(ExtractError::JsonError { method, .. }) => {
            ensure!(same && want.is_err(), "JSON error for {:?} asked {:?} params {}", c.method, c.ask, c.params);
            ensure_eq!(method, c.method, "method in the error");
        }
    }
    match not.clone().extract::<P>(&c.ask) {
        Ok(p) => {
            ensure!(same, "extracted {:?} as {:?}", c.method, c.ask);
            ensure_eq!(Some(p), want.as_ref().ok().cloned(), "extracted params");
        }
        Err(ExtractError::MethodMismatch(n)) => {
            ensure!(!same, "mismatch reported for the right method");
            ensure_eq!(Lm::of(&n.into()), Lm::of(&not.into()), "notification handed back");
        }
        Err(ExtractError::JsonError { method, .. }) => {
            ensure!(same && want.is_err(), "JSON error for {:?} asked {:?} params {}", c.method, c.ask, c.params);
            ensure_eq!(method, c.method, "method in the error");
        }
    }
    Ok(same || c.method.contains(&c.ask) || c.ask.contains(&c.method))
}

fn main() {
    Check::main(
        "C09",
        "JSON objects with the members of a request, response or notification plus unknown members and members of other kinds, in any order, spacing and key spelling; typed extraction over equal, similar and different method names; non-trivial: reordered members and at least one additional member, or equal or overlapping method names",
        |c| {
            c.assume("a null result, error or error data reads back as an absent one; members are not repeated");
            c.prop("classify", Opts::new(120_000), case, classify);
            c.prop(
                "extract",
                Opts::new(120_000),
                || {
                    let name = || prop::sample::select(vec!["a", "a/b", "a/bc", "A/b", "a/b ", "", "initialize", "initialized"]).prop_map(str::to_owned);
                    let params = prop_oneof![
                        3 => (any::<i32>(), prop::option::of(gen::text(4))).prop_map(|(a, b)| serde_json::json!({"a": a, "b": b})),
                        1 => any::<i32>().prop_map(|a| serde_json::json!({"a": a})),
                        1 => any::<i32>().prop_map(|a| serde_json::json!([a, "x"])),
                        2 => gen::json(2, 6),
                        1 => any::<i64>().prop_map(|a| serde_json::json!({"a": a, "c": 1})),
                    ];
                    bx((id(), name(), name(), params).prop_map(|(id, method, ask, params)| Ext { id, method, ask, params }))
                },
                extract,
            );
        },
    )
}
