//! C21: translated messages substitute every argument and change nothing else.
use h_l10n::{apart, helper, keep};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tinymist_l10n::{set_locale, set_translations, t_with_args, t_without_args, Arg, DebugL10n};
use vcommon::{bx, ensure_eq, gen, no_panic, Check, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Piece {
    Text(String),
    /// A placeholder with a format specification behind it, if any.
    Arg(String, Option<String>),
    /// A closing brace of no placeholder.
    Close,
    /// An opening brace followed by text that names no argument.
    Open(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Value {
    Str(String),
    Int(i64),
    /// By its bits.
    Float(u64),
    /// Given by its debug form.
    Debug(String),
    List(Vec<String>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    template: Vec<Piece>,
    args: Vec<(String, Value)>,
    /// Whether the template is the translation of another message.
    translated: bool,
}

#[derive(Serialize, Deserialize)]
struct Ask {
    template: String,
    args: Vec<(String, Value)>,
    translated: bool,
}

fn text(pieces: &[Piece]) -> String {
    let mut t = String::new();
    for p in pieces {
        match p {
            Piece::Text(s) => t += s,
            Piece::Arg(n, None) => t += &format!("{{{n}}}"),
            Piece::Arg(n, Some(f)) => t += &format!("{{{n}:{f}}}"),
            Piece::Close => t.push('}'),
            Piece::Open(s) => {
                t.push('{');
                t += s;
            }
        }
    }
    t
}

fn shown(v: &Value) -> String {
    match v {
        Value::Str(s) => s.clone(),
        Value::Int(i) => i.to_string(),
        Value::Float(f) => f64::from_bits(*f).to_string(),
        Value::Debug(s) => format!("{s:?}"),
        Value::List(v) => format!("{v:?}"),
    }
}

fn expected(c: &Case) -> String {
    let mut t = String::new();
    for p in &c.template {
        match p {
            Piece::Arg(n, _) => match c.args.iter().find(|(k, _)| k == n) {
                Some((_, v)) => t += &shown(v),
                None => t += &text(std::slice::from_ref(p)),
            },
            p => t += &text(std::slice::from_ref(p)),
        }
    }
    t
}

fn call(key: &'static str, message: &'static str, args: &[(String, Value)]) -> String {
    let args: Vec<(&'static str, Arg)> = args
        .iter()
        .map(|(k, v)| {
            let a = match v {
                Value::Str(s) => Arg::from(s),
                Value::Int(i) => Arg::Int(*i),
                Value::Float(f) => Arg::Float(f64::from_bits(*f)),
                Value::Debug(s) => s.debug_l10n(),
                Value::List(v) => v.debug_l10n(),
            };
            (keep(k), a)
        })
        .collect();
    t_with_args(key, message, &args).into_owned()
}

/// In a process of its own.
fn run(a: Ask) -> [String; 3] {
    let (message, other) = (keep(&a.template), "the {default} message");
    if a.translated {
        let one = [("the.key".to_owned(), a.template.clone())].into_iter().collect();
        set_translations([("zh".to_owned(), one)].into_iter().collect());
        set_locale("zh").expect("the locale is there");
        [call("the.key", other, &a.args), t_without_args("the.key", other).into_owned(), call("another.key", message, &a.args)]
    } else {
        set_translations(Default::default());
        set_locale("zh");
        [call("the.key", message, &a.args), t_without_args("the.key", message).into_owned(), call("another.key", message, &a.args)]
    }
}

fn judge(c: &Case) -> Verdict {
    let template = text(&c.template);
    let want = expected(c);
    let fills = c.template.iter().filter(|p| matches!(p, Piece::Arg(n, _) if c.args.iter().any(|(k, _)| k == n))).count();
    if c.translated {
        let got: [String; 3] = apart(&Ask { template: template.clone(), args: c.args.clone(), translated: true })?;
        ensure_eq!(got[0], want, "the translation {template:?} with {:?}", c.args);
        ensure_eq!(got[1], template, "the translation without arguments");
        ensure_eq!(got[2], want, "the default message of an untranslated key, {template:?}, with {:?}", c.args);
    } else {
        let message = keep(&template);
        let got = no_panic(|| call("the.key", message, &c.args))?;
        ensure_eq!(got, want, "{template:?} with {:?}", c.args);
        let plain = no_panic(|| t_without_args("the.key", message).into_owned())?;
        ensure_eq!(plain, template, "the message without arguments");
    }
    Ok(fills > 0 && c.template.len() > 1)
}

const NAMES: &[&str] = &["a", "b", "ab", "value", "err", "root", "_x", "arg0", "A", "Value", "the_name_of_an_argument_is_as_long_as_it_needs_to_be", "the_name_of_an_argument_is_as_long_as_it_needs_to_be_and_sometimes_it_has_to_be_much_longer_than_anyone_would_have_thought_it_could"];
/// What no argument is called.
const ODD: &[&str] = &["a ", " a", " a ", "VALUE", "a.b", "a b", "é", "0", "ä", "Arg0", "b\t", "'a'", "a}b", "a,b", "?", "#a", "$a", "@"];

fn value() -> BoxedStrategy<Value> {
    prop_oneof![
        3 => gen::text(6).prop_map(Value::Str),
        2 => prop::sample::select(vec!["", "{a}", "{", "}", "{b}{a}", "{value:?}", "a}", "路径", "{{"]).prop_map(|s| Value::Str(s.into())),
        1 => any::<i64>().prop_map(Value::Int),
        1 => prop_oneof![(-1e6f64..1e6), Just(0.0), Just(-0.0), Just(1e300), Just(0.1), Just(f64::NAN), Just(f64::INFINITY)].prop_map(|f| Value::Float(f.to_bits())),
        1 => gen::text(4).prop_map(Value::Debug),
        1 => prop::collection::vec(gen::text(4), 0..3).prop_map(Value::List),
    ]
    .boxed()
}

fn plain(n: usize) -> impl Strategy<Value = String> {
    prop_oneof![
        3 => gen::text(n),
        1 => prop::sample::select(vec![" ", ":", "、", "é", "a", "b:?", "\n", "\"", "👩‍💻"]).prop_map(str::to_owned),
    ]
    .prop_map(|s| s.replace(['{', '}'], "|"))
}

fn case(translated: bool) -> BoxedStrategy<Case> {
    let name = || prop::sample::select(NAMES).prop_map(str::to_owned);
    let piece = prop_oneof![
        80 => plain(5).prop_map(Piece::Text),
        1 => (plain(2), 1usize..3000).prop_map(|(t, n)| Piece::Text(t.repeat(n))),
        120 => (name(), prop::option::weighted(0.25, prop::sample::select(vec!["?", "#?", ">8", ".2", ""]).prop_map(str::to_owned))).prop_map(|(n, f)| Piece::Arg(n, f)),
        20 => prop::sample::select(ODD).prop_map(|n| Piece::Arg(n.replace('}', ""), None)),
        20 => Just(Piece::Close),
        // No name of an argument follows the brace.
        20 => plain(3).prop_map(|s| Piece::Open(format!("; {s}"))),
        20 => Just(Piece::Open(String::new())),
    ];
    (prop::collection::vec(piece, 0..9), prop_oneof![6 => prop::collection::vec((name(), value()), 0..5), 1 => prop::collection::vec((name(), value()), 5..20)])
        .prop_map(move |(mut template, mut args)| {
            let mut seen = std::collections::HashSet::new();
            args.retain(|(k, _)| seen.insert(k.clone()));
            // A brace that is followed by another is no start of a name.
            for i in 0..template.len() {
                let next = matches!(template.get(i + 1), None | Some(Piece::Arg(..) | Piece::Open(_)));
                if let Piece::Open(s) = &mut template[i] {
                    if s.is_empty() && !next {
                        *s = "; ".to_owned();
                    }
                }
            }
            Case { template, args, translated }
        })
        .boxed()
}

/// The macros, with arguments by name.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Macro {
    template: Vec<Piece>,
    a: String,
    b: i64,
    root: String,
}

fn judge_macro(c: &Macro) -> Verdict {
    let m = keep(&text(&c.template));
    let as_case = |names: &[&str]| {
        let all = [("a", Value::Str(c.a.clone())), ("b", Value::Int(c.b)), ("root", Value::Debug(c.root.clone()))];
        expected(&Case { template: c.template.clone(), args: all.into_iter().filter(|(n, _)| names.contains(n)).map(|(n, v)| (n.to_owned(), v)).collect(), translated: false })
    };
    let (a, b, root) = (&c.a, c.b, &c.root);
    let got = no_panic(|| {
        [
            tinymist_l10n::t!("k", m).into_owned(),
            tinymist_l10n::t!("k", m, a = a.into()).into_owned(),
            tinymist_l10n::t!("k", m, b = Arg::Int(b), a = a.as_str().into(),).into_owned(),
            tinymist_l10n::t!("k", m, root = root.debug_l10n(), b = Arg::Int(b), a = a.into()).into_owned(),
        ]
    })?;
    let want = [text(&c.template), as_case(&["a"]), as_case(&["a", "b"]), as_case(&["a", "b", "root"])];
    ensure_eq!(got, want, "t! with {m:?}");
    let fail = || -> tinymist_std::Result<()> { tinymist_l10n::bail!("k", m, root = root.debug_l10n(), a = a.into()) };
    let e = no_panic(fail)?.expect_err("an error");
    let e = e.to_string();
    let want = as_case(&["a", "root"]);
    vcommon::ensure!(e.contains(&want), "bail! with {m:?} says {e:?}, not {want:?}");
    Ok(c.template.iter().any(|p| matches!(p, Piece::Arg(..))))
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--helper") {
        helper(run);
    }
    Check::main("C21", "a case is a message of text and placeholders and a list of arguments, as the default or as a translation (non-trivial: some placeholder names an argument and there is something else too), or a message for the macros (non-trivial: it has a placeholder)", |c| {
        c.assume("a placeholder has no brace within: of \"{{a}}\" the placeholder is the inner \"{a}\"");
        c.prop("default", Opts::new(60_000).thorough(20).shards(6).shrink(4000), || bx(case(false)), judge);
        c.prop("translated", Opts::new(12_000).shards(8).shrink(400), || bx(case(true)), judge);
        c.prop("macros", Opts::new(20_000).thorough(20).shards(4).shrink(4000), || bx((case(false), gen::text(5), any::<i64>(), gen::text(5)).prop_map(|(c, a, b, root)| Macro { template: c.template, a, b, root })), judge_macro);
    });
}
