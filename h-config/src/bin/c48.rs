//! C48: the configuration, from what the editor sends to what is in use.
use lsp_types::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use sync_ls::lsp::{self, Message as Lsp};
use sync_ls::{Connection, Initializer, LspClientRoot, LspMessage, Message};
use tinymist::actor::editor::EditorRequest;
use tinymist_config::lsp::init::RegularInit;
use tinymist_config::server::{Applied, ServerState};
use tinymist_config::task::FormatterConfig;
use tinymist_config::{CompileFontArgs, Config, ConstConfig, PositionEncoding};
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

type Obj = Map<String, Value>;

/// An argument as for the command line.
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Arg {
    Root(String),
    Entry(String),
    FontPath(String),
    NoSystemFonts,
    Packages(String),
    PackageCache(String),
    Html,
    Input(String, String),
    Timestamp(i64),
    Standards(Vec<u8>),
    Cert(String),
    /// Not one of them.
    Bad(u8),
}
/// What the editor has as settings.
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
struct Settings {
    members: Obj,
    args: Option<Vec<Arg>>,
}
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
struct Base {
    roots: Vec<String>,
    font_paths: Vec<String>,
    no_system_fonts: bool,
}

const WHENS: &[&str] = &["never", "onSave", "onType", "onDocumentHasTitle"];
const STANDARDS: &[&str] = &["1.7", "a-2b", "a-3b"];
const BOOLS: &[&str] = &["triggerSuggest", "triggerParameterHints", "triggerSuggestAndParameterHints", "customizedShowDocument", "supportHtmlInMarkdown"];
/// What the editor can be asked for.
const ITEMS: &[&str] = &[
    "colorTheme",
    "compileStatus",
    "completion",
    "exportPdf",
    "exportTarget",
    "fontPaths",
    "formatterMode",
    "formatterPrintWidth",
    "formatterIndentSize",
    "hoverPeriscope",
    "lint",
    "outputPath",
    "preview",
    "projectResolution",
    "rootPath",
    "semanticTokens",
    "systemFonts",
    "typstExtraArgs",
];

fn word() -> BoxedStrategy<String> {
    bx(prop_oneof![
        4 => "[a-z]{1,6}",
        1 => vcommon::gen::text(8),
        1 => vcommon::gen::word(),
    ])
}
fn abs() -> BoxedStrategy<String> {
    bx(prop::sample::select(vec!["/w", "/w/sub", "/v", "/w/文 档", "/"]).prop_map(str::to_owned))
}
fn path() -> BoxedStrategy<String> {
    bx(prop_oneof![abs(), prop::sample::select(vec!["main.typ", "a/b.typ", "/w/main.typ", "fonts", "../up", "é x"]).prop_map(str::to_owned)])
}
fn arg() -> BoxedStrategy<Arg> {
    bx(prop_oneof![
        3 => prop_oneof![9 => abs(), 1 => Just("sub/dir".to_owned())].prop_map(Arg::Root),
        3 => path().prop_filter("a file", |p| p != "/").prop_map(Arg::Entry),
        3 => path().prop_map(Arg::FontPath),
        1 => Just(Arg::NoSystemFonts),
        1 => path().prop_map(Arg::Packages),
        1 => path().prop_map(Arg::PackageCache),
        1 => Just(Arg::Html),
        4 => ("[a-c=]{0,2}", word()).prop_map(|(k, v)| Arg::Input(k, v)),
        2 => vcommon::gen::near_number().prop_map(Arg::Timestamp),
        1 => prop::collection::vec(0..3u8, 1..4).prop_map(Arg::Standards),
        1 => path().prop_map(Arg::Cert),
        1 => (0..4u8).prop_map(Arg::Bad),
    ])
}
fn strings() -> BoxedStrategy<Value> {
    bx(prop::collection::vec(path(), 0..4).prop_map(|v| json!(v)))
}
fn one_of(names: &'static [&'static str]) -> BoxedStrategy<Value> {
    bx(prop_oneof![6 => prop::sample::select(names).prop_map(|s| json!(s)), 1 => word().prop_map(|s| json!(s))])
}
fn number() -> BoxedStrategy<Value> {
    bx(prop_oneof![4 => (0..300u32).prop_map(|n| json!(n)), 1 => any::<u32>().prop_map(|n| json!(n)), 1 => any::<i64>().prop_map(|n| json!(n)), 1 => vcommon::gen::near_number().prop_map(|n| json!(n)), 1 => Just(json!(2.5))])
}
/// A value of another kind.
fn odd() -> BoxedStrategy<Value> {
    bx(prop_oneof![
        any::<bool>().prop_map(|b| json!(b)),
        number(),
        word().prop_map(|s| json!(s)),
        Just(json!({})),
        word().prop_map(|s| json!({ format!("{s}?"): 1 })),
        prop::collection::vec(prop_oneof![path().prop_map(|s| json!(s)), any::<bool>().prop_map(|b| json!(b))], 6..8).prop_map(|v| json!(v)),
    ])
}
fn or_null(s: BoxedStrategy<Value>) -> BoxedStrategy<Value> {
    bx(prop_oneof![5 => s, 1 => Just(Value::Null)])
}
fn boolean() -> BoxedStrategy<Value> {
    bx(any::<bool>().prop_map(|b| json!(b)))
}
fn object(fields: Vec<(&'static str, BoxedStrategy<Value>)>) -> BoxedStrategy<Value> {
    let each: Vec<_> = fields.into_iter().map(|(k, v)| prop::option::weighted(0.6, prop_oneof![12 => v, 1 => odd()]).prop_map(move |v| (k, v))).collect();
    bx(each.prop_map(|fs| Value::Object(fs.into_iter().filter_map(|(k, v)| Some((k.to_owned(), v?))).collect())))
}
fn value(key: &'static str) -> BoxedStrategy<Value> {
    let good = match key {
        "colorTheme" => bx(prop_oneof![Just(json!("dark")), Just(json!("light")), word().prop_map(|s| json!(s))]),
        "compileStatus" => one_of(&["enable", "disable"]),
        "completion" => object(vec![
            ("triggerOnSnippetPlaceholders", boolean()),
            ("triggerSuggest", boolean()),
            ("symbol", or_null(one_of(&["step", "stepless"]))),
            ("postfix", or_null(boolean())),
            ("postfixUfcs", or_null(boolean())),
            ("postfixUfcsLeft", or_null(boolean())),
            ("postfixUfcsRight", or_null(boolean())),
        ]),
        "exportPdf" => one_of(WHENS),
        "exportTarget" => one_of(&["paged", "html"]),
        "fontPaths" => strings(),
        "formatterMode" => one_of(&["disable", "typstyle", "typstfmt"]),
        "formatterPrintWidth" | "formatterIndentSize" => number(),
        "hoverPeriscope" => bx(prop_oneof![
            2 => Just(json!("enable")),
            1 => Just(json!("disable")),
            3 => (0..200u8, 0..200u8, 1..8u8, prop::sample::select(vec!["auto", "always", "never"]), any::<bool>()).prop_map(|(a, b, s, c, all)| {
                let mut v = json!({"yAbove": a, "yBelow": b, "scale": s as f32 / 4., "invertColor": c});
                if !all { v.as_object_mut().unwrap().remove("yBelow"); }
                v
            }),
        ]),
        "lint" => object(vec![("enabled", or_null(boolean())), ("when", or_null(one_of(WHENS)))]),
        "outputPath" => bx(prop_oneof![Just(json!("$root/$dir/$name")), word().prop_map(|s| json!(s))]),
        "preview" => object(vec![
            ("browsing", object(vec![("args", or_null(strings()))])),
            ("background", bx((any::<bool>(), object(vec![("args", or_null(strings()))]), 0..9u8).prop_map(|(e, mut o, n)| {
                if n > 0 { o.as_object_mut().unwrap().insert("enabled".into(), json!(e)); }
                o
            }))),
            // What the check of the source code is set with is elsewhere.
            ("when", one_of(WHENS)),
            ("enabled", boolean()),
        ]),
        "projectResolution" => one_of(&["singleFile", "lockDatabase"]),
        "rootPath" => bx(prop_oneof![8 => abs(), 1 => Just("x/y".to_owned()), 1 => Just(".".to_owned())].prop_map(|s| json!(s))),
        "semanticTokens" => one_of(&["enable", "disable"]),
        _ => boolean(),
    };
    bx(prop_oneof![10 => good, 1 => odd(), 2 => Just(Value::Null)])
}
fn settings() -> BoxedStrategy<Settings> {
    let mut keys: Vec<&'static str> = ITEMS.iter().copied().filter(|k| *k != "typstExtraArgs").collect();
    keys.extend(BOOLS);
    // Each of them by itself, as often as with others.
    let all: Vec<_> = keys.into_iter().map(|k| value(k).prop_map(move |v| (k, v))).collect();
    let some = (all, prop_oneof![Just(0.05), Just(0.3), Just(0.9)]).prop_flat_map(|(all, p)| {
        let n = all.len();
        (Just(all), prop::collection::vec(prop::bool::weighted(p), n))
    });
    bx((some, prop::option::of(prop::collection::vec(arg(), 0..6)), prop::option::weighted(0.2, vcommon::gen::key()), prop::option::weighted(0.1, odd()))
        .prop_map(|((all, on), mut args, extra, odd_args)| {
            let mut members: Obj = all.into_iter().zip(on).filter(|(_, on)| *on).map(|((k, v), _)| (k.to_owned(), v)).collect();
            if let Some(k) = extra {
                if !ITEMS.contains(&&*k) && !BOOLS.contains(&&*k) && k != "tinymist" {
                    members.insert(k, json!("of another program"));
                }
            }
            if let Some(v) = odd_args {
                args = None;
                members.insert("typstExtraArgs".into(), v);
            }
            Settings { members, args }
        }))
}
fn base() -> BoxedStrategy<Base> {
    bx((prop::collection::vec(abs(), 0..3), prop::collection::vec(path(), 0..2), any::<bool>()).prop_map(|(roots, font_paths, no_system_fonts)| Base { roots, font_paths, no_system_fonts }))
}

impl Settings {
    fn object(&self) -> Obj {
        let mut o = self.members.clone();
        if let Some(args) = &self.args {
            let mut out: Vec<String> = vec![];
            for (i, a) in args.iter().enumerate() {
                // Both spellings of an argument with a value.
                let mut put = |name: &str, v: &str| {
                    if i % 2 == 0 && !v.starts_with('-') && !v.is_empty() {
                        out.extend([format!("--{name}"), v.to_owned()]);
                    } else {
                        out.push(format!("--{name}={v}"));
                    }
                };
                match a {
                    Arg::Root(s) => put("root", s),
                    Arg::Entry(s) => out.push(s.clone()),
                    Arg::FontPath(s) => put("font-path", s),
                    Arg::NoSystemFonts => out.push("--ignore-system-fonts".into()),
                    Arg::Packages(s) => put("package-path", s),
                    Arg::PackageCache(s) => put("package-cache-path", s),
                    Arg::Html => put("features", "html"),
                    Arg::Input(k, v) => put("input", &format!("{k}={v}")),
                    Arg::Timestamp(n) => put("creation-timestamp", &n.to_string()),
                    Arg::Standards(v) => put("pdf-standard", &v.iter().map(|n| STANDARDS[*n as usize]).collect::<Vec<_>>().join(",")),
                    Arg::Cert(s) => put("cert", s),
                    Arg::Bad(0) => out.push("--no-such-option".into()),
                    Arg::Bad(1) => put("features", "markdown"),
                    Arg::Bad(2) => put("input", "lonely"),
                    Arg::Bad(_) => put("creation-timestamp", "noon"),
                }
            }
            o.insert("typstExtraArgs".into(), json!(out));
        }
        o
    }
}

/// What is in use, and what was wrong.
#[derive(Debug, Clone)]
struct Expected {
    fields: Value,
    bad: BTreeSet<&'static str>,
    rejected: bool,
}
struct Reader<'a> {
    o: &'a Obj,
    bad: BTreeSet<&'static str>,
}
fn opt<T>(v: Option<&Value>, f: impl Fn(&Value) -> Option<T>) -> Option<Option<T>> {
    match v {
        None | Some(Value::Null) => Some(None),
        Some(v) => f(v).map(Some),
    }
}
fn str_list(v: &Value) -> Option<Vec<String>> {
    v.as_array()?.iter().map(|v| v.as_str().map(str::to_owned)).collect()
}
fn named<'a>(v: &'a Value, names: &[&str]) -> Option<&'a str> {
    v.as_str().filter(|s| names.contains(s))
}
impl Reader<'_> {
    /// The value if there is a good one; a null is none.
    fn get<T>(&mut self, key: &'static str, f: impl Fn(&Value) -> Option<T>) -> Option<T> {
        let v = self.o.get(key).filter(|v| !v.is_null())?;
        let got = f(v);
        if got.is_none() {
            self.bad.insert(key);
        }
        got
    }
}

fn expected(base: &Base, s: &Settings) -> Expected {
    let o = s.object();
    let mut r = Reader { o: &o, bad: Default::default() };
    let mut f = Obj::new();
    let mut set = |k: &str, v: Value| {
        f.insert(k.to_owned(), v);
    };
    let color = r.get("colorTheme", |v| v.as_str().map(str::to_owned));
    set("colorTheme", json!(color));
    let status = match o.get("compileStatus").and_then(Value::as_str) {
        Some("enable") => true,
        Some("disable") | None => false,
        Some(_) => {
            r.bad.insert("compileStatus");
            false
        }
    };
    set("notify", json!(status));
    let mut completion = r
        .get("completion", |v| {
            let c = v.as_object()?;
            let flag = |k: &str| c.get(k).map_or(Some(false), |v| v.as_bool());
            Some(json!({
                "triggerOnSnippetPlaceholders": flag("triggerOnSnippetPlaceholders")?,
                "triggerSuggest": flag("triggerSuggest")?,
                "symbol": opt(c.get("symbol"), |v| named(v, &["step", "stepless"]).map(str::to_owned))?,
                "postfix": opt(c.get("postfix"), Value::as_bool)?,
                "postfixUfcs": opt(c.get("postfixUfcs"), Value::as_bool)?,
                "postfixUfcsLeft": opt(c.get("postfixUfcsLeft"), Value::as_bool)?,
                "postfixUfcsRight": opt(c.get("postfixUfcsRight"), Value::as_bool)?,
            }))
        })
        .unwrap_or(json!({"triggerOnSnippetPlaceholders": false, "symbol": null, "postfix": null, "postfixUfcs": null, "postfixUfcsLeft": null, "postfixUfcsRight": null}));
    for k in &BOOLS[..3] {
        completion[k] = json!(r.get(k, Value::as_bool).unwrap_or(false));
    }
    set("completion", completion);
    for k in &BOOLS[3..] {
        set(k, json!(r.get(k, Value::as_bool).unwrap_or(false)));
    }
    let name = |v: &Value, names: &[&str]| named(v, names).map(str::to_lowercase);
    set("resolution", json!(r.get("projectResolution", |v| name(v, &["singleFile", "lockDatabase"])).unwrap_or("singlefile".into())));
    let export = r.get("exportPdf", |v| name(v, WHENS)).unwrap_or("never".into());
    set("exportPdf", json!(export));
    set("exportTarget", json!(r.get("exportTarget", |v| name(v, &["paged", "html"])).unwrap_or("paged".into())));
    let font_paths = r.get("fontPaths", str_list).unwrap_or_default();
    let mode = r.get("formatterMode", |v| name(v, &["disable", "typstyle", "typstfmt"])).unwrap_or("disable".into());
    let int = |v: &Value| v.as_u64().filter(|n| *n <= u32::MAX as u64);
    let width = r.get("formatterPrintWidth", int).unwrap_or(120);
    let indent = r.get("formatterIndentSize", int).unwrap_or(2);
    set("formatter", if mode == "disable" { json!(null) } else { json!([mode, width, indent]) });
    set("outputPath", json!(r.get("outputPath", |v| v.as_str().map(str::to_owned)).unwrap_or_default()));
    let preview = r.get("preview", |v| {
        let p = v.as_object()?;
        let args = |v: Option<&Value>| match v {
            None => Some(None),
            Some(v) => opt(v.as_object()?.get("args"), str_list),
        };
        let background = match p.get("background") {
            None => (false, None),
            Some(b) => (b.as_object()?.get("enabled")?.as_bool()?, args(Some(b))?),
        };
        Some(json!([args(p.get("browsing"))?, background.0, background.1]))
    });
    set("preview", preview.unwrap_or(json!([null, false, null])));
    let lint = r.get("lint", |v| {
        let l = v.as_object()?;
        let enabled = opt(l.get("enabled"), Value::as_bool)?;
        let when = opt(l.get("when"), |v| name(v, WHENS))?;
        Some(if enabled == Some(false) { "never".into() } else { when.unwrap_or("onsave".into()) })
    });
    set("lint", json!(lint.unwrap_or("onsave".into())));
    set("semanticTokens", json!(r.get("semanticTokens", |v| name(v, &["enable", "disable"])).unwrap_or("enable".into())));
    let system_fonts = r.get("systemFonts", Value::as_bool);
    let periscope = match o.get("hoverPeriscope") {
        Some(Value::String(s)) if s == "enable" => json!({"yAbove": 55.0, "yBelow": 55.0, "scale": 1.5, "invertColor": "never"}),
        Some(Value::Null | Value::String(_)) | None => Value::Null,
        Some(v) => {
            let get = || -> Option<Value> {
                let p = v.as_object()?;
                let n = |k: &str| p.get(k)?.as_f64();
                let color_ = p.get("invertColor")?.as_str()?;
                let color_ = if color_ == "auto" && color.as_deref() == Some("dark") { "always" } else { color_ };
                Some(json!({"yAbove": n("yAbove")?, "yBelow": n("yBelow")?, "scale": n("scale")?, "invertColor": color_}))
            };
            get().unwrap_or_else(|| {
                r.bad.insert("hoverPeriscope");
                Value::Null
            })
        }
    };
    set("periscope", periscope);

    // The arguments.
    let mut args: &[Arg] = s.args.as_deref().unwrap_or_default();
    let count = |f: fn(&Arg) -> bool| args.iter().filter(|a| f(a)).count();
    let twice = [
        count(|a| matches!(a, Arg::Root(_))),
        count(|a| matches!(a, Arg::Entry(_))),
        count(|a| matches!(a, Arg::NoSystemFonts)),
        count(|a| matches!(a, Arg::Packages(_))),
        count(|a| matches!(a, Arg::PackageCache(_))),
        count(|a| matches!(a, Arg::Timestamp(_))),
        count(|a| matches!(a, Arg::Cert(_))),
    ];
    let wrong = |a: &Arg| match a {
        Arg::Bad(_) => true,
        Arg::Input(k, v) => format!("{k}={v}").split_once('=').is_some_and(|(k, _)| k.trim().is_empty()),
        _ => false,
    };
    if twice.iter().any(|n| *n > 1) || args.iter().any(wrong) {
        r.bad.insert("typstExtraArgs");
        args = &[];
    }
    if s.args.is_none() {
        // Not a list of arguments, but some other value.
        match o.get("typstExtraArgs") {
            Some(Value::Null) | None => {}
            Some(_) => {
                r.bad.insert("typstExtraArgs");
            }
        }
    }
    let mut root = None;
    let mut entry = None;
    let mut fonts: Vec<String> = vec![];
    let mut no_system = false;
    let mut inputs = BTreeMap::new();
    let (mut packages, mut cache, mut html, mut time, mut standards, mut cert) = (None, None, false, None, vec![], None);
    for a in args {
        match a {
            Arg::Root(s) => root = Some(s.clone()),
            Arg::Entry(s) => entry = Some(s.clone()),
            Arg::FontPath(s) => fonts.extend(s.split(':').map(str::to_owned)),
            Arg::NoSystemFonts => no_system = true,
            Arg::Packages(s) => packages = Some(s.clone()),
            Arg::PackageCache(s) => cache = Some(s.clone()),
            Arg::Html => html = true,
            Arg::Input(k, v) => {
                let all = format!("{k}={v}");
                let (k, v) = all.split_once('=').unwrap();
                inputs.insert(k.trim().to_owned(), v.trim().to_owned());
            }
            Arg::Timestamp(n) => time = Some(*n),
            Arg::Standards(v) => standards.extend(v.iter().map(|n| STANDARDS[*n as usize])),
            Arg::Cert(s) => cert = Some(s.clone()),
            Arg::Bad(_) => unreachable!(),
        }
    }
    let root_path = o.get("rootPath").and_then(Value::as_str).map(str::to_owned).or(root);
    let rejected = root_path.as_ref().is_some_and(|r| !r.starts_with('/'));
    let top = root_path.clone().or_else(|| base.roots.first().cloned());
    let default = entry.as_ref().and_then(|e| if e.starts_with('/') { Some(PathBuf::from(e)) } else { Some(Path::new(top.as_ref()?).join(e)) });
    set("root", json!(root_path));
    set("default", json!(default));
    set("hasDefault", json!(default.is_some()));
    // The settings, then the arguments, then what the server was started with.
    let mut paths = font_paths;
    if paths.is_empty() {
        paths = fonts;
    }
    if paths.is_empty() {
        paths = base.font_paths.clone();
    }
    let paths: Vec<PathBuf> = paths.iter().map(|p| top.as_ref().map_or(PathBuf::from(p), |t| Path::new(t).join(p))).collect();
    set("fonts", json!([paths, system_fonts.map_or(no_system || base.no_system_fonts, |s| !s)]));
    set("packages", json!([packages, cache]));
    inputs.insert("x-preview".into(), json!({"version": 1, "theme": color.unwrap_or_default()}).to_string());
    set("inputs", json!(inputs));
    set("html", json!(html));
    set("standards", json!(standards));
    set("timestamp", json!(time));
    set("cert", json!(cert));
    let bad = r.bad;
    Expected { fields: Value::Object(f), bad, rejected }
}

fn observe(c: &Config) -> Value {
    let low = |d: &dyn std::fmt::Debug| format!("{d:?}").to_lowercase();
    let mut completion = serde_json::to_value(&c.completion).unwrap();
    completion.as_object_mut().unwrap().retain(|k, v| !(k == "postfixSnippets" && v.is_null()));
    let fonts = c.font_opts();
    let packages = c.package_opts();
    let inputs: BTreeMap<String, String> = c
        .inputs()
        .iter()
        .map(|(k, v)| {
            (
                k.to_string(),
                match v {
                    typst::foundations::Value::Str(s) => {
                        // Not the order of the members.
                        let s = s.to_string();
                        if k.as_str() == "x-preview" { s.parse::<Value>().map_or(s, |v| v.to_string()) } else { s }
                    }
                    v => format!("not a string: {v:?}"),
                },
            )
        })
        .collect();
    json!({
        "colorTheme": c.color_theme,
        "notify": c.notify_status,
        "completion": completion,
        "customizedShowDocument": c.customized_show_document,
        "supportHtmlInMarkdown": c.support_html_in_markdown,
        "resolution": low(&c.entry_resolver.project_resolution),
        "exportPdf": low(&c.export_pdf),
        "exportTarget": low(&c.export_target),
        "formatter": match c.formatter().config {
            FormatterConfig::Disable => Value::Null,
            FormatterConfig::Typstyle(f) => json!(["typstyle", f.max_width, f.tab_spaces]),
            FormatterConfig::Typstfmt(f) => json!(["typstfmt", f.max_line_length, f.indent_space]),
        },
        "outputPath": c.output_path.to_string(),
        "preview": [json!(c.preview.browsing.args), json!(c.preview.background.enabled), json!(c.preview.background.args)],
        "lint": low(&c.lint.when()),
        "semanticTokens": low(&c.semantic_tokens),
        "periscope": c.periscope_args,
        "root": c.entry_resolver.root_path,
        "default": c.entry_resolver.resolve_default(),
        "hasDefault": c.has_default_entry_path,
        "fonts": [json!(fonts.font_paths), json!(fonts.ignore_system_fonts)],
        "packages": [packages.package_path, packages.package_cache_path],
        "inputs": inputs,
        "html": c.typst_features().is_some_and(|f| f == [typst::Feature::Html].into_iter().collect()),
        "standards": c.pdf_standards().unwrap_or_default().iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "timestamp": c.creation_timestamp(),
        "cert": c.certification_path(),
    })
}
fn font_args(b: &Base) -> CompileFontArgs {
    CompileFontArgs { font_paths: b.font_paths.iter().map(PathBuf::from).collect(), ignore_system_fonts: b.no_system_fonts }
}
fn fresh(b: &Base) -> Config {
    Config::new(ConstConfig::default(), b.roots.iter().map(|r| Path::new(r).into()).collect(), font_args(b))
}
fn differ(got: &Value, want: &Value) -> Option<String> {
    let (g, w) = (got.as_object().unwrap(), want.as_object().unwrap());
    let d: Vec<String> = w.iter().filter(|(k, v)| g.get(*k) != Some(v)).map(|(k, v)| format!("{k}: {} in use, {v} set", g.get(k).unwrap_or(&Value::Null))).collect();
    (!d.is_empty()).then(|| d.join("; "))
}
fn warned(c: &Config, bad: &BTreeSet<&'static str>) -> Result<(), Fail> {
    for key in bad {
        ensure!(c.warnings.iter().any(|w| w.contains(key)), "no warning of {key:?}: {:?}", c.warnings);
    }
    ensure!(!bad.is_empty() || c.warnings.is_empty(), "warnings of good settings: {:?}", c.warnings);
    Ok(())
}
/// The root of what is compiled by default.
fn top(c: &Config) -> Option<PathBuf> {
    Some(c.entry_resolver.root(c.entry_resolver.resolve_default().as_ref())?.to_path_buf())
}
/// What tasks follow from it.
fn follows(c: &Config) -> Result<(), Fail> {
    use tinymist_project::{ExportPdfTask, ExportTask, ProjectTask};
    let e = c.export();
    ensure_eq!(e.count_words, c.notify_status, "counting words");
    ensure!(e.export_target == c.export_target, "the export target");
    let want = ProjectTask::ExportPdf(ExportPdfTask {
        export: ExportTask { when: c.export_pdf, output: Some(c.output_path.clone()), transform: vec![] },
        pdf_standards: c.pdf_standards().unwrap_or_default(),
        creation_timestamp: c.creation_timestamp(),
    });
    ensure!(e.task == want, "exports with {:?} instead of {want:?}", e.task);
    Ok(())
}

/// A sequence of updates of a configuration.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Updates {
    base: Base,
    /// With what is elsewhere than below the name of the server.
    each: Vec<(Settings, Option<Settings>)>,
}
fn updates(c: &Updates) -> Verdict {
    no_panic(|| {
        let mut config = fresh(&c.base);
        let none = Settings::default();
        if let Some(d) = differ(&observe(&config), &expected(&c.base, &none).fields) {
            return Err(Fail::from(format!("without settings: {d}")));
        }
        let mut nontrivial = false;
        for (n, (s, outer)) in c.each.iter().enumerate() {
            let mut update = outer.as_ref().map(Settings::object).unwrap_or_default();
            // The root of the others is good.
            update.remove("rootPath");
            if outer.is_some() {
                update.insert("tinymist".into(), Value::Object(s.object()));
            } else {
                update = s.object();
            }
            let outer_root = outer.as_ref().is_some_and(|o| {
                let mut o = o.clone();
                o.members.remove("rootPath");
                expected(&c.base, &o).rejected
            });
            let want = expected(&c.base, s);
            let before = config.clone();
            let res = config.update(&Value::Object(update.clone()));
            if outer_root {
                // Either of them is right.
                config = before;
                continue;
            }
            ensure!(res.is_err() == want.rejected, "update {n}: rejected {}: {:?}", want.rejected, res.err());
            if want.rejected {
                config = before;
                continue;
            }
            // Those which are only there are used or not.
            let mut with = outer.clone().unwrap_or_default();
            let own = s.object();
            with.members.remove("rootPath");
            with.members.extend(s.members.clone());
            if own.contains_key("typstExtraArgs") {
                with.args = s.args.clone();
            } else if with.args.is_some() {
                with.members.remove("typstExtraArgs");
            }
            let got = observe(&config);
            if let Some(d) = differ(&got, &want.fields) {
                ensure!(outer.is_some() && differ(&got, &expected(&c.base, &with).fields).is_none(), "update {n} {}: {d}", Value::Object(update));
            }
            if outer.is_none() {
                warned(&config, &want.bad)?;
            } else {
                for key in &want.bad {
                    ensure!(config.warnings.iter().any(|w| w.contains(key)), "no warning of {key:?}: {:?}", config.warnings);
                }
            }
            follows(&config)?;
            nontrivial |= own.len() > 2 && (n > 0 || outer.is_some());
        }
        // Anything else is no settings.
        let before = observe(&config);
        for v in [json!([]), json!("enable"), json!(null), json!(1)] {
            ensure!(config.update(&v).is_err(), "{v} taken for settings");
        }
        ensure_eq!(observe(&config), before, "settings after none");
        Ok(nontrivial)
    })?
}

/// What a client can do.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Caps {
    encodings: Option<Vec<u8>>,
    tokens: bool,
    format: bool,
    config: bool,
    rename: bool,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    /// The settings are sent.
    Push(Settings, bool),
    /// It is said that they have changed.
    Changed(Settings, u32),
    /// One of the open questions is answered.
    Answer(u8),
    /// In one of the ways in which it fails.
    Fail(u8, u8),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Session {
    base: Base,
    caps: Caps,
    init: Option<Settings>,
    ops: Vec<Op>,
}
fn op() -> BoxedStrategy<Op> {
    bx(prop_oneof![
        4 => (settings(), any::<bool>()).prop_map(|(s, n)| Op::Push(s, n)),
        4 => (settings(), any::<u32>()).prop_map(|(s, n)| Op::Changed(s, n)),
        5 => any::<u8>().prop_map(Op::Answer),
        1 => (any::<u8>(), 0..3u8).prop_map(|(n, k)| Op::Fail(n, k)),
    ])
}
/// Settings near those before, so that few of them change at a time.
fn ops() -> BoxedStrategy<Vec<Op>> {
    bx((prop::collection::vec(op(), 1..9), any::<u16>()).prop_map(|(mut ops, keep)| {
        let mut last: Option<Settings> = None;
        for (i, op) in ops.iter_mut().enumerate() {
            if let Op::Push(s, _) | Op::Changed(s, _) = op {
                if let (Some(l), true) = (&last, keep >> (2 * (i % 8)) & 3 > 0) {
                    let mut next = l.clone();
                    let one = s.members.clone().into_iter().take((keep as usize >> i) % 3);
                    next.members.extend(one);
                    if keep >> (2 * (i % 8)) & 3 > 2 {
                        next.args = s.args.clone();
                    }
                    *s = next;
                }
                last = Some(s.clone());
            }
        }
        ops
    }))
}
fn session_of() -> BoxedStrategy<Session> {
    let caps = (prop::option::of(prop::collection::vec(0..4u8, 0..4)), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(|(encodings, tokens, format, config, rename)| Caps { encodings, tokens, format, config, rename });
    bx((base(), caps, prop::option::of(settings()), ops()).prop_map(|(base, caps, init, ops)| Session { base, caps, init, ops }))
}

struct Client {
    sent: crossbeam_channel::Receiver<Message>,
    registered: BTreeSet<String>,
    questions: Vec<lsp::Request>,
    shown: Vec<String>,
}
impl Client {
    fn read(&mut self, root: &LspClientRoot, s: &mut ServerState) -> Result<(), Fail> {
        while let Ok(m) = self.sent.try_recv() {
            let Message::Lsp(Lsp::Request(r)) = m else { continue };
            let id_of = |v: &Value| v["id"].as_str().unwrap_or_default().to_owned();
            let mut reply = Value::Null;
            match r.method.as_str() {
                "client/registerCapability" => {
                    for v in r.params["registrations"].as_array().into_iter().flatten() {
                        ensure!(self.registered.insert(id_of(v)), "{} is registered again", id_of(v));
                        let method = match &*id_of(v) {
                            "config" => "workspace/didChangeConfiguration",
                            "formatting" => "textDocument/formatting",
                            "semantic_tokens" => "textDocument/semanticTokens",
                            id => return Err(Fail::from(format!("{id} is registered"))),
                        };
                        ensure_eq!(v["method"].as_str(), Some(method), "the method registered as {}", id_of(v));
                    }
                }
                "client/unregisterCapability" => {
                    for v in r.params["unregisterations"].as_array().into_iter().flatten() {
                        ensure!(self.registered.remove(&id_of(v)), "{} is unregistered without having been registered", id_of(v));
                    }
                }
                "workspace/configuration" => {
                    self.questions.push(r);
                    continue;
                }
                "window/showMessageRequest" => self.shown.push(r.params["message"].as_str().unwrap_or_default().to_owned()),
                m => return Err(Fail::from(format!("asked for {m}"))),
            }
            reply.take();
            root.weak().complete_lsp_request(s, lsp::Response::new_ok(r.id, reply));
        }
        Ok(())
    }
}

fn session(c: &Session) -> Verdict {
    no_panic(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let (ev_tx, ev_rx) = crossbeam_channel::unbounded();
        let (out_tx, sent) = crossbeam_channel::unbounded();
        let (_in_tx, in_rx) = crossbeam_channel::unbounded();
        let conn: Connection<LspMessage> = Connection::<Message>::verif_from_channels((ev_tx, ev_rx), (out_tx, in_rx)).into();
        let _receiver = conn.receiver;
        let root = LspClientRoot::new(rt.handle().clone(), conn.sender);

        // It starts.
        let kinds = [PositionEncodingKind::UTF8, PositionEncodingKind::UTF16, PositionEncodingKind::UTF32, PositionEncodingKind::new("klingon")];
        let offered: Option<Vec<PositionEncodingKind>> = c.caps.encodings.as_ref().map(|v| v.iter().map(|n| kinds[*n as usize].clone()).collect());
        let folders = c.base.roots.iter().map(|r| WorkspaceFolder { uri: Url::from_file_path(r).unwrap(), name: "w".into() }).collect();
        let params = InitializeParams {
            capabilities: ClientCapabilities {
                general: Some(GeneralClientCapabilities { position_encodings: offered.clone(), ..Default::default() }),
                text_document: Some(TextDocumentClientCapabilities {
                    semantic_tokens: Some(SemanticTokensClientCapabilities { dynamic_registration: Some(c.caps.tokens), ..Default::default() }),
                    formatting: Some(DocumentFormattingClientCapabilities { dynamic_registration: Some(c.caps.format) }),
                    ..Default::default()
                }),
                workspace: Some(WorkspaceClientCapabilities {
                    configuration: Some(c.caps.config),
                    file_operations: Some(WorkspaceFileOperationsClientCapabilities { will_rename: Some(c.caps.rename), ..Default::default() }),
                    ..Default::default()
                }),
                ..Default::default()
            },
            workspace_folders: Some(folders),
            initialization_options: c.init.as_ref().map(|s| Value::Object(s.object())),
            ..Default::default()
        };
        let init = RegularInit { client: root.weak().to_typed::<ServerState>(), font_opts: font_args(&c.base), exec_cmds: vec!["tinymist.a".into()] };
        let (mut s, res) = init.initialize(params);
        let mut now = c.init.clone().unwrap_or_default();
        let first = expected(&c.base, &now);
        ensure!(first.rejected == res.is_err(), "the start fails: {}, with bad settings: {}", res.is_err(), first.rejected);
        if first.rejected {
            ensure!(!s.started, "a server is started with bad settings");
            return Ok(false);
        }
        let Ok(mut answer) = res else { unreachable!() };
        rt.block_on(&mut answer);
        let caps: Value = std::pin::Pin::new(&mut answer).take_output().unwrap().map_err(|e| Fail::from(format!("the start fails: {e:?}")))?;
        let caps = &caps["capabilities"];
        // What is said is what is done.
        let announced = caps["positionEncoding"].as_str().unwrap_or("utf-16");
        let used = match s.config.const_config.position_encoding {
            PositionEncoding::Utf8 => "utf-8",
            PositionEncoding::Utf16 => "utf-16",
        };
        ensure_eq!(announced, used, "the announced encoding of positions, and the used one");
        ensure!(used == "utf-16" || offered.iter().flatten().any(|e| e.as_str() == used), "{used} is used, and {offered:?} offered");
        ensure_eq!(caps["semanticTokensProvider"].is_null(), c.caps.tokens, "tokens announced later");
        ensure_eq!(caps["documentFormattingProvider"].is_null(), c.caps.format, "formatting announced later");
        ensure_eq!(caps["workspace"]["fileOperations"].is_null(), !c.caps.rename, "renaming announced");
        ensure_eq!(&caps["executeCommandProvider"]["commands"], &json!(["tinymist.a"]), "commands");
        let mut client = Client { sent, registered: Default::default(), questions: vec![], shown: vec![] };
        let _ = s.initialized(InitializedParams {});
        client.read(&root, &mut s)?;

        let mut status = s.config.notify_status;
        let mut asked: Vec<(lsp::Request, Settings, u32)> = vec![];
        let mut changes = 0;
        for (n, op) in [None].into_iter().chain(c.ops.iter().map(Some)).enumerate() {
            s.applied.clear();
            let before = (observe(&s.config), s.config.warnings.clone());
            let root_before = top(&s.config);
            client.shown.clear();
            let old = now.clone();
            let mut tried = None;
            let mut failed = false;
            match op {
                None => {}
                Some(Op::Push(new, below)) => {
                    let o = Value::Object(new.object());
                    // As some clients do for all of the servers they have.
                    let settings = if *below { json!({"tinymist": o, "other": {"rootPath": "x"}}) } else { o };
                    failed = s.did_change_configuration(DidChangeConfigurationParams { settings }).is_err();
                    tried = Some(new.clone());
                }
                Some(Op::Changed(new, mix)) => {
                    let settings = if mix % 2 == 0 { Value::Null } else { json!([]) };
                    ensure!(s.did_change_configuration(DidChangeConfigurationParams { settings }).is_ok(), "{n}: asking fails");
                    client.read(&root, &mut s)?;
                    ensure_eq!(client.questions.len(), 1, "{n}: questions for the settings");
                    asked.push((client.questions.remove(0), new.clone(), *mix));
                }
                Some(Op::Answer(i)) if !asked.is_empty() => {
                    let i = *i as usize % asked.len();
                    let (r, new, mix) = asked.remove(i);
                    let o = new.object();
                    // Some clients know them with the name of the server, others without,
                    // and the former are right when both do.
                    let mut answer = vec![];
                    let items: Vec<String> = r.params["items"].as_array().into_iter().flatten().map(|v| v["section"].as_str().unwrap_or_default().to_owned()).collect();
                    for (j, item) in items.iter().enumerate() {
                        let (key, long) = match item.strip_prefix("tinymist.") {
                            Some(k) => (k, true),
                            None => (item.as_str(), false),
                        };
                        let known = o.get(key).cloned().unwrap_or_default();
                        let way = mix.rotate_left((j / 2) as u32) % 3;
                        answer.push(match (long, way) {
                            (true, 0 | 1) => known,
                            (false, 0) => Value::Null,
                            (false, 1) if !known.is_null() => json!({"of": "something else"}),
                            (false, 2) => known,
                            _ => Value::Null,
                        });
                    }
                    for k in ITEMS {
                        ensure!(items.iter().any(|i| i == k) && items.iter().any(|i| *i == format!("tinymist.{k}")), "not asked for {k}");
                    }
                    root.weak().complete_lsp_request(&mut s, lsp::Response::new_ok(r.id, json!(answer)));
                    // Others are not asked for.
                    let mut new = new;
                    new.members.retain(|k, _| ITEMS.contains(&&**k));
                    failed = expected(&c.base, &new).rejected;
                    tried = Some(new);
                }
                Some(Op::Fail(i, kind)) if !asked.is_empty() => {
                    let i = *i as usize % asked.len();
                    let (r, _, _) = asked.remove(i);
                    root.weak().complete_lsp_request(
                        &mut s,
                        match kind {
                            0 => lsp::Response::new_err(r.id, -1, "no".into()),
                            1 => lsp::Response::new_ok(r.id, json!({"rootPath": "/z"})),
                            _ => lsp::Response { id: r.id, result: None, error: None },
                        },
                    );
                }
                _ => {}
            }
            client.read(&root, &mut s)?;
            if let Some(new) = &tried {
                let want = expected(&c.base, new);
                ensure_eq!(failed, want.rejected, "{n}: the settings are rejected");
                if !failed {
                    now = new.clone();
                    warned(&s.config, &want.bad)?;
                    if matches!(op, Some(Op::Answer(_))) {
                        for key in &want.bad {
                            ensure!(client.shown.iter().any(|w| w.contains(key)), "{n}: no warning of {key:?} shown: {:?}", client.shown);
                        }
                    }
                }
            }
            let want = expected(&c.base, &now);
            let got = observe(&s.config);
            if let Some(d) = differ(&got, &want.fields) {
                return Err(Fail::from(format!("{n}: {d}")));
            }
            if tried.is_none() || failed {
                ensure_eq!((&got, &s.config.warnings), (&before.0, &before.1), "{n}: the settings have changed");
            }
            // All of it is in use.
            follows(&s.config)?;
            ensure!(s.export == s.config.export(), "{n}: exports go on as before the change");
            ensure!(s.formatter.0 == s.config.formatter(), "{n}: formatting goes on as before the change");
            while let Ok(m) = s.editor_rx.try_recv() {
                if let EditorRequest::Config(c) = m {
                    status = c.notify_status;
                }
            }
            ensure_eq!(status, s.config.notify_status, "{n}: the status is shown");
            let mut reg = BTreeSet::new();
            if c.caps.config {
                reg.insert("config".to_owned());
            }
            if c.caps.tokens && want.fields["semanticTokens"] == "enable" {
                reg.insert("semantic_tokens".to_owned());
            }
            if c.caps.format && !want.fields["formatter"].is_null() {
                reg.insert("formatting".to_owned());
            }
            ensure_eq!(&client.registered, &reg, "{n}: what is registered");
            // Projects begin anew when it takes that, and nothing happens otherwise.
            let was = expected(&c.base, &old);
            let differs = |k: &str| was.fields[k] != want.fields[k];
            if (differs("fonts") && !differs("root")) || root_before != top(&s.config) {
                ensure!(s.applied.contains(&Applied::Reload), "{n}: other fonts or another root, and no project begins anew");
            }
            if Value::Object(old.object()) == Value::Object(now.object()) {
                ensure!(s.applied.is_empty(), "{n}: the same settings, and {:?}", s.applied);
            }
            changes += (was.fields != want.fields) as usize;
        }
        Ok(changes > 1)
    })?
}
fn main() {
    for (k, _) in std::env::vars_os() {
        if k.to_string_lossy().starts_with("TYPST_") || k == "SOURCE_DATE_EPOCH" {
            std::env::remove_var(k);
        }
    }
    Check::main("C48", "settings with three or more members after others or beside those of other programs; or two or more changes of a running server", |c| {
        c.assume("The command line parser, the formatters' configurations, and the JSON reader are the real ones or stand-ins with the same fields; the projects and tasks which the settings are given to are recorded.");
        c.prop(
            "settings",
            Opts::new(60_000).thorough(20),
            || bx((base(), prop::collection::vec((settings(), prop::option::weighted(0.25, settings())), 1..4)).prop_map(|(base, each)| Updates { base, each })),
            updates,
        );
        c.prop("sessions", Opts::new(30_000).thorough(20), session_of, session);
    });
}
