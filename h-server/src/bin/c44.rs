//! C44: the document that is compiled for the editor, by what is pinned and
//! focused.
use h_server::server::Server;
use lsp_types::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tinymist::Config;
use tinymist_project::EntryResolver;
use tinymist_world::EntryReader;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
enum Doc {
    In(u8),
    Out(u8),
    Untitled(u8),
    Relative(u8),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    /// The commands.
    Focus(Option<Doc>),
    Pin(Option<Doc>),
    Open(Doc),
    Close(Doc),
    /// Something the editor asks for in a document.
    Act(u8, Doc),
    /// A preview of the document the editor is in begins.
    Preview(Option<Doc>, bool),
    Unpreview,
    /// Another preview, with its own project.
    Dedicate(Doc),
    /// The settings change.
    Default(Option<Doc>),
    Reload,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    rooted: bool,
    default: Option<Doc>,
    ops: Vec<Op>,
}

fn doc() -> BoxedStrategy<Doc> {
    bx(prop_oneof![8 => (0..3u8).prop_map(Doc::In), 2 => (0..2u8).prop_map(Doc::Out), 2 => (0..2u8).prop_map(Doc::Untitled), 1 => (0..2u8).prop_map(Doc::Relative)])
}
fn absolute() -> BoxedStrategy<Doc> {
    bx(doc().prop_map(|d| match d {
        Doc::Relative(n) => Doc::In(n),
        d => d,
    }))
}
fn op() -> BoxedStrategy<Op> {
    let some = || prop::option::weighted(0.75, doc());
    bx(prop_oneof![
        6 => some().prop_map(Op::Focus),
        4 => some().prop_map(Op::Pin),
        4 => absolute().prop_map(Op::Open),
        1 => absolute().prop_map(Op::Close),
        4 => (0..4u8, absolute()).prop_map(|(s, d)| Op::Act(s, d)),
        2 => (prop::option::of(absolute()), any::<bool>()).prop_map(|(d, b)| Op::Preview(d, b)),
        2 => Just(Op::Unpreview),
        1 => absolute().prop_map(Op::Dedicate),
        1 => prop::option::of(doc()).prop_map(Op::Default),
        1 => Just(Op::Reload),
    ])
}
fn cases() -> BoxedStrategy<Case> {
    bx((any::<bool>(), prop::option::weighted(0.25, doc()), prop::collection::vec(op(), 1..16)).prop_map(|(rooted, default, ops)| Case { rooted, default, ops }))
}

const WS: &str = "/verif-none/ws";
fn path(d: Doc) -> PathBuf {
    match d {
        Doc::In(n) => Path::new(WS).join(["main.typ", "sub/a.typ", "ü b.typ"][n as usize % 3]),
        Doc::Out(n) => ["/verif-none/o.typ", "/verif-none/wsx/main.typ"][n as usize % 2].into(),
        Doc::Untitled(n) => ["/untitled/Untitled-1", "/untitled/nEoViM-BuG"][n as usize % 2].into(),
        Doc::Relative(n) => ["main.typ", "sub/a.typ"][n as usize % 2].into(),
    }
}
fn url(d: Doc) -> Url {
    match d {
        Doc::Untitled(0) => Url::parse("untitled:Untitled-1").unwrap(),
        Doc::Untitled(_) => Url::parse("file:///").unwrap(),
        d => Url::from_file_path(path(d)).unwrap(),
    }
}

struct Model {
    main: Option<PathBuf>,
    focus: Option<PathBuf>,
    default: Option<PathBuf>,
    user: bool,
    preview: bool,
    browsing: bool,
    manual: bool,
    acted: bool,
}
impl Model {
    fn follows(&self) -> bool {
        !self.user && (!self.preview || self.browsing) && self.default.is_none()
    }
    fn focus(&mut self, to: Option<PathBuf>) {
        self.focus = to.clone();
        if self.follows() {
            self.main = to;
        }
    }
}
fn default(rooted: bool, d: Option<Doc>) -> Option<PathBuf> {
    let p = path(d?);
    match (p.is_relative(), rooted) {
        (true, true) => Some(Path::new(WS).join(p)),
        (true, false) => None,
        _ => Some(p),
    }
}
fn config(rooted: bool, d: Option<Doc>) -> Config {
    let entry_resolver = EntryResolver {
        roots: if rooted { vec![Path::new(WS).into()] } else { vec![] },
        entry: d.map(|d| path(d).into()),
        ..Default::default()
    };
    Config {
        has_default_entry_path: entry_resolver.resolve_default().is_some(),
        entry_resolver,
        ..Default::default()
    }
}

fn history(c: &Case) -> Verdict {
    let mut server = Server::new(config(c.rooted, c.default));
    let mut m = Model {
        main: default(c.rooted, c.default),
        focus: None,
        default: default(c.rooted, c.default),
        user: false,
        preview: false,
        browsing: false,
        manual: false,
        acted: false,
    };
    let mut moves = 0;
    for (n, op) in c.ops.iter().enumerate() {
        let what = format!("after {op:?} (step {n})");
        let was = m.main.clone();
        let arg = |d: &Option<Doc>| -> Vec<Value> { vec![d.map_or(Value::Null, |d| json!(path(d)))] };
        let bad = |d: &Option<Doc>| matches!(d, Some(Doc::Relative(_)));
        let s = &mut server.s;
        let quiet = no_panic(|| -> Result<(), Fail> {
            match op {
                Op::Focus(d) => {
                    m.manual = true;
                    let r = s.focus_document(arg(d));
                    ensure_eq!(r.is_err(), bad(d), "{what} whether it fails");
                    if !bad(d) {
                        m.focus(d.map(path));
                    }
                }
                Op::Pin(d) => {
                    let r = s.pin_document(arg(d));
                    ensure_eq!(r.is_err(), bad(d), "{what} whether it fails");
                    if !bad(d) {
                        m.user = d.is_some();
                        m.main = d.map(path).or(m.default.clone()).or(m.focus.clone());
                    }
                }
                Op::Open(d) => {
                    let text_document = TextDocumentItem {
                        uri: url(*d),
                        language_id: "typst".into(),
                        version: n as i32,
                        text: "x".into(),
                    };
                    let r = s.did_open(DidOpenTextDocumentParams { text_document });
                    ensure!(r.is_ok(), "{what}: {r:?}");
                    if !m.manual && !m.acted {
                        m.focus(Some(path(*d)));
                    }
                }
                Op::Close(d) => {
                    let text_document = TextDocumentIdentifier { uri: url(*d) };
                    let r = s.did_close(DidCloseTextDocumentParams { text_document });
                    ensure!(r.is_ok(), "{what}: {r:?}");
                }
                Op::Act(site, d) => {
                    // The folding ranges, a hover, the tokens; or opening again.
                    let site = ['f', 'h', 't', 'o'][*site as usize % 4];
                    s.implicit_focus_entry(|| Some(path(*d).into()), site);
                    if !m.manual && (site != 'o' || !m.acted) {
                        m.acted |= site != 'o';
                        m.focus(Some(path(*d)));
                    }
                }
                Op::Preview(d, browsing) => {
                    if let Some(d) = d {
                        let r = s.change_main_file(Some(path(*d).into()));
                        ensure!(r.is_ok(), "{what}: {r:?}");
                        m.main = Some(path(*d));
                    }
                    s.set_pin_by_preview(true, *browsing);
                    (m.preview, m.browsing) = (true, *browsing);
                }
                Op::Unpreview => {
                    s.set_pin_by_preview(false, false);
                    m.preview = false;
                }
                Op::Dedicate(d) => {
                    let r = s.restart_dedicate("p", Some(path(*d).into()));
                    ensure!(r.is_ok(), "{what}: {r:?}");
                }
                Op::Default(d) => {
                    let new = config(c.rooted, *d);
                    s.config.has_default_entry_path = new.has_default_entry_path;
                    s.config.entry_resolver = new.entry_resolver;
                    m.default = default(c.rooted, *d);
                }
                Op::Reload => {
                    let r = s.reload_projects();
                    ensure!(r.is_ok(), "{what}: {r:?}");
                    m.main = m.default.clone();
                }
            }
            Ok(())
        });
        quiet.map_err(|e| Fail::from(format!("the server panics {what}: {e}")))??;
        server.pump();
        moves += u32::from(m.main != was);
        let entry = server.s.project.compiler.primary.verse.entry_state();
        let main = entry.main().and_then(|id| Some(entry.root()?.join(id.vpath().as_rootless_path())));
        ensure_eq!(main, m.main, "{what}, the main document");
        if let Some(main) = &m.main {
            let root: Option<Arc<Path>> = if c.rooted && main.starts_with(WS) { Some(Path::new(WS).into()) } else { main.parent().map(From::from) };
            ensure_eq!(entry.root(), root, "{what}, the root of {main:?}");
        }
        ensure_eq!(server.s.focusing.as_deref(), m.focus.as_deref(), "{what}, the document in focus");
    }
    Ok(moves > 1)
}

fn main() {
    Check::main("C44", "the main document changes more than once", |c| {
        c.prop("histories", Opts::new(40000).thorough(20).shards(48), cases, history);
    })
}
