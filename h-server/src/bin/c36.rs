//! C36: the server's text of a document is the editor's.
use h_server::server::Server;
use h_server::text::{doc, lines, units, UNUSUAL};
use lsp_types::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::PathBuf;
use tinymist::Config;
use tinymist_project::EntryResolver;
use tinymist_query::PositionEncoding;
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, known, no_panic, Check, Fail, Opts, Verdict};

/// An edit of the editor's, by fractions of its text.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Edit {
    /// Where it starts and ends; none for all of it.
    at: Option<(u16, u16)>,
    text: String,
    /// How far its ends are written beyond the ends of their lines.
    beyond: (u8, u8),
    /// The end is written first.
    reversed: bool,
    /// Clients may tell the (deprecated) length of the range.
    length: bool,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Open(u8, String),
    Close(u8),
    Change(u8, Vec<Edit>),
    Reload,
    Dedicate(u8, u8),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    utf8: bool,
    disk: Vec<Option<String>>,
    /// Which of the files are in the workspace.
    ops: Vec<Op>,
}

const FILES: [&str; 4] = ["ws/main.typ", "ws/sub dir/ä.typ", "ws/a.typ", "out/b.typ"];

fn edit(unusual: bool) -> BoxedStrategy<Edit> {
    bx((
        prop_oneof![1 => Just(None), 14 => any::<(u16, u16)>().prop_map(Some), 5 => any::<u16>().prop_map(|a| Some((a, a)))],
        prop_oneof![1 => Just(String::new()), 3 => doc(6, unusual), 1 => doc(30, unusual)],
        prop_oneof![5 => Just((0, 0)), 1 => (0..3u8, 0..3u8), 1 => (any::<u8>(), any::<u8>())],
        prop::bool::weighted(0.08),
        any::<bool>(),
    )
        .prop_map(|(at, text, beyond, reversed, length)| Edit { at, text, beyond, reversed, length }))
}
fn op(unusual: bool) -> BoxedStrategy<Op> {
    let f = 0..FILES.len() as u8;
    bx(prop_oneof![
        4 => (f.clone(), doc(30, unusual)).prop_map(|(f, t)| Op::Open(f, t)),
        2 => f.clone().prop_map(Op::Close),
        9 => (f.clone(), prop::collection::vec(edit(unusual), 0..5)).prop_map(|(f, e)| Op::Change(f, e)),
        1 => Just(Op::Reload),
        1 => (0..2u8, f).prop_map(|(d, f)| Op::Dedicate(d, f)),
    ])
}
fn cases(unusual: bool) -> BoxedStrategy<Case> {
    let disk = prop::collection::vec(prop::option::weighted(0.6, doc(12, unusual)), FILES.len());
    bx((any::<bool>(), disk, prop::collection::vec(op(unusual), 1..14)).prop_map(|(utf8, disk, ops)| Case { utf8, disk, ops }))
}
/// One document that is edited much.
fn editing(unusual: bool) -> BoxedStrategy<Case> {
    let edits = prop::collection::vec(edit(unusual), 1..4).prop_map(|e| Op::Change(0, e));
    bx((any::<bool>(), doc(60, unusual), prop::collection::vec(edits, 1..8)).prop_map(|(utf8, t, mut ops)| {
        ops.insert(0, Op::Open(0, t));
        Case { utf8, disk: vec![None; FILES.len()], ops }
    }))
}

/// A place in the text, and a position for it.
fn place(text: &str, at: u16, beyond: u8, utf8: bool) -> (usize, Position) {
    let lines = lines(text);
    let mut at = (at as usize * (text.len() + 1)) >> 16;
    while !text.is_char_boundary(at) {
        at -= 1;
    }
    let n = lines.iter().rposition(|l| l.0 <= at).unwrap();
    let mut at = at.min(lines[n].1);
    let mut pos = Position::new(n as u32, units(&text[lines[n].0..at], utf8));
    if beyond > 0 {
        if n + 1 == lines.len() && beyond > 128 {
            // Beyond the last line.
            at = text.len();
            pos = Position::new(n as u32 + beyond as u32 - 128, beyond as u32 % 7);
        } else {
            at = lines[n].1;
            pos.character = units(&text[lines[n].0..at], utf8) + beyond as u32;
        }
    }
    (at, pos)
}

struct Editor {
    utf8: bool,
    open: BTreeMap<usize, (String, i32)>,
    /// Whether lines are counted unlike the editor does.
    odd: bool,
    edits: usize,
}
impl Editor {
    /// Edits a text, and tells how.
    fn edit(&mut self, text: &mut String, e: &Edit) -> TextDocumentContentChangeEvent {
        self.edits += 1;
        let Some((a, b)) = e.at else {
            *text = e.text.clone();
            return TextDocumentContentChangeEvent {
                range: None,
                range_length: None,
                text: e.text.clone(),
            };
        };
        let (a, b) = (a.min(b), a.max(b));
        let (a, b) = (place(text, a, e.beyond.0, self.utf8), place(text, b, e.beyond.1, self.utf8));
        let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
        self.odd |= text[..b.0].contains(UNUSUAL);
        let length = units(&text[a.0..b.0], false);
        text.replace_range(a.0..b.0, &e.text);
        let (start, end) = if e.reversed { (b.1, a.1) } else { (a.1, b.1) };
        TextDocumentContentChangeEvent {
            range: Some(Range { start, end }),
            range_length: e.length.then_some(length),
            text: e.text.clone(),
        }
    }
}

fn history(c: &Case) -> Verdict {
    let dir = Scratch::reused();
    let paths: Vec<PathBuf> = FILES.iter().map(|f| dir.path().join(f)).collect();
    for (p, t) in paths.iter().zip(&c.disk) {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        if let Some(t) = t {
            std::fs::write(p, t).unwrap();
        }
    }
    let mut config = Config {
        entry_resolver: EntryResolver {
            roots: vec![dir.path().join("ws").into()],
            ..Default::default()
        },
        ..Default::default()
    };
    config.const_config.position_encoding = if c.utf8 { PositionEncoding::Utf8 } else { PositionEncoding::Utf16 };
    let mut server = Server::new(config);
    let mut ed = Editor {
        utf8: c.utf8,
        open: BTreeMap::new(),
        odd: false,
        edits: 0,
    };
    for (n, op) in c.ops.iter().enumerate() {
        let url = |f: &u8| Url::from_file_path(&paths[*f as usize]).unwrap();
        let what = format!("after {op:?} (step {n})");
        let panics = |e: String, ed: &Editor| match ed.odd {
            true => known("unusual-line-breaks", format!("{what}: {e}")),
            false => Fail::from(format!("the server panics {what}: {e}")),
        };
        match op {
            Op::Open(f, t) => {
                let version = n as i32;
                let item = TextDocumentItem {
                    uri: url(f),
                    language_id: "typst".into(),
                    version,
                    text: t.clone(),
                };
                let r = no_panic(|| server.s.did_open(DidOpenTextDocumentParams { text_document: item })).map_err(|e| panics(e, &ed))?;
                ensure!(r.is_ok(), "opening fails {what}: {r:?}");
                ed.open.insert(*f as usize, (t.clone(), version));
            }
            Op::Close(f) => {
                let text_document = TextDocumentIdentifier { uri: url(f) };
                let r = no_panic(|| server.s.did_close(DidCloseTextDocumentParams { text_document })).map_err(|e| panics(e, &ed))?;
                ensure!(r.is_ok(), "closing fails {what}: {r:?}");
                ed.open.remove(&(*f as usize));
            }
            Op::Change(f, edits) => {
                let old = ed.open.get(&(*f as usize)).cloned();
                let (mut text, version) = old.clone().unwrap_or_default();
                let content_changes = edits.iter().map(|e| ed.edit(&mut text, e)).collect();
                let params = DidChangeTextDocumentParams {
                    text_document: VersionedTextDocumentIdentifier {
                        uri: url(f),
                        version: version + 1,
                    },
                    content_changes,
                };
                let r = no_panic(|| server.s.did_change(params.clone())).map_err(|e| panics(e, &ed))?;
                if old.is_some() {
                    ensure!(r.is_ok(), "a change fails {what}: {r:?}");
                    ed.open.insert(*f as usize, (text, version + 1));
                } else {
                    ensure!(r.is_err(), "a file that is not open can be changed {what}");
                }
            }
            Op::Reload => server.s.reload_projects().map_err(|e| Fail::from(format!("{e:?}")))?,
            Op::Dedicate(d, f) => {
                let entry = Some(paths[*f as usize].as_path().into());
                let r = server.s.restart_dedicate(["p", "q"][*d as usize], entry);
                ensure!(r.is_ok(), "no project: {r:?}");
            }
        }
        server.pump();
        for (f, path) in paths.iter().enumerate() {
            let open = ed.open.get(&f).map(|t| t.0.as_str());
            let held = server.s.query_source(path.as_path().into(), |s| Ok(s.text().to_owned())).ok();
            let wrong = |m: String| if ed.odd { known("unusual-line-breaks", m) } else { Fail::from(m) };
            if held.as_deref() != open {
                return Err(wrong(format!("{what} the editor has {open:?} in {}, the server {held:?}", FILES[f])));
            }
            let disk = c.disk[f].as_deref();
            for (id, seen) in server.seen(path) {
                let seen = seen.ok().map(|b| String::from_utf8_lossy(&b).into_owned());
                ensure_eq!(seen.as_deref(), open.or(disk), "{what}, what project {id} sees in {}", FILES[f]);
            }
        }
        ensure_eq!(server.s.memory_changes.len(), ed.open.len(), "{what} the number of files held");
    }
    Ok(ed.edits > 1)
}

fn main() {
    Check::main("C36", "more than one edit", |c| {
        c.prop("histories", Opts::new(6000).thorough(20).shards(48), || cases(false), history);
        c.prop("edits", Opts::new(20000).thorough(20).shards(48), || editing(false), history);
        c.prop("line breaks", Opts::new(3000).thorough(20).shards(24), || editing(true), history);
    })
}
