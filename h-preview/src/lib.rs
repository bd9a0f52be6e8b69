//! A previewer with pages and an editor around it, driven by a history of
//! what happens to it, window by window, against a model of what each side
//! must have seen by the end of the window.
use std::collections::{BTreeMap, HashMap};
use std::num::{NonZeroU64, NonZeroUsize};
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use futures::channel::mpsc as fm;
use futures::{Sink, SinkExt, Stream, StreamExt};
use parking_lot::Mutex;
use proptest::prelude::*;
use reflexo_typst::debug_loc::{DocumentPosition, SourceSpanOffset};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tinymist_std::typst::TypstDocument;
use tinymist_std::Error;
use tokio::sync::mpsc;
use typst::foundations::{Content, Smart};
use typst::introspection::Introspector;
use typst::layout::{Abs, PagedDocument, Point, Position};
use typst::model::{DocumentInfo, HeadingElem};
use typst::syntax::Span;
use typst_preview::{
    CompileStatus, CompileView, ControlPlaneMessage, ControlPlaneRx, ControlPlaneTx, DocToSrcJumpInfo, EditorServer, Location, MemoryFiles, MemoryFilesShort, PreviewArgs,
    PreviewBuilder, RefreshStyle, WsMessage,
};
use vcommon::{bx, ensure, ensure_eq, Fail, Verdict};

/// A heading: its level, `bookmarked` (none is auto), whether it is outlined,
/// its span and whether the heading itself is detached, so that the span is
/// its body's.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Heading {
    pub level: u8,
    pub bookmarked: Option<bool>,
    pub outlined: bool,
    pub span: u16,
    pub detached: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Say {
    Current,
    /// The n-th outline entry the editor was told last, or of the o-th outline
    /// before that.
    Entry(u8, u8),
    /// A span id that no outline spoke of.
    Span(String),
    Sync(u16, f32, f32),
    Path(Vec<(u32, u32, String)>),
    Point(u16, f32, f32),
    Text(String),
    Binary(vcommon::Hex),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Ctl {
    Cursor(bool, u8, u8),
    Source(bool, u8, u8),
    Scroll(u16, f32, f32),
    Entry(u8, u8),
    Span(String),
    Files(bool, Vec<(String, String)>),
    Remove(Vec<String>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    /// A compilation ended (or said how it goes: 0 compiling, 1 failed, else
    /// done).
    Doc { entry: bool, saved: bool, status: u8, doc: bool, headings: Vec<Heading> },
    Status(u8),
    /// A page connects; it has room for so many frames it did not read yet.
    Connect(u8),
    Say(u8, Say),
    Many(u8, u8),
    Leave(u8, bool),
    Read(u8),
    Ctl(Ctl),
    /// The cursor moves so often that what it asks is more than is kept.
    Flood(u16),
    Yield(u8),
    Settle,
    /// Time passes, in tenths of a second.
    Wait(u8),
}

/// What a span stands for: a file, the line it is at and the columns it spans,
/// if it can be resolved.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Place {
    pub file: u8,
    pub start: (u8, u8),
    pub lines: u8,
    pub cols: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub on_save: bool,
    pub partial: bool,
    pub invert: String,
    pub bell: bool,
    pub places: Vec<Option<Place>>,
    pub ops: Vec<Op>,
}

// ---------------------------------------------------------------- strategies

fn small() -> impl Strategy<Value = f32> {
    prop_oneof![Just(0f32), (0u16..900).prop_map(|v| f32::from(v) / 8.), Just(1e7), Just(-3.5)]
}
fn heading() -> impl Strategy<Value = Heading> {
    (1u8..6, prop_oneof![3 => Just(None), 2 => any::<bool>().prop_map(Some)], prop::bool::weighted(0.8), 0u16..40, prop::bool::weighted(0.2)).prop_map(
        |(level, bookmarked, outlined, span, detached)| Heading { level, bookmarked, outlined, span, detached },
    )
}
fn doc(headings: usize) -> BoxedStrategy<Op> {
    let status = prop_oneof![1 => Just(0u8), 1 => Just(1), 6 => Just(2)];
    bx((prop::bool::weighted(0.2), prop::bool::weighted(0.4), status, prop::bool::weighted(0.95), prop::collection::vec(heading(), 0..=headings))
        .prop_map(|(entry, saved, status, doc, headings)| Op::Doc { entry, saved, status, doc, headings }))
}
fn odd_span() -> impl Strategy<Value = String> {
    prop_oneof![
        prop::sample::select(vec!["", "zz", "0", "1", "100000000", "100000001", "1ffffffff", "ffffffffffffffff", "10000000000000000", "-1", "+1", "0x1", "1 2", "１"]).prop_map(str::to_owned),
        any::<u64>().prop_map(|v| format!("{v:x}")),
        vcommon::gen::text(6),
    ]
}
fn say(odd: u32) -> BoxedStrategy<Say> {
    let starts = prop::sample::select(vec!["current", "current ", "srclocation", "srclocation ", "outline-sync", "outline-sync,", "outline-sync,1 x", "outline-sync,-1 0 0", "srcpath", "srcpath ", "srcpath [1]", "src-point", "src-point ", "src-point {}", "src-point {\"page_no\":1}"]);
    let odd = odd.max(1);
    bx(prop_oneof![
        8 => Just(Say::Current),
        4 => (0u8..12, 0u8..3).prop_map(|(n, o)| Say::Entry(n, o)),
        2 => (0u8..12, 0u8..60).prop_map(|(n, o)| Say::Entry(n, o)),
        4 => (1u16..2000, small(), small()).prop_map(|(p, x, y)| Say::Sync(p, x, y)),
        3 => prop::collection::vec((0u32..12, 0u32..12, "[a-z]{0,9}"), 0..3).prop_map(Say::Path),
        3 => (0u16..11, small(), small()).prop_map(|(p, x, y)| Say::Point(p, x, y)),
        odd => odd_span().prop_map(Say::Span),
        odd => (starts, vcommon::gen::text(6)).prop_map(|(a, b)| Say::Text(format!("{a}{b}"))),
        odd => vcommon::gen::text(12).prop_map(Say::Text),
        odd => prop::collection::vec(any::<u8>(), 0..6).prop_map(|b| Say::Binary(vcommon::Hex(b))),
    ])
}
fn ctl(odd: u32) -> BoxedStrategy<Ctl> {
    let f = || prop::sample::select(vec!["/a.typ", "/b.typ", "/c d.typ", "/é.typ"]).prop_map(str::to_owned);
    bx(prop_oneof![
        4 => (prop::bool::weighted(0.8), 0u8..12, 0u8..20).prop_map(|(k, l, c)| Ctl::Cursor(k, l, c)),
        4 => (prop::bool::weighted(0.8), 0u8..12, 0u8..20).prop_map(|(k, l, c)| Ctl::Source(k, l, c)),
        4 => (0u16..2000, small(), small()).prop_map(|(p, x, y)| Ctl::Scroll(p, x, y)),
        2 => (0u8..12, 0u8..3).prop_map(|(n, o)| Ctl::Entry(n, o)),
        1 => (0u8..12, 0u8..60).prop_map(|(n, o)| Ctl::Entry(n, o)),
        odd => odd_span().prop_map(Ctl::Span),
        1 => (any::<bool>(), prop::collection::vec((f(), vcommon::gen::text(4)), 0..3)).prop_map(|(r, f)| Ctl::Files(r, f)),
        1 => prop::collection::vec(f(), 0..3).prop_map(Ctl::Remove),
    ])
}

/// How much of what there is in a history.
#[derive(Clone, Copy)]
pub struct Mix {
    pub ops: usize,
    pub docs: u32,
    pub headings: usize,
    pub pages: u32,
    pub says: u32,
    pub odd: u32,
    pub ctls: u32,
    pub many: u32,
    pub floods: u32,
    pub settles: u32,
    pub waits: u32,
}

pub fn cases(m: Mix) -> BoxedStrategy<Case> {
    let arms: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (m.docs, doc(m.headings)),
        (1, bx((0u8..3).prop_map(Op::Status))),
        (m.pages, bx(prop_oneof![Just(0u8), Just(1), Just(3), Just(200)].prop_map(Op::Connect))),
        (m.pages, bx(any::<u8>().prop_map(|p| Op::Say(p, Say::Current)))),
        (m.says, bx((any::<u8>(), say(m.odd)).prop_map(|(p, s)| Op::Say(p, s)))),
        (m.many, bx((any::<u8>(), 20u8..120).prop_map(|(p, n)| Op::Many(p, n)))),
        (m.floods, bx((1025u16..1300).prop_map(Op::Flood))),
        (1 + m.pages / 3, bx((any::<u8>(), any::<bool>()).prop_map(|(p, e)| Op::Leave(p, e)))),
        (1, bx(any::<u8>().prop_map(Op::Read))),
        (m.ctls, bx(ctl(m.odd).prop_map(Op::Ctl))),
        (3, bx((0u8..9).prop_map(Op::Yield))),
        (m.settles, bx(Just(Op::Settle))),
        (m.waits, bx((0u8..110).prop_map(Op::Wait))),
    ];
    let op = prop::strategy::Union::new_weighted(arms.into_iter().filter(|a| a.0 > 0).collect());
    let place = prop::option::weighted(0.85, (0u8..2, (0u8..6, 0u8..20), 0u8..3, 0u8..9).prop_map(|(file, start, lines, cols)| Place { file, start, lines, cols }));
    let invert = prop::sample::select(vec!["never", "auto", "", "{\"rest\": \"always\"}"]).prop_map(str::to_owned);
    bx((any::<bool>(), any::<bool>(), invert, prop::bool::weighted(if m.waits > 0 { 0.7 } else { 0.1 }), prop::collection::vec(place, 12), prop::collection::vec(op, 1..=m.ops), prop::bool::weighted(0.8))
        .prop_map(|(on_save, partial, invert, bell, places, mut ops, opened)| {
            if opened {
                ops.splice(0..0, [Op::Connect(200), Op::Say(0, Say::Current)]);
            }
            Case { on_save, partial, invert, bell, places, ops }
        }))
}

// ------------------------------------------------------------------- the view

struct Table(Vec<Option<Place>>);
impl Table {
    fn get(&self, raw: u64, offset: Option<usize>) -> Option<DocToSrcJumpInfo> {
        if raw >= 1000 {
            let n = raw as usize;
            return Some(DocToSrcJumpInfo { filepath: "/h.typ".into(), start: Some((n, 2)), end: Some((n, 9)) });
        }
        let p = self.0.get(raw as usize)?.as_ref()?;
        let (l, c) = (usize::from(p.start.0), usize::from(p.start.1));
        let end = if p.lines == 0 { (l, c + usize::from(p.cols)) } else { (l + usize::from(p.lines), usize::from(p.cols)) };
        let o = offset.unwrap_or(0);
        // The first line is long enough for every offset that is inside.
        let inside = if p.lines == 0 { o < usize::from(p.cols) } else { o < 5 };
        Some(DocToSrcJumpInfo { filepath: format!("/f{}.typ", p.file), start: Some((l, c + if inside { o } else { 0 })), end: Some(end) })
    }
}

struct View {
    doc: Option<TypstDocument>,
    status: CompileStatus,
    saved: bool,
    entry: bool,
    table: Arc<Table>,
}
fn raw(n: u64) -> Span {
    Span::from_raw(NonZeroU64::new(n + 1).unwrap())
}
fn of_raw(s: Span) -> u64 {
    s.into_raw().get() - 1
}
fn src_span(line: u32, ch: u32) -> Option<(u64, usize)> {
    (line % 5 != 4).then_some((u64::from(line) + 1, ch as usize))
}
fn frame_loc(p: &DocumentPosition) -> Option<((u64, usize), (u64, usize))> {
    let n = p.page_no as u64;
    (n % 7 != 6).then_some(((n + 1, (p.x.abs() as usize) % 7), (n % 3 + (p.y.abs() as u64) % 9 + 1, (p.y.abs() as usize) % 5)))
}
fn doc_pos(line: u32, ch: u32) -> Vec<(usize, f32, f32)> {
    (0..line % 3).map(|i| ((line + i + 1) as usize, ch as f32 * 0.5, i as f32)).collect()
}
impl CompileView for View {
    fn doc(&self) -> Option<TypstDocument> {
        self.doc.clone()
    }
    fn status(&self) -> CompileStatus {
        self.status
    }
    fn is_on_saved(&self) -> bool {
        self.saved
    }
    fn is_by_entry_update(&self) -> bool {
        self.entry
    }
    fn resolve_source_span(&self, by: Location) -> Option<SourceSpanOffset> {
        let Location::Src(l) = by;
        let (n, offset) = src_span(l.pos.line, l.pos.character).filter(|_| l.filepath == "/in.typ")?;
        Some(SourceSpanOffset { span: raw(n), offset })
    }
    fn resolve_frame_loc(&self, pos: &DocumentPosition) -> Option<(SourceSpanOffset, SourceSpanOffset)> {
        let at = |(n, offset)| SourceSpanOffset { span: raw(n), offset };
        frame_loc(pos).map(|(a, b)| (at(a), at(b)))
    }
    fn resolve_document_position(&self, by: Location) -> Vec<Position> {
        let Location::Src(l) = by;
        if l.filepath != "/in.typ" {
            return vec![];
        }
        let at = |(p, x, y): (usize, f32, f32)| Position { page: NonZeroUsize::new(p).unwrap(), point: Point { x: Abs(x.into()), y: Abs(y.into()) } };
        doc_pos(l.pos.line, l.pos.character).into_iter().map(at).collect()
    }
    fn resolve_span(&self, s: Span, offset: Option<usize>) -> Option<DocToSrcJumpInfo> {
        self.table.get(of_raw(s), offset)
    }
}

// ------------------------------------------------------------- what must come

type Pos = (usize, usize);
/// A jump to the source: the file and the ends of what is to be shown.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Jump(String, Option<Pos>, Option<Pos>);

/// Where the editor is to be led for a selection from one span to another:
/// from the earlier of the two places to the later, or the place there is,
/// inside the element the selection ends in.
fn jump(t: &Table, a: (u64, usize), b: (u64, usize)) -> Option<Jump> {
    let (st, ed, el) = (t.get(a.0, Some(a.1)), t.get(b.0, Some(b.1)), t.get(b.0, None));
    let (file, mut ends) = match (st, ed) {
        (None, None) => return None,
        (Some(s), Some(e)) if s.filepath == e.filepath => (s.filepath, [s.start.unwrap(), e.start.unwrap()]),
        (_, Some(i)) | (Some(i), None) => (i.filepath, [i.start.unwrap(), i.end.unwrap()]),
    };
    ends.sort();
    if let Some(el) = el.filter(|el| el.filepath == file) {
        let (u, v) = (el.start.unwrap(), el.end.unwrap());
        ends = ends.map(|p| p.max(u).min(v));
    }
    Some(Jump(file, Some(ends[0]), Some(ends[1])))
}

/// An outline, as a tree of titles (each the span's number).
#[derive(Debug, Clone, PartialEq)]
pub struct Tree(Vec<(String, Tree)>);

/// Which bookmarked heading each is under. A heading is under the nearest one
/// before it of a lower level; one that stands under a heading that is left
/// out goes where that would have gone.
fn tree(headings: &[Heading]) -> Tree {
    let shown = |h: &Heading| h.bookmarked.unwrap_or(h.outlined);
    let mut depth: Vec<(usize, String)> = vec![];
    // The level each heading that is shown counts as a child of.
    let mut path: Vec<u8> = vec![];
    let mut limit: Option<u8> = None;
    for h in headings {
        if !shown(h) {
            limit = Some(limit.map_or(h.level, |l| l.min(h.level)));
            continue;
        }
        let bound = h.level.min(limit.take().unwrap_or(u8::MAX));
        let keep = path.iter().position(|l| *l >= bound).unwrap_or(path.len());
        path.truncate(keep);
        depth.push((path.len(), format!("h{}", h.span)));
        path.push(h.level);
    }
    fn build(items: &[(usize, String)], at: usize) -> Tree {
        let mut res = vec![];
        let mut i = 0;
        while i < items.len() {
            let end = (i + 1..items.len()).find(|j| items[*j].0 <= at).unwrap_or(items.len());
            res.push((items[i].1.clone(), build(&items[i + 1..end], at + 1)));
            i = end;
        }
        Tree(res)
    }
    build(&depth, 0)
}
fn read_tree(v: &Value, ids: &mut Vec<(String, u64)>, places: &mut Vec<(u64, Value)>) -> Result<Tree, Fail> {
    let mut res = vec![];
    for i in v.as_array().ok_or("no items")? {
        let title = i["title"].as_str().ok_or("no title")?.to_owned();
        let n: u64 = title.trim_start_matches('h').parse().map_err(|_| "odd title")?;
        ids.push((i["span"].as_str().ok_or("no span")?.to_owned(), n + 1000));
        places.push((n, i["position"].clone()));
        res.push((title, read_tree(&i["children"], ids, places)?));
    }
    Ok(Tree(res))
}

// ----------------------------------------------------------------- the harness

struct Conn {
    tx: fm::Sender<WsMessage>,
    rx: fm::UnboundedReceiver<Result<WsMessage, Error>>,
}
fn gone() -> Error {
    tinymist_std::error_once!("the page is gone")
}
impl Sink<WsMessage> for Conn {
    type Error = Error;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        self.tx.poll_ready_unpin(cx).map_err(|_| gone())
    }
    fn start_send(mut self: Pin<&mut Self>, m: WsMessage) -> Result<(), Error> {
        self.tx.start_send_unpin(m).map_err(|_| gone())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        self.tx.poll_flush_unpin(cx).map_err(|_| gone())
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        self.tx.poll_close_unpin(cx).map_err(|_| gone())
    }
}
impl Stream for Conn {
    type Item = Result<WsMessage, Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.rx.poll_next_unpin(cx)
    }
}

#[derive(Default)]
struct Server(Mutex<Vec<Value>>);
impl EditorServer for Server {
    async fn update_memory_files(&self, files: MemoryFiles, reset: bool) -> Result<(), Error> {
        let n = files.files.len();
        self.0.lock().push(json!([reset, files.files.into_iter().map(|(k, v)| (k.display().to_string(), v)).collect::<BTreeMap<_, _>>()]));
        tokio::task::yield_now().await;
        if n % 2 == 1 { Err(gone()) } else { Ok(()) }
    }
    async fn remove_memory_files(&self, files: MemoryFilesShort) -> Result<(), Error> {
        self.0.lock().push(json!(files.files));
        Ok(())
    }
}

struct Page {
    tx: fm::UnboundedSender<Result<WsMessage, Error>>,
    rx: fm::Receiver<WsMessage>,
    /// Whether it may be closed for what it said.
    odd: bool,
    left: bool,
    /// The server let go of it.
    closed: bool,
    asked: bool,
    /// It was there when the window began.
    ready: bool,
    shows: Option<String>,
    /// It showed something when the window began.
    showed: bool,
    frames: usize,
    /// What came in this window, other than what it shows.
    got: Vec<(String, String)>,
}

#[derive(Default)]
struct Window {
    statuses: Vec<&'static str>,
    docs: usize,
    /// Something was put to the pages' renderers.
    stirred: usize,
    must: Vec<Jump>,
    may: Vec<Jump>,
    /// The jumps to any heading that was ever told are fine.
    any_heading: bool,
    /// Whether it is sure to be heard.
    viewports: Vec<(DocumentPosition, bool)>,
    jumps: Vec<Vec<(usize, f32, f32)>>,
    cursors: Vec<(u64, usize)>,
    files: Vec<Value>,
    broadcasts: usize,
    left: bool,
}

struct Outline {
    ids: Vec<(String, u64)>,
}

pub struct Stats {
    pub windows: usize,
    pub docs: usize,
    pub pages: usize,
    pub routed: usize,
    pub entries: usize,
    pub outlines: usize,
    pub odd: usize,
    pub rung: bool,
}

struct World {
    watcher: Arc<typst_preview::CompileWatcher>,
    streams: mpsc::UnboundedSender<std::future::Ready<Conn>>,
    ctl: mpsc::UnboundedSender<ControlPlaneMessage>,
    resp: mpsc::UnboundedReceiver<typst_preview::ControlPlaneResponse>,
    server: Arc<Server>,
    pages: Vec<Page>,
    table: Arc<Table>,
    on_save: bool,
    hello: Vec<String>,
    versions: usize,
    /// The view that was accepted last, if it has a document: its title, and
    /// its headings.
    latest: Option<(String, Vec<Heading>)>,
    /// A view was accepted.
    viewed: bool,
    /// ... when the window began.
    was_viewed: bool,
    /// What the documents of this window have for an outline.
    trees: Vec<Tree>,
    places: HashMap<u64, usize>,
    outlines: Vec<Outline>,
    w: Window,
    stats: Stats,
}

fn same(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b)
}
fn numbers(s: &str) -> Result<Vec<f32>, Fail> {
    s.split(' ').map(|n| n.parse().map_err(|_| Fail::from(format!("not a number: {s}")))).collect()
}
const NAMES: [&str; 3] = ["Compiling", "CompileError", "CompileSuccess"];
fn status(n: u8) -> CompileStatus {
    [CompileStatus::Compiling, CompileStatus::CompileError, CompileStatus::CompileSuccess][usize::from(n % 3)]
}

impl World {
    fn page(&self, sel: u8) -> Option<usize> {
        (!self.pages.is_empty()).then(|| usize::from(sel) % self.pages.len()).filter(|p| !self.pages[*p].left)
    }
    fn live(&self) -> usize {
        self.pages.iter().filter(|p| !p.left && !p.closed).count()
    }
    /// Some page is sure to be there for what is asked now.
    fn heard(&self) -> bool {
        self.pages.iter().any(|p| p.ready && !p.left && !p.odd)
    }
    fn entry(&self, n: u8, back: u8) -> Option<(String, u64, bool)> {
        let i = self.outlines.len().checked_sub(1 + usize::from(back))?;
        let ids = &self.outlines[i].ids;
        let (id, n) = ids.get(usize::from(n) % ids.len().max(1))?;
        Some((id.clone(), *n, back == 0))
    }
    /// Somebody asks to be led to a span from an outline.
    fn follow(&mut self, n: u8, back: u8, sure: bool) -> Option<String> {
        let (id, span, last) = self.entry(n, back)?;
        let j = jump(&self.table, (span, 0), (span, 0))?;
        self.stats.entries += 1;
        // If another outline is on its way, the id may be stale by the time
        // it is followed, but only if thirty others were made meanwhile.
        if sure && last && self.was_viewed && self.heard() && self.w.stirred < 5 && self.pages.len() < 5 {
            self.w.must.push(j.clone());
        }
        self.w.may.push(j);
        Some(id)
    }
    fn say(&mut self, p: usize, s: &Say) {
        let sure = !self.pages[p].odd && !self.pages[p].closed;
        let text = match s {
            Say::Current => {
                self.pages[p].asked |= sure;
                self.w.stirred += 1;
                "current".into()
            }
            Say::Entry(n, o) => {
                let Some(id) = self.follow(*n, *o, sure) else { return };
                self.w.stirred += 1;
                format!("srclocation {id}")
            }
            Say::Span(s) => {
                self.w.any_heading = true;
                self.w.stirred += 1;
                self.stats.odd += 1;
                format!("srclocation {s}")
            }
            Say::Sync(p_, x, y) => {
                self.w.viewports.push((DocumentPosition { page_no: usize::from(*p_), x: *x, y: *y }, sure));
                self.w.broadcasts += 1;
                self.stats.routed += 1;
                format!("outline-sync,{p_} {x} {y}")
            }
            Say::Path(v) => {
                self.w.stirred += 1;
                if let [(a, b, f)] = &v[..] {
                    if let Some(j) = jump(&self.table, ((*a).into(), 0), ((*b).into(), f.len())) {
                        if sure && self.was_viewed {
                            self.w.must.push(j.clone());
                        }
                        self.w.may.push(j);
                    }
                    self.stats.routed += 1;
                }
                format!("srcpath {}", serde_json::to_string(v).unwrap())
            }
            Say::Point(n, x, y) => {
                self.w.stirred += 1;
                let pos = DocumentPosition { page_no: usize::from(*n), x: *x, y: *y };
                if let Some(j) = frame_loc(&pos).and_then(|(a, b)| jump(&self.table, a, b)) {
                    if sure && self.was_viewed {
                        self.w.must.push(j.clone());
                    }
                    self.w.may.push(j);
                }
                self.stats.routed += 1;
                format!("src-point {}", serde_json::to_string(&pos).unwrap().replace(' ', ""))
            }
            Say::Text(t) => {
                self.pages[p].odd = true;
                self.stats.odd += 1;
                // What the server makes of it is its own affair, but what it
                // makes of it may be a request.
                self.w.any_heading = true;
                self.w.stirred += 1;
                let t = if t.starts_with("outline-sync") || t.starts_with("src") { format!("{t}\u{1}") } else { t.clone() };
                t
            }
            Say::Binary(b) => {
                self.pages[p].odd = true;
                self.stats.odd += 1;
                let _ = self.pages[p].tx.unbounded_send(Ok(WsMessage::Binary(b.0.clone())));
                return;
            }
        };
        let _ = self.pages[p].tx.unbounded_send(Ok(WsMessage::Text(text)));
    }
    fn ctl(&mut self, c: &Ctl) -> Result<(), Fail> {
        let file = |k: bool| if k { "/in.typ" } else { "/out.typ" };
        let msg = match c {
            Ctl::Cursor(k, l, ch) => {
                self.w.stirred += 1;
                self.w.cursors.extend(src_span((*l).into(), (*ch).into()).filter(|_| *k));
                json!({"event": "changeCursorPosition", "filepath": file(*k), "line": l, "character": ch})
            }
            Ctl::Source(k, l, ch) => {
                self.w.stirred += 1;
                let at = doc_pos((*l).into(), (*ch).into());
                if *k && !at.is_empty() {
                    self.w.jumps.push(at);
                }
                json!({"event": "panelScrollTo", "filepath": file(*k), "line": l, "character": ch})
            }
            Ctl::Scroll(p, x, y) => {
                self.w.viewports.push((DocumentPosition { page_no: usize::from(*p), x: *x, y: *y }, true));
                self.w.broadcasts += 1;
                self.stats.routed += 1;
                json!({"event": "panelScrollByPosition", "position": {"page_no": p, "x": x, "y": y}})
            }
            Ctl::Entry(n, o) => {
                let Some(id) = self.follow(*n, *o, true) else { return Ok(()) };
                self.w.stirred += 1;
                json!({"event": "sourceScrollBySpan", "span": id})
            }
            Ctl::Span(s) => {
                self.w.any_heading = true;
                self.w.stirred += 1;
                self.stats.odd += 1;
                json!({"event": "sourceScrollBySpan", "span": s})
            }
            Ctl::Files(r, f) => {
                let m: BTreeMap<_, _> = f.iter().cloned().collect();
                self.w.files.push(json!([r, m]));
                json!({"event": if *r { "syncMemoryFiles" } else { "updateMemoryFiles" }, "files": m})
            }
            Ctl::Remove(f) => {
                self.w.files.push(json!(f.iter().map(PathBuf::from).collect::<Vec<_>>()));
                json!({"event": "removeMemoryFiles", "files": f})
            }
        };
        let msg = serde_json::from_value(msg).map_err(|e| format!("the editor's message {c:?} is not understood: {e}"))?;
        ensure!(self.ctl.send(msg).is_ok(), "nobody listens to the editor any more");
        Ok(())
    }
    fn doc(&mut self, entry: bool, saved: bool, st: u8, has: bool, headings: &[Heading]) {
        self.versions += 1;
        let title = format!("v{}", self.versions);
        let doc = has.then(|| {
            let at = |i: usize| Position { page: NonZeroUsize::new(i + 1).unwrap(), point: Point { x: Abs(i as f64), y: Abs(0.5) } };
            let elems = headings.iter().enumerate().map(|(i, h)| {
                let span = raw(u64::from(h.span) + 1000);
                let (own, body) = if h.detached { (Span::detached(), span) } else { (span, Span::detached()) };
                let body = Content::spanned(format!(" h{} ", h.span).into(), body);
                let bookmarked = h.bookmarked.map_or(Smart::Auto, Smart::Custom);
                (HeadingElem { body, span: own, level: NonZeroUsize::new(h.level.into()).unwrap(), bookmarked, outlined: h.outlined, location: None }, at(i))
            });
            let info = DocumentInfo { title: Some(title.clone().into()), ..Default::default() };
            TypstDocument::Paged(Arc::new(PagedDocument { pages: vec![], info, introspector: Introspector::with_headings(elems) }))
        });
        if entry || saved || !self.on_save {
            self.w.statuses.push(NAMES[usize::from(st % 3)]);
            if st % 3 == 2 {
                self.viewed = true;
                self.w.docs += 1;
                self.w.stirred += 1;
                self.stats.docs += 1;
                if has {
                    self.trees.push(tree(headings));
                }
                self.latest = has.then(|| (title, headings.to_vec()));
            }
        }
        self.watcher.notify_compile(Arc::new(View { doc, status: status(st), saved, entry, table: self.table.clone() }));
    }

    fn read(&mut self, p: usize) -> Result<bool, Fail> {
        let mut any = false;
        let page = &mut self.pages[p];
        loop {
            let m = match page.rx.try_recv() {
                Ok(m) => m,
                Err(e) if format!("{e:?}").contains("Closed") => {
                    if !page.closed && !page.left {
                        page.closed = true;
                        any = true;
                        ensure!(page.odd, "page {p} was let go of, and said nothing wrong");
                    }
                    break;
                }
                Err(_) => break,
            };
            any = true;
            let b = match m {
                WsMessage::Binary(b) => b,
                WsMessage::Text(t) => {
                    ensure!(page.odd, "page {p} was told {t:?}, and said nothing wrong");
                    continue;
                }
            };
            let s = String::from_utf8(b).map_err(|_| "not UTF-8")?;
            let (kind, rest) = s.split_once(',').ok_or_else(|| format!("a frame without a kind: {s:?}"))?;
            if page.frames < self.hello.len() {
                ensure_eq!(&s, &self.hello[page.frames], "the first frames of page {p}");
            } else {
                match kind {
                    "new" => {
                        let back = page.shows.as_deref().is_some_and(|v| v[1..].parse::<u32>().unwrap() > rest[1..].parse::<u32>().unwrap());
                        ensure!(!back, "page {p} shows {:?} and is sent all of {rest}, which is older", page.shows);
                        page.shows = Some(rest.to_owned());
                    }
                    "diff-v1" => {
                        let (from, to) = rest.split_once('>').ok_or("no such diff")?;
                        ensure_eq!(page.shows.as_deref().unwrap_or(""), from, "what page {p} shows, and what it is to change");
                        page.shows = Some(to.to_owned());
                    }
                    "viewport" | "jump" | "cursor-paths" => page.got.push((kind.into(), rest.into())),
                    _ => return Err(format!("page {p} is told {s:?}").into()),
                }
            }
            page.frames += 1;
        }
        Ok(any)
    }

    /// Lets everything come to rest, then looks at what came of the window.
    async fn settle(&mut self) -> Result<(), Fail> {
        let mut quiet = 0;
        let mut told = vec![];
        while quiet < 2 {
            tokio::time::sleep(Duration::from_millis(1)).await;
            let mut any = false;
            for p in 0..self.pages.len() {
                any |= self.read(p)?;
            }
            while let Ok(r) = self.resp.try_recv() {
                any = true;
                told.push(serde_json::to_value(&r).map_err(|e| e.to_string())?);
            }
            quiet = if any { 0 } else { quiet + 1 };
        }
        let w = std::mem::take(&mut self.w);
        self.stats.windows += 1;

        // Every page shows the latest document.
        for (i, p) in self.pages.iter().enumerate() {
            if p.left || p.odd {
                continue;
            }
            if let Some((v, _)) = &self.latest {
                if p.asked || (p.ready && w.docs > 0) {
                    ensure_eq!(p.shows.as_ref(), Some(v), "what page {i} shows, and the latest document");
                }
            }
            ensure!(p.frames >= self.hello.len() || !p.ready, "page {i} was not told how to draw");
        }

        // The editor is told the statuses, in order.
        let statuses: Vec<_> = told.iter().filter(|t| t["event"] == "compileStatus").map(|t| t["kind"].as_str().unwrap_or("?").to_owned()).collect();
        ensure_eq!(statuses, w.statuses.iter().map(|s| s.to_string()).collect::<Vec<_>>(), "the statuses the editor is told");

        // It is led to where somebody asked, and nowhere else.
        let mut led = vec![];
        for t in told.iter().filter(|t| t["event"] == "editorScrollTo") {
            let i: DocToSrcJumpInfo = serde_json::from_value(t.clone()).map_err(|e| e.to_string())?;
            led.push(Jump(i.filepath, i.start, i.end));
        }
        for j in &led {
            let heading = w.any_heading && j.0 == "/h.typ";
            ensure!(heading || w.may.contains(j), "the editor is led to {j:?}; asked for: {:?}", w.may);
        }
        // Whoever is left at the end was there all along.
        for j in w.must.iter().filter(|_| self.heard()) {
            ensure!(led.contains(j), "the editor is not led to {j:?}, only {led:?}");
        }

        // Outlines are those of the documents.
        let mut last = None;
        let mut n = 0;
        for t in told.iter().filter(|t| t["event"] == "outline") {
            n += 1;
            let (mut ids, mut places) = (vec![], vec![]);
            let got = read_tree(&t["items"], &mut ids, &mut places)?;
            ensure!(self.trees.contains(&got), "an outline of no document there is: {got:?}, not one of {:?}", self.trees);
            for (n, p) in places {
                ensure!(p["page_no"].as_u64().is_some_and(|p| p >= 1) && p["y"] == json!(0.5), "heading {n} is at {p}");
            }
            last = Some(got);
            self.outlines.push(Outline { ids });
        }
        self.stats.outlines += n;
        if let (Some((_, h)), true) = (&self.latest, w.docs > 0 && self.heard()) {
            ensure_eq!(last, Some(tree(h)), "the outline the editor is told last");
        }
        // One outline for each that is there to stir one.
        if !w.left && !w.any_heading {
            let there = self.pages.iter().filter(|p| !p.left).count();
            ensure!(n <= w.stirred_max() * there, "{n} outlines for {} requests and {there} pages", w.stirred_max());
        }

        // Pages are scrolled.
        let sure = w.broadcasts + (w.jumps.len() + w.cursors.len()) * self.pages.len() <= 32;
        for (i, p) in self.pages.iter_mut().enumerate() {
            let got = std::mem::take(&mut p.got);
            if p.left || p.odd {
                continue;
            }
            let of = |k: &str| got.iter().filter(|g| g.0 == k).map(|g| g.1.clone()).collect::<Vec<_>>();
            let mut want = w.viewports.iter().map(|(v, sure)| (vec![v.page_no as f32, v.x, v.y], *sure)).collect::<Vec<_>>();
            want.sort_by_key(|w| !w.1);
            let total = want.iter().filter(|w| w.1).count();
            let ports = of("viewport");
            for v in &ports {
                let v = numbers(v)?;
                let at = want.iter().position(|x| same(&x.0, &v));
                let at = at.ok_or_else(|| format!("page {i} is scrolled to {v:?}; asked for: {:?}", w.viewports))?;
                want.remove(at);
            }
            if p.ready && sure {
                want.retain(|w| w.1);
                ensure!(want.is_empty(), "page {i} is not scrolled to {want:?}");
            } else if p.ready && total > 0 {
                ensure!(!ports.is_empty(), "page {i} is scrolled nowhere after {total} requests");
            }
            let jumps = of("jump");
            for j in &jumps {
                let j = j.split(',').map(numbers).collect::<Result<Vec<_>, _>>()?;
                let found = w.jumps.iter().any(|w| w.len() == j.len() && w.iter().zip(&j).all(|(w, j)| same(&[w.0 as f32, w.1, w.2], j)));
                ensure!(found, "page {i} is led to {j:?}; asked for: {:?}", w.jumps);
            }
            if p.ready && self.was_viewed && sure {
                for w in &w.jumps {
                    let s = w.iter().map(|(p, x, y)| format!("{p} {x} {y}")).collect::<Vec<_>>().join(",");
                    ensure!(jumps.contains(&s), "page {i} is not led to {s}, only {jumps:?}");
                }
            }
            let cursors = of("cursor-paths");
            for c in &cursors {
                let c: Value = serde_json::from_str(c).map_err(|e| e.to_string())?;
                let found = w.cursors.iter().any(|(s, o)| c[0][0]["kind"] == json!(s + 1) && c[0][0]["index"] == json!(o));
                ensure!(found, "page {i} is shown the cursor at {c}; it is at: {:?}", w.cursors);
            }
            if p.ready && p.asked && self.was_viewed && self.latest.is_some() && sure && !w.cursors.is_empty() && p.showed {
                ensure!(!cursors.is_empty(), "page {i} is not shown the cursor at {:?}", w.cursors);
            }
        }
        let files = std::mem::take(&mut *self.server.0.lock());
        ensure_eq!(files, w.files, "the memory files the editor spoke of");

        for p in &mut self.pages {
            p.ready = true;
            p.showed = p.shows.is_some();
        }
        self.was_viewed = self.viewed;
        let keep = self.latest.as_ref().map(|l| tree(&l.1));
        self.trees = keep.into_iter().collect();
        Ok(())
    }
}
impl Window {
    fn stirred_max(&self) -> usize {
        // Each entry that is followed stirs the renderers once more.
        self.stirred * 2
    }
}

pub fn run(case: &Case) -> Result<Stats, Fail> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(drive(case))
}

async fn drive(case: &Case) -> Result<Stats, Fail> {
    let style = if case.on_save { RefreshStyle::OnSave } else { RefreshStyle::OnType };
    let args = PreviewArgs { enable_partial_rendering: case.partial, invert_colors: case.invert.clone(), task_id: "t".into(), refresh_style: style };
    let mut hello = vec![];
    if case.partial {
        hello.push("partial-rendering,true".to_owned());
    }
    if !case.invert.is_empty() {
        hello.push(format!("invert-colors,{}", case.invert));
    }
    let mut builder = PreviewBuilder::new(args);
    let (bell_tx, mut bell) = mpsc::channel(1);
    if case.bell {
        builder = builder.with_shutdown_tx(bell_tx);
    }
    let watcher = builder.compile_watcher().clone();
    let (tx, ControlPlaneRx { resp_rx, ctl_tx, shutdown_rx: _keep }) = ControlPlaneTx::new(false);
    let server = Arc::new(Server::default());
    let mut previewer = builder.build(tx, server.clone()).await;
    let (streams, rx) = mpsc::unbounded_channel();
    previewer.start_data_plane(rx, |c: Conn| Ok(c));
    let mut w = World {
        watcher,
        streams,
        ctl: ctl_tx,
        resp: resp_rx,
        server,
        pages: vec![],
        table: Arc::new(Table(case.places.clone())),
        on_save: case.on_save,
        hello,
        versions: 0,
        latest: None,
        viewed: false,
        was_viewed: false,
        trees: vec![],
        places: HashMap::new(),
        outlines: vec![],
        w: Window::default(),
        stats: Stats { windows: 0, docs: 0, pages: 0, routed: 0, entries: 0, outlines: 0, odd: 0, rung: false },
    };
    let _ = &w.places;
    // When a page last came or went, for all we know, and for sure.
    let mut idle = tokio::time::Instant::now();
    let mut sure = idle;
    for op in &case.ops {
        if matches!(op, Op::Connect(_) | Op::Leave(..) | Op::Say(_, Say::Text(_) | Say::Binary(_))) {
            idle = tokio::time::Instant::now();
            if match op {
                Op::Connect(_) => true,
                Op::Leave(p, _) => w.page(*p).is_some_and(|p| !w.pages[p].odd),
                _ => false,
            } {
                sure = idle;
            }
        }
        match op {
            Op::Doc { entry, saved, status, doc, headings } => w.doc(*entry, *saved, *status, *doc, headings),
            Op::Status(n) => {
                w.w.statuses.push(NAMES[usize::from(n % 3)]);
                w.watcher.status(status(*n));
            }
            Op::Connect(room) => {
                let (tx, rx) = fm::unbounded();
                let (stx, srx) = fm::channel((*room).into());
                w.pages.push(Page { tx, rx: srx, odd: false, left: false, closed: false, asked: false, ready: false, shows: None, showed: false, frames: 0, got: vec![] });
                w.stats.pages += 1;
                ensure!(w.streams.send(std::future::ready(Conn { tx: stx, rx })).is_ok(), "nobody takes pages any more");
            }
            Op::Say(p, s) => {
                if let Some(p) = w.page(*p) {
                    w.say(p, s)
                }
            }
            Op::Many(p, n) => {
                for i in 0..*n {
                    match w.page(*p).filter(|p| !w.pages[*p].odd) {
                        Some(q) if p % 2 == 0 => w.say(q, &Say::Sync(u16::from(i) + 1, 0.5, 1.)),
                        _ => w.ctl(&Ctl::Scroll(u16::from(i), 1.5, 2.))?,
                    }
                }
            }
            Op::Flood(n) => {
                for i in 0..*n {
                    w.ctl(&Ctl::Cursor(i % 256 == 0, (i % 4) as u8, 3))?;
                }
            }
            Op::Leave(p, err) => {
                if let Some(p) = w.page(*p) {
                    w.w.left = true;
                    let page = &mut w.pages[p];
                    page.left = true;
                    let _ = page.tx.unbounded_send(if *err { Err(gone()) } else { Ok(WsMessage::Text("unsupported message".into())) });
                    page.rx.close();
                    while page.rx.try_recv().is_ok() {}
                }
            }
            Op::Read(p) => {
                if let Some(p) = w.page(*p) {
                    w.read(p)?;
                }
            }
            Op::Ctl(c) => w.ctl(c)?,
            Op::Yield(n) => {
                for _ in 0..*n {
                    tokio::task::yield_now().await
                }
            }
            Op::Settle => w.settle().await?,
            Op::Wait(t) => {
                w.settle().await?;
                let before = w.live();
                tokio::time::sleep(Duration::from_millis(u64::from(*t) * 100 + 7)).await;
                let rung = bell.try_recv().is_ok();
                if case.bell {
                    ensure!(before == 0 || !rung, "the server goes down for being idle, with {before} pages open");
                    let idle = idle.elapsed().as_millis();
                    ensure!(before > 0 || rung || idle < 5100, "the server stays up with no page open for {idle} ms");
                    let idle = sure.elapsed().as_millis();
                    ensure!(!rung || idle >= 5000, "the server went down for being idle after {idle} ms");
                }
                if rung {
                    w.stats.rung = true;
                    break;
                }
            }
        }
    }
    if !w.stats.rung {
        w.settle().await?;
    }
    previewer.stop().await;
    ensure!(tokio::time::timeout(Duration::from_secs(60), previewer.join()).await.is_ok(), "the previewer does not stop");
    Ok(w.stats)
}

pub fn judge(non_trivial: impl Fn(&Stats) -> bool) -> impl Fn(&Case) -> Verdict {
    move |c| run(c).map(|s| non_trivial(&s))
}

/// Documents that come while pages are drawn by other threads.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Race {
    pub pages: u8,
    /// For each document, how long to wait before it, and whether a page asks
    /// for all of it right then.
    pub docs: Vec<(u16, Option<u8>)>,
    /// Which of them takes long to draw, while the cursor moves a lot.
    pub slow: Option<u8>,
}
pub fn races() -> BoxedStrategy<Race> {
    let doc = (prop_oneof![4 => 0u16..40, 1 => 0u16..2000], prop::option::weighted(0.2, any::<u8>()));
    bx((1u8..7, prop::collection::vec(doc, 1..120), prop::option::weighted(0.2, 0u8..8)).prop_map(|(pages, docs, slow)| Race { pages, docs, slow }))
}
pub fn race(r: &Race) -> Verdict {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
    let res = rt.block_on(race_on(r));
    rt.shutdown_background();
    res
}
async fn race_on(r: &Race) -> Verdict {
    let args = PreviewArgs { enable_partial_rendering: false, invert_colors: String::new(), task_id: "t".into(), refresh_style: RefreshStyle::OnType };
    let builder = PreviewBuilder::new(args);
    let watcher = builder.compile_watcher().clone();
    let (tx, rx) = ControlPlaneTx::new(false);
    let mut previewer = builder.build(tx, Arc::new(Server::default())).await;
    let (streams, srx) = mpsc::unbounded_channel();
    previewer.start_data_plane(srx, |c: Conn| Ok(c));
    let table = Arc::new(Table(vec![]));
    let mut pages = vec![];
    for _ in 0..r.pages {
        let (tx, rx) = fm::unbounded();
        let (stx, srx) = fm::channel(1 << 12);
        let _ = streams.send(std::future::ready(Conn { tx: stx, rx }));
        let _ = tx.unbounded_send(Ok(WsMessage::Text("current".into())));
        pages.push((tx, srx, None::<String>));
    }
    let n = r.docs.len();
    let mut shown = 0;
    for (i, (spin, ask)) in r.docs.iter().enumerate() {
        for _ in 0..*spin {
            std::hint::spin_loop();
        }
        if let Some(p) = ask {
            let _ = pages[usize::from(*p) % usize::from(r.pages)].0.unbounded_send(Ok(WsMessage::Text("current".into())));
        }
        let slow = r.slow == Some(i as u8);
        let title = format!("{}{}", if slow { "z" } else { "v" }, i + 1);
        let info = DocumentInfo { title: Some(title.clone().into()), ..Default::default() };
        let doc = Some(TypstDocument::Paged(Arc::new(PagedDocument { pages: vec![], info, introspector: Default::default() })));
        watcher.notify_compile(Arc::new(View { doc, status: CompileStatus::CompileSuccess, saved: false, entry: false, table: table.clone() }));
        if slow {
            std::thread::sleep(Duration::from_millis(5));
            for l in 0..1200 {
                let c = json!({"event": "changeCursorPosition", "filepath": "/out.typ", "line": l, "character": 0});
                let _ = rx.ctl_tx.send(serde_json::from_value(c).map_err(|e| e.to_string())?);
            }
        }
        // Every few documents, see that the pages get there.
        if i % 4 == 3 || i + 1 == n {
            let until = std::time::Instant::now() + Duration::from_secs(20);
            loop {
                let mut late = vec![];
                for (p, (_, rx, shows)) in pages.iter_mut().enumerate() {
                    while let Ok(m) = rx.try_recv() {
                        let WsMessage::Binary(b) = m else { return Err("a page was told off".to_owned().into()) };
                        let s = String::from_utf8(b).map_err(|_| "not UTF-8")?;
                        if let Some(v) = s.strip_prefix("new,") {
                            *shows = Some(v.into());
                        } else if let Some((from, to)) = s.strip_prefix("diff-v1,").and_then(|s| s.split_once('>')) {
                            ensure_eq!(shows.as_deref().unwrap_or(""), from, "what page {p} shows, and what it is to change");
                            *shows = Some(to.into());
                        }
                    }
                    if shows.as_ref() != Some(&title) {
                        late.push((p, shows.clone()));
                    }
                }
                if late.is_empty() {
                    shown += 1;
                    break;
                }
                ensure!(std::time::Instant::now() < until, "the latest document is {title}, and these pages show others: {late:?}");
                tokio::task::yield_now().await;
            }
        }
    }
    let done = rx.resp_rx;
    let mut done = done;
    let mut statuses = 0;
    let until = std::time::Instant::now() + Duration::from_secs(20);
    while statuses < n {
        match done.try_recv() {
            Ok(typst_preview::ControlPlaneResponse::CompileStatus(_)) => statuses += 1,
            Ok(_) => {}
            Err(_) => {
                ensure!(std::time::Instant::now() < until, "the editor is told of {statuses} of {n} compilations");
                tokio::task::yield_now().await
            }
        }
    }
    previewer.stop().await;
    ensure!(tokio::time::timeout(Duration::from_secs(20), previewer.join()).await.is_ok(), "the previewer does not stop");
    Ok(shown > 3)
}
