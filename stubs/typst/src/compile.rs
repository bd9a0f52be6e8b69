//! What a document is here: lines of text, some of which ask the world for
//! something.
//!
//! - `#include "p"`: the document at `p`, relative to the file it is in;
//! - `#read "p"`: the bytes at `p`;
//! - `#input k`: the input called `k`;
//! - `#font n`: whether there is an n-th font;
//! - `#title t`: the document's title;
//! - `#target`: what the document is compiled to;
//! - `#pagebreak`, `#warn m`, `#error m`.
use ecow::{eco_format, eco_vec, EcoString, EcoVec};

use crate::diag::{SourceDiagnostic, SourceResult, Warned};
use crate::foundations::Value;
use crate::introspection::Introspector;
use crate::model::DocumentInfo;
use crate::syntax::{FileId, Span};
use crate::{Feature, World};

#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Page {
    pub lines: Vec<EcoString>,
}
#[derive(Debug, Clone, Default)]
pub struct PagedDocument {
    pub pages: Vec<Page>,
    pub info: DocumentInfo,
    pub introspector: Introspector,
}
#[derive(Debug, Clone, Default)]
pub struct HtmlDocument {
    pub root: Page,
    pub info: DocumentInfo,
    pub introspector: Introspector,
}
pub trait Document: Sized {
    const TARGET: &'static str;
    fn info(&self) -> &DocumentInfo;
    fn introspector(&self) -> &Introspector;
    fn make(pages: Vec<Page>, info: DocumentInfo) -> Self;
}
impl Document for PagedDocument {
    const TARGET: &'static str = "paged";
    fn info(&self) -> &DocumentInfo {
        &self.info
    }
    fn introspector(&self) -> &Introspector {
        &self.introspector
    }
    fn make(pages: Vec<Page>, info: DocumentInfo) -> Self {
        Self { pages, info, introspector: Introspector::default() }
    }
}
impl Document for HtmlDocument {
    const TARGET: &'static str = "html";
    fn info(&self) -> &DocumentInfo {
        &self.info
    }
    fn introspector(&self) -> &Introspector {
        &self.introspector
    }
    fn make(pages: Vec<Page>, info: DocumentInfo) -> Self {
        let lines = pages.into_iter().flat_map(|p| p.lines).collect();
        Self { root: Page { lines }, info, introspector: Introspector::default() }
    }
}

struct State<'a> {
    world: &'a dyn World,
    target: &'static str,
    pages: Vec<Page>,
    info: DocumentInfo,
    errors: EcoVec<SourceDiagnostic>,
    warnings: EcoVec<SourceDiagnostic>,
    stack: Vec<FileId>,
    budget: usize,
}
impl State<'_> {
    fn push(&mut self, line: impl Into<EcoString>) {
        self.pages.last_mut().unwrap().lines.push(line.into());
    }
    fn fail(&mut self, m: impl Into<EcoString>) {
        self.errors.push(SourceDiagnostic::error(Span::detached(), m));
    }
    fn file(&mut self, id: FileId) {
        if self.stack.contains(&id) || self.budget == 0 {
            return self.fail("cyclic import");
        }
        self.budget -= 1;
        let source = match self.world.source(id) {
            Ok(s) => s,
            Err(e) => return self.fail(e),
        };
        self.stack.push(id);
        for line in source.text().lines() {
            let quoted = |s: &str| s.trim().trim_matches('"').to_owned();
            match line.strip_prefix('#').map(|l| l.split_once(' ').unwrap_or((l, ""))) {
                Some(("include", p)) => self.file(id.join(&quoted(p))),
                Some(("read", p)) => match self.world.file(id.join(&quoted(p))) {
                    Ok(b) => self.push(eco_format!("<{}>", String::from_utf8_lossy(&b))),
                    Err(e) => self.fail(e),
                },
                Some(("input", k)) => match self.world.library().inputs.get(k) {
                    Some(Value::Str(s)) => self.push(s.clone()),
                    _ => self.push("none"),
                },
                Some(("font", n)) => {
                    let f = n.parse().ok().and_then(|n| self.world.book().info(n).and_then(|_| self.world.font(n)));
                    self.push(f.map_or("no font".into(), |f| eco_format!("{}", String::from_utf8_lossy(f.data()))))
                }
                Some(("target", _)) => self.push(self.target),
                Some(("title", t)) => self.info.title = Some(t.into()),
                Some(("pagebreak", _)) => self.pages.push(Page::default()),
                Some(("warn", m)) => self.warnings.push(SourceDiagnostic::warning(Span::detached(), m)),
                Some(("error", m)) => self.fail(m),
                _ => self.push(line),
            }
        }
        self.stack.pop();
    }
}

pub fn compile<D: Document>(world: &dyn World) -> Warned<SourceResult<D>> {
    let mut warnings = eco_vec![];
    if D::TARGET == "html" {
        if !world.library().features.is_enabled(Feature::Html) {
            return Warned { output: Err(eco_vec![SourceDiagnostic::error(Span::detached(), "html export is only available when `--features html` is passed")]), warnings };
        }
        warnings.push(SourceDiagnostic::warning(Span::detached(), "html export is under active development and incomplete"));
    }
    let mut s = State {
        world,
        target: D::TARGET,
        pages: vec![Page::default()],
        info: Default::default(),
        errors: eco_vec![],
        warnings,
        stack: vec![],
        budget: 64,
    };
    s.file(world.main());
    let output = if s.errors.is_empty() { Ok(D::make(s.pages, s.info)) } else { Err(s.errors) };
    Warned { output, warnings: s.warnings }
}
