//! Stand-in for the `typst` crate, which is a git dependency and not available
//! offline. It carries the plain data types the code under test is written
//! against (paths, file ids, sources, errors), written to the documented
//! behaviour of typst 0.13; instead of typst it compiles a small language of
//! lines (`compile.rs`).
pub mod diag;
pub mod foundations;
pub mod syntax;
pub mod utils;
pub use ecow;

pub use compile::{compile, Document};

/// The environment a document is compiled in.
pub trait World: Send + Sync {
    fn library(&self) -> &utils::LazyHash<Library>;
    fn book(&self) -> &utils::LazyHash<text::FontBook>;
    fn main(&self) -> syntax::FileId;
    fn source(&self, id: syntax::FileId) -> diag::FileResult<syntax::Source>;
    fn file(&self, id: syntax::FileId) -> diag::FileResult<foundations::Bytes>;
    fn font(&self, index: usize) -> Option<text::Font>;
    fn today(&self, offset: Option<i64>) -> Option<foundations::Datetime>;
}
/// What a document may use.
#[derive(Debug, Clone, Hash, Default)]
pub struct Library {
    pub inputs: foundations::Dict,
    pub features: Features,
}
impl Library {
    pub fn builder() -> LibraryBuilder {
        LibraryBuilder::default()
    }
}
#[derive(Debug, Clone, Default)]
pub struct LibraryBuilder(Library);
impl LibraryBuilder {
    pub fn with_inputs(mut self, inputs: foundations::Dict) -> Self {
        self.0.inputs = inputs;
        self
    }
    pub fn with_features(mut self, features: Features) -> Self {
        self.0.features = features;
        self
    }
    pub fn build(self) -> Library {
        self.0
    }
}
/// In-development features.
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
#[non_exhaustive]
pub enum Feature {
    Html,
}
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)]
pub struct Features(std::collections::BTreeSet<u8>);
impl FromIterator<Feature> for Features {
    fn from_iter<I: IntoIterator<Item = Feature>>(it: I) -> Self {
        Self(it.into_iter().map(|f| f as u8).collect())
    }
}
impl Features {
    pub fn is_enabled(&self, f: Feature) -> bool {
        self.0.contains(&(f as u8))
    }
}
mod compile;
pub mod html {
    pub use crate::compile::HtmlDocument;
}
pub mod model {
    use crate::foundations::{Content, Element, NativeElement, Packed, Smart, StyleChain};
    use crate::introspection::Location;
    use crate::syntax::Span;
    use ecow::EcoString;
    use std::num::NonZeroUsize;
    #[derive(Debug, Clone, PartialEq, Hash)]
    pub struct HeadingElem {
        pub body: Content,
        pub span: Span,
        pub level: NonZeroUsize,
        pub bookmarked: Smart<bool>,
        pub outlined: bool,
        pub location: Option<Location>,
    }
    impl NativeElement for HeadingElem {
        fn elem() -> Element {
            Element("heading")
        }
    }
    impl HeadingElem {
        pub fn resolve_level(&self, _: StyleChain) -> NonZeroUsize {
            self.level
        }
        pub fn bookmarked(&self, _: StyleChain) -> Smart<bool> {
            self.bookmarked
        }
        pub fn outlined(&self, _: StyleChain) -> bool {
            self.outlined
        }
    }
    impl Packed<HeadingElem> {
        pub fn span(&self) -> Span {
            self.0.span
        }
        pub fn location(&self) -> Option<Location> {
            self.0.location
        }
    }
    #[derive(Debug, Clone, Default, PartialEq, Hash)]
    pub struct DocumentInfo {
        pub title: Option<EcoString>,
    }
}
pub mod introspection {
    use crate::foundations::{Content, Selector};
    use crate::layout::Position;
    use ecow::EcoVec;
    #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
    pub struct Location(pub usize);
    /// The headings of a document, in document order, and where they are.
    #[derive(Debug, Clone, Default)]
    pub struct Introspector {
        headings: EcoVec<Content>,
        at: Vec<Position>,
    }
    impl Introspector {
        pub fn with_headings(headings: impl IntoIterator<Item = (crate::model::HeadingElem, Position)>) -> Self {
            let mut res = Self::default();
            for (mut h, at) in headings {
                h.location = Some(Location(res.at.len()));
                res.at.push(at);
                res.headings.push(Content::heading(h));
            }
            res
        }
        pub fn query(&self, _: &Selector) -> EcoVec<Content> {
            self.headings.clone()
        }
        pub fn position(&self, l: Location) -> Position {
            self.at[l.0]
        }
    }
}
pub mod text {
    use crate::foundations::Bytes;
    /// A font is its data.
    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct Font(Bytes, u32);
    impl Font {
        pub fn new(data: Bytes, index: u32) -> Option<Self> {
            (!data.is_empty()).then_some(Self(data, index))
        }
        pub fn data(&self) -> &Bytes {
            &self.0
        }
        pub fn index(&self) -> u32 {
            self.1
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
    pub struct FontVariant;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
    pub struct Coverage(pub Vec<u32>);
    impl Coverage {
        pub fn iter(&self) -> impl Iterator<Item = u32> + '_ {
            self.0.iter().copied()
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
    pub struct FontInfo {
        pub family: String,
        pub variant: FontVariant,
        pub coverage: Coverage,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
    pub struct FontBook(Vec<FontInfo>);
    impl FontBook {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn from_infos(i: impl IntoIterator<Item = FontInfo>) -> Self {
            Self(i.into_iter().collect())
        }
        pub fn push(&mut self, i: FontInfo) {
            self.0.push(i)
        }
        pub fn info(&self, i: usize) -> Option<&FontInfo> {
            self.0.get(i)
        }
        pub fn select_fallback(&self, like: Option<&FontInfo>, _: FontVariant, _: &str) -> Option<usize> {
            self.0.iter().position(|f| Some(f) == like)
        }
    }
}
pub mod layout {
    pub use crate::compile::{Page, PagedDocument};
    #[derive(Debug, Copy, Clone, PartialEq, Default)]
    pub struct Abs(pub f64);
    impl Abs {
        pub fn pt(v: f64) -> Self {
            Self(v)
        }
        pub fn mm(v: f64) -> Self {
            Self(v * 72. / 25.4)
        }
        pub fn cm(v: f64) -> Self {
            Self(v * 72. / 2.54)
        }
        pub fn inches(v: f64) -> Self {
            Self(v * 72.)
        }
        pub fn to_pt(self) -> f64 {
            self.0
        }
    }
    #[derive(Debug, Copy, Clone, PartialEq)]
    pub struct Point {
        pub x: Abs,
        pub y: Abs,
    }
    #[derive(Debug, Copy, Clone, PartialEq)]
    pub struct Position {
        pub page: std::num::NonZeroUsize,
        pub point: Point,
    }
}
pub mod visualize {
    #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
    pub struct Color([u8; 4]);
    impl Color {
        pub const BLACK: Self = Self([0, 0, 0, 255]);
        pub const WHITE: Self = Self([255, 255, 255, 255]);
        pub const RED: Self = Self([0xff, 0x41, 0x36, 255]);
        pub const GREEN: Self = Self([0x2e, 0xcc, 0x40, 255]);
        pub const BLUE: Self = Self([0, 0x74, 0xd9, 255]);
        pub fn to_hex(self) -> ecow::EcoString {
            let [r, g, b, a] = self.0;
            if a == 255 {
                ecow::eco_format!("#{r:02x}{g:02x}{b:02x}")
            } else {
                ecow::eco_format!("#{r:02x}{g:02x}{b:02x}{a:02x}")
            }
        }
    }
    impl std::str::FromStr for Color {
        type Err = &'static str;
        fn from_str(s: &str) -> Result<Self, Self::Err> {
            let s = s.strip_prefix('#').unwrap_or(s);
            if s.chars().any(|c| !c.is_ascii_hexdigit()) {
                return Err("color string contains non-hexadecimal letters");
            }
            let d = |i: usize, n: usize| u8::from_str_radix(&s[i * n..(i + 1) * n], 16).unwrap() * if n == 1 { 17 } else { 1 };
            match s.len() {
                3 => Ok(Self([d(0, 1), d(1, 1), d(2, 1), 255])),
                4 => Ok(Self([d(0, 1), d(1, 1), d(2, 1), d(3, 1)])),
                6 => Ok(Self([d(0, 2), d(1, 2), d(2, 2), 255])),
                8 => Ok(Self([d(0, 2), d(1, 2), d(2, 2), d(3, 2)])),
                _ => Err("color string has wrong length"),
            }
        }
    }
}
