use std::any::Any;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::sync::Arc;

use ecow::EcoString;

use crate::model::HeadingElem;
use crate::syntax::Span;

trait Holder: Send + Sync {
    fn bytes(&self) -> &[u8];
    fn any(&self) -> &dyn Any;
}
impl<T: AsRef<[u8]> + Send + Sync + 'static> Holder for T {
    fn bytes(&self) -> &[u8] {
        self.as_ref()
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
struct Text<T>(T);
impl<T: AsRef<str>> AsRef<[u8]> for Text<T> {
    fn as_ref(&self) -> &[u8] {
        self.0.as_ref().as_bytes()
    }
}

/// A cheap-to-clone byte string.
#[derive(Clone)]
pub struct Bytes(Arc<dyn Holder>);
impl Bytes {
    pub fn new<T: AsRef<[u8]> + Send + Sync + 'static>(v: T) -> Self {
        Self(Arc::new(v))
    }
    pub fn from_string<T: AsRef<str> + Send + Sync + 'static>(v: T) -> Self {
        Self(Arc::new(Text(v)))
    }
    pub fn is_empty(&self) -> bool {
        self.as_slice().is_empty()
    }
    pub fn as_slice(&self) -> &[u8] {
        self.0.bytes()
    }
    pub fn as_str(&self) -> Result<&str, std::str::Utf8Error> {
        std::str::from_utf8(self.as_slice())
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
    pub fn inner(&self) -> &dyn Any {
        self.0.any()
    }
}
impl Default for Bytes {
    fn default() -> Self {
        Self::new([])
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        self.as_slice()
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        self.as_slice()
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Self) -> bool {
        self.as_slice() == o.as_slice()
    }
}
impl Eq for Bytes {}
impl Hash for Bytes {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.as_slice().hash(h)
    }
}
impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Bytes({})", self.len())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Value {
    None,
    Str(Str),
}
pub type Str = EcoString;
pub trait IntoValue {
    fn into_value(self) -> Value;
}
impl IntoValue for Value {
    fn into_value(self) -> Value {
        self
    }
}
impl IntoValue for &str {
    fn into_value(self) -> Value {
        Value::Str(self.into())
    }
}
impl IntoValue for String {
    fn into_value(self) -> Value {
        Value::Str(self.into())
    }
}
impl IntoValue for EcoString {
    fn into_value(self) -> Value {
        Value::Str(self)
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Dict(Arc<indexmap::IndexMap<Str, Value>>);
impl Hash for Dict {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.len().hash(h);
        for e in self.0.iter() {
            e.hash(h)
        }
    }
}
impl Dict {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn insert(&mut self, k: Str, v: Value) {
        Arc::make_mut(&mut self.0).insert(k, v);
    }
    pub fn iter(&self) -> indexmap::map::Iter<'_, Str, Value> {
        self.0.iter()
    }
}
impl FromIterator<(Str, Value)> for Dict {
    fn from_iter<I: IntoIterator<Item = (Str, Value)>>(it: I) -> Self {
        Self(Arc::new(it.into_iter().collect()))
    }
}

/// As typst's.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Datetime {
    Date(time::Date),
    Time(time::Time),
    Datetime(time::PrimitiveDateTime),
}
impl Datetime {
    pub fn from_ymd(year: i32, month: u8, day: u8) -> Option<Self> {
        Some(Self::Date(time::Date::from_calendar_date(year, time::Month::try_from(month).ok()?, day).ok()?))
    }
}
impl fmt::Display for Datetime {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Date(d) => d.fmt(f),
            Self::Time(t) => t.fmt(f),
            Self::Datetime(t) => t.fmt(f),
        }
    }
}
impl serde::Serialize for Value {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Self::None => s.serialize_none(),
            Self::Str(t) => s.serialize_str(t),
        }
    }
}
/// An element is a line here; what follows its first word is its value.
/// Headings are elements of their own.
#[derive(Debug, Clone, PartialEq, Hash)]
pub struct Content {
    pub text: EcoString,
    pub span: Span,
    heading: Option<Arc<Packed<HeadingElem>>>,
}
impl Content {
    pub fn line(text: EcoString) -> Self {
        Self { text, span: Span::detached(), heading: None }
    }
    pub fn spanned(text: EcoString, span: Span) -> Self {
        Self { text, span, heading: None }
    }
    pub fn heading(h: HeadingElem) -> Self {
        Self { text: h.body.text.clone(), span: h.span, heading: Some(Arc::new(Packed(h))) }
    }
    pub fn to_packed<T>(&self) -> Option<&Packed<HeadingElem>> {
        self.heading.as_deref()
    }
    pub fn span(&self) -> Span {
        self.span
    }
    pub fn plain_text(&self) -> EcoString {
        self.text.clone()
    }
    pub fn get_by_name(&self, name: &str) -> Result<Value, String> {
        let (label, value) = self.text.split_once(' ').ok_or("a lone label has no fields")?;
        match name {
            "value" => Ok(value.into_value()),
            "label" => Ok(label.into_value()),
            _ => Err(format!("no field {name}")),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Hash)]
pub struct Packed<T>(pub T);
impl<T> Deref for Packed<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
#[derive(Debug, Copy, Clone, Default)]
pub struct StyleChain;
#[derive(Debug, Copy, Clone)]
pub struct Element(pub &'static str);
#[derive(Debug, Copy, Clone)]
pub struct Selector(pub Element);
impl Element {
    pub fn select(self) -> Selector {
        Selector(self)
    }
}
pub trait NativeElement {
    fn elem() -> Element;
}
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, Default)]
pub enum Smart<T> {
    #[default]
    Auto,
    Custom(T),
}
impl<T> Smart<T> {
    pub fn unwrap_or_else(self, f: impl FnOnce() -> T) -> T {
        match self {
            Self::Auto => f(),
            Self::Custom(v) => v,
        }
    }
}
impl IntoValue for Content {
    fn into_value(self) -> Value {
        Value::Str(self.text)
    }
}
impl Dict {
    pub fn get(&self, k: &str) -> Option<&Value> {
        self.0.get(k)
    }
}
