use std::fmt;
use std::path::{Path, PathBuf};
use std::str::Utf8Error;
use std::string::FromUtf8Error;
use std::{io, result};

pub use ecow::{eco_format, EcoString};
use ecow::{eco_vec, EcoVec};

use crate::syntax::package::{PackageSpec, PackageVersion};
use crate::syntax::Span;

pub type SourceResult<T> = result::Result<T, EcoVec<SourceDiagnostic>>;
pub type StrResult<T> = result::Result<T, EcoString>;
pub type FileResult<T> = result::Result<T, FileError>;
pub type PackageResult<T> = result::Result<T, PackageError>;

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct Warned<T> {
    pub output: T,
    pub warnings: EcoVec<SourceDiagnostic>,
}

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub struct SourceDiagnostic {
    pub severity: Severity,
    pub span: Span,
    pub message: EcoString,
    pub hints: EcoVec<EcoString>,
}
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub enum Severity {
    Error,
    Warning,
}
impl SourceDiagnostic {
    pub fn error(span: Span, message: impl Into<EcoString>) -> Self {
        Self { severity: Severity::Error, span, message: message.into(), hints: eco_vec![] }
    }
    pub fn warning(span: Span, message: impl Into<EcoString>) -> Self {
        Self { severity: Severity::Warning, span, message: message.into(), hints: eco_vec![] }
    }
}
pub trait At<T> {
    fn at(self, span: Span) -> SourceResult<T>;
}
impl<T, S: Into<EcoString>> At<T> for Result<T, S> {
    fn at(self, span: Span) -> SourceResult<T> {
        self.map_err(|m| eco_vec![SourceDiagnostic::error(span, m)])
    }
}

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub enum FileError {
    NotFound(PathBuf),
    AccessDenied,
    IsDirectory,
    NotSource,
    InvalidUtf8,
    Package(PackageError),
    Other(Option<EcoString>),
}
impl FileError {
    pub fn from_io(err: io::Error, path: &Path) -> Self {
        match err.kind() {
            io::ErrorKind::NotFound => Self::NotFound(path.into()),
            io::ErrorKind::PermissionDenied => Self::AccessDenied,
            io::ErrorKind::InvalidData if err.to_string().contains("stream did not contain valid UTF-8") => {
                Self::InvalidUtf8
            }
            _ => Self::Other(Some(eco_format!("{err}"))),
        }
    }
}
impl std::error::Error for FileError {}
impl fmt::Display for FileError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::NotFound(p) => write!(f, "file not found (searched at {})", p.display()),
            Self::AccessDenied => f.pad("failed to load file (access denied)"),
            Self::IsDirectory => f.pad("failed to load file (is a directory)"),
            Self::NotSource => f.pad("not a typst source file"),
            Self::InvalidUtf8 => f.pad("file is not valid utf-8"),
            Self::Package(e) => e.fmt(f),
            Self::Other(Some(e)) => write!(f, "failed to load file ({e})"),
            Self::Other(None) => f.pad("failed to load file"),
        }
    }
}
impl From<Utf8Error> for FileError {
    fn from(_: Utf8Error) -> Self {
        Self::InvalidUtf8
    }
}
impl From<FromUtf8Error> for FileError {
    fn from(_: FromUtf8Error) -> Self {
        Self::InvalidUtf8
    }
}
impl From<PackageError> for FileError {
    fn from(e: PackageError) -> Self {
        Self::Package(e)
    }
}
impl From<FileError> for EcoString {
    fn from(e: FileError) -> Self {
        eco_format!("{e}")
    }
}

#[derive(Debug, Clone, Eq, PartialEq, Hash)]
pub enum PackageError {
    NotFound(PackageSpec),
    VersionNotFound(PackageSpec, PackageVersion),
    NetworkFailed(Option<EcoString>),
    MalformedArchive(Option<EcoString>),
    Other(Option<EcoString>),
}
impl std::error::Error for PackageError {}
impl fmt::Display for PackageError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::NotFound(s) => write!(f, "package not found (searched for {s})"),
            Self::VersionNotFound(s, v) => {
                write!(f, "package found, but version {} does not exist (latest is {v})", s.version)
            }
            Self::NetworkFailed(e) => write!(f, "failed to download package ({})", e.clone().unwrap_or_default()),
            Self::MalformedArchive(e) => {
                write!(f, "failed to decompress package ({})", e.clone().unwrap_or_default())
            }
            Self::Other(e) => write!(f, "failed to load package ({})", e.clone().unwrap_or_default()),
        }
    }
}
impl From<PackageError> for EcoString {
    fn from(e: PackageError) -> Self {
        eco_format!("{e}")
    }
}
#[macro_export]
macro_rules! __bail {
    ($fmt:literal $(, $arg:expr)* $(,)?) => { return Err($crate::diag::eco_format!($fmt $(, $arg)*).into()) };
}
pub use crate::__bail as bail;
