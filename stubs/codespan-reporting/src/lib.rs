//! Stand-in for the interface of `codespan-reporting` the code under test
//! implements.
pub mod files {
    use std::ops::Range;
    #[derive(Debug)]
    #[non_exhaustive]
    pub enum Error {
        FileMissing,
        IndexTooLarge { given: usize, max: usize },
        LineTooLarge { given: usize, max: usize },
        ColumnTooLarge { given: usize, max: usize },
        InvalidCharBoundary { given: usize },
        Io(std::io::Error),
    }
    pub trait Files<'a> {
        type FileId: 'a + Copy + PartialEq;
        type Name: 'a + std::fmt::Display;
        type Source: 'a + AsRef<str>;
        fn name(&'a self, id: Self::FileId) -> Result<Self::Name, Error>;
        fn source(&'a self, id: Self::FileId) -> Result<Self::Source, Error>;
        fn line_index(&'a self, id: Self::FileId, byte_index: usize) -> Result<usize, Error>;
        fn line_number(&'a self, _: Self::FileId, line_index: usize) -> Result<usize, Error> {
            Ok(line_index + 1)
        }
        fn column_number(&'a self, id: Self::FileId, line_index: usize, byte_index: usize) -> Result<usize, Error>;
        fn line_range(&'a self, id: Self::FileId, line_index: usize) -> Result<Range<usize>, Error>;
    }
}
