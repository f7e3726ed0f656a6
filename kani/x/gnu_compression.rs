// Context for the extracted GNU compression header parser: `CompressedFileRange` and
// `ReadRef` are the crate's own; only the crate-private error helper is restated.
#![allow(dead_code, unused)]
pub mod read {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Error(pub &'static str);
    pub type Result<T> = core::result::Result<T, Error>;
    pub trait ReadError<T> { fn read_error(self, e: &'static str) -> Result<T>; }
    impl<T> ReadError<T> for core::result::Result<T, ()> { fn read_error(self, e: &'static str) -> Result<T> { match self { Ok(v) => Ok(v), Err(()) => Err(Error(e)) } } }
    impl<T> ReadError<T> for Result<T> { fn read_error(self, e: &'static str) -> Result<T> { match self { Ok(v) => Ok(v), Err(_) => Err(Error(e)) } } }
    impl<T> ReadError<T> for Option<T> { fn read_error(self, e: &'static str) -> Result<T> { match self { Some(v) => Ok(v), None => Err(Error(e)) } } }
}
use read::{Error, ReadError as _};
//@EXTRACT
