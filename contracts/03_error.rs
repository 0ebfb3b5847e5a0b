/// Error values are opaque: which call errs is specified, the message text is not.
pub mod error {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct ToonError { }
#[verifier::external]
impl std::fmt::Debug for ToonError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
pub type Result<T> = std::result::Result<T, ToonError>;
impl ToonError {
    #[verifier::external_body]
    pub fn stdin_read(e: crate::vio::io::Error) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_read(p: crate::vio::path::PathBuf, e: crate::vio::io::Error) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_create(p: crate::vio::path::PathBuf, e: crate::vio::io::Error) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_write(p: crate::vio::path::PathBuf, e: crate::vio::io::Error) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn stdout_write(e: crate::vio::io::Error) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn json_parse(e: &crate::serde_json::Error) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn json_stringify(e: &crate::serde_json::Error) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn message<T>(m: T) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn event_stream<T>(m: T) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn mismatched_end(a: &str, b: &str) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn unexpected_event(a: &str, b: &str) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T>(line: usize, m: T) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn validation<T>(line: usize, m: T) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn tabs_not_allowed(line: usize) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn invalid_indentation(line: usize, e: usize, f: usize) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn unterminated_string(line: usize) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn missing_colon(line: usize) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn invalid_array_length(line: usize, v: &str) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn path_expansion<T, U>(p: T, m: U) -> (r: ToonError) { unimplemented!() }
    #[verifier::external_body]
    pub fn path_conflict(p: &str, e: &str) -> (r: ToonError) { unimplemented!() }
}
} // verus!
}
