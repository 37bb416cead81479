//! Stand-in for reqwest (needs a network and OpenSSL): nothing can be fetched.
use std::{fmt, io};

#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "no network")
    }
}
impl std::error::Error for Error {}

pub fn get(_: &str) -> Result<io::Empty, Error> {
    Err(Error)
}
