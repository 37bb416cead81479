//! Stand-in for the git dependency `ophelia`, which is not available offline: the traits the
//! repository uses, with the same shapes.
use std::convert::TryFrom;
use std::error::Error;
use std::fmt;

use bytes::Bytes;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum CryptoError {
    InvalidLength,
    InvalidSignature,
    InvalidPublicKey,
    InvalidPrivateKey,
}
impl fmt::Display for CryptoError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl Error for CryptoError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct HashValue([u8; 32]);
impl HashValue {
    pub const LENGTH: usize = 32;
    pub fn from_bytes_unchecked(b: [u8; 32]) -> Self { HashValue(b) }
    pub fn to_bytes(&self) -> Bytes { Bytes::from(self.0.to_vec()) }
}
impl<'a> TryFrom<&'a [u8]> for HashValue {
    type Error = CryptoError;
    fn try_from(b: &'a [u8]) -> Result<Self, CryptoError> {
        if b.len() != 32 { return Err(CryptoError::InvalidLength); }
        let mut a = [0u8; 32];
        a.copy_from_slice(b);
        Ok(HashValue(a))
    }
}
impl AsRef<[u8]> for HashValue { fn as_ref(&self) -> &[u8] { &self.0 } }

pub trait PrivateKey: for<'a> TryFrom<&'a [u8], Error = CryptoError> + Clone {
    const LENGTH: usize;
    type PublicKey: PublicKey;
    type Signature: Signature;
    fn sign_message(&self, msg: &HashValue) -> Self::Signature;
    fn pub_key(&self) -> Self::PublicKey;
    fn to_bytes(&self) -> Bytes;
}
pub trait PublicKey: for<'a> TryFrom<&'a [u8], Error = CryptoError> + Clone {
    const LENGTH: usize;
    fn to_bytes(&self) -> Bytes;
}
pub trait Signature: for<'a> TryFrom<&'a [u8], Error = CryptoError> + Clone {
    fn to_bytes(&self) -> Bytes;
}
pub trait Crypto {
    type PrivateKey: PrivateKey<PublicKey = Self::PublicKey, Signature = Self::Signature>;
    type PublicKey: PublicKey;
    type Signature: Signature;
    fn sign_message(msg: &[u8], privkey: &[u8]) -> Result<Self::Signature, CryptoError>;
    fn verify_signature(msg: &[u8], sig: &[u8], pubkey: &[u8]) -> Result<(), CryptoError>;
    fn generate_keypair<R: rand::Rng + ?Sized>(rng: &mut R) -> (Self::PrivateKey, Self::PublicKey);
}
