//! Stand-in for the git dependency `ophelia-secp256k1`: ECDSA over secp256k1 by the `secp256k1` crate.
use std::convert::TryFrom;

use bytes::Bytes;
use lazy_static::lazy_static;
use ophelia::{Crypto, CryptoError, HashValue, PrivateKey, PublicKey, Signature};
use secp256k1::{All, Message, Secp256k1 as Engine};

lazy_static! {
    static ref ENGINE: Engine<All> = Engine::new();
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Secp256k1PrivateKey(secp256k1::SecretKey);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Secp256k1PublicKey(secp256k1::PublicKey);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Secp256k1Signature(secp256k1::Signature);
pub struct Secp256k1;

impl<'a> TryFrom<&'a [u8]> for Secp256k1PrivateKey {
    type Error = CryptoError;
    fn try_from(b: &'a [u8]) -> Result<Self, CryptoError> {
        secp256k1::SecretKey::from_slice(b).map(Self).map_err(|_| CryptoError::InvalidPrivateKey)
    }
}
impl<'a> TryFrom<&'a [u8]> for Secp256k1PublicKey {
    type Error = CryptoError;
    fn try_from(b: &'a [u8]) -> Result<Self, CryptoError> {
        secp256k1::PublicKey::from_slice(b).map(Self).map_err(|_| CryptoError::InvalidPublicKey)
    }
}
impl<'a> TryFrom<&'a [u8]> for Secp256k1Signature {
    type Error = CryptoError;
    fn try_from(b: &'a [u8]) -> Result<Self, CryptoError> {
        secp256k1::Signature::from_compact(b).map(Self).map_err(|_| CryptoError::InvalidSignature)
    }
}
impl PrivateKey for Secp256k1PrivateKey {
    const LENGTH: usize = 32;
    type PublicKey = Secp256k1PublicKey;
    type Signature = Secp256k1Signature;
    fn sign_message(&self, msg: &HashValue) -> Secp256k1Signature {
        let m = Message::from_slice(msg.as_ref()).expect("32 bytes");
        Secp256k1Signature(ENGINE.sign(&m, &self.0))
    }
    fn pub_key(&self) -> Secp256k1PublicKey {
        Secp256k1PublicKey(secp256k1::PublicKey::from_secret_key(&*ENGINE, &self.0))
    }
    fn to_bytes(&self) -> Bytes { Bytes::from(&self.0[..]) }
}
impl PublicKey for Secp256k1PublicKey {
    const LENGTH: usize = 33;
    fn to_bytes(&self) -> Bytes { Bytes::from(self.0.serialize().to_vec()) }
}
impl Signature for Secp256k1Signature {
    fn to_bytes(&self) -> Bytes { Bytes::from(self.0.serialize_compact().to_vec()) }
}
impl Crypto for Secp256k1 {
    type PrivateKey = Secp256k1PrivateKey;
    type PublicKey = Secp256k1PublicKey;
    type Signature = Secp256k1Signature;
    fn sign_message(msg: &[u8], privkey: &[u8]) -> Result<Secp256k1Signature, CryptoError> {
        let k = Secp256k1PrivateKey::try_from(privkey)?;
        Ok(k.sign_message(&HashValue::try_from(msg)?))
    }
    fn verify_signature(msg: &[u8], sig: &[u8], pubkey: &[u8]) -> Result<(), CryptoError> {
        let m = Message::from_slice(msg).map_err(|_| CryptoError::InvalidLength)?;
        let s = Secp256k1Signature::try_from(sig)?;
        let p = Secp256k1PublicKey::try_from(pubkey)?;
        ENGINE.verify(&m, &s.0, &p.0).map_err(|_| CryptoError::InvalidSignature)
    }
    fn generate_keypair<R: rand::Rng + ?Sized>(rng: &mut R) -> (Secp256k1PrivateKey, Secp256k1PublicKey) {
        loop {
            let mut b = [0u8; 32];
            rng.fill_bytes(&mut b);
            if let Ok(k) = Secp256k1PrivateKey::try_from(&b[..]) {
                let p = k.pub_key();
                return (k, p);
            }
        }
    }
}
