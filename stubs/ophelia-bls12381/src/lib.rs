//! Stand-in for the git dependency `ophelia-bls12381`: the repository re-exports these names and uses none.
pub struct BLS12381PrivateKey;
pub struct BLS12381PublicKey;
pub struct BLS12381Signature;
pub struct BLS12381Threshold;
pub struct BLS12381;
