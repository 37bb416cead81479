use bytes::Bytes;
use rlp::{Decodable, DecoderError, Encodable, Rlp, RlpStream};

use crate::Codec;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OverlordMsg<T: Codec> {
    SignedProposal(SignedProposal<T>),
    SignedVote(SignedVote),
    AggregatedVote(AggregatedVote),
    RichStatus(Status),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SignedProposal<T: Codec> {
    pub signature: Bytes,
    pub content:   T,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SignedVote { pub signature: Bytes, pub epoch_id: u64 }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AggregatedVote { pub signature: AggregatedSignature, pub epoch_id: u64 }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct AggregatedSignature { pub signature: Bytes, pub address_bitmap: Bytes }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Proof { pub epoch_id: u64, pub round: u64, pub epoch_hash: Bytes, pub signature: AggregatedSignature }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Commit<T: Codec> { pub epoch_id: u64, pub content: T, pub proof: Proof }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Status { pub epoch_id: u64, pub interval: Option<u64>, pub authority_list: Vec<Node> }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Node { pub address: Bytes, pub propose_weight: u8, pub vote_weight: u8 }

impl<T: Codec> Encodable for SignedProposal<T> {
    fn rlp_append(&self, s: &mut RlpStream) {
        s.begin_list(2).append(&self.signature.to_vec()).append(&self.content.encode().unwrap().to_vec());
    }
}
impl<T: Codec> Decodable for SignedProposal<T> {
    fn decode(r: &Rlp) -> Result<Self, DecoderError> {
        let sig: Vec<u8> = r.val_at(0)?;
        let c: Vec<u8> = r.val_at(1)?;
        let content = T::decode(Bytes::from(c)).map_err(|_| DecoderError::Custom("content"))?;
        Ok(SignedProposal { signature: Bytes::from(sig), content })
    }
}
impl Encodable for SignedVote {
    fn rlp_append(&self, s: &mut RlpStream) { s.begin_list(2).append(&self.signature.to_vec()).append(&self.epoch_id); }
}
impl Decodable for SignedVote {
    fn decode(r: &Rlp) -> Result<Self, DecoderError> {
        let sig: Vec<u8> = r.val_at(0)?;
        Ok(SignedVote { signature: Bytes::from(sig), epoch_id: r.val_at(1)? })
    }
}
impl Encodable for AggregatedVote {
    fn rlp_append(&self, s: &mut RlpStream) {
        s.begin_list(3)
            .append(&self.signature.signature.to_vec())
            .append(&self.signature.address_bitmap.to_vec())
            .append(&self.epoch_id);
    }
}
impl Decodable for AggregatedVote {
    fn decode(r: &Rlp) -> Result<Self, DecoderError> {
        let a: Vec<u8> = r.val_at(0)?;
        let b: Vec<u8> = r.val_at(1)?;
        Ok(AggregatedVote {
            signature: AggregatedSignature { signature: Bytes::from(a), address_bitmap: Bytes::from(b) },
            epoch_id:  r.val_at(2)?,
        })
    }
}
