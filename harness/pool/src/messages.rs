//! Replays behaviours of spec/Codec.tla on the messages nodes exchange. Objects and observations are the codec driver's.
#[path = "../../chain/src/util.rs"]
#[allow(unused)]
#[allow(dead_code)]
mod util;
#[path = "../../chain/src/codec.rs"]
#[allow(dead_code)]
mod codec;

use bytes::Bytes;
use futures::executor::block_on;
use serde_derive::{Deserialize, Serialize};

use codec::{bytes as raw, epoch, es, hashes, list, num, signed, Obj, Registry};
use core_consensus::fixed_types::{ConsensusRpcRequest, ConsensusRpcResponse, FixedEpochID, FixedPill, FixedSignedTxs, PullTxsRequest};
use core_consensus::message::{Proposal, RichEpochID, Vote, QC};
use core_mempool::MsgPushTxs;
use overlord::Codec;
use protocol::traits::MessageCodec;
use protocol::types::{Epoch, Hash, Pill, SignedTransaction};

use crate::mempool::MsgHashes;

#[derive(Debug, Serialize, Deserialize)]
struct OneTx {
    #[serde(with = "core_network::serde")]
    inner: SignedTransaction,
}
#[derive(Debug, Serialize, Deserialize)]
struct OneEpoch {
    #[serde(with = "core_network::serde")]
    inner: Epoch,
}
#[derive(Debug, Serialize, Deserialize)]
struct Both {
    before: u64,
    #[serde(with = "core_network::serde_multi")]
    hs: Vec<Hash>,
    #[serde(with = "core_network::serde_multi")]
    txs: Vec<SignedTransaction>,
    after: u64,
}

macro_rules! enc {
    ($t:ty, $x:expr, msg) => {
        // the method wants a message of its own
        block_on(MessageCodec::encode(&mut $x)).map_err(es)
    };
    ($t:ty, $x:expr, codec) => {
        <$t as Codec>::encode(&$x).map_err(es)
    };
}
macro_rules! dec {
    ($t:ty, $b:expr, msg) => {
        block_on(<$t as MessageCodec>::decode($b)).map_err(es)
    };
    ($t:ty, $b:expr, codec) => {
        <$t as Codec>::decode($b).map_err(es)
    };
}
macro_rules! messages {
    ($( $name:literal $w:ident $t:ty : $($e:ident)+ ;)+) => {
        $(
            struct $w(std::cell::RefCell<$t>);
            impl Obj for $w {
                fn show(&self) -> String {
                    format!("{:?}", self.0.borrow())
                }
                fn kind(&self) -> &'static str {
                    $name
                }
                fn enc(&self, e: &str) -> Result<Bytes, String> {
                    $( if e == stringify!($e) { return enc!($t, *self.0.borrow_mut(), $e); } )+
                    panic!("encoding {}", e)
                }
            }
            impl From<$t> for Box<dyn Obj> {
                fn from(x: $t) -> Self {
                    Box::new($w(std::cell::RefCell::new(x)))
                }
            }
        )+
        const KINDS: &[&str] = &[$($name),+];
        fn decode(kind: &str, e: &str, b: Bytes) -> Result<Box<dyn Obj>, String> {
            $( $( if kind == $name && e == stringify!($e) {
                let r: Result<$t, String> = dec!($t, b, $e);
                return r.map(|x| x.into());
            } )+ )+
            panic!("{} {}", kind, e)
        }
        fn encodings(kind: &str) -> Vec<&'static str> {
            $( if kind == $name { return vec![$(stringify!($e)),+]; } )+
            panic!("kind {}", kind)
        }
    };
}

messages! {
    "pushtxs" WPushTxs MsgPushTxs : msg;
    "pulltxs" WPullTxs MsgHashes : msg;
    "fixedtxs" WFixedTxs FixedSignedTxs : msg codec;
    "fixedpill" WPill FixedPill : codec;
    "fixedid" WId FixedEpochID : msg;
    "request" WRequest ConsensusRpcRequest : msg;
    "response" WResponse ConsensusRpcResponse : msg;
    "proposal" WProposal Proposal : msg;
    "vote" WVote Vote : msg;
    "qc" WQC QC : msg;
    "richid" WRich RichEpochID : msg;
    "onetx" WOneTx OneTx : msg;
    "oneepoch" WOneEpoch OneEpoch : msg;
    "both" WBoth Both : msg;
}

const VARIANTS: [&str; 5] = ["transfer", "approve", "deploy", "call", "callwith"];

fn txs(c: i64) -> Vec<SignedTransaction> {
    list(c)
        .into_iter()
        .map(|i| {
            let mut f = vec![4 + i % 2, i % 6, i + 2, 5, i];
            f.extend(match i % 4 {
                0 => vec![1, 2, 3],
                1 => vec![1, 2, 3],
                2 => vec![8, 1],
                _ => vec![2, 1, 3],
            });
            f.extend(vec![4, 8 + i % 2, 8]);
            signed(VARIANTS[i as usize % 4], &f)
        })
        .collect()
}

fn build(kind: &str, var: &str, f: &[i64]) -> Box<dyn Obj> {
    let n = f.len();
    match kind {
        "pushtxs" => MsgPushTxs { sig_txs: txs(f[0]) }.into(),
        "pulltxs" => MsgHashes { hashes: hashes(f[0]) }.into(),
        "fixedtxs" => FixedSignedTxs::new(txs(f[0])).into(),
        "fixedpill" => FixedPill { inner: Pill { epoch: epoch(f), propose_hashes: hashes(f[n - 1]) } }.into(),
        "fixedid" => FixedEpochID::new(num(f[0])).into(),
        "request" => match var {
            "epoch" => ConsensusRpcRequest::PullEpochs(num(f[0])).into(),
            _ => ConsensusRpcRequest::PullTxs(PullTxsRequest::new(hashes(f[0]))).into(),
        },
        "response" => match var {
            "epoch" => ConsensusRpcResponse::PullEpochs(Box::new(epoch(f))).into(),
            _ => ConsensusRpcResponse::PullTxs(Box::new(FixedSignedTxs::new(txs(f[0])))).into(),
        },
        "proposal" => Proposal(raw(f[0]).to_vec()).into(),
        "vote" => Vote(raw(f[0]).to_vec()).into(),
        "qc" => QC(raw(f[0]).to_vec()).into(),
        "richid" => RichEpochID::from(FixedEpochID::new(num(f[0]))).into(),
        "onetx" => OneTx { inner: signed(var, f) }.into(),
        "oneepoch" => OneEpoch { inner: epoch(f) }.into(),
        "both" => Both { before: num(f[0]), hs: hashes(f[1]), txs: txs(f[2]), after: num(f[3]) }.into(),
        _ => panic!("kind {}", kind),
    }
}

pub fn main() {
    codec::replay(&Registry { kinds: KINDS, build, dec: decode, encodings, hashes: false })
}
