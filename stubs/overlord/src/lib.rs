//! Stand-in for `overlord` 0.1, which is not available offline: the traits and types through which
//! the repository talks to the BFT engine. The engine itself is out of scope here; the harness plays
//! its part by calling the repository's `Consensus` implementation, and reads what the repository
//! sends to the engine through `OverlordHandler`.
use std::error::Error;
use std::fmt;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use bytes::Bytes;
use creep::Context;
use serde::{Deserialize, Serialize};

mod crash;
mod node;
pub mod types;
use rlp::Encodable;
use types::{AggregatedSignature, Commit, Node, OverlordMsg, Status};

pub trait Codec: Clone + Debug + Send + PartialEq + Eq {
    fn encode(&self) -> Result<Bytes, Box<dyn Error + Send>>;
    fn decode(data: Bytes) -> Result<Self, Box<dyn Error + Send>>;
}

#[async_trait]
pub trait Consensus<T: Codec, S: Codec>: Send + Sync {
    async fn get_epoch(&self, ctx: Context, epoch_id: u64) -> Result<(T, Bytes), Box<dyn Error + Send>>;
    async fn check_epoch(&self, ctx: Context, epoch_id: u64, hash: Bytes, epoch: T) -> Result<S, Box<dyn Error + Send>>;
    async fn commit(&self, ctx: Context, epoch_id: u64, commit: Commit<T>) -> Result<Status, Box<dyn Error + Send>>;
    async fn get_authority_list(&self, ctx: Context, epoch_id: u64) -> Result<Vec<Node>, Box<dyn Error + Send>>;
    async fn broadcast_to_other(&self, ctx: Context, msg: OverlordMsg<T>) -> Result<(), Box<dyn Error + Send>>;
    async fn transmit_to_relayer(&self, ctx: Context, addr: Bytes, msg: OverlordMsg<T>) -> Result<(), Box<dyn Error + Send>>;
}

pub trait Crypto: Send {
    fn hash(&self, msg: Bytes) -> Bytes;
    fn sign(&self, hash: Bytes) -> Result<Bytes, Box<dyn Error + Send>>;
    fn aggregate_signatures(&self, signatures: Vec<Bytes>, voters: Vec<Bytes>) -> Result<Bytes, Box<dyn Error + Send>>;
    fn verify_signature(&self, signature: Bytes, hash: Bytes) -> Result<Bytes, Box<dyn Error + Send>>;
    fn verify_aggregated_signature(&self, aggregated_signature: AggregatedSignature) -> Result<(), Box<dyn Error + Send>>;
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct DurationConfig {
    pub propose_numerator:     u64,
    pub propose_denominator:   u64,
    pub prevote_numerator:     u64,
    pub prevote_denominator:   u64,
    pub precommit_numerator:   u64,
    pub precommit_denominator: u64,
}

#[derive(Clone, Debug)]
pub struct ConsensusError(pub String);
impl fmt::Display for ConsensusError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) }
}
impl Error for ConsensusError {}

/// What the repository sent to the engine; the messages as they came.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sent {
    RichStatus(Status),
    SignedProposal(Vec<u8>),
    SignedVote(Vec<u8>),
    AggregatedVote(Vec<u8>),
}

/// The repository's side of the engine, with contents as they are encoded.
#[async_trait]
pub trait Driven: Send + Sync {
    async fn get_epoch(&self, ctx: Context, epoch_id: u64) -> Result<(Bytes, Bytes), Box<dyn Error + Send>>;
    async fn check_epoch(&self, ctx: Context, epoch_id: u64, hash: Bytes, epoch: Bytes) -> Result<Bytes, Box<dyn Error + Send>>;
    async fn commit(&self, ctx: Context, epoch_id: u64, content: Bytes, proof: types::Proof) -> Result<Status, Box<dyn Error + Send>>;
    async fn get_authority_list(&self, ctx: Context, epoch_id: u64) -> Result<Vec<Node>, Box<dyn Error + Send>>;
    async fn send(&self, ctx: Context, to: Option<Bytes>, msg: Sent) -> Result<(), Box<dyn Error + Send>>;
    fn crypto(&self) -> &Mutex<dyn Crypto>;
}

lazy_static::lazy_static! {
    static ref SENT: Mutex<Vec<Sent>> = Mutex::new(Vec::new());
    static ref LAST: Mutex<Option<Arc<dyn Driven>>> = Mutex::new(None);
}
pub fn take_sent() -> Vec<Sent> { std::mem::replace(&mut *SENT.lock().unwrap(), Vec::new()) }
/// The engine created last.
pub fn take_driven() -> Option<Arc<dyn Driven>> { LAST.lock().unwrap().take() }

pub struct OverlordHandler<T: Codec>(PhantomData<fn() -> T>);
impl<T: Codec> OverlordHandler<T> {
    pub fn send_msg(&self, ctx: Context, msg: OverlordMsg<T>) -> Result<(), ConsensusError> {
        let s = match msg {
            OverlordMsg::RichStatus(s) => Sent::RichStatus(s),
            OverlordMsg::SignedProposal(m) => Sent::SignedProposal(m.rlp_bytes()),
            OverlordMsg::SignedVote(m) => Sent::SignedVote(m.rlp_bytes()),
            OverlordMsg::AggregatedVote(m) => Sent::AggregatedVote(m.rlp_bytes()),
        };
        if node::on() {
            node::heard(ctx, s);
        } else {
            SENT.lock().unwrap().push(s);
        }
        Ok(())
    }
}

struct Engine<T, S, F, C> {
    engine: Arc<F>,
    crypto: Mutex<C>,
    pin:    PhantomData<fn() -> (T, S)>,
}

fn bad() -> Box<dyn Error + Send> { Box::new(ConsensusError("message".to_owned())) }

#[async_trait]
impl<T: Codec + 'static, S: Codec + 'static, F: Consensus<T, S> + 'static, C: Crypto + Send + 'static> Driven for Engine<T, S, F, C> {
    async fn get_epoch(&self, ctx: Context, epoch_id: u64) -> Result<(Bytes, Bytes), Box<dyn Error + Send>> {
        let (content, hash) = self.engine.get_epoch(ctx, epoch_id).await?;
        Ok((content.encode()?, hash))
    }
    async fn check_epoch(&self, ctx: Context, epoch_id: u64, hash: Bytes, epoch: Bytes) -> Result<Bytes, Box<dyn Error + Send>> {
        let content = T::decode(epoch)?;
        let full = self.engine.check_epoch(ctx, epoch_id, hash, content).await?;
        full.encode()
    }
    async fn commit(&self, ctx: Context, epoch_id: u64, content: Bytes, proof: types::Proof) -> Result<Status, Box<dyn Error + Send>> {
        let content = T::decode(content)?;
        self.engine.commit(ctx, epoch_id, Commit { epoch_id, content, proof }).await
    }
    async fn get_authority_list(&self, ctx: Context, epoch_id: u64) -> Result<Vec<Node>, Box<dyn Error + Send>> {
        self.engine.get_authority_list(ctx, epoch_id).await
    }
    async fn send(&self, ctx: Context, to: Option<Bytes>, msg: Sent) -> Result<(), Box<dyn Error + Send>> {
        let msg: OverlordMsg<T> = match msg {
            Sent::SignedProposal(m) => OverlordMsg::SignedProposal(rlp::decode(&m).map_err(|_| bad())?),
            Sent::SignedVote(m) => OverlordMsg::SignedVote(rlp::decode(&m).map_err(|_| bad())?),
            Sent::AggregatedVote(m) => OverlordMsg::AggregatedVote(rlp::decode(&m).map_err(|_| bad())?),
            Sent::RichStatus(_) => return Err(bad()),
        };
        match to {
            None => self.engine.broadcast_to_other(ctx, msg).await,
            Some(a) => self.engine.transmit_to_relayer(ctx, a, msg).await,
        }
    }
    fn crypto(&self) -> &Mutex<dyn Crypto> { &self.crypto }
}

pub struct Overlord<T: Codec, S: Codec, F: Consensus<T, S>, C: Crypto> {
    pin:    PhantomData<fn() -> (T, S, F, C)>,
    me:     Bytes,
    driven: Arc<dyn Driven>,
}
impl<T: Codec + 'static, S: Codec + 'static, F: Consensus<T, S> + 'static, C: Crypto + Send + 'static> Overlord<T, S, F, C> {
    pub fn new(address: Bytes, engine: Arc<F>, crypto: C) -> Self {
        let driven: Arc<dyn Driven> = Arc::new(Engine { engine, crypto: Mutex::new(crypto), pin: PhantomData });
        *LAST.lock().unwrap() = Some(Arc::clone(&driven));
        Overlord { pin: PhantomData, me: address, driven }
    }
    pub fn get_handler(&self) -> OverlordHandler<T> { OverlordHandler(PhantomData) }
    pub async fn run(&self, _interval: u64, _timer: Option<DurationConfig>) -> Result<(), ConsensusError> {
        if node::on() {
            node::run(self.me.clone(), Arc::clone(&self.driven));
            futures::future::pending::<()>().await;
        }
        Ok(())
    }
}
