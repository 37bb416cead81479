//! Replays behaviours of spec/Chain.tla on the real consensus engine: OverlordConsensus and its engine with the real
//! adapter, pool, executor and store, driven as overlord would drive them, next to a peer whose chain is built apart.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use bytes::Bytes;
use cita_trie::{MemoryDB, DB};
use serde_json::{json, Value};

use common_crypto::{PrivateKey, PublicKey, Secp256k1};
use common_merkle::Merkle;
use core_consensus::adapter::OverlordConsensusAdapter;
use core_consensus::consensus::OverlordConsensus;
use core_consensus::fixed_types::{ConsensusRpcRequest, ConsensusRpcResponse, FixedEpochID, FixedPill, FixedSignedTxs};
use core_consensus::message::*;
use core_consensus::status::restore_status;
use core_executor::TransactionExecutorFactory;
use core_mempool::{DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, END_RPC_PULL_TXS};
use core_storage::adapter::memory::MemoryAdapter;
use core_storage::ImplStorage;
use overlord::types::{AggregatedSignature, AggregatedVote, SignedProposal, SignedVote};
use overlord::{Codec, Driven, Sent};
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::executor::ExecutorFactory;
use protocol::traits::*;
use protocol::types::*;
use protocol::ProtocolResult;
use rlp::Encodable;

use crate::mempool::{chain_id, drive, fail, hash_of, must, raw_tx, secret, signed, MsgHashes};
use crate::util::*;

const PRICE: u64 = 2;
const LIMIT: u64 = 1 << 40;
const ME: u8 = 5;
const VALIDATORS: [u8; 3] = [7, ME, 6];

/// Counts what is written, and fails or runs something else at one of the writes.
#[derive(Default)]
struct Ctl {
    writes: i64,
    fail:   i64,
    crash:  bool,
    down:   bool,
    hook:   Option<(i64, Box<dyn FnMut() + Send>)>,
}

#[derive(Clone, Default)]
struct Ctls(Arc<Mutex<Ctl>>);

impl Ctls {
    fn arm(&self, fail: i64, crash: bool) {
        let mut c = self.0.lock().expect("lock");
        c.writes = 0;
        c.fail = fail;
        c.crash = crash;
        c.down = false;
    }
    fn disarm(&self) {
        self.arm(0, false);
        self.0.lock().expect("lock").hook = None;
    }
    fn read(&self) -> ProtocolResult<()> {
        if self.0.lock().expect("lock").down { fail() } else { Ok(()) }
    }
    fn write(&self) -> ProtocolResult<()> {
        let mut c = self.0.lock().expect("lock");
        if c.down {
            return fail();
        }
        c.writes += 1;
        if c.writes == c.fail {
            c.down = c.crash;
            return fail();
        }
        let due = match &c.hook {
            Some((k, _)) => *k == c.writes,
            None => false,
        };
        if due {
            if let Some((_, mut f)) = c.hook.take() {
                drop(c);
                f();
            }
        }
        Ok(())
    }
}

struct Flaky {
    inner: MemoryAdapter,
    ctl:   Ctls,
}

#[async_trait]
impl StorageAdapter for Flaky {
    async fn insert<S: StorageSchema>(&self, key: <S as StorageSchema>::Key, val: <S as StorageSchema>::Value) -> ProtocolResult<()> {
        self.ctl.write()?;
        self.inner.insert::<S>(key, val).await
    }
    async fn get<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> ProtocolResult<Option<<S as StorageSchema>::Value>> {
        self.ctl.read()?;
        self.inner.get::<S>(key).await
    }
    async fn remove<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> ProtocolResult<()> {
        self.ctl.write()?;
        self.inner.remove::<S>(key).await
    }
    async fn contains<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> ProtocolResult<bool> {
        self.ctl.read()?;
        self.inner.contains::<S>(key).await
    }
    async fn batch_modify<S: StorageSchema>(
        &self,
        keys: Vec<<S as StorageSchema>::Key>,
        vals: Vec<StorageBatchModify<S>>,
    ) -> ProtocolResult<()> {
        self.ctl.write()?;
        self.inner.batch_modify::<S>(keys, vals).await
    }
}

/// The state database, part of what is written.
struct Trie {
    inner: MemoryDB,
    ctl:   Ctls,
}

#[derive(Debug)]
struct TrieFailure;
impl std::fmt::Display for TrieFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "trie database")
    }
}
impl std::error::Error for TrieFailure {}

impl DB for Trie {
    type Error = TrieFailure;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, TrieFailure> {
        self.inner.get(key).map_err(|_| TrieFailure)
    }
    fn contains(&self, key: &[u8]) -> Result<bool, TrieFailure> {
        self.inner.contains(key).map_err(|_| TrieFailure)
    }
    fn insert(&self, key: Vec<u8>, value: Vec<u8>) -> Result<(), TrieFailure> {
        self.inner.insert(key, value).map_err(|_| TrieFailure)
    }
    fn insert_batch(&self, keys: Vec<Vec<u8>>, values: Vec<Vec<u8>>) -> Result<(), TrieFailure> {
        self.ctl.write().map_err(|_| TrieFailure)?;
        self.inner.insert_batch(keys, values).map_err(|_| TrieFailure)
    }
    fn remove(&self, key: &[u8]) -> Result<(), TrieFailure> {
        self.inner.remove(key).map_err(|_| TrieFailure)
    }
    fn flush(&self) -> Result<(), TrieFailure> {
        self.inner.flush().map_err(|_| TrieFailure)
    }
}

/// What the peer does when it is asked.
#[derive(Clone, Default)]
struct Peer {
    supply: Vec<SignedTransaction>,
    at:     u64,
    how:    String,
}

#[derive(Clone)]
struct Net {
    peer:  Arc<Mutex<Peer>>,
    chain: Arc<ImplStorage<MemoryAdapter>>,
    // the height last asked for
    asked: Arc<Mutex<u64>>,
    mute:  Arc<Mutex<bool>>,
    // endpoint, to whom, what
    casts: Arc<Mutex<Vec<(String, Option<Vec<UserAddress>>, Bytes)>>>,
    resps: Arc<Mutex<Vec<(String, Bytes)>>>,
}

impl Net {
    fn to(&self) -> Net {
        Net { resps: Default::default(), ..self.clone() }
    }
}

#[async_trait]
impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let bytes = msg.encode().await?;
        self.casts.lock().expect("lock").push((end.to_owned(), None, bytes));
        if *self.mute.lock().expect("lock") { fail() } else { Ok(()) }
    }
    async fn users_cast<M: MessageCodec>(&self, _: Context, end: &str, to: Vec<UserAddress>, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let bytes = msg.encode().await?;
        self.casts.lock().expect("lock").push((end.to_owned(), Some(to), bytes));
        if *self.mute.lock().expect("lock") { fail() } else { Ok(()) }
    }
}

#[async_trait]
impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, ctx: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        let bytes = msg.encode().await?;
        if end == END_RPC_PULL_TXS {
            let asked = MsgHashes::decode(bytes).await?;
            let have = self.peer.lock().expect("lock").supply.clone();
            let sig_txs = asked.hashes.iter().filter_map(|h| have.iter().find(|t| t.tx_hash == *h)).cloned().collect();
            let mut push = MsgPushTxs { sig_txs };
            let bytes = push.encode().await?;
            return R::decode(bytes).await;
        }
        if end != RPC_SYNC_PULL {
            return fail();
        }
        // the peer's own handler, on its own store
        let there = self.to();
        let handler = RpcHandler::new(Arc::new(there.clone()), Arc::clone(&self.chain));
        let request = ConsensusRpcRequest::decode(bytes).await?;
        if let ConsensusRpcRequest::PullEpochs(id) = &request {
            *self.asked.lock().expect("lock") = *id;
        }
        let peer = self.peer.lock().expect("lock").clone();
        let at = *self.asked.lock().expect("lock");
        let bad = peer.at == at;
        if bad && peer.how == "down" {
            return fail();
        }
        if bad && peer.how == "notxs" {
            if let ConsensusRpcRequest::PullTxs(_) = &request {
                return fail();
            }
        }
        handler.process(ctx, request).await?;
        let got = there.resps.lock().expect("lock").pop();
        let answer = match got {
            Some((end, bytes)) => if end == RPC_RESP_SYNC_PULL { bytes } else { return fail() },
            None => return fail(),
        };
        let mut answer = ConsensusRpcResponse::decode(answer).await?;
        if bad {
            answer = self.spoil(answer, &peer.how, at).await;
        }
        R::decode(answer.encode().await?).await
    }
    async fn response<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let bytes = msg.encode().await?;
        self.resps.lock().expect("lock").push((end.to_owned(), bytes));
        Ok(())
    }
}

impl Net {
    async fn spoil(&self, answer: ConsensusRpcResponse, how: &str, at: u64) -> ConsensusRpcResponse {
        match answer {
            ConsensusRpcResponse::PullEpochs(epoch) => {
                let mut epoch = *epoch;
                match how {
                    "height" => epoch.header.epoch_id += 1,
                    "low" => epoch.header.epoch_id = 0,
                    "prev" => epoch.header.pre_hash = Hash::digest(Bytes::from("prev")),
                    "older" => epoch = self.chain.get_epoch_by_epoch_id(at - 1).await.expect("epoch"),
                    "kind" => return ConsensusRpcResponse::PullTxs(Box::new(FixedSignedTxs::new(vec![]))),
                    _ => (),
                }
                ConsensusRpcResponse::PullEpochs(Box::new(epoch))
            }
            ConsensusRpcResponse::PullTxs(txs) => {
                let mut txs = txs.inner;
                match how {
                    "less" => {
                        txs.pop();
                    }
                    "more" => {
                        let t = txs[0].clone();
                        txs.push(t);
                    }
                    "order" => txs.reverse(),
                    "content" => txs[0].raw.timeout += 1,
                    "sender" => txs[0].pubkey = secret(2).pub_key().to_bytes(),
                    "other" => {
                        let raw = raw_tx(77, 50_000, 50, chain_id(true));
                        txs[0] = signed(&raw, hash_of(&raw), "ok");
                    }
                    "kindtxs" => {
                        let epoch = self.chain.get_epoch_by_epoch_id(at).await.expect("epoch");
                        return ConsensusRpcResponse::PullEpochs(Box::new(epoch));
                    }
                    _ => (),
                }
                ConsensusRpcResponse::PullTxs(Box::new(FixedSignedTxs::new(txs)))
            }
        }
    }
}

type Store = ImplStorage<Flaky>;
type Pool = HashMemPool<DefaultMemPoolAdapter<Secp256k1, Net, Store>>;
type Adapter = OverlordConsensusAdapter<TransactionExecutorFactory, Net, Pool, Net, Store, Trie>;

fn address(n: u8) -> UserAddress {
    UserAddress::from_pubkey_bytes(secret(n).pub_key().to_bytes()).expect("address")
}

fn validators() -> Vec<Validator> {
    VALIDATORS.iter().map(|n| Validator { address: address(*n), propose_weight: *n, vote_weight: 1 }).collect()
}

fn coin() -> Hash {
    let code = ContractAddress::from_code(Bytes::from("coin"), 0, ContractType::Asset).expect("address");
    Hash::digest(Bytes::from([chain_id(true).as_bytes(), code.as_bytes()].concat()))
}

/// The transaction n: one in three asks for more than there is.
fn tx(n: i64) -> SignedTransaction {
    let mut raw = raw_tx(n, 50_000, 50, chain_id(true));
    raw.fee.asset_id = coin();
    let amount = if n % 3 == 0 { 1 << 50 } else { n as u64 };
    raw.action = TransactionAction::Transfer { receiver: address(9), carrying_asset: CarryingAsset { asset_id: coin(), amount: Balance::from(amount) } };
    let hash = hash_of(&raw);
    signed(&raw, hash, "ok")
}

fn root_of(hashes: Vec<Hash>) -> Hash {
    Merkle::from_hashes(hashes).get_root_hash().unwrap_or_else(Hash::from_empty)
}

fn receipts_root(receipts: &[Receipt]) -> Hash {
    root_of(receipts.iter().map(|r| Hash::digest(r.encode_fixed().expect("encode"))).collect())
}

fn block_hash(epoch: &Epoch) -> Hash {
    Hash::digest(epoch.encode_fixed().expect("encode"))
}

/// A block of the network's chain, and what executing it gives.
#[derive(Clone)]
struct Block {
    epoch: Epoch,
    proof: Proof,
    root:  Hash,
    rroot: Hash,
}

struct World {
    rt:    &'static Rt,
    txs:   Vec<SignedTransaction>,
    index: HashMap<Hash, i64>,
    ids:   Mutex<HashMap<Hash, i64>>,
    refdb: Arc<MemoryDB>,
    chain: Mutex<Vec<Block>>,
    net:   Net,
    ctl:   Ctls,
    store: Arc<Store>,
    trie:  Arc<Trie>,
    node:  Mutex<Option<Arc<Running>>>,
    // own proposal: content and hash
    own:   Mutex<Option<(Bytes, Bytes)>>,
}

struct Running {
    pool:      Arc<Pool>,
    consensus: Arc<OverlordConsensus<Adapter>>,
    engine:    Arc<dyn Driven>,
}

fn genesis<D: DB + 'static>(db: &Arc<D>) -> Hash {
    let genesis: Genesis = serde_json::from_value(json!({
        "timestamp": 0, "prevhash": "",
        "system_token": {"code": hex::encode("coin"), "name": "coin", "symbol": "C", "supply": 1_000_000_000},
        "state_alloc": [{"address": Address::User(address(1)).as_hex(),
                         "assets": [{"asset_id": coin().as_hex(), "balance": hex::encode(Balance::from(1_000_000_000u64).to_bytes_be())}]}],
    }))
    .expect("genesis");
    TransactionExecutorFactory::from_root(chain_id(true), Hash::from_empty(), Arc::clone(db), 0, PRICE, Address::User(address(1)))
        .and_then(|mut e| e.create_genesis(&genesis))
        .expect("genesis")
}

impl World {
    fn new(op: &Value, rt: &'static Rt) -> (Arc<World>, Value) {
        let txs: Vec<SignedTransaction> = (1..=int(op, "n")).map(tx).collect();
        let index = txs.iter().enumerate().map(|(i, t)| (t.tx_hash.clone(), i as i64 + 1)).collect();
        let ctl = Ctls::default();
        let net = Net {
            peer: Default::default(),
            chain: Arc::new(ImplStorage::new(Arc::new(MemoryAdapter::new()))),
            asked: Default::default(),
            mute: Default::default(),
            casts: Default::default(),
            resps: Default::default(),
        };
        let refdb = Arc::new(MemoryDB::new(false));
        let w = World {
            rt,
            txs,
            index,
            ids: Default::default(),
            refdb,
            chain: Default::default(),
            net,
            store: Arc::new(ImplStorage::new(Arc::new(Flaky { inner: MemoryAdapter::new(), ctl: ctl.clone() }))),
            trie: Arc::new(Trie { inner: MemoryDB::new(false), ctl: ctl.clone() }),
            ctl,
            node: Mutex::new(None),
            own: Mutex::new(None),
        };
        // as handle_init of main.rs
        let root = genesis(&w.refdb);
        assert_eq!(root, genesis(&w.trie));
        let proof = Proof { epoch_id: 0, round: 0, epoch_hash: Hash::from_empty(), signature: Bytes::new(), bitmap: Bytes::new() };
        let header = EpochHeader {
            chain_id: chain_id(true),
            epoch_id: 0,
            pre_hash: Hash::from_empty(),
            timestamp: 0,
            logs_bloom: Bloom::default(),
            order_root: Hash::from_empty(),
            confirm_root: vec![],
            state_root: root.clone(),
            receipt_root: vec![Hash::from_empty()],
            cycles_used: 0,
            proposer: UserAddress::from_hex("100000000000000000000000000000000000000000").expect("address"),
            proof: proof.clone(),
            validator_version: 0,
            validators: vec![],
        };
        let epoch = Epoch { header, ordered_tx_hashes: vec![] };
        let block = Block { epoch: epoch.clone(), proof: proof.clone(), root, rroot: Hash::from_empty() };
        must(w.store.insert_epoch(epoch.clone())).expect("store");
        must(w.store.update_latest_proof(proof)).expect("store");
        must(w.net.chain.insert_epoch(epoch)).expect("store");
        w.chain.lock().expect("lock").push(block.clone());
        let facts = w.facts(&block);
        w.start();
        (Arc::new(w), facts)
    }

    fn id(&self, h: &Hash) -> i64 {
        let mut ids = self.ids.lock().expect("lock");
        let n = ids.len() as i64 + 1;
        *ids.entry(h.clone()).or_insert(n)
    }

    fn proof_id(&self, p: &Proof) -> i64 {
        self.id(&Hash::digest(p.encode_fixed().expect("encode")))
    }

    fn numbers(&self, hs: &[Hash]) -> Vec<i64> {
        hs.iter().map(|h| self.index.get(h).cloned().unwrap_or(0)).collect()
    }

    fn list(&self, op: &Value, k: &str) -> Vec<SignedTransaction> {
        arr(op, k).iter().map(|n| self.txs[n.as_i64().expect("n") as usize - 1].clone()).collect()
    }

    fn facts(&self, b: &Block) -> Value {
        json!({
            "txs": self.numbers(&b.epoch.ordered_tx_hashes), "hash": self.id(&block_hash(&b.epoch)),
            "oroot": self.id(&root_of(b.epoch.ordered_tx_hashes.clone())), "proof": self.proof_id(&b.proof),
            "root": self.id(&b.root), "rroot": self.id(&b.rroot),
        })
    }

    /// A fresh process on what is stored, as start of main.rs.
    fn start(&self) {
        *self.node.lock().expect("lock") = None;
        self.rt.clear();
        *self.own.lock().expect("lock") = None;
        let adapter = DefaultMemPoolAdapter::<Secp256k1, _, _>::new(self.net.clone(), Arc::clone(&self.store), 100, 100, 200);
        let pool = Arc::new(HashMemPool::new(100, 100, adapter));
        let adapter = Arc::new(Adapter::new(
            Arc::new(self.net.clone()),
            Arc::new(self.net.clone()),
            Arc::clone(&pool),
            Arc::clone(&self.store),
            Arc::clone(&self.trie),
        ));
        let info = NodeInfo { chain_id: chain_id(true), self_address: address(ME) };
        let status = must(restore_status(self.store.as_ref(), PRICE, LIMIT, validators(), 3)).expect("status");
        let consensus = Arc::new(OverlordConsensus::new(status, info, secret(ME), adapter));
        let engine = overlord::take_driven().expect("engine");
        *self.node.lock().expect("lock") = Some(Arc::new(Running { pool, consensus, engine }));
        self.rt.run(1);
    }

    fn running(&self) -> Arc<Running> {
        Arc::clone(self.node.lock().expect("lock").as_ref().expect("running"))
    }

    /// A block on top of the one at height k of the network's chain.
    fn block_on(&self, k: usize, txs: &[SignedTransaction], proposer: u8) -> Epoch {
        let chain = self.chain.lock().expect("lock");
        let b = &chain[k];
        let hashes: Vec<Hash> = txs.iter().map(|t| t.tx_hash.clone()).collect();
        let header = EpochHeader {
            chain_id: chain_id(true),
            epoch_id: k as u64 + 1,
            pre_hash: block_hash(&b.epoch),
            timestamp: 100 + k as u64,
            logs_bloom: b.epoch.header.logs_bloom.clone(),
            order_root: root_of(hashes.clone()),
            confirm_root: vec![root_of(b.epoch.ordered_tx_hashes.clone())],
            state_root: b.root.clone(),
            receipt_root: vec![b.rroot.clone()],
            cycles_used: b.epoch.header.cycles_used,
            proposer: address(proposer),
            proof: b.proof.clone(),
            validator_version: 0,
            validators: validators(),
        };
        Epoch { header, ordered_tx_hashes: hashes }
    }

    /// The network decides on a block.
    fn decide(&self, epoch: Epoch) -> Value {
        let k = self.chain.lock().expect("lock").len() as u64;
        let before = self.chain.lock().expect("lock")[k as usize - 1].clone();
        let txs: Vec<SignedTransaction> =
            epoch.ordered_tx_hashes.iter().filter_map(|h| self.index.get(h)).map(|n| self.txs[*n as usize - 1].clone()).collect();
        let done = TransactionExecutorFactory::from_root(
            chain_id(true),
            before.root.clone(),
            Arc::clone(&self.refdb),
            k,
            PRICE,
            Address::User(epoch.header.proposer.clone()),
        )
        .and_then(|mut e| e.exec(txs.clone()))
        .expect("execute");
        let proof = Proof {
            epoch_id: k,
            round: k % 2,
            epoch_hash: block_hash(&epoch),
            signature: Bytes::from(format!("signature {}", k)),
            bitmap: Bytes::from(format!("bitmap {}", k)),
        };
        let block = Block { epoch: epoch.clone(), proof: proof.clone(), root: done.state_root.clone(), rroot: receipts_root(&done.receipts) };
        must(self.net.chain.insert_transactions(txs)).expect("store");
        must(self.net.chain.insert_receipts(done.receipts)).expect("store");
        must(self.net.chain.insert_epoch(epoch)).expect("store");
        must(self.net.chain.update_latest_proof(proof)).expect("store");
        self.chain.lock().expect("lock").push(block.clone());
        self.facts(&block)
    }

    fn authority() -> Vec<overlord::types::Node> {
        let mut all: Vec<_> = VALIDATORS
            .iter()
            .map(|n| overlord::types::Node { address: address(*n).as_bytes(), propose_weight: *n, vote_weight: 1 })
            .collect();
        all.sort();
        all
    }

    fn header(&self, epoch: &Epoch) -> Value {
        let h = &epoch.header;
        json!({
            "height": h.epoch_id, "prev": self.id(&h.pre_hash), "oroot": self.id(&h.order_root),
            "confirm": h.confirm_root.iter().map(|r| self.id(r)).collect::<Vec<_>>(), "state": self.id(&h.state_root),
            "rroot": h.receipt_root.iter().map(|r| self.id(r)).collect::<Vec<_>>(), "proof": self.proof_id(&h.proof),
            "chain": h.chain_id == chain_id(true), "me": h.proposer == address(ME), "vals": h.validators == validators(),
            "merkle": self.id(&root_of(epoch.ordered_tx_hashes.clone())), "txs": self.numbers(&epoch.ordered_tx_hashes),
        })
    }

    fn run(&self, op: &Value, panics: &mut usize) -> Value {
        let mut out = op.clone();
        let ctx = Context::new();
        let node = self.running();
        let (pool, engine, consensus) = (Arc::clone(&node.pool), Arc::clone(&node.engine), Arc::clone(&node.consensus));
        *self.net.peer.lock().expect("lock") =
            Peer { supply: self.list(op, "supply"), at: int(&op["bad"], "at") as u64, how: s(&op["bad"], "how").to_owned() };
        let res: Option<bool> = match s(op, "op") {
            "insert" => {
                let tx = self.txs[int(op, "n") as usize - 1].clone();
                drive(self.rt, async move { pool.insert(ctx, tx).await.is_ok() }, panics)
            }
            "decide" => {
                let own = self.own.lock().expect("lock").clone().filter(|_| op["own"].as_bool().unwrap_or(false));
                let epoch = if let Some((content, _)) = own {
                    <FixedPill as Codec>::decode(content).expect("decode").inner.epoch
                } else {
                    let k = self.chain.lock().expect("lock").len() - 1;
                    self.block_on(k, &self.list(op, "txs"), 6)
                };
                out["fact"] = self.decide(epoch);
                Some(true)
            }
            "propose" => {
                let h = int(op, "h") as u64;
                match drive(self.rt, async move { engine.get_epoch(ctx, h).await.map_err(|_| ()) }, panics) {
                    Some(Ok((content, hash))) => {
                        let pill = <FixedPill as Codec>::decode(content.clone()).expect("decode").inner;
                        out["hd"] = self.header(&pill.epoch);
                        out["rest"] = json!(self.numbers(&pill.propose_hashes));
                        out["hashed"] = json!(hash == Hash::digest(content.clone()).as_bytes());
                        *self.own.lock().expect("lock") = Some((content, hash));
                        Some(true)
                    }
                    Some(Err(_)) => Some(false),
                    None => None,
                }
            }
            "check" => {
                let var = s(op, "var");
                let own = self.own.lock().expect("lock").clone().filter(|_| var == "own");
                let (content, hash, arg) = match own {
                    Some((c, h)) => (c, h, int(op, "base") as u64 + 1),
                    _ => self.proposal(op, var),
                };
                match drive(self.rt, async move { engine.check_epoch(ctx, arg, hash, content).await.map_err(|_| ()) }, panics) {
                    Some(Ok(full)) => {
                        let txs = <FixedSignedTxs as Codec>::decode(full).expect("decode").inner;
                        out["full"] = json!(txs
                            .iter()
                            .map(|t| self.index.get(&t.tx_hash).cloned().filter(|n| self.txs[*n as usize - 1] == *t).unwrap_or(0))
                            .collect::<Vec<_>>());
                        Some(true)
                    }
                    Some(Err(_)) => Some(false),
                    None => None,
                }
            }
            "commit" => {
                let k = int(op, "k") as u64;
                let b = self.chain.lock().expect("lock")[k as usize].clone();
                let pill = FixedPill { inner: Pill { epoch: b.epoch, propose_hashes: vec![] } };
                let proof = overlord::types::Proof {
                    epoch_id:   b.proof.epoch_id,
                    round:      b.proof.round,
                    epoch_hash: b.proof.epoch_hash.as_bytes(),
                    signature:  AggregatedSignature { signature: b.proof.signature, address_bitmap: b.proof.bitmap },
                };
                let content = pill.encode().expect("encode");
                match drive(self.rt, async move { engine.commit(ctx, k, content, proof).await.map_err(|_| ()) }, panics) {
                    Some(Ok(status)) => {
                        out["next"] = json!(status.epoch_id);
                        out["vals"] = json!(status.authority_list == World::authority() && status.interval == Some(3));
                        Some(true)
                    }
                    Some(Err(_)) => Some(false),
                    None => None,
                }
            }
            "announce" => {
                // as it arrives from a peer
                let handler = RichEpochIDMessageHandler::new(consensus);
                let n = int(op, "n");
                let bytes = if n < 0 { vec![1, 2, 3] } else { bincode::serialize(&FixedEpochID::new(n as u64)).expect("encode") };
                type M = <RichEpochIDMessageHandler<OverlordConsensus<Adapter>> as MessageHandler>::Message;
                let mut raw: Vec<u8> = bytes;
                let msg = must(<M as MessageCodec>::decode(must(MessageCodec::encode(&mut raw)).expect("encode"))).expect("decode");
                drive(self.rt, async move { handler.process(ctx, msg).await.is_ok() }, panics)
            }
            "restart" => {
                self.start();
                Some(true)
            }
            "authority" => {
                let k = int(op, "k") as u64;
                let want = self.chain.lock().expect("lock").get(k as usize).map(|b| b.epoch.header.validators.clone());
                match drive(self.rt, async move { engine.get_authority_list(ctx, k).await.map_err(|_| ()) }, panics) {
                    Some(Ok(list)) => {
                        let mut w: Vec<_> = want
                            .unwrap_or_default()
                            .iter()
                            .map(|v| overlord::types::Node { address: v.address.as_bytes(), propose_weight: v.propose_weight, vote_weight: v.vote_weight })
                            .collect();
                        w.sort();
                        out["vals"] = json!(list == w);
                        Some(true)
                    }
                    Some(Err(_)) => Some(false),
                    None => None,
                }
            }
            "relay" => self.relay(op, &mut out, panics),
            x => panic!("operation {}", x),
        };
        out["res"] = json!(match res {
            Some(true) => "ok",
            Some(false) => "err",
            None => "panic",
        });
        out
    }

    /// A proposal that fits, but for one thing.
    fn proposal(&self, op: &Value, var: &str) -> (Bytes, Bytes, u64) {
        let base = int(op, "base") as usize;
        let mut epoch = self.block_on(base, &self.list(op, "txs"), 6);
        let mut arg = epoch.header.epoch_id;
        let wrong = Hash::digest(Bytes::from("wrong"));
        let h = &mut epoch.header;
        match var {
            "height" => h.epoch_id += 1,
            "past" => h.epoch_id -= 1,
            "arg" => arg += 1,
            "both" => {
                arg += 1;
                h.epoch_id += 1;
            }
            "prev" => h.pre_hash = wrong,
            "chain" => h.chain_id = wrong,
            "order" => h.order_root = wrong,
            "confirm" => h.confirm_root = vec![wrong],
            "noconfirm" => h.confirm_root = vec![],
            "state" => h.state_root = wrong,
            "receipts" => h.receipt_root = vec![wrong],
            "noreceipts" => h.receipt_root = vec![],
            "twice" => {
                let t = epoch.ordered_tx_hashes[0].clone();
                epoch.ordered_tx_hashes.push(t);
                h.order_root = root_of(epoch.ordered_tx_hashes.clone());
            }
            "swap" => epoch.ordered_tx_hashes.reverse(),
            _ => (),
        }
        let propose_hashes = self.list(op, "prop").iter().map(|t| t.tx_hash.clone()).collect();
        let content = FixedPill { inner: Pill { epoch, propose_hashes } }.encode().expect("encode");
        let hash = Hash::digest(content.clone()).as_bytes();
        (content, hash, arg)
    }

    /// Messages between the engine and the network.
    fn relay(&self, op: &Value, out: &mut Value, panics: &mut usize) -> Option<bool> {
        let ctx = Context::new();
        let node = self.running();
        let n = int(op, "n") as u64;
        let kind = s(op, "kind");
        let sign = Bytes::from(format!("relayed {}", n));
        let bytes: Vec<u8> = match kind {
            "proposal" => {
                let k = self.chain.lock().expect("lock").len() - 1;
                let epoch = self.block_on(k, &self.txs[..1], 6);
                SignedProposal { signature: sign, content: FixedPill { inner: Pill { epoch, propose_hashes: vec![] } } }.rlp_bytes()
            }
            "vote" => SignedVote { signature: sign, epoch_id: n }.rlp_bytes(),
            _ => AggregatedVote { signature: AggregatedSignature { signature: sign, address_bitmap: Bytes::from("bits") }, epoch_id: n }.rlp_bytes(),
        };
        let bytes = match s(op, "spoil") {
            "cut" => bytes[..bytes.len() / 2].to_vec(),
            "empty" => vec![],
            "junk" => vec![0xf8, 0xff, 1, 2],
            _ => bytes,
        };
        overlord::take_sent();
        let sent = |w: &Sent| match (kind, w) {
            ("proposal", Sent::SignedProposal(b)) | ("vote", Sent::SignedVote(b)) | ("qc", Sent::AggregatedVote(b)) => *b == bytes,
            _ => false,
        };
        macro_rules! arrive {
            ($handler: ident, $bytes: expr) => {{
                let handler = $handler::new(Arc::clone(&node.consensus));
                type M = <$handler<OverlordConsensus<Adapter>> as MessageHandler>::Message;
                match must(<M as MessageCodec>::decode($bytes)) {
                    Ok(msg) => drive(self.rt, async move { handler.process(Context::new(), msg).await.is_ok() }, panics),
                    Err(_) => Some(false),
                }
            }};
        }
        let (to, end) = match s(op, "dir") {
            "out" => {
                let msg = match kind {
                    "proposal" => Sent::SignedProposal(bytes.clone()),
                    "vote" => Sent::SignedVote(bytes.clone()),
                    _ => Sent::AggregatedVote(bytes.clone()),
                };
                let to = if kind == "vote" { Some(address(n as u8 % 8 + 1)) } else { None };
                let (engine, who) = (Arc::clone(&node.engine), to.clone().map(|a| a.as_bytes()));
                let before = self.net.casts.lock().expect("lock").len();
                match drive(self.rt, async move { engine.send(ctx, who, msg).await.map_err(|_| ()) }, panics) {
                    Some(Ok(())) => (),
                    Some(Err(())) => return Some(false),
                    None => return None,
                }
                let mut casts = self.net.casts.lock().expect("lock");
                let mine: Vec<_> = casts.drain(before..).collect();
                if mine.len() != 1 {
                    out["got"] = json!(mine.len());
                    return Some(true);
                }
                out["to"] = json!(mine[0].1 == to.map(|a| vec![a]));
                (mine[0].2.clone(), mine[0].0.clone())
            }
            _ => {
                let mut raw = bytes.clone();
                let end = match kind {
                    "proposal" => END_GOSSIP_SIGNED_PROPOSAL,
                    "vote" => END_GOSSIP_SIGNED_VOTE,
                    _ => END_GOSSIP_AGGREGATED_VOTE,
                };
                out["to"] = json!(true);
                (must(MessageCodec::encode(&mut raw)).expect("encode"), end.to_owned())
            }
        };
        // taken in at the other end by the handler of that endpoint
        let res = match end.as_str() {
            END_GOSSIP_SIGNED_PROPOSAL => arrive!(ProposalMessageHandler, to),
            END_GOSSIP_SIGNED_VOTE => arrive!(VoteMessageHandler, to),
            END_GOSSIP_AGGREGATED_VOTE => arrive!(QCMessageHandler, to),
            _ => Some(false),
        };
        let got = overlord::take_sent();
        out["got"] = json!(got.len());
        out["same"] = json!(got.iter().all(|w| sent(w)));
        // and what is signed here is known to be from here
        let hash = Hash::digest(Bytes::from(n.to_string())).as_bytes();
        let flag = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let crypto = node.engine.crypto().lock().unwrap_or_else(|e| e.into_inner());
            let sig = crypto.sign(hash.clone()).map_err(|_| ());
            let good = sig.clone().and_then(|s| crypto.verify_signature(s, hash.clone()).map_err(|_| ()));
            let sig = sig.unwrap_or_default();
            let mut flipped = sig.to_vec();
            if let Some(b) = flipped.last_mut() {
                *b ^= 1;
            }
            let other = Hash::digest(Bytes::from("other")).as_bytes();
            let refused = crypto.verify_signature(Bytes::from(flipped), hash.clone()).is_err()
                && crypto.verify_signature(sig.clone(), other).is_err()
                && crypto.verify_signature(sig.slice_to(n as usize % sig.len().max(1)), hash.clone()).is_err();
            good == Ok(address(ME).as_bytes()) && refused
        }));
        out["signed"] = json!(flag.unwrap_or(false));
        res
    }

    fn guarded_run(&self, op: &Value, panics: &mut usize) -> Value {
        let crash = op["crash"].as_bool().unwrap_or(false);
        *self.net.mute.lock().expect("lock") = op["mute"].as_bool().unwrap_or(false);
        self.ctl.arm(int(op, "fault"), crash);
        let mut out = self.run(op, panics);
        out["writes"] = json!(self.ctl.0.lock().expect("lock").writes);
        self.ctl.disarm();
        *self.net.mute.lock().expect("lock") = false;
        *panics += self.rt.run(3);
        if crash {
            self.start();
        }
        out
    }

    fn nest(me: &Arc<World>, op: &Value, panics: &mut usize) -> Value {
        let done: Arc<Mutex<(Option<Value>, usize)>> = Default::default();
        let thread: Arc<Mutex<Option<std::thread::JoinHandle<()>>>> = Default::default();
        let inside = crate::util::Inside::default();
        let (w, d, what, t, i) = (Arc::clone(me), Arc::clone(&done), op["inner"].clone(), Arc::clone(&thread), inside.clone());
        let outer = &op["outer"];
        me.ctl.arm(0, false);
        me.ctl.0.lock().expect("lock").hook = Some((
            int(op, "at"),
            Box::new(move || {
                let keep = w.net.peer.lock().expect("lock").clone();
                let asked = *w.net.asked.lock().expect("lock");
                let (w2, d, what) = (Arc::clone(&w), Arc::clone(&d), what.clone());
                let inner = i.begin(w.rt, move || {
                    let mut p = 0;
                    let v = w2.run(&what, &mut p);
                    *d.lock().expect("lock") = (Some(v), p);
                });
                *t.lock().expect("lock") = Some(inner);
                *w.net.peer.lock().expect("lock") = keep;
                *w.net.asked.lock().expect("lock") = asked;
            }),
        ));
        let ran = me.run(outer, panics);
        me.ctl.disarm();
        let inner = thread.lock().expect("lock").take();
        let hit = inner.is_some();
        if let Some(t) = inner {
            inside.finish(t);
        }
        let mut out = op.clone();
        let (v, p) = done.lock().expect("lock").clone();
        *panics += p;
        out["hit"] = json!(hit);
        out["outer"] = ran;
        out["inner"] = match v {
            Some(v) => v,
            None if hit => {
                *panics += 1;
                json!({"res": "panic"})
            }
            None => me.run(&op["inner"], panics),
        };
        out["res"] = json!("ok");
        out
    }

    /// What is stored.
    fn view(&self) -> Value {
        let latest = must(self.store.get_latest_epoch());
        let h = latest.as_ref().map(|e| e.header.epoch_id as i64).unwrap_or(-1);
        let mut hashes = vec![];
        let mut rroots = vec![];
        for k in 0..=h.min(30) {
            match must(self.store.get_epoch_by_epoch_id(k as u64)) {
                Ok(e) => {
                    hashes.push(self.id(&block_hash(&e)));
                    let rs: Vec<Receipt> =
                        e.ordered_tx_hashes.iter().filter_map(|t| must(self.store.get_receipt(t.clone())).ok()).collect();
                    let full = e.ordered_tx_hashes.iter().all(|t| must(self.store.get_transaction_by_hash(t.clone())).is_ok());
                    rroots.push(if full { self.id(&receipts_root(&rs)) } else { 0 });
                }
                Err(_) => {
                    hashes.push(0);
                    rroots.push(0);
                }
            }
        }
        let st: Vec<i64> = self
            .txs
            .iter()
            .enumerate()
            .filter(|(_, t)| must(self.store.get_transaction_by_hash(t.tx_hash.clone())).map(|x| x == **t).unwrap_or(false))
            .map(|(i, _)| i as i64 + 1)
            .collect();
        json!({
            "h": h, "top": latest.map(|e| self.id(&block_hash(&e))).unwrap_or(0), "hashes": hashes, "rroots": rroots, "st": st,
            "lp": must(self.store.get_latest_proof()).map(|p| self.proof_id(&p)).unwrap_or(0),
        })
    }

    fn has(&self, panics: &mut usize) -> Vec<i64> {
        let mut out = vec![];
        for (i, t) in self.txs.iter().enumerate() {
            let (pool, hs) = (Arc::clone(&self.running().pool), vec![t.tx_hash.clone()]);
            if let Some(Ok(txs)) = drive(self.rt, async move { pool.get_full_txs(Context::new(), hs).await }, panics) {
                out.push(if txs == vec![t.clone()] { i as i64 + 1 } else { -1 - i as i64 });
            }
        }
        out
    }

    /// What was told since the last look: heights announced to peers and to the engine.
    fn told(&self, ev: &mut Value) {
        let casts: Vec<_> = self.net.casts.lock().expect("lock").drain(..).collect();
        let mut heights = vec![];
        for (end, to, bytes) in casts {
            if end == core_mempool::END_GOSSIP_NEW_TXS {
                continue;
            }
            type M = <RichEpochIDMessageHandler<OverlordConsensus<Adapter>> as MessageHandler>::Message;
            let n = match must(<M as MessageCodec>::decode(bytes)) {
                Ok(m) => bincode::deserialize::<FixedEpochID>(&m.0).map(|x| x.inner as i64).unwrap_or(-1),
                Err(_) => -1,
            };
            heights.push(if end == END_GOSSIP_RICH_EPOCH_ID && to.is_none() { n } else { -1 });
        }
        ev["cast"] = json!(heights);
        let sent: Vec<i64> = overlord::take_sent()
            .into_iter()
            .map(|w| match w {
                Sent::RichStatus(st) => {
                    if st.authority_list == World::authority() && st.interval == Some(3) { st.epoch_id as i64 } else { -1 }
                }
                _ => -1,
            })
            .collect();
        ev["sent"] = json!(sent);
    }
}

pub fn main() {
    let rt = Rt::install();
    let mut out = Out::new();
    for (b, ops) in behaviours().into_iter().enumerate() {
        rt.clear();
        overlord::take_sent();
        out.ev(json!({"e": "reset", "b": b}));
        let mut world: Option<Arc<World>> = None;
        for op in ops.iter() {
            let mut panics = 0;
            if s(op, "op") == "conf" {
                let (w, fact) = World::new(op, rt);
                let mut ev = op.clone();
                ev["e"] = json!("conf");
                ev["fact"] = fact;
                w.told(&mut ev);
                ev["view"] = w.view();
                out.ev(ev);
                world = Some(w);
                continue;
            }
            let w = world.as_ref().expect("conf first");
            let mut ev = if s(op, "op") == "nest" { World::nest(w, op, &mut panics) } else { w.guarded_run(op, &mut panics) };
            panics += rt.run(2);
            ev["e"] = op["op"].clone();
            w.told(&mut ev);
            ev["view"] = w.view();
            ev["has"] = json!(w.has(&mut panics));
            ev["panics"] = json!(panics);
            out.ev(ev);
        }
    }
    out.flush();
}
