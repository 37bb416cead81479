//! Replays behaviours of spec/Pool.tla on the real pool: HashMemPool with its default adapter over the real store, with
//! the message handlers on both sides of the (recorded) network.
use std::collections::HashMap;
use std::convert::TryFrom;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;

use async_trait::async_trait;
use bytes::Bytes;
use serde_json::{json, Value};

use common_crypto::{Crypto, PrivateKey, PublicKey, Secp256k1, Secp256k1PrivateKey, Signature};
use core_mempool::{
    DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, NewTxsHandler, PullTxsHandler, END_GOSSIP_NEW_TXS, END_RESP_PULL_TXS,
    END_RPC_PULL_TXS,
};
use core_storage::adapter::memory::MemoryAdapter;
use core_storage::ImplStorage;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::*;
use protocol::types::*;
use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};

use crate::util::*;

const BIG: i64 = 1_000_000;
const INTERVAL: u64 = 200;

#[derive(Debug)]
pub struct Injected;
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected failure")
    }
}
impl std::error::Error for Injected {}
pub fn fail<T>() -> ProtocolResult<T> {
    Err(ProtocolError::new(ProtocolErrorKind::Storage, Box::new(Injected)))
}

/// A store that cannot be read while `down`.
struct Flaky {
    inner: MemoryAdapter,
    down:  Arc<AtomicBool>,
}

impl Flaky {
    fn ok(&self) -> ProtocolResult<()> {
        if self.down.load(Ordering::SeqCst) { fail() } else { Ok(()) }
    }
}

#[async_trait]
impl StorageAdapter for Flaky {
    async fn insert<S: StorageSchema>(&self, key: <S as StorageSchema>::Key, val: <S as StorageSchema>::Value) -> ProtocolResult<()> {
        self.inner.insert::<S>(key, val).await
    }
    async fn get<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> ProtocolResult<Option<<S as StorageSchema>::Value>> {
        self.ok()?;
        self.inner.get::<S>(key).await
    }
    async fn remove<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> ProtocolResult<()> {
        self.inner.remove::<S>(key).await
    }
    async fn contains<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> ProtocolResult<bool> {
        self.ok()?;
        self.inner.contains::<S>(key).await
    }
    async fn batch_modify<S: StorageSchema>(
        &self,
        keys: Vec<<S as StorageSchema>::Key>,
        vals: Vec<StorageBatchModify<S>>,
    ) -> ProtocolResult<()> {
        self.inner.batch_modify::<S>(keys, vals).await
    }
}

/// A pool that only takes notes: what a peer's handlers see.
#[derive(Default)]
struct Notes {
    inserted: Mutex<Vec<SignedTransaction>>,
    asked:    Mutex<Vec<Hash>>,
    answer:   Mutex<Option<Vec<SignedTransaction>>>,
}

#[async_trait]
impl MemPool for Notes {
    async fn insert(&self, _: Context, tx: SignedTransaction) -> ProtocolResult<()> {
        self.inserted.lock().expect("lock").push(tx);
        Ok(())
    }
    async fn package(&self, _: Context, _: u64) -> ProtocolResult<MixedTxHashes> {
        fail()
    }
    async fn flush(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
        fail()
    }
    async fn get_full_txs(&self, _: Context, hs: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
        self.asked.lock().expect("lock").extend(hs);
        match self.answer.lock().expect("lock").clone() {
            Some(txs) => Ok(txs),
            None => fail(),
        }
    }
    async fn ensure_order_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
        fail()
    }
    async fn sync_propose_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
        fail()
    }
}

/// The network: one peer answers calls, messages are kept as they would be sent.
#[derive(Clone)]
struct Net {
    mute:  bool,
    peer:  Arc<Notes>,
    casts: Arc<Mutex<Vec<(String, Bytes)>>>,
    resps: Arc<Mutex<Vec<(String, Bytes)>>>,
}

#[async_trait]
impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let bytes = msg.encode().await?;
        self.casts.lock().expect("lock").push((end.to_owned(), bytes));
        if self.mute { fail() } else { Ok(()) }
    }
    async fn users_cast<M: MessageCodec>(&self, _: Context, _: &str, _: Vec<UserAddress>, _: M, _: Priority) -> ProtocolResult<()> {
        fail()
    }
}

#[async_trait]
impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, ctx: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        if end != END_RPC_PULL_TXS {
            return fail();
        }
        let bytes = msg.encode().await?;
        let there = Net { mute: false, peer: Arc::clone(&self.peer), casts: Default::default(), resps: Default::default() };
        let handler = PullTxsHandler::new(there.clone(), Arc::clone(&self.peer));
        type Pull = <PullTxsHandler<Net, Notes> as MessageHandler>::Message;
        handler.process(ctx, Pull::decode(bytes).await?).await?;
        let got = there.resps.lock().expect("lock").pop();
        match got {
            Some((end, bytes)) => if end == END_RESP_PULL_TXS { R::decode(bytes).await } else { fail() },
            None => fail(),
        }
    }
    async fn response<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
        let bytes = msg.encode().await?;
        self.resps.lock().expect("lock").push((end.to_owned(), bytes));
        Ok(())
    }
}

type Store = ImplStorage<Flaky>;
type Adapter = DefaultMemPoolAdapter<Secp256k1, Net, Store>;
type Pool = HashMemPool<Adapter>;

fn big(v: i64) -> u64 {
    if v >= BIG { std::u64::MAX - (2 * BIG - v) as u64 } else { v as u64 }
}

pub fn secret(n: u8) -> Secp256k1PrivateKey {
    Secp256k1PrivateKey::try_from(&[n; 32][..]).expect("key")
}

pub fn chain_id(right: bool) -> Hash {
    Hash::digest(Bytes::from(if right { "chain" } else { "another chain" }))
}

pub fn raw_tx(n: i64, cycle: u64, timeout: u64, chain: Hash) -> RawTransaction {
    let user = UserAddress::from_pubkey_bytes(secret(9).pub_key().to_bytes()).expect("address");
    RawTransaction {
        chain_id: chain,
        nonce: Hash::digest(Bytes::from(n.to_string())),
        timeout,
        fee: Fee { asset_id: Hash::digest(Bytes::from("fee")), cycle },
        action: TransactionAction::Transfer {
            receiver: user,
            carrying_asset: CarryingAsset { asset_id: Hash::digest(Bytes::from("coin")), amount: Balance::from(n as u64) },
        },
    }
}

pub fn hash_of(raw: &RawTransaction) -> Hash {
    Hash::digest(raw.encode_fixed().expect("encode"))
}

pub fn signed(raw: &RawTransaction, hash: Hash, sig: &str) -> SignedTransaction {
    let key = if sig == "other" { secret(2) } else { secret(1) };
    let over = if sig == "flip" { Hash::digest(hash.as_bytes()) } else { hash.clone() };
    let sign = Secp256k1::sign_message(&over.as_bytes(), &key.to_bytes()).expect("sign").to_bytes();
    SignedTransaction {
        raw: raw.clone(),
        tx_hash: hash,
        pubkey: if sig == "nokey" { Bytes::new() } else { secret(1).pub_key().to_bytes() },
        signature: match sig {
            "short" => sign.slice_to(10),
            "empty" => Bytes::new(),
            _ => sign,
        },
    }
}

pub fn epoch(height: u64, chain: Hash, hashes: Vec<Hash>) -> Epoch {
    let zero = Hash::from_empty();
    let proof = Proof { epoch_id: height, round: 0, epoch_hash: zero.clone(), signature: Bytes::new(), bitmap: Bytes::new() };
    let header = EpochHeader {
        chain_id: chain,
        epoch_id: height,
        pre_hash: zero.clone(),
        timestamp: 0,
        logs_bloom: Default::default(),
        order_root: zero.clone(),
        confirm_root: vec![],
        state_root: zero.clone(),
        receipt_root: vec![],
        cycles_used: 0,
        proposer: UserAddress::from_pubkey_bytes(secret(1).pub_key().to_bytes()).expect("address"),
        proof,
        validator_version: 0,
        validators: vec![],
    };
    Epoch { header, ordered_tx_hashes: hashes }
}

struct Node {
    rt:    &'static Rt,
    raws:  Vec<RawTransaction>,
    hash:  Vec<Hash>,
    sound: Vec<SignedTransaction>,
    index: HashMap<Hash, i64>,
    pool:  Arc<Pool>,
    store: Arc<Store>,
    down:  Arc<AtomicBool>,
    net:   Net,
    h:     Mutex<u64>,
    shown: Mutex<usize>,
}

/// Drive to the end; None when it panicked or got stuck.
pub fn drive<T>(rt: &Rt, fut: impl Future<Output = T> + Send + 'static, panics: &mut usize) -> Option<T> {
    let mut fut = Box::pin(fut);
    let flag = Flag::set();
    for i in 0..1000 {
        match poll_guarded(Pin::as_mut(&mut fut), &flag) {
            Err(()) => {
                *panics += 1;
                return None;
            }
            Ok(Poll::Ready(v)) => return Some(v),
            Ok(Poll::Pending) => {
                *panics += rt.run(i);
                // an operation inside another that waits for the outer one goes on when that is done
                if i == 5 {
                    crate::util::Inside::wait();
                }
            }
        }
    }
    *panics += 1;
    None
}

pub fn must<T>(fut: impl Future<Output = T>) -> T {
    futures::executor::block_on(fut)
}

impl Node {
    fn new(op: &Value, rt: &'static Rt) -> Node {
        let down: Arc<AtomicBool> = Default::default();
        let store = Arc::new(ImplStorage::new(Arc::new(Flaky { inner: MemoryAdapter::new(), down: Arc::clone(&down) })));
        let h = int(op, "h") as u64;
        must(store.insert_epoch(epoch(h, chain_id(true), vec![]))).expect("genesis");
        let net = Net { mute: op["mute"].as_bool().unwrap_or(false), peer: Default::default(), casts: Default::default(), resps: Default::default() };
        let gap = int(op, "gap") as u64;
        let adapter = Adapter::new(net.clone(), Arc::clone(&store), gap, int(op, "bs") as usize, INTERVAL);
        let pool = Arc::new(HashMemPool::new(int(op, "cap") as usize, gap, adapter));
        let raws: Vec<RawTransaction> = arr(op, "txs")
            .iter()
            .enumerate()
            .map(|(i, t)| {
                raw_tx(i as i64 + 1, big(int(t, "cycle")), big(int(t, "timeout")), chain_id(t["chain"].as_bool().expect("chain")))
            })
            .collect();
        let hash: Vec<Hash> = raws.iter().map(hash_of).collect();
        let sound = raws.iter().zip(hash.iter()).map(|(r, h)| signed(r, h.clone(), "ok")).collect();
        let index = hash.iter().enumerate().map(|(i, h)| (h.clone(), i as i64 + 1)).collect();
        rt.run(1);
        Node { rt, raws, hash, sound, index, pool, store, down, net, h: Mutex::new(h), shown: Mutex::new(0) }
    }

    fn hs(&self, op: &Value) -> Vec<Hash> {
        arr(op, "hs").iter().map(|n| self.hash[n.as_i64().expect("n") as usize - 1].clone()).collect()
    }

    fn tx(&self, t: &Value) -> SignedTransaction {
        let (n, c) = (int(t, "n") as usize - 1, int(t, "claims") as usize - 1);
        if n == c && s(t, "sig") == "ok" {
            return self.sound[n].clone();
        }
        signed(&self.raws[n], self.hash[c].clone(), s(t, "sig"))
    }

    /// the number of a sound transaction of the table, minus it when the rest is not as it was
    fn number(&self, tx: &SignedTransaction) -> i64 {
        match self.index.get(&tx.tx_hash) {
            Some(n) if self.sound[*n as usize - 1] == *tx => *n,
            Some(n) => -n,
            None => 0,
        }
    }

    fn numbers(&self, hs: &[Hash]) -> Vec<i64> {
        hs.iter().map(|h| self.index.get(h).cloned().unwrap_or(0)).collect()
    }

    /// Run one operation; what it returned, next to the operation.
    fn run(&self, op: &Value, panics: &mut usize) -> Value {
        let mut out = op.clone();
        let ctx = Context::new();
        let pool = Arc::clone(&self.pool);
        let name = s(op, "op");
        self.down.store(op["fault"].as_bool().unwrap_or(false), Ordering::SeqCst);
        *self.net.peer.answer.lock().expect("lock") =
            if op["bad"].as_bool().unwrap_or(true) { None } else { Some(arr(op, "resp").iter().map(|t| self.tx(t)).collect()) };
        let res: Option<bool> = match name {
            "insert" => {
                let tx = self.tx(&op["t"]);
                if s(op, "via") == "net" {
                    let handler = NewTxsHandler::new(pool);
                    let msg = self.new_txs(vec![tx]);
                    drive(self.rt, async move { handler.process(ctx, msg).await.is_ok() }, panics)
                } else {
                    drive(self.rt, async move { pool.insert(ctx, tx).await.is_ok() }, panics)
                }
            }
            "batch" => {
                let handler = NewTxsHandler::new(pool);
                let msg = self.new_txs(arr(op, "txs").iter().map(|t| self.tx(t)).collect());
                drive(self.rt, async move { handler.process(ctx, msg).await.is_ok() }, panics)
            }
            "package" => {
                let limit = big(int(op, "limit"));
                match drive(self.rt, async move { pool.package(ctx, limit).await }, panics) {
                    Some(Ok(mixed)) => {
                        out["order"] = json!(self.numbers(&mixed.order_tx_hashes));
                        out["propose"] = json!(self.numbers(&mixed.propose_tx_hashes));
                        Some(true)
                    }
                    Some(Err(_)) => Some(false),
                    None => None,
                }
            }
            "churn" => {
                let (tx, times) = (self.sound[int(op, "n") as usize - 1].clone(), int(op, "times"));
                let ctx = Context::new();
                drive(
                    self.rt,
                    async move {
                        for _ in 0..times {
                            let handler = NewTxsHandler::new(Arc::clone(&pool));
                            let mut msg = MsgPushTxs { sig_txs: vec![tx.clone()] };
                            let bytes = msg.encode().await?;
                            let msg = <NewTxsHandler<Pool> as MessageHandler>::Message::decode(bytes).await?;
                            handler.process(ctx.clone(), msg).await?;
                            pool.flush(ctx.clone(), vec![tx.tx_hash.clone()]).await?;
                        }
                        ProtocolResult::Ok(())
                    },
                    panics,
                )
                .map(|r| r.is_ok())
            }
            "flush" => {
                let hs = self.hs(op);
                drive(self.rt, async move { pool.flush(ctx, hs).await.is_ok() }, panics)
            }
            "store" => {
                self.commit(op);
                Some(true)
            }
            "commit" => {
                self.commit(op);
                let hs = self.hs(op);
                drive(self.rt, async move { pool.flush(ctx, hs).await.is_ok() }, panics)
            }
            "get" => {
                let hs = self.hs(op);
                match drive(self.rt, async move { pool.get_full_txs(ctx, hs).await }, panics) {
                    Some(Ok(txs)) => {
                        out["got"] = json!(txs.iter().map(|t| self.number(t)).collect::<Vec<_>>());
                        Some(true)
                    }
                    Some(Err(_)) => Some(false),
                    None => None,
                }
            }
            "pull" => {
                // what a peer asks for, as it arrives
                let mut ask = MsgHashes { hashes: self.hs(op) };
                let bytes = must(ask.encode()).expect("encode");
                let handler = PullTxsHandler::new(self.net.clone(), pool);
                type Pull = <PullTxsHandler<Net, Pool> as MessageHandler>::Message;
                let msg = must(Pull::decode(bytes)).expect("decode");
                let done = drive(self.rt, async move { handler.process(ctx, msg).await.is_ok() }, panics);
                let mut got = vec![];
                for (end, bytes) in self.net.resps.lock().expect("lock").drain(..) {
                    let txs = must(MsgPushTxs::decode(bytes)).map(|m| m.sig_txs).unwrap_or_default();
                    got.extend(txs.iter().map(|t| if end == END_RESP_PULL_TXS { self.number(t) } else { 0 }));
                    out["got"] = json!(got);
                }
                done.map(|d| d && out["got"].is_array())
            }
            "ensure" => {
                let hs = self.hs(op);
                drive(self.rt, async move { pool.ensure_order_txs(ctx, hs).await.is_ok() }, panics)
            }
            "sync" => {
                let hs = self.hs(op);
                drive(self.rt, async move { pool.sync_propose_txs(ctx, hs).await.is_ok() }, panics)
            }
            "tick" => {
                futures_timer::advance(Duration::from_millis(INTERVAL + 1));
                Some(true)
            }
            _ => panic!("operation {}", op),
        };
        self.down.store(false, Ordering::SeqCst);
        out["res"] = json!(match res {
            Some(true) => "ok",
            Some(false) => "err",
            None => "panic",
        });
        out
    }

    fn commit(&self, op: &Value) {
        let mut h = self.h.lock().expect("lock");
        *h += 1;
        let txs = arr(op, "hs").iter().map(|n| self.sound[n.as_i64().expect("n") as usize - 1].clone()).collect();
        must(self.store.insert_transactions(txs)).expect("store");
        must(self.store.insert_epoch(epoch(*h, chain_id(true), self.hs(op)))).expect("store");
    }

    fn new_txs(&self, txs: Vec<SignedTransaction>) -> <NewTxsHandler<Pool> as MessageHandler>::Message {
        let bytes = must(MsgPushTxs { sig_txs: txs }.encode()).expect("encode");
        must(<NewTxsHandler<Pool> as MessageHandler>::Message::decode(bytes)).expect("decode")
    }

    /// One operation in the middle of another.
    fn nest(me: &Arc<Node>, op: &Value, panics: &mut usize) -> Value {
        let inner: Arc<Mutex<(i64, Option<Value>, usize)>> = Default::default();
        let (node, seen, what) = (Arc::clone(me), Arc::clone(&inner), op.clone());
        core_mempool::verif_hooks::set(Some(Box::new(move |name: &str| {
            let run = {
                let mut s0 = seen.lock().expect("lock");
                if name == s(&what, "at") {
                    s0.0 += 1;
                }
                s0.0 == int(&what, "k") && s0.1.is_none() && name == s(&what, "at")
            };
            if run {
                let mut p = 0;
                let v = node.run(&what["inner"], &mut p);
                let mut s0 = seen.lock().expect("lock");
                s0.1 = Some(v);
                s0.2 = p;
            }
        })));
        let outer = me.run(&op["outer"], panics);
        core_mempool::verif_hooks::set(None);
        let mut out = op.clone();
        let (_, done, p) = inner.lock().expect("lock").clone();
        *panics += p;
        out["hit"] = json!(done.is_some());
        out["outer"] = outer;
        out["inner"] = done.unwrap_or_else(|| me.run(&op["inner"], panics));
        out["res"] = json!("ok");
        out
    }

    /// What was announced since the last look.
    fn announced(&self) -> Vec<i64> {
        let all = self.net.casts.lock().expect("lock");
        let mut shown = self.shown.lock().expect("lock");
        let mut out = vec![];
        for (end, bytes) in all[*shown..].iter() {
            // as a peer takes it in
            let notes: Arc<Notes> = Default::default();
            type New = <NewTxsHandler<Notes> as MessageHandler>::Message;
            let handler = NewTxsHandler::new(Arc::clone(&notes));
            match must(New::decode(bytes.clone())) {
                Ok(m) => {
                    let mut panics = 0;
                    drive(self.rt, async move { handler.process(Context::new(), m).await.is_ok() }, &mut panics);
                }
                Err(_) => out.push(0),
            }
            let got = notes.inserted.lock().expect("lock");
            let mut n: Vec<i64> = got.iter().map(|t| if end == END_GOSSIP_NEW_TXS { self.number(t) } else { 0 }).collect();
            n.sort();
            out.extend(n);
        }
        *shown = all.len();
        out
    }

    fn has(&self, panics: &mut usize) -> Vec<i64> {
        let mut out = vec![];
        for (i, h) in self.hash.iter().enumerate() {
            let (pool, hs) = (Arc::clone(&self.pool), vec![h.clone()]);
            if let Some(Ok(txs)) = drive(self.rt, async move { pool.get_full_txs(Context::new(), hs).await }, panics) {
                out.push(if txs.len() == 1 && self.number(&txs[0]) == i as i64 + 1 { i as i64 + 1 } else { -1 - i as i64 });
            }
        }
        out
    }
}

/// MsgPullTxs, which cannot be built from outside.
#[derive(Debug, serde_derive::Serialize, serde_derive::Deserialize)]
pub struct MsgHashes {
    #[serde(with = "core_network::serde_multi")]
    pub hashes: Vec<Hash>,
}

pub fn main() {
    let rt = Rt::install();
    let mut out = Out::new();
    for (b, ops) in behaviours().into_iter().enumerate() {
        rt.clear();
        out.ev(json!({"e": "reset", "b": b}));
        let mut node: Option<Arc<Node>> = None;
        for (i, op) in ops.iter().enumerate() {
            let mut panics = 0;
            if s(op, "op") == "conf" {
                node = Some(Arc::new(Node::new(op, rt)));
                let mut ev = op.clone();
                ev["e"] = json!("conf");
                out.ev(ev);
                continue;
            }
            let node = node.as_ref().expect("conf first");
            let mut ev = if s(op, "op") == "nest" { Node::nest(node, op, &mut panics) } else { node.run(op, &mut panics) };
            panics += rt.run(i as u64);
            ev["e"] = op["op"].clone();
            ev["ann"] = json!(node.announced());
            ev["has"] = json!(node.has(&mut panics));
            ev["panics"] = json!(panics);
            out.ev(ev);
        }
    }
    out.flush();
}
