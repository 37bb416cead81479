//! Replays behaviours of spec/Api.tla on the real GraphQL service (juniper and tide are stand-ins, see stubs/) with its
//! real adapter over the real store and executor; the pool takes notes.
use std::convert::TryFrom;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as TaskContext, Poll};

use async_trait::async_trait;
use bytes::Bytes;
use cita_trie::MemoryDB;
use serde_json::{json, Map, Value};

use common_crypto::{Crypto, PrivateKey, PublicKey, Secp256k1, Secp256k1PrivateKey};
use core_api::adapter::DefaultAPIAdapter;
use core_api::config::GraphQLConfig;
use core_api::start_graphql;
use core_executor::TransactionExecutorFactory;
use core_storage::adapter::memory::MemoryAdapter;
use core_storage::ImplStorage;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::executor::ExecutorFactory;
use protocol::traits::*;
use protocol::types::*;
use protocol::ProtocolResult;

use crate::mempool::{fail, must};
use crate::util::*;

#[derive(Default)]
struct Pool {
    given:  Mutex<Vec<SignedTransaction>>,
    refuse: Mutex<bool>,
}

#[async_trait]
impl MemPool for Pool {
    async fn insert(&self, _: Context, tx: SignedTransaction) -> ProtocolResult<()> {
        self.given.lock().expect("lock").push(tx);
        if *self.refuse.lock().expect("lock") { fail() } else { Ok(()) }
    }
    async fn package(&self, _: Context, _: u64) -> ProtocolResult<MixedTxHashes> {
        fail()
    }
    async fn flush(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
        fail()
    }
    async fn get_full_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
        fail()
    }
    async fn ensure_order_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
        fail()
    }
    async fn sync_propose_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
        fail()
    }
}

type Store = ImplStorage<MemoryAdapter>;

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().expect("byte") as u8).collect()).unwrap_or_default()
}

fn text(v: &Value) -> String {
    bytes(v)
        .into_iter()
        .map(|c| match c {
            0..=9 => (b'0' + c) as char,
            10..=15 => (b'a' + c - 10) as char,
            16..=25 => (b'0' + c - 16) as char,
            26..=31 => (b'A' + c - 26) as char,
            32 => 'g',
            33 => 'é',
            34 => 'x',
            35 => ' ',
            36 => '+',
            37 => 'X',
            _ => '?',
        })
        .collect()
}

fn chars(v: &Value) -> Value {
    match v {
        Value::String(t) => json!(t
            .chars()
            .map(|c| match c {
                '0'..='9' => c as u8 - b'0',
                'a'..='f' => c as u8 - b'a' + 10,
                'A'..='F' => c as u8 - b'A' + 26,
                'g' => 32,
                'é' => 33,
                'x' => 34,
                ' ' => 35,
                '+' => 36,
                'X' => 37,
                _ => 99,
            })
            .collect::<Vec<u8>>()),
        Value::Array(a) => json!(a.iter().map(chars).collect::<Vec<_>>()),
        _ => json!([99]),
    }
}

fn hash(v: &Value) -> Hash {
    Hash::from_bytes(Bytes::from(bytes(v))).expect("hash")
}
fn hashes(v: &Value) -> Vec<Hash> {
    v.as_array().expect("hashes").iter().map(hash).collect()
}
fn number(v: &Value) -> u64 {
    bytes(v).iter().fold(0, |a, b| a << 8 | u64::from(*b))
}

/// The state root of a world.
fn state(db: &Arc<MemoryDB>, world: &Value) -> MerkleRoot {
    let mut alloc: Vec<Value> = vec![];
    for x in world.as_array().expect("world") {
        let address = hex::encode(bytes(&x["a"]));
        let asset = json!({"asset_id": hex::encode(bytes(&x["s"])), "balance": hex::encode(bytes(&x["v"]))});
        match alloc.iter_mut().find(|a| a["address"] == address.as_str()) {
            Some(a) => a["assets"].as_array_mut().expect("assets").push(asset),
            None => alloc.push(json!({"address": address, "assets": [asset]})),
        }
    }
    let genesis: Genesis = serde_json::from_value(json!({
        "timestamp": 0, "prevhash": "", "system_token": {"code": "00", "name": "T", "symbol": "T", "supply": 1}, "state_alloc": alloc,
    }))
    .expect("genesis");
    let coinbase = Address::User(UserAddress::from_bytes(Bytes::from([&[16][..], &[0; 20]].concat())).expect("address"));
    let mut e = TransactionExecutorFactory::from_root(Hash::from_empty(), Hash::from_empty(), Arc::clone(db), 0, 0, coinbase)
        .expect("executor");
    e.create_genesis(&genesis).expect("world")
}

fn epoch(db: &Arc<MemoryDB>, op: &Value) -> Epoch {
    let h = &op["h"];
    let proposer = UserAddress::from_bytes(Bytes::from(bytes(&h["prop"]))).expect("address");
    Epoch {
        header:            EpochHeader {
            chain_id: hash(&h["chain"]),
            epoch_id: number(&h["id"]),
            pre_hash: hash(&h["pre"]),
            timestamp: number(&h["time"]),
            logs_bloom: Default::default(),
            order_root: hash(&h["order"]),
            confirm_root: hashes(&h["confirm"]),
            state_root: state(db, &op["w"]),
            receipt_root: hashes(&h["receipt"]),
            cycles_used: number(&h["cycles"]),
            proposer: proposer.clone(),
            proof: Proof { epoch_id: 0, round: 0, epoch_hash: Hash::from_empty(), signature: Bytes::new(), bitmap: Bytes::new() },
            validator_version: number(&h["ver"]),
            validators: vec![],
        },
        ordered_tx_hashes: hashes(&h["txs"]),
    }
}

fn ask(name: &str, vars: Value) -> Result<Value, (String, String)> {
    guarded(|| {
        let body = serde_json::to_vec(&json!({"query": name, "variables": vars})).expect("json");
        let mut fut = tide::request("POST", "/graphql", body).ok_or("not served")?;
        let mut cx = TaskContext::from_waker(futures::task::noop_waker_ref());
        for _ in 0..1000 {
            if let Poll::Ready(r) = Pin::as_mut(&mut fut).poll_it(&mut cx) {
                let v: Value = serde_json::from_slice(&r.body().0).unwrap_or(Value::Null);
                return match v["data"].get(name) {
                    Some(x) if !x.is_null() => Ok(x.clone()),
                    _ => Err(v.to_string()),
                };
            }
        }
        Err("no answer".to_owned())
    })
}

trait PollIt<T> {
    fn poll_it(self, cx: &mut TaskContext<'_>) -> Poll<T>;
}
impl<F: std::future::Future + ?Sized> PollIt<F::Output> for Pin<&mut F> {
    fn poll_it(self, cx: &mut TaskContext<'_>) -> Poll<F::Output> {
        std::future::Future::poll(self, cx)
    }
}

fn seen(tx: &SignedTransaction) -> Value {
    let be = |n: u64| n.to_be_bytes().to_vec();
    let r = &tx.raw;
    let mut m = Map::new();
    let mut put = |k: &str, v: Value| {
        m.insert(k.to_owned(), v);
    };
    put("chain", json!(r.chain_id.as_bytes().to_vec()));
    put("nonce", json!(r.nonce.as_bytes().to_vec()));
    put("timeout", json!(be(r.timeout)));
    put("feeasset", json!(r.fee.asset_id.as_bytes().to_vec()));
    put("cycle", json!(be(r.fee.cycle)));
    let none: Vec<u8> = vec![];
    for k in &["to", "asset", "amount", "code"] {
        put(k, json!(none));
    }
    put("ct", json!(""));
    match &r.action {
        TransactionAction::Transfer { receiver, carrying_asset } => {
            put("kind", json!("transfer"));
            put("to", json!(receiver.as_bytes().to_vec()));
            put("asset", json!(carrying_asset.asset_id.as_bytes().to_vec()));
            put("amount", json!(carrying_asset.amount.to_bytes_be()));
        }
        TransactionAction::Deploy { code, contract_type } => {
            put("kind", json!("deploy"));
            put("code", json!(code.to_vec()));
            put("ct", json!(match contract_type {
                ContractType::Asset => "asset",
                ContractType::App => "app",
                ContractType::Library => "library",
                ContractType::Native => "native",
            }));
        }
        _ => put("kind", json!("other")),
    }
    Value::Object(m)
}

fn send(op: &Value) -> (String, Value) {
    let t = |k: &str| text(&op[k]);
    let transfer = s(op, "kind") == "transfer";
    let unsafe_ = op["unsafe"].as_bool().expect("flag");
    let mut vars = json!({
        "inputRaw": {"chainId": t("chain"), "feeCycle": t("cycle"), "feeAssetId": t("feeasset"), "nonce": t("nonce"), "timeout": t("timeout")},
        "inputAction": if transfer {
            json!({"carryingAmount": t("amount"), "carryingAssetId": t("asset"), "receiver": t("to")})
        } else {
            json!({"code": t("code"), "contractType": s(op, "ct").to_uppercase()})
        },
    });
    if unsafe_ {
        vars["inputPrivkey"] = json!(t("key"));
    } else {
        vars["inputEncryption"] = json!({"txHash": t("hash"), "pubkey": t("pubkey"), "signature": t("sig")});
    }
    let name = match (transfer, unsafe_) {
        (true, false) => "sendTransferTransaction",
        (false, false) => "sendDeployTransaction",
        (true, true) => "sendUnsafeTransferTransaction",
        (false, true) => "sendUnsafeDeployTransaction",
    };
    (name.to_owned(), vars)
}

/// The signature is of the key in the request, over the hash of what is sent.
fn own(op: &Value, tx: &SignedTransaction) -> bool {
    let key = text(&op["key"]);
    let key = hex::decode(if key.starts_with("0x") { &key[2..] } else { &key }).unwrap_or_default();
    let public = match Secp256k1PrivateKey::try_from(&key[..]) {
        Ok(k) => k.pub_key().to_bytes(),
        Err(_) => return false,
    };
    let hash = Hash::digest(tx.raw.encode_fixed().expect("encode"));
    tx.tx_hash == hash && tx.pubkey == public && Secp256k1::verify_signature(&hash.as_bytes(), &tx.signature, &public).is_ok()
}

pub fn main() {
    let mut out = Out::new();
    for ops in behaviours() {
        out.ev(json!({"e": "reset"}));
        let store: Arc<Store> = Arc::new(ImplStorage::new(Arc::new(MemoryAdapter::new())));
        let pool = Arc::new(Pool::default());
        let db = Arc::new(MemoryDB::new(false));
        let cfg = GraphQLConfig {
            listening_address: "127.0.0.1:0".parse::<SocketAddr>().expect("address"),
            ..Default::default()
        };
        let adapter = DefaultAPIAdapter::<TransactionExecutorFactory, _, _, _>::new(Arc::clone(&pool), Arc::clone(&store), Arc::clone(&db));
        must(start_graphql(cfg, adapter));
        for op in &ops {
            let id = if op["none"].as_bool().unwrap_or(true) { Value::Null } else { json!(text(&op["id"])) };
            match s(op, "op") {
                "epoch" => {
                    must(store.insert_epoch(epoch(&db, op))).expect("store");
                    out.ev(json!({"e": "epoch", "h": op["h"], "w": op["w"]}));
                }
                "latest" => {
                    let (st, h) = match ask("getLatestEpoch", json!({ "epochId": id })) {
                        Ok(v) => {
                            let h = &v["header"];
                            ("ok".to_owned(), json!({
                                "id": chars(&h["epochId"]), "chain": chars(&h["chainId"]), "pre": chars(&h["preHash"]),
                                "time": chars(&h["timestamp"]), "order": chars(&h["orderRoot"]), "confirm": chars(&h["confirmRoot"]),
                                "receipt": chars(&h["receiptRoot"]), "cycles": chars(&h["cyclesUsed"]), "prop": chars(&h["proposer"]),
                                "ver": chars(&h["validatorVersion"]), "txs": chars(&v["orderedTxHashes"]),
                                "state": h["stateRoot"].as_str() == must(store.get_epoch_by_epoch_id(
                                    u64::from_str_radix(h["epochId"].as_str().unwrap_or(""), 16).unwrap_or(99))).ok()
                                    .map(|e| e.header.state_root.as_hex()).as_ref().map(|x| x.as_str()),
                            }))
                        }
                        Err((k, _)) => (k, json!({})),
                    };
                    out.ev(json!({"e": "latest", "r": op, "st": st, "h": h}));
                }
                "balance" => {
                    let (st, v) = match ask("getBalance", json!({"address": text(&op["a"]), "id": text(&op["s"]), "epochId": id})) {
                        Ok(v) => ("ok".to_owned(), chars(&v)),
                        Err((k, _)) => (k, json!([])),
                    };
                    out.ev(json!({"e": "balance", "r": op, "st": st, "v": v}));
                }
                _ => {
                    pool.given.lock().expect("lock").clear();
                    *pool.refuse.lock().expect("lock") = op["refuse"].as_bool().expect("flag");
                    let (name, vars) = send(op);
                    let (st, answer) = match ask(&name, vars) {
                        Ok(v) => ("ok".to_owned(), chars(&v)),
                        Err((k, _)) => (k, json!([])),
                    };
                    let given = pool.given.lock().expect("lock").clone();
                    out.ev(json!({
                        "e": "send", "r": op, "st": st, "answer": answer, "given": given.iter().map(seen).collect::<Vec<_>>(),
                        "hash": given.first().map(|t| t.tx_hash.as_bytes().to_vec()).unwrap_or_default(),
                        "pubkey": given.first().map(|t| t.pubkey.to_vec()).unwrap_or_default(),
                        "sig": given.first().map(|t| t.signature.to_vec()).unwrap_or_default(),
                        "own": given.first().map(|t| own(op, t)).unwrap_or(false),
                    }));
                }
            }
        }
    }
    out.flush();
}
