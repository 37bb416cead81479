//! Replays behaviours of spec/Ledger.tla on the executor and records what it did.
use std::collections::HashMap;
use std::sync::Arc;

use bytes::Bytes;
use cita_trie::{MemoryDB, DB};
use serde_json::{json, Value};

use core_executor::trie::{MPTTrie, RocksTrieDB};
use core_executor::TransactionExecutorFactory;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::executor::ExecutorFactory;
use protocol::types::*;

use crate::mpt;
use crate::util::*;

pub const HEIGHT_BASE: u64 = 1 << 40;
const ACCOUNT_CONTRACT: &str = "0x23C000000000000000000000000000000000000001";
const BANK_CONTRACT: &str = "0x230000000000000000000000000000000000000002";

pub struct Names {
    pub chain_id: Hash,
    addrs:    HashMap<Bytes, String>,
    assets:   HashMap<Hash, String>,
    addr_of:  HashMap<String, Address>,
    asset_of: HashMap<String, Hash>,
}

impl Names {
    pub fn new() -> Self {
        let mut n = Names {
            chain_id: Hash::digest(Bytes::from("verif chain")),
            addrs:    HashMap::new(),
            assets:   HashMap::new(),
            addr_of:  HashMap::new(),
            asset_of: HashMap::new(),
        };
        for a in &["u1", "u2", "u3", "u4", "u5", "c1"] {
            let k = n.addr(a);
            n.addrs.insert(k.as_bytes(), a.to_string());
            n.addr_of.insert(a.to_string(), k);
        }
        for a in &["ghost", "fee"] {
            let id = n.asset(a);
            n.assets.insert(id.clone(), a.to_string());
            n.asset_of.insert(a.to_string(), id);
        }
        // the least token wins, so that two identities sharing an id show up as one of them being misnamed
        for code in &["k2", "k1", "sys", ""] {
            for nonce in (0..20).rev() {
                let t = format!("{}#{}", code, nonce);
                let id = n.asset(&t);
                n.assets.insert(id.clone(), t.clone());
                n.asset_of.insert(t, id);
            }
        }
        n
    }

    fn pubkey(&self, name: &str) -> Bytes {
        Bytes::from(format!("public key of {}", name))
    }

    pub fn addr(&self, name: &str) -> Address {
        if let Some(a) = self.addr_of.get(name) {
            return a.clone();
        }
        if name == "c1" {
            let mut b = vec![0x21u8];
            b.extend_from_slice(&[7u8; 20]);
            Address::Contract(ContractAddress::from_bytes(Bytes::from(b)).expect("c1"))
        } else {
            Address::User(UserAddress::from_pubkey_bytes(self.pubkey(name)).expect("user"))
        }
    }

    pub fn contract(&self, token: &str) -> ContractAddress {
        let i = token.rfind('#').expect("asset token");
        let nonce: u64 = token[i + 1..].parse().expect("nonce");
        ContractAddress::from_code(Bytes::from(token[..i].to_owned()), nonce, ContractType::Asset).expect("address")
    }

    pub fn asset(&self, token: &str) -> Hash {
        if let Some(a) = self.asset_of.get(token) {
            return a.clone();
        }
        if token.contains('#') {
            let a = self.contract(token);
            Hash::digest(Bytes::from([self.chain_id.as_bytes(), a.as_bytes()].concat()))
        } else {
            Hash::digest(Bytes::from(token.to_owned()))
        }
    }

    fn addr_name(&self, a: &Address) -> String {
        self.addrs.get(&a.as_bytes()).cloned().unwrap_or_else(|| format!("?{}", a.as_hex()))
    }

    fn asset_name(&self, a: &Hash) -> String {
        self.assets.get(a).cloned().unwrap_or_else(|| format!("?{}", a.as_hex()))
    }

    fn contract_asset_name(&self, a: &ContractAddress) -> String {
        self.asset_name(&Hash::digest(Bytes::from([self.chain_id.as_bytes(), a.as_bytes()].concat())))
    }
}

fn world<D: 'static + DB>(n: &Names, db: &Arc<D>, root: &Hash) -> Result<Value, String> {
    let e = |x: protocol::ProtocolError| x.to_string();
    let top = MPTTrie::from(root.clone(), Arc::clone(db)).map_err(e)?;
    let sub = |addr: &str| -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
        let a = Address::from_hex(addr).map_err(e)?;
        match top.get(&a.as_bytes()).map_err(e)? {
            Some(r) => mpt::leaves(&**db, &r),
            None => Ok(vec![]),
        }
    };
    world_of(n, &sub(ACCOUNT_CONTRACT)?, &sub(BANK_CONTRACT)?)
}

/// The world from the leaves of the two contracts' tries.
pub fn world_of(n: &Names, accounts: &[(Vec<u8>, Vec<u8>)], bank: &[(Vec<u8>, Vec<u8>)]) -> Result<Value, String> {
    let e = |x: protocol::ProtocolError| x.to_string();
    let mut accts: Vec<(String, Value)> = vec![];
    for (k, v) in accounts.iter().cloned() {
        let addr = Address::decode_fixed(Bytes::from(k)).map_err(e)?;
        let name = n.addr_name(&addr);
        let (nonce, bal) = match Account::decode_fixed(Bytes::from(v)).map_err(e)? {
            Account::User(u) => {
                (u.nonce, u.assets.into_iter().map(|(a, i)| (n.asset_name(&a), i.balance)).collect::<Vec<_>>())
            }
            Account::Contract(c) => {
                (c.nonce, c.assets.into_iter().map(|(a, b)| (n.asset_name(&a), b)).collect::<Vec<_>>())
            }
        };
        let mut bal: Vec<(String, Value)> = bal.into_iter().map(|(a, b)| (a, amount_json(&b))).collect();
        bal.sort_by(|a, b| a.0.cmp(&b.0));
        let nonce = if nonce < 1_000_000_000 { nonce as i64 } else { -1 };
        accts.push((name.clone(), json!([name, nonce, bal])));
    }
    accts.sort_by(|a, b| a.0.cmp(&b.0));
    let mut reg: Vec<(String, Value)> = vec![];
    for (k, v) in bank.iter().cloned() {
        let id = Hash::decode_fixed(Bytes::from(k)).map_err(e)?;
        let asset = Asset::decode_fixed(Bytes::from(v)).map_err(e)?;
        let name = n.asset_name(&id);
        let ident = asset.id == id && n.contract_asset_name(&asset.manage_contract) == name;
        reg.push((
            name.clone(),
            json!([name, asset.name, asset.symbol, asset.supply.to_string(), ident]),
        ));
    }
    reg.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(json!({
        "acct": accts.into_iter().map(|x| x.1).collect::<Vec<_>>(),
        "reg": reg.into_iter().map(|x| x.1).collect::<Vec<_>>(),
    }))
}

/// Number of (account, asset) pairs for which the public balance query disagrees with the stored account.
fn api_diff<D: 'static + DB>(n: &Names, db: &Arc<D>, root: &Hash, w: &Value) -> Result<i64, String> {
    let ex = TransactionExecutorFactory::from_root(
        n.chain_id.clone(),
        root.clone(),
        Arc::clone(db),
        HEIGHT_BASE,
        1,
        n.addr("u1"),
    )
    .map_err(|e| e.to_string())?;
    let mut diff = 0;
    for a in &["u1", "u2", "u3", "u4", "u5", "c1"] {
        let acct = arr(w, "acct").iter().find(|x| x[0].as_str() == Some(a));
        for s in &["sys#0", "k1#0", "k1#1", "ghost", "fee"] {
            let got = ex.get_balance(&n.addr(a), &n.asset(s)).ok().map(|b| amount_json(&b));
            let want = acct.map(|x| {
                x[2].as_array()
                    .expect("balances")
                    .iter()
                    .find(|y| y[0].as_str() == Some(s))
                    .map(|y| y[1].clone())
                    .unwrap_or_else(|| json!([0, 0, 0]))
            });
            if got != want {
                diff += 1;
            }
        }
    }
    Ok(diff)
}

fn make_tx(n: &Names, t: &Value, seq: u64) -> SignedTransaction {
    let carrying = || CarryingAsset { asset_id: n.asset(s(t, "asset")), amount: amount(&t["amt"]) };
    let contract = || match n.addr("c1") {
        Address::Contract(c) => c,
        _ => unreachable!(),
    };
    let action = match s(t, "k") {
        "transfer" => TransactionAction::Transfer {
            receiver:       match n.addr(s(t, "to")) {
                Address::User(u) => u,
                _ => unreachable!(),
            },
            carrying_asset: carrying(),
        },
        "deploy" => TransactionAction::Deploy {
            code:          Bytes::from(s(t, "code").to_owned()),
            contract_type: match s(t, "kind") {
                "asset" => ContractType::Asset,
                "app" => ContractType::App,
                "library" => ContractType::Library,
                _ => ContractType::Native,
            },
        },
        "approve" => TransactionAction::Approve {
            spender:  contract(),
            asset_id: n.asset(s(t, "asset")),
            max:      amount(&t["amt"]),
        },
        k => TransactionAction::Call {
            contract:       contract(),
            method:         "method".to_owned(),
            args:           vec![],
            carrying_asset: if k == "call" { Some(carrying()) } else { None },
        },
    };
    let limit = int(t, "limit");
    SignedTransaction {
        raw:       RawTransaction {
            chain_id: n.chain_id.clone(),
            nonce: Hash::digest(Bytes::from(format!("nonce {}", seq))),
            timeout: HEIGHT_BASE + 100,
            fee: Fee {
                asset_id: n.asset(s(t, "feeAsset")),
                cycle:    if limit < 0 { std::u64::MAX } else { limit as u64 },
            },
            action,
        },
        tx_hash:   Hash::digest(Bytes::from(format!("hash {}", seq))),
        pubkey:    n.pubkey(s(t, "from")),
        signature: Bytes::from("signature"),
    }
}

fn fee_json(c: u64) -> Value {
    amount_json(&Balance::from(c))
}

fn receipt_json(n: &Names, r: &Receipt, hashes: &[Hash], roots: &mut Tokens) -> Value {
    let i = hashes.iter().position(|h| h == &r.tx_hash).map(|i| i as i64 + 1).unwrap_or(-1);
    let h = r.epoch_id.wrapping_sub(HEIGHT_BASE);
    let res = match &r.result {
        ReceiptResult::Transfer { receiver, asset_id, before_amount, after_amount } => json!({
            "k": "transfer", "to": n.addr_name(&Address::User(receiver.clone())), "asset": n.asset_name(asset_id),
            "before": amount_json(before_amount), "after": amount_json(after_amount)
        }),
        ReceiptResult::Deploy { contract, contract_type } => json!({
            "k": if *contract_type == ContractType::Asset { "deploy" } else { "deploy?" },
            "asset": n.contract_asset_name(contract)
        }),
        ReceiptResult::Fail { .. } => json!({"k": "fail"}),
        _ => json!({"k": "other"}),
    };
    json!({
        "st": "ok", "i": i, "h": if h < 1_000_000 { h as i64 } else { -1 },
        "root": roots.token(&r.state_root.as_bytes()),
        "fee": [n.asset_name(&r.cycles_used.asset_id), fee_json(r.cycles_used.cycle)],
        "res": res,
    })
}

fn price_of(v: &Value) -> u64 {
    v[0].as_u64().expect("price") * 10_000_000_000 + v[1].as_u64().expect("price")
}

struct Run<'a> {
    n:     &'a Names,
    out:   &'a mut Out,
    roots: Tokens,
}

impl<'a> Run<'a> {
    fn world_fields<D: 'static + DB>(&mut self, db: &Arc<D>, root: &Hash) -> (Value, Value) {
        let n = self.n;
        match guarded(|| {
            let w = world(n, db, root)?;
            let d = api_diff(n, db, root, &w)?;
            Ok((w, d))
        }) {
            Ok((w, d)) => (w, json!(d)),
            Err((k, m)) => (json!({"acct": [], "reg": [], "error": format!("{}: {}", k, m)}), json!(-1)),
        }
    }

    /// Runs the operations on a database; false when the behaviour cannot go on.
    fn ops<D: 'static + DB>(
        &mut self,
        ops: &[Value],
        seq0: u64,
        db: &mut Arc<D>,
        reopen: &mut dyn FnMut(&mut Arc<D>),
    ) -> bool {
        let n = self.n;
        let mut seq = seq0;
        for op in ops {
            if s(op, "op") == "genesis" {
                let tok = &op["token"];
                let alloc: Vec<Value> = arr(op, "alloc")
                    .iter()
                    .map(|a| {
                        let assets: Vec<Value> = a[1]
                            .as_array()
                            .expect("assets")
                            .iter()
                            .map(|x| {
                                json!({"asset_id": n.asset(x[0].as_str().expect("asset")).as_hex(),
                                       "balance": hex::encode(amount(&x[1]).to_bytes_be())})
                            })
                            .collect();
                        json!({"address": n.addr(a[0].as_str().expect("address")).as_hex(), "assets": assets})
                    })
                    .collect();
                let supply: u64 = s(tok, "supply").parse().expect("supply");
                let genesis: Genesis = serde_json::from_value(json!({
                    "timestamp": 0, "prevhash": "",
                    "system_token": {"code": hex::encode(s(tok, "code")), "name": tok["name"],
                                     "symbol": tok["symbol"], "supply": supply},
                    "state_alloc": alloc,
                }))
                .expect("genesis");
                let r = guarded(|| {
                    let mut ex = TransactionExecutorFactory::from_root(
                        n.chain_id.clone(),
                        Hash::from_empty(),
                        Arc::clone(db),
                        0,
                        1,
                        n.addr("u1"),
                    )
                    .map_err(|e| e.to_string())?;
                    ex.create_genesis(&genesis).map_err(|e| e.to_string())
                });
                match r {
                    Ok(root) => {
                        let t = self.roots.token(&root.as_bytes());
                        let (w, d) = self.world_fields(db, &root);
                        self.out.ev(json!({"e": "genesis", "token": tok, "alloc": op["alloc"], "st": "ok", "msg": "",
                            "root": t, "world": w, "api": d}));
                    }
                    Err((k, m)) => {
                        self.out.ev(json!({"e": "genesis", "token": tok, "alloc": op["alloc"], "st": k, "msg": m,
                            "root": "", "world": {"acct": [], "reg": []}, "api": 0}));
                        return false;
                    }
                }
                continue;
            }
            // exec
            let root = match self.roots.value(s(op, "root")) {
                Some(r) => Hash::from_bytes(Bytes::from(r)).expect("root"),
                None => {
                    self.out.ev(json!({"e": "stop"}));
                    return false;
                }
            };
            let height = HEIGHT_BASE + int(op, "height") as u64;
            let txs: Vec<SignedTransaction> = arr(op, "txs")
                .iter()
                .map(|t| {
                    seq += 1;
                    make_tx(n, t, seq)
                })
                .collect();
            let hashes: Vec<Hash> = txs.iter().map(|t| t.tx_hash.clone()).collect();
            let stage = std::cell::Cell::new("noroot");
            let r = guarded(|| {
                let mut ex = TransactionExecutorFactory::from_root(
                    n.chain_id.clone(),
                    root.clone(),
                    Arc::clone(db),
                    height,
                    price_of(&op["price"]),
                    n.addr(s(op, "cb")),
                )
                .map_err(|e| e.to_string())?;
                stage.set("");
                ex.exec(txs).map_err(|e| e.to_string())
            });
            self.out.ev(json!({"e": "begin", "root": s(op, "root"), "height": op["height"], "price": op["price"],
                "cb": op["cb"]}));
            match r {
                Ok(resp) => {
                    for (i, t) in arr(op, "txs").iter().enumerate() {
                        let rc = match resp.receipts.get(i) {
                            Some(rc) => receipt_json(n, rc, &hashes, &mut self.roots),
                            None => json!({"st": "none"}),
                        };
                        self.out.ev(json!({"e": "tx", "tx": t, "rc": rc}));
                    }
                    let t = self.roots.token(&resp.state_root.as_bytes());
                    let (w, d) = self.world_fields(db, &resp.state_root);
                    let fees: Vec<Value> = resp
                        .all_cycles_used
                        .iter()
                        .map(|f| json!([n.asset_name(&f.asset_id), fee_json(f.cycle)]))
                        .collect();
                    self.out.ev(json!({"e": "end", "st": "ok", "msg": "", "root": t, "nrc": resp.receipts.len(),
                        "fees": fees, "world": w, "api": d}));
                }
                Err((k, m)) => {
                    for t in arr(op, "txs") {
                        self.out.ev(json!({"e": "tx", "tx": t, "rc": {"st": "none"}}));
                    }
                    let st = if stage.get() == "" { k } else { stage.get().to_owned() };
                    self.out.ev(json!({"e": "end", "st": st, "msg": m, "root": "", "nrc": 0, "fees": [],
                        "world": {"acct": [], "reg": []}, "api": 0}));
                    return false;
                }
            }
            reopen(db);
        }
        true
    }

    fn read_all<D: 'static + DB>(&mut self, db: &Arc<D>, ops: &[Value]) {
        let mut i = 1;
        while let Some(r) = self.roots.value(&format!("r{}", i)) {
            if i > ops.len() {
                break;
            }
            let root = Hash::from_bytes(Bytes::from(r)).expect("root");
            let (w, d) = self.world_fields(db, &root);
            self.out.ev(json!({"e": "read", "root": format!("r{}", i), "world": w, "api": d}));
            i += 1;
        }
    }
}

/// Argument: "plain", or "twice" (repeat every behaviour on another in-memory database, every tenth one on RocksDB
/// with a reopening after every block, and read back every root at the end).
pub fn main(mode: &str) {
    let names = Names::new();
    let mut out = Out::new();
    let scratch = Scratch::new("ledger");
    for (bi, ops) in behaviours().iter().enumerate() {
        out.ev(json!({"e": "reset"}));
        let mut run = Run { n: &names, out: &mut out, roots: Tokens::new("r") };
        let mut db = Arc::new(MemoryDB::new(false));
        let ok = run.ops(ops, 1000, &mut db, &mut |_| {});
        if mode != "twice" || !ok {
            continue;
        }
        run.read_all(&db, ops);
        run.out.ev(json!({"e": "newdb"}));
        if bi % 10 == 0 {
            let path = scratch.0.join(format!("db{}", bi));
            let mut db = Arc::new(RocksTrieDB::new(&path, false).expect("rocksdb"));
            let path2 = path.clone();
            let spare = scratch.0.join("spare");
            let ok = run.ops(ops, 1000, &mut db, &mut |db| {
                // close, then open again
                *db = Arc::new(RocksTrieDB::new(&spare, false).expect("rocksdb"));
                *db = Arc::new(RocksTrieDB::new(&path2, false).expect("reopen"));
            });
            if ok {
                run.read_all(&db, ops);
            }
            drop(db);
            let _ = std::fs::remove_dir_all(&path);
        } else {
            let mut db = Arc::new(MemoryDB::new(false));
            if run.ops(ops, 1000, &mut db, &mut |_| {}) {
                run.read_all(&db, ops);
            }
        }
    }
    out.flush();
}
