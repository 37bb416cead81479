//! Replays behaviours of spec/Storage.tla on the block store: in-memory and RocksDB backends, failing or killed writes.
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use bytes::Bytes;
use futures::executor::block_on;
use serde_json::{json, Value};

use core_storage::adapter::memory::MemoryAdapter;
use core_storage::adapter::rocks::RocksAdapter;
use core_storage::{ImplStorage, ReceiptSchema, TransactionSchema};
use protocol::codec::ProtocolCodec;
use protocol::traits::{Storage, StorageAdapter, StorageBatchModify, StorageSchema};
use protocol::types::*;
use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};

use crate::util::*;

const HASHES: [&str; 4] = ["h1", "h2", "h3", "h4"];
const HEIGHTS: [u64; 7] = [0, 1, 127, 128, 300, 1 << 40, std::u64::MAX];

#[derive(Debug)]
struct Injected;
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected write failure")
    }
}
impl std::error::Error for Injected {}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Err,
    Abort,
}

struct Plan {
    at:    i64, // the at-th write fails; 0: none does
    eff:   bool,
    mode:  Mode,
    seen:  i64,
    fired: bool,
}

/// An adapter whose writes can be made to fail.
struct Faulty<A> {
    inner: A,
    plan:  Mutex<Plan>,
}

impl<A> Faulty<A> {
    fn new(inner: A) -> Self {
        Faulty { inner, plan: Mutex::new(Plan { at: 0, eff: false, mode: Mode::Err, seen: 0, fired: false }) }
    }

    fn arm(&self, at: i64, eff: bool, mode: Mode) {
        *self.plan.lock().expect("plan") = Plan { at, eff, mode, seen: 0, fired: false };
    }

    fn fired(&self) -> bool {
        self.plan.lock().expect("plan").fired
    }

    /// (fails before the write, fails after it)
    fn write(&self) -> (bool, bool) {
        let mut p = self.plan.lock().expect("plan");
        p.seen += 1;
        if p.at != 0 && p.seen == p.at {
            p.fired = true;
            if p.mode == Mode::Abort && !p.eff {
                std::process::abort();
            }
            (!p.eff, p.eff)
        } else {
            (false, false)
        }
    }

    fn after(&self) -> ProtocolResult<()> {
        if self.plan.lock().expect("plan").mode == Mode::Abort {
            std::process::abort();
        }
        fail()
    }
}

fn fail() -> ProtocolResult<()> {
    Err(ProtocolError::new(ProtocolErrorKind::Storage, Box::new(Injected)))
}

#[async_trait]
impl<A: StorageAdapter> StorageAdapter for Faulty<A> {
    async fn insert<S: StorageSchema>(
        &self,
        key: <S as StorageSchema>::Key,
        val: <S as StorageSchema>::Value,
    ) -> ProtocolResult<()> {
        let (before, after) = self.write();
        if before {
            return fail();
        }
        self.inner.insert::<S>(key, val).await?;
        if after {
            return self.after();
        }
        Ok(())
    }

    async fn get<S: StorageSchema>(
        &self,
        key: <S as StorageSchema>::Key,
    ) -> ProtocolResult<Option<<S as StorageSchema>::Value>> {
        self.inner.get::<S>(key).await
    }

    async fn remove<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> ProtocolResult<()> {
        let (before, after) = self.write();
        if before {
            return fail();
        }
        self.inner.remove::<S>(key).await?;
        if after {
            return self.after();
        }
        Ok(())
    }

    async fn contains<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> ProtocolResult<bool> {
        self.inner.contains::<S>(key).await
    }

    async fn batch_modify<S: StorageSchema>(
        &self,
        keys: Vec<<S as StorageSchema>::Key>,
        vals: Vec<StorageBatchModify<S>>,
    ) -> ProtocolResult<()> {
        let (before, after) = self.write();
        if before {
            return fail();
        }
        self.inner.batch_modify::<S>(keys, vals).await?;
        if after {
            return self.after();
        }
        Ok(())
    }
}

// ---- content ----

pub fn hash(s: &str) -> Hash {
    Hash::digest(Bytes::from(s.to_owned()))
}
fn user(i: u8) -> UserAddress {
    UserAddress::from_pubkey_bytes(Bytes::from(vec![i; 33])).expect("user")
}
fn contract(i: u8, t: ContractType) -> ContractAddress {
    ContractAddress::from_code(Bytes::from(vec![i; 10]), u64::from(i), t).expect("contract")
}

fn transaction(h: &str, v: i64) -> SignedTransaction {
    let x = v as u8;
    let carry = CarryingAsset { asset_id: hash("asset"), amount: Balance::from(v as u64) << 200 };
    let deploy = |t| TransactionAction::Deploy { code: Bytes::from(vec![x, 0, 255]), contract_type: t };
    let action = match v {
        2 => deploy(ContractType::Asset),
        3 => TransactionAction::Call {
            contract:       contract(x, ContractType::App),
            method:         "method".to_owned(),
            args:           vec![Bytes::new(), Bytes::from(vec![1u8, 2])],
            carrying_asset: Some(carry),
        },
        4 => TransactionAction::Call {
            contract:       contract(x, ContractType::Library),
            method:         String::new(),
            args:           vec![],
            carrying_asset: None,
        },
        5 => TransactionAction::Approve {
            spender:  contract(x, ContractType::Asset),
            asset_id: hash("asset"),
            max:      Balance::from(0u64),
        },
        7 => deploy(ContractType::Library),
        8 => deploy(ContractType::App),
        _ => TransactionAction::Transfer { receiver: user(x), carrying_asset: carry },
    };
    SignedTransaction {
        raw:       RawTransaction {
            chain_id: hash("chain"),
            nonce: hash(&format!("nonce {}", v)),
            timeout: if v == 6 { std::u64::MAX } else { v as u64 },
            fee: Fee { asset_id: hash("fee"), cycle: 1000 * v as u64 },
            action,
        },
        tx_hash:   hash(h),
        pubkey:    Bytes::from(vec![x; 33]),
        signature: Bytes::from(vec![x; if v == 9 { 0 } else { 64 }]),
    }
}

fn receipt(h: &str, v: i64) -> Receipt {
    let x = v as u8;
    let deploy =
        |t: ContractType| ReceiptResult::Deploy { contract: contract(x, t.clone()), contract_type: t };
    let result = match v {
        1 => ReceiptResult::Transfer {
            receiver:      user(x),
            asset_id:      hash("asset"),
            before_amount: Balance::from(0u64),
            after_amount:  Balance::from(7u64) << 300,
        },
        2 => ReceiptResult::Approve {
            spender:  contract(x, ContractType::App),
            asset_id: hash("asset"),
            max:      Balance::from(3u64),
        },
        3 => deploy(ContractType::Asset),
        4 => ReceiptResult::Call {
            contract:     contract(x, ContractType::Asset),
            return_value: Bytes::from(vec![x; 70]),
            logs_bloom:   Box::new(Bloom::from([x; 256])),
        },
        5 => ReceiptResult::Fail { system: "system".to_owned(), user: "user".to_owned() },
        6 => ReceiptResult::Fail { system: String::new(), user: String::new() },
        7 => deploy(ContractType::Library),
        8 => deploy(ContractType::App),
        _ => ReceiptResult::Fail { system: "s".repeat(300), user: "\u{1F600}".to_owned() },
    };
    Receipt {
        state_root: hash(&format!("root {}", v)),
        epoch_id: v as u64,
        tx_hash: hash(h),
        cycles_used: Fee { asset_id: hash("fee"), cycle: if v == 9 { std::u64::MAX } else { v as u64 } },
        result,
    }
}

fn proof(p: i64) -> Proof {
    Proof {
        epoch_id:   if p == 9 { std::u64::MAX } else { p as u64 },
        round:      (p * 3) as u64,
        epoch_hash: hash(&format!("proof {}", p)),
        signature:  Bytes::from(vec![p as u8; (p * 11) as usize]),
        bitmap:     Bytes::from(vec![0u8; (p % 3) as usize]),
    }
}

fn block_index(tok: &str) -> (usize, u64) {
    let mut it = tok[1..].split('.');
    let k: usize = it.next().and_then(|x| x.parse().ok()).expect("block");
    let v: u64 = it.next().and_then(|x| x.parse().ok()).expect("block");
    (k, v)
}

fn block(tok: &str) -> Epoch {
    let (k, v) = block_index(tok);
    Epoch {
        header:            EpochHeader {
            chain_id:          hash("chain"),
            epoch_id:          HEIGHTS[k - 1],
            pre_hash:          hash("previous"),
            timestamp:         v,
            logs_bloom:        Bloom::from([v as u8; 256]),
            order_root:        hash("order"),
            confirm_root:      (0..k).map(|i| hash(&format!("confirm {}", i))).collect(),
            state_root:        hash("state"),
            receipt_root:      (0..v).map(|i| hash(&format!("receipt {}", i))).collect(),
            cycles_used:       99 * v,
            proposer:          user(k as u8),
            proof:             proof(k as i64),
            validator_version: 1,
            validators:        (0..k)
                .map(|i| Validator { address: user(i as u8), propose_weight: i as u8, vote_weight: 255 - i as u8 })
                .collect(),
        },
        ordered_tx_hashes: (0..k).map(|i| hash(&format!("tx {}", i))).collect(),
    }
}

fn blocks() -> Vec<String> {
    let mut v = vec![];
    for k in 1..=HEIGHTS.len() {
        for x in 1..=2 {
            v.push(format!("b{}.{}", k, x));
        }
    }
    v
}

fn block_hash(tok: &str) -> Hash {
    let mut header = block(tok).header;
    Hash::digest(block_on(header.encode()).expect("header"))
}

// ---- reading everything back ----

fn tx_val(h: Option<&str>, t: &SignedTransaction) -> i64 {
    HASHES
        .iter()
        .filter(|x| h.map(|h| h == **x).unwrap_or(true))
        .filter_map(|x| (1..10).find(|v| &transaction(x, *v) == t))
        .next()
        .unwrap_or(-2)
}
fn rc_val(h: Option<&str>, t: &Receipt) -> i64 {
    HASHES
        .iter()
        .filter(|x| h.map(|h| h == **x).unwrap_or(true))
        .filter_map(|x| (1..10).find(|v| &receipt(x, *v) == t))
        .next()
        .unwrap_or(-2)
}
fn block_val(e: &Epoch) -> String {
    blocks().into_iter().find(|t| &block(t) == e).unwrap_or_else(|| "?".to_owned())
}

/// An absent answer is an error of the store; a panic is something else.
fn or_absent<T>(r: Result<T, (String, String)>, absent: T, broken: T) -> T {
    match r {
        Ok(v) => v,
        Err((k, _)) => {
            if k == "panic" {
                broken
            } else {
                absent
            }
        }
    }
}
fn es(e: ProtocolError) -> String {
    e.to_string()
}

fn reads<A: StorageAdapter>(st: &ImplStorage<Faulty<A>>, ad: &Faulty<A>, n: usize) -> Value {
    let mut tx = vec![];
    let mut rc = vec![];
    let mut has = vec![];
    for h in &HASHES {
        let t = guarded(|| block_on(st.get_transaction_by_hash(hash(h))).map_err(es).map(|t| tx_val(Some(h), &t)));
        tx.push(json!([h, or_absent(t, 0, -3)]));
        let r = guarded(|| block_on(st.get_receipt(hash(h))).map_err(es).map(|t| rc_val(Some(h), &t)));
        rc.push(json!([h, or_absent(r, 0, -3)]));
        let a = guarded(|| block_on(ad.contains::<TransactionSchema>(hash(h))).map_err(es).map(|b| json!(b)));
        let b = guarded(|| block_on(ad.contains::<ReceiptSchema>(hash(h))).map_err(es).map(|b| json!(b)));
        has.push(json!([h, or_absent(a, json!("err"), json!("err")), or_absent(b, json!("err"), json!("err"))]));
    }
    let keys: Vec<&str> = match n % 3 {
        0 => HASHES.to_vec(),
        1 => HASHES.iter().rev().cloned().collect(),
        _ => vec!["h2", "h4", "h2", "h1"],
    };
    let ks = || keys.iter().map(|k| hash(k)).collect::<Vec<_>>();
    let btx = guarded(|| {
        block_on(st.get_transactions(ks()))
            .map_err(es)
            .map(|l| json!(l.iter().map(|t| tx_val(None, t)).collect::<Vec<_>>()))
    });
    let brc = guarded(|| {
        block_on(st.get_receipts(ks()))
            .map_err(es)
            .map(|l| json!(l.iter().map(|t| rc_val(None, t)).collect::<Vec<_>>()))
    });
    let byh: Vec<Value> = (1..=HEIGHTS.len())
        .map(|k| {
            let r = guarded(|| {
                block_on(st.get_epoch_by_epoch_id(HEIGHTS[k - 1])).map_err(es).map(|e| block_val(&e))
            });
            json!([k, or_absent(r, String::new(), "!".to_owned())])
        })
        .collect();
    let byx: Vec<Value> = blocks()
        .iter()
        .map(|t| {
            let r = guarded(|| block_on(st.get_epoch_by_hash(block_hash(t))).map_err(es).map(|e| block_val(&e)));
            json!([t, or_absent(r, String::new(), "!".to_owned())])
        })
        .collect();
    let latest = guarded(|| block_on(st.get_latest_epoch()).map_err(es).map(|e| block_val(&e)));
    let pr = guarded(|| {
        block_on(st.get_latest_proof()).map_err(es).map(|p| (1..10).find(|v| proof(*v) == p).unwrap_or(-2))
    });
    json!({
        "tx": tx, "rc": rc, "has": has, "bkeys": keys, "btx": or_absent(btx, json!([-1]), json!([-3])),
        "brc": or_absent(brc, json!([-1]), json!([-3])), "byh": byh, "byx": byx,
        "latest": or_absent(latest, String::new(), "!".to_owned()), "proof": or_absent(pr, 0, -3),
    })
}

fn run_op<A: StorageAdapter>(st: &ImplStorage<Faulty<A>>, ad: &Faulty<A>, op: &Value) -> Result<(), (String, String)> {
    let list: Vec<(String, i64)> = arr(op, "list")
        .iter()
        .map(|x| (x[0].as_str().expect("hash").to_owned(), x[1].as_i64().expect("value")))
        .collect();
    let tx = s(op, "kind") == "tx";
    guarded(|| {
        block_on(async {
            match s(op, "op") {
                "batch" if tx => st.insert_transactions(list.iter().map(|(h, v)| transaction(h, *v)).collect()).await,
                "batch" => st.insert_receipts(list.iter().map(|(h, v)| receipt(h, *v)).collect()).await,
                "mix" | "mismatch" => {
                    let extra = if s(op, "op") == "mismatch" { 1 } else { 0 };
                    let mut keys: Vec<Hash> = list.iter().map(|(h, _)| hash(h)).collect();
                    keys.truncate(list.len() - extra);
                    if tx {
                        let vals = list
                            .iter()
                            .map(|(h, v)| {
                                if *v == 0 {
                                    StorageBatchModify::Remove
                                } else {
                                    StorageBatchModify::Insert(transaction(h, *v))
                                }
                            })
                            .collect();
                        ad.batch_modify::<TransactionSchema>(keys, vals).await
                    } else {
                        let vals = list
                            .iter()
                            .map(|(h, v)| {
                                if *v == 0 {
                                    StorageBatchModify::Remove
                                } else {
                                    StorageBatchModify::Insert(receipt(h, *v))
                                }
                            })
                            .collect();
                        ad.batch_modify::<ReceiptSchema>(keys, vals).await
                    }
                }
                "remove" if tx => ad.remove::<TransactionSchema>(hash(s(op, "h"))).await,
                "remove" => ad.remove::<ReceiptSchema>(hash(s(op, "h"))).await,
                "block" => st.insert_epoch(block(s(op, "b"))).await,
                "proof" => st.update_latest_proof(proof(int(op, "p"))).await,
                _ => Ok(()),
            }
        })
        .map_err(es)
    })
}

struct Store<A> {
    ad: Arc<Faulty<A>>,
    st: ImplStorage<Faulty<A>>,
}

impl<A: StorageAdapter> Store<A> {
    fn new(a: A) -> Self {
        let ad = Arc::new(Faulty::new(a));
        Store { st: ImplStorage::new(Arc::clone(&ad)), ad }
    }
}

fn event(out: &mut Out, op: &Value, fault: bool, r: Result<(), (String, String)>, rd: Value) {
    let (st, msg) = match r {
        Ok(()) => ("ok".to_owned(), String::new()),
        Err(e) => e,
    };
    out.ev(json!({"e": "op", "o": op, "fault": fault, "st": st, "msg": msg, "reads": rd}));
}

fn run_memory(out: &mut Out, ops: &[Value]) {
    let x = Store::new(MemoryAdapter::new());
    for (i, op) in ops.iter().enumerate() {
        x.ad.arm(int(op, "at"), op["eff"] == json!(true), Mode::Err);
        let r = run_op(&x.st, &x.ad, op);
        let fired = x.ad.fired();
        x.ad.arm(0, false, Mode::Err);
        event(out, op, fired, r, reads(&x.st, &x.ad, i));
    }
}

fn open(path: &Path) -> Store<RocksAdapter> {
    Store::new(RocksAdapter::new(path).expect("rocksdb"))
}

/// how: "err" (the adapter call fails), "kill" (the process dies at the adapter call), "full" (the file system refuses
/// to grow files beyond some size), "fullkill" (and the process dies of it).
fn run_rocks(out: &mut Out, ops: &[Value], path: &Path, how: &str, reopen_always: bool) {
    let mut x = Some(open(path));
    for (i, op) in ops.iter().enumerate() {
        let at = int(op, "at");
        let (fault, r) = if at != 0 && how != "err" {
            drop(x.take());
            let r = child(path, op, how);
            x = Some(open(path));
            (r.is_err(), r)
        } else {
            let y = x.as_ref().expect("open");
            y.ad.arm(at, op["eff"] == json!(true), Mode::Err);
            let r = run_op(&y.st, &y.ad, op);
            let f = y.ad.fired();
            y.ad.arm(0, false, Mode::Err);
            (f, r)
        };
        if s(op, "op") == "restart" || reopen_always || (fault && i % 2 == 0) {
            drop(x.take());
            x = Some(open(path));
        }
        let y = x.as_ref().expect("open");
        event(out, op, fault, r, reads(&y.st, &y.ad, i));
    }
}

fn child(path: &Path, op: &Value, how: &str) -> Result<(), (String, String)> {
    let o = Command::new(std::env::current_exe().expect("self"))
        .args(&["storage-child", path.to_str().expect("path"), how, &op.to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("child");
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    if t.contains("RESULT ok") {
        Ok(())
    } else if t.contains("RESULT ") {
        Err(("err".to_owned(), t))
    } else {
        Err(("crash".to_owned(), t))
    }
}

pub fn main_child(path: &str, how: &str, op: &str) {
    let op: Value = serde_json::from_str(op).expect("operation");
    let x = open(Path::new(path));
    let (at, eff) = (int(&op, "at"), op["eff"] == json!(true));
    if how == "kill" {
        x.ad.arm(at, eff, Mode::Abort);
    } else {
        // bytes the log may still grow to
        let limit = match (at, eff) {
            (1, false) => 0,
            (1, true) => 200,
            (2, false) => 700,
            (2, true) => 900,
            (3, false) => 1200,
            (3, true) => 1500,
            (4, false) => 350,
            (4, true) => 2000,
            (_, false) => 90,
            (_, true) => 1900,
        };
        unsafe {
            if how == "full" {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            }
            let r = libc::rlimit { rlim_cur: limit, rlim_max: limit };
            libc::setrlimit(libc::RLIMIT_FSIZE, &r);
        }
    }
    let r = run_op(&x.st, &x.ad, &op);
    println!("RESULT {}", if r.is_ok() { "ok" } else { "err" });
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

/// Argument: "plain" (no failures) or "fault".
pub fn main(mode: &str) {
    let mut out = Out::new();
    let scratch = Scratch::new("storage");
    let all = behaviours();
    let single = all.len() == 1; // a replay: every backend and every way to fail
    let mut n = 0;
    for (bi, ops) in all.iter().enumerate() {
        let hows: Vec<&str> = if mode == "plain" {
            if single {
                vec!["memory", "rocks", "reopen"]
            } else if bi % 16 == 15 {
                vec!["memory", "reopen"]
            } else if bi % 3 == 0 || ops.len() > 10 {
                vec!["memory", "rocks"]
            } else {
                vec!["memory"]
            }
        } else if single {
            vec!["memory", "err", "kill", "full", "fullkill"]
        } else {
            vec![match bi % 12 {
                0 | 6 => "err",
                1 => "kill",
                2 | 3 => "full",
                4 => "fullkill",
                _ => "memory",
            }]
        };
        for how in hows {
            out.ev(json!({"e": "reset", "b": bi}));
            if how == "memory" {
                run_memory(&mut out, ops);
                continue;
            }
            n += 1;
            let p = scratch.0.join(format!("d{}", n));
            match how {
                "rocks" => run_rocks(&mut out, ops, &p, "err", false),
                "reopen" => run_rocks(&mut out, ops, &p, "err", true),
                _ => run_rocks(&mut out, ops, &p, how, false),
            }
            let _ = std::fs::remove_dir_all(&p);
        }
    }
    out.flush();
}
