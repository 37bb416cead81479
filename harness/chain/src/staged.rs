//! Replays behaviours of spec/Staged.tla and spec/Native.tla on the staged contract state and the native contracts.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;

use bytes::Bytes;
use cita_trie::{MemoryDB, DB};
use serde_json::{json, Value};

use core_executor::trie::{MPTTrie, RocksTrieDB};
use core_executor::verif_hooks::{
    FixedAccountSchema, FixedAssetSchema, GeneralContractStateAdapter, NativeAccountContract, NativeBankContract,
};
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::executor::contract::{AccountContract, BankContract, ContractStateAdapter};
use protocol::traits::executor::InvokeContext;
use protocol::types::*;

use crate::ledger::{self, Names, HEIGHT_BASE};
use crate::mpt;
use crate::util::*;

const KEYS: [&str; 5] = ["a1", "a2", "c1", "s1", "s2"];

fn address(n: &Names, k: &str) -> Address {
    n.addr(match k {
        "a1" => "u1",
        "a2" => "u2",
        _ => "c1",
    })
}
fn asset_key(k: &str) -> Hash {
    Hash::digest(Bytes::from(k.to_owned()))
}
fn account(k: &str, v: u64) -> Account {
    let mut assets = BTreeMap::new();
    if k.starts_with('c') {
        assets.insert(asset_key("s1"), Balance::from(v));
        Account::Contract(ContractAccount { nonce: v, assets, storage_root: Hash::from_empty() })
    } else {
        Account::User(UserAccount { nonce: v, assets: BTreeMap::new() })
    }
}
fn asset(n: &Names, k: &str, v: u64) -> Asset {
    Asset {
        id: asset_key(k),
        name: "name".to_owned(),
        symbol: "S".to_owned(),
        supply: Balance::from(v),
        manage_contract: n.contract("sys#0"),
        storage_root: Hash::from_empty(),
    }
}
fn account_value(k: &str, a: &Account) -> i64 {
    for v in 1..10 {
        if account(k, v).encode_fixed().ok() == a.encode_fixed().ok() {
            return v as i64;
        }
    }
    -2
}
fn asset_value(n: &Names, k: &str, a: &Asset) -> i64 {
    for v in 1..10 {
        if asset(n, k, v).encode_fixed().ok() == a.encode_fixed().ok() {
            return v as i64;
        }
    }
    -2
}

type Ad<D> = GeneralContractStateAdapter<D>;
fn es(e: protocol::ProtocolError) -> String {
    e.to_string()
}

fn reads<D: DB>(n: &Names, a: &Ad<D>) -> Result<Value, String> {
    let mut v = vec![];
    for k in &KEYS {
        let (has, val) = if k.starts_with('s') {
            let key = asset_key(k);
            let val = a.get::<FixedAssetSchema>(&key).map_err(es)?;
            (a.contains::<FixedAssetSchema>(&key).map_err(es)?, val.map(|x| asset_value(n, k, &x)))
        } else {
            let key = address(n, k);
            let val = a.get::<FixedAccountSchema>(&key).map_err(es)?;
            (a.contains::<FixedAccountSchema>(&key).map_err(es)?, val.map(|x| account_value(k, &x)))
        };
        v.push(json!([k, has, val.unwrap_or(-1)]));
    }
    Ok(json!(v))
}

fn under<D: DB>(n: &Names, db: &D, root: &[u8]) -> Result<Value, String> {
    let mut v = vec![];
    for (k, b) in mpt::leaves(db, root)? {
        let b = Bytes::from(b);
        let mut hit = None;
        for name in &KEYS {
            if name.starts_with('s') {
                if asset_key(name).encode_fixed().map_err(es)? == k {
                    hit = Some(json!([name, asset_value(n, name, &Asset::decode_fixed(b.clone()).map_err(es)?)]));
                }
            } else if address(n, name).encode_fixed().map_err(es)? == k {
                hit = Some(json!([name, account_value(name, &Account::decode_fixed(b.clone()).map_err(es)?)]));
            }
        }
        v.push(hit.unwrap_or_else(|| json!(["?", -2])));
    }
    Ok(json!(v))
}

fn staged_run<D: DB>(n: &Names, out: &mut Out, ops: &[Value], db: &mut Arc<D>, reopen: &mut dyn FnMut(&mut Arc<D>)) {
    let mut roots = Tokens::new("r");
    let mut order: Vec<Vec<u8>> = vec![];
    let mut hs: HashMap<String, Ad<D>> = HashMap::new();
    for op in ops {
        let h = s(op, "h").to_owned();
        let mut root = s(op, "root").to_owned();
        let o = s(op, "op");
        if o == "restart" {
            hs.clear();
            reopen(db);
            out.ev(json!({"e": "restart"}));
            continue;
        }
        let k = s(op, "k").to_owned();
        let v = int(op, "v");
        let r = guarded(|| {
            match o {
                "new" => {
                    hs.insert(h.clone(), Ad::new(MPTTrie::new(Arc::clone(db))));
                }
                "open" => {
                    let b = roots.value(&root).ok_or("no such root")?;
                    let t = MPTTrie::from(Hash::from_bytes(Bytes::from(b)).map_err(es)?, Arc::clone(db)).map_err(es)?;
                    hs.insert(h.clone(), Ad::new(t));
                }
                _ => {
                    let a = hs.get_mut(&h).ok_or("no handle")?;
                    match o {
                        "ins" => {
                            if k.starts_with('s') {
                                a.insert_cache::<FixedAssetSchema>(asset_key(&k), asset(n, &k, v as u64)).map_err(es)?
                            } else {
                                a.insert_cache::<FixedAccountSchema>(address(n, &k), account(&k, v as u64)).map_err(es)?
                            }
                        }
                        "revert" => a.revert_cache().map_err(es)?,
                        "stash" => a.stash().map_err(es)?,
                        "commit" => {
                            let t = a.commit().map_err(es)?;
                            let b = t.as_bytes().to_vec();
                            root = roots.token(&b);
                            if !order.contains(&b) {
                                order.push(b);
                            }
                        }
                        x => return Err(format!("unknown operation {}", x)),
                    }
                }
            };
            reads(n, &hs[&h])
        });
        let (st, msg, rd) = match r {
            Ok(rd) => ("ok".to_owned(), String::new(), rd),
            Err((st, msg)) => (st, msg, json!([])),
        };
        let bad = st != "ok";
        out.ev(json!({"e": o, "h": h, "root": root, "k": k, "v": v, "st": st, "msg": msg, "reads": rd}));
        if bad {
            return;
        }
        if o == "commit" {
            roots_under(n, out, &**db, &order, &mut roots);
        }
    }
    roots_under(n, out, &**db, &order, &mut roots);
}

fn roots_under<D: DB>(n: &Names, out: &mut Out, db: &D, order: &[Vec<u8>], roots: &mut Tokens) {
    for b in order {
        let (st, c) = match guarded(|| under(n, db, b)) {
            Ok(c) => ("ok".to_owned(), c),
            Err((st, _)) => (st, json!([])),
        };
        out.ev(json!({"e": "under", "root": roots.token(b), "st": st, "content": c}));
    }
}

/// Runs f on an in-memory database, or (when rocks) on RocksDB with real restarts.
fn on_db(
    rocks: Option<std::path::PathBuf>,
    mem: impl FnOnce(&mut Arc<MemoryDB>, &mut dyn FnMut(&mut Arc<MemoryDB>)),
    dsk: impl FnOnce(&mut Arc<RocksTrieDB>, &mut dyn FnMut(&mut Arc<RocksTrieDB>)),
) {
    match rocks {
        None => mem(&mut Arc::new(MemoryDB::new(false)), &mut |_| {}),
        Some(path) => {
            let (p, spare) = (path.join("db"), path.join("spare"));
            let mut db = Arc::new(RocksTrieDB::new(&p, false).expect("rocksdb"));
            dsk(&mut db, &mut |db| {
                *db = Arc::new(RocksTrieDB::new(&spare, false).expect("rocksdb"));
                *db = Arc::new(RocksTrieDB::new(&p, false).expect("reopen"));
            });
            drop(db);
            let _ = std::fs::remove_dir_all(&path);
        }
    }
}

pub fn main_staged() {
    let n = Names::new();
    let out = RefCell::new(Out::new());
    let scratch = Scratch::new("staged");
    for (bi, ops) in behaviours().iter().enumerate() {
        out.borrow_mut().ev(json!({"e": "reset"}));
        let rocks = if bi % 12 == 5 { Some(scratch.0.join(format!("b{}", bi))) } else { None };
        if let Some(p) = &rocks {
            std::fs::create_dir_all(p).expect("scratch");
        }
        on_db(
            rocks,
            |db, re| staged_run(&n, &mut out.borrow_mut(), ops, db, re),
            |db, re| staged_run(&n, &mut out.borrow_mut(), ops, db, re),
        );
    }
    out.borrow_mut().flush();
}

struct Contracts<D: DB> {
    acct_state: Rc<RefCell<Ad<D>>>,
    bank_state: Rc<RefCell<Ad<D>>>,
    acct:       NativeAccountContract<Ad<D>>,
    bank:       NativeBankContract<Ad<D>>,
}

impl<D: DB> Contracts<D> {
    fn new(n: &Names, a: MPTTrie<D>, b: MPTTrie<D>) -> Self {
        let acct_state = Rc::new(RefCell::new(Ad::new(a)));
        let bank_state = Rc::new(RefCell::new(Ad::new(b)));
        Contracts {
            acct: NativeAccountContract::new(Rc::clone(&acct_state)),
            bank: NativeBankContract::new(n.chain_id.clone(), Rc::clone(&bank_state)),
            acct_state,
            bank_state,
        }
    }
}

fn nonce_json(x: u64) -> Value {
    json!(if x < 1_000_000_000 { x as i64 } else { -1 })
}

fn call<D: DB>(n: &Names, c: &mut Contracts<D>, op: &Value) -> Result<Value, String> {
    let a = n.addr(s(op, "a"));
    let asset = n.asset(s(op, "s"));
    let v = amount(&op["v"]);
    let carry = s(op, "op") == "transfer";
    let ictx = Rc::new(RefCell::new(InvokeContext {
        chain_id:       n.chain_id.clone(),
        cycles_used:    int(op, "used") as u64,
        cycles_limit:   int(op, "limit") as u64,
        cycles_price:   3,
        epoch_id:       HEIGHT_BASE,
        caller:         a.clone(),
        coinbase:       n.addr("u5"),
        fee_asset_id:   n.asset("fee"),
        carrying_asset: if carry { Some(CarryingAsset { asset_id: asset.clone(), amount: v.clone() }) } else { None },
    }));
    Ok(match s(op, "op") {
        "add" => {
            c.acct.add_balance(&asset, &a, v).map_err(es)?;
            json!([])
        }
        "sub" => {
            c.acct.sub_balance(&asset, &a, v).map_err(es)?;
            json!([])
        }
        "transfer" | "transfer0" => {
            c.acct.transfer(Rc::clone(&ictx), &n.addr(s(op, "to"))).map_err(es)?;
            let u = ictx.borrow().cycles_used;
            json!([u])
        }
        "create" => {
            let acc = c.acct.create_account(&a).map_err(es)?;
            json!([nonce_json(match acc {
                Account::User(u) => u.nonce,
                Account::Contract(u) => u.nonce,
            })])
        }
        "inc" => {
            c.acct.inc_nonce(ictx).map_err(es)?;
            json!([])
        }
        "bal" => json!([amount_json(&c.acct.get_balance(&asset, &a).map_err(es)?)]),
        "nonce" => {
            let x = c.acct.get_nonce(&a).map_err(es)?;
            let same = match c.acct.get_account(&a).map_err(es)? {
                Account::User(u) => u.nonce == x,
                Account::Contract(u) => u.nonce == x,
            };
            json!([if same { nonce_json(x) } else { json!(-2) }])
        }
        "register" => {
            let mut addr = n.contract(s(op, "s")).as_bytes().to_vec();
            match s(op, "kind") {
                "asset" => {}
                k => {
                    addr[0] = match k {
                        "app" => 0x21,
                        "library" => 0x22,
                        _ => 0x23,
                    };
                    // the kind is part of the address
                }
            }
            let addr = ContractAddress::from_bytes(Bytes::from(addr)).map_err(es)?;
            let supply: Balance = s(op, "supply").parse().expect("supply");
            let r = c
                .bank
                .register(Rc::clone(&ictx), &addr, s(op, "name").to_owned(), s(op, "symbol").to_owned(), supply)
                .map_err(es)?;
            if r.id != asset || r.manage_contract != addr {
                return Ok(json!(["misnamed"]));
            }
            let u = ictx.borrow().cycles_used;
            json!([u])
        }
        "asset" => {
            let r = c.bank.get_asset(ictx, &asset).map_err(es)?;
            if r.id != asset {
                json!(["misnamed"])
            } else {
                json!([{"name": r.name, "symbol": r.symbol, "supply": r.supply.to_string()}])
            }
        }
        x => return Err(format!("unknown call {}", x)),
    })
}

fn native_run<D: 'static + DB>(n: &Names, out: &mut Out, ops: &[Value], db: &Arc<D>) {
    let mut roots = Tokens::new("r");
    let mut c: Option<Contracts<D>> = None;
    for op in ops {
        let o = s(op, "op");
        match o {
            "new" => {
                c = Some(Contracts::new(n, MPTTrie::new(Arc::clone(db)), MPTTrie::new(Arc::clone(db))));
                out.ev(json!({"e": "new"}));
            }
            "open" => {
                let b = match roots.value(s(op, "root")) {
                    Some(b) => b,
                    None => {
                        out.ev(json!({"e": "stop"}));
                        return;
                    }
                };
                let r = guarded(|| {
                    let t = |b: &[u8]| {
                        MPTTrie::from(Hash::from_bytes(Bytes::from(b.to_vec())).map_err(es)?, Arc::clone(db)).map_err(es)
                    };
                    c = Some(Contracts::new(n, t(&b[..32])?, t(&b[32..])?));
                    Ok(())
                });
                let st = r.as_ref().err().map(|e| e.0.clone()).unwrap_or_else(|| "ok".to_owned());
                out.ev(json!({"e": "open", "root": op["root"], "st": st}));
                if r.is_err() {
                    return;
                }
            }
            "revert" | "stash" => {
                let x = c.as_mut().expect("open");
                let r = guarded(|| {
                    for a in &[&x.acct_state, &x.bank_state] {
                        if o == "revert" {
                            a.borrow_mut().revert_cache().map_err(es)?;
                        } else {
                            a.borrow_mut().stash().map_err(es)?;
                        }
                    }
                    Ok(())
                });
                out.ev(json!({"e": o, "st": r.err().map(|e| e.0).unwrap_or_else(|| "ok".to_owned())}));
            }
            "commit" => {
                let x = c.as_mut().expect("open");
                let r = guarded(|| {
                    let a = x.acct_state.borrow_mut().commit().map_err(es)?.as_bytes();
                    let b = x.bank_state.borrow_mut().commit().map_err(es)?.as_bytes();
                    let w = ledger::world_of(n, &mpt::leaves(&**db, &a)?, &mpt::leaves(&**db, &b)?)?;
                    Ok((w, roots.token(&[&a[..], &b[..]].concat())))
                });
                match r {
                    Ok((w, t)) => out.ev(json!({"e": "commit", "root": t, "world": w, "st": "ok"})),
                    Err((st, m)) => {
                        out.ev(json!({"e": "commit", "root": "", "world": {"acct": [], "reg": []}, "st": st, "msg": m}));
                        return;
                    }
                }
            }
            _ => {
                let x = c.as_mut().expect("open");
                let r = guarded(|| call(n, x, op));
                let stop = r.as_ref().err().map(|e| e.0 == "panic").unwrap_or(false);
                match r {
                    Ok(v) => out.ev(json!({"e": "call", "c": op, "st": "ok", "val": v, "msg": ""})),
                    Err((st, m)) => out.ev(json!({"e": "call", "c": op, "st": st, "val": [], "msg": m})),
                }
                if stop {
                    return;
                }
            }
        }
    }
}

pub fn main_native() {
    let n = Names::new();
    let mut out = Out::new();
    for ops in behaviours().iter() {
        out.ev(json!({"e": "reset"}));
        native_run(&n, &mut out, ops, &Arc::new(MemoryDB::new(false)));
    }
    out.flush();
}
