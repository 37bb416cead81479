//! Replays behaviours of spec/Codec.tla: objects through every encoding, transaction hashes, altered encodings.
use std::collections::BTreeMap;

use bytes::Bytes;
use futures::executor::block_on;
use serde_json::{json, Value};

use core_storage::adapter::memory::MemoryAdapter;
use core_storage::ImplStorage;
use protocol::codec::ProtocolCodec;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::traits::Storage;
use protocol::types::*;
use std::sync::Arc;

use super::util::*;

// ---- concrete values for the codes of the leaf types ----

pub fn hash(c: i64) -> Hash {
    match c {
        0 => Hash::from_empty(),
        1 => Hash::from_bytes(Bytes::from(vec![0u8; 32])).expect("hash"),
        2 => Hash::from_bytes(Bytes::from(vec![0xffu8; 32])).expect("hash"),
        3 => {
            let mut v = vec![0u8; 32];
            v[31] = 1;
            Hash::from_bytes(Bytes::from(v)).expect("hash")
        }
        _ => Hash::digest(Bytes::from(vec![c as u8; 3])),
    }
}
pub fn num(c: i64) -> u64 {
    [0, 1, 127, 128, 255, 256, 65535, 1 << 32, 1 << 56, std::u64::MAX - 1, std::u64::MAX][c as usize]
}
fn num8(c: i64) -> u8 {
    [0, 1, 127, 128, 254, 255][c as usize]
}
fn bal(c: i64) -> Balance {
    let one = Balance::from(1u64);
    match c {
        0 => Balance::from(0u64),
        1 => one,
        2 => Balance::from(127u64),
        3 => Balance::from(128u64),
        4 => Balance::from(256u64),
        5 => one << 64,
        6 => (Balance::from(1u64) << 256) - one,
        7 => one << 256,
        _ => one << 2000,
    }
}
fn raw_bytes(c: i64) -> Vec<u8> {
    match c {
        0 => vec![],
        1 => vec![0],
        2 => vec![1],
        3 => vec![0x7f],
        4 => vec![0x80],
        5 => vec![0xc0],
        6 => vec![0, 0],
        7 => vec![0, 1],
        8 => (0..55).collect(),
        9 => (0..56).collect(),
        10 => vec![0xff; 56],
        11 => vec![7; 300],
        12 => vec![7; 5000],
        _ => vec![0xc1, 0x80],
    }
}
pub fn bytes(c: i64) -> Bytes {
    Bytes::from(raw_bytes(c))
}
fn text(c: i64) -> String {
    match c {
        0 => String::new(),
        1 => "a".to_owned(),
        2 => "\0".to_owned(),
        3 => "0x".to_owned(),
        4 => "0xab".to_owned(),
        5 => "ab".to_owned(),
        6 => "\u{e9}\u{1F600}".to_owned(),
        7 => "x".repeat(55),
        8 => "x".repeat(56),
        9 => "\"\\\n".to_owned(),
        _ => " y".repeat(200),
    }
}
fn user(c: i64) -> UserAddress {
    let mut v = vec![0x10u8];
    v.extend_from_slice(&match c {
        0 => vec![0u8; 20],
        1 => vec![0xff; 20],
        2 => (0..20).collect::<Vec<u8>>(),
        _ => vec![0x10; 20],
    });
    UserAddress::from_bytes(Bytes::from(v)).expect("user")
}
fn contract(c: i64) -> ContractAddress {
    let mut v = vec![0x20u8 + (c % 4) as u8];
    v.extend_from_slice(&if c < 4 { vec![0u8; 20] } else { (100..120).collect::<Vec<u8>>() });
    ContractAddress::from_bytes(Bytes::from(v)).expect("contract")
}
fn ctype(c: i64) -> ContractType {
    match c {
        0 => ContractType::Asset,
        1 => ContractType::App,
        2 => ContractType::Library,
        _ => ContractType::Native,
    }
}
fn bloom(c: i64) -> Bloom {
    let mut v = [0u8; 256];
    match c {
        0 => {}
        1 => v = [0xff; 256],
        2 => v[0] = 1,
        3 => v[255] = 1,
        4 => v[0] = 0x80,
        _ => {
            for (i, x) in v.iter_mut().enumerate() {
                *x = i as u8;
            }
        }
    }
    Bloom::from(v)
}
/// small lists over elements 0..: the order and the repetition count
pub fn list(c: i64) -> Vec<i64> {
    match c {
        0 => vec![],
        1 => vec![0],
        2 => vec![1],
        3 => vec![0, 1],
        4 => vec![1, 0],
        5 => vec![0, 0],
        6 => vec![1, 1],
        7 => vec![0, 1, 2, 3],
        8 => (0..60).map(|i| i % 4).collect(),
        _ => (0..200).map(|i| (i * i) % 4).collect(),
    }
}
pub fn hashes(c: i64) -> Vec<Hash> {
    list(c).into_iter().map(hash).collect()
}
fn args(c: i64) -> Vec<Bytes> {
    let l: Vec<Vec<u8>> = match c {
        0 => vec![],
        1 => vec![vec![]],
        2 => vec![vec![], vec![]],
        3 => vec![vec![1]],
        4 => vec![vec![1], vec![2]],
        5 => vec![vec![1, 2]],
        6 => vec![vec![2], vec![1]],
        7 => vec![vec![0]],
        8 => vec![vec![0x0f]],
        9 => vec![vec![0xf0]],
        10 => vec![vec![9; 60]; 3],
        _ => vec![vec![9; 1]; 300],
    };
    l.into_iter().map(Bytes::from).collect()
}
fn validators(c: i64) -> Vec<Validator> {
    list(c)
        .into_iter()
        .map(|i| Validator { address: user(i), propose_weight: num8(i), vote_weight: num8(5 - i) })
        .collect()
}
fn user_assets(c: i64) -> BTreeMap<AssetID, AssetInfo> {
    let info = |b: i64, ap: &[(i64, i64, i64)]| AssetInfo {
        balance:  bal(b),
        approved: ap.iter().map(|(k, m, u)| (contract(*k), ApprovedInfo { max: bal(*m), used: bal(*u) })).collect(),
    };
    let l = match c {
        0 => vec![],
        1 => vec![(0, info(0, &[]))],
        2 => vec![(1, info(0, &[]))],
        3 => vec![(4, info(1, &[]))],
        4 => vec![(4, info(1, &[(0, 1, 0)]))],
        5 => vec![(4, info(1, &[(0, 0, 1)]))],
        6 => vec![(4, info(1, &[(1, 1, 0)]))],
        7 => vec![(4, info(1, &[(0, 1, 0), (1, 6, 4)]))],
        8 => vec![(3, info(2, &[])), (4, info(3, &[]))],
        _ => vec![(3, info(3, &[])), (4, info(2, &[])), (5, info(8, &[(4, 8, 8), (7, 7, 7)]))],
    };
    l.into_iter().map(|(i, x)| (hash(i), x)).collect()
}
fn contract_assets(c: i64) -> BTreeMap<AssetID, Balance> {
    let l: Vec<(i64, i64)> = match c {
        0 => vec![],
        1 => vec![(0, 0)],
        2 => vec![(1, 0)],
        3 => vec![(2, 0)],
        4 => vec![(2, 1)],
        5 => vec![(2, 5)],
        6 => vec![(2, 1), (3, 2)],
        7 => vec![(2, 2), (3, 1)],
        8 => vec![(2, 8), (3, 7), (4, 6)],
        _ => vec![(1, 1), (2, 2), (3, 3), (4, 4), (5, 5)],
    };
    // codes 0 and 1 of hash are both empty-like; keep them apart
    l.into_iter().map(|(i, b)| (hash(if i == 0 { 5 } else { i }), bal(b))).collect()
}
fn gassets(c: i64) -> Vec<GenesisStateAsset> {
    let g = |a: i64, b: i64| GenesisStateAsset { asset_id: text(a), balance: text(b) };
    match c {
        0 => vec![],
        1 => vec![g(0, 0)],
        2 => vec![g(1, 0)],
        3 => vec![g(0, 1)],
        4 => vec![g(1, 5), g(5, 1)],
        5 => vec![g(5, 1), g(1, 5)],
        6 => vec![g(0, 0), g(0, 0)],
        _ => (0..30).map(|i| g(i % 10, (i / 3) % 10)).collect(),
    }
}
fn allocs(c: i64) -> Vec<GenesisStateAlloc> {
    let g = |a: i64, x: i64| GenesisStateAlloc { address: text(a), assets: gassets(x) };
    match c {
        0 => vec![],
        1 => vec![g(0, 0)],
        2 => vec![g(1, 0)],
        3 => vec![g(0, 1)],
        4 => vec![g(1, 4), g(5, 0)],
        5 => vec![g(5, 4), g(1, 0)],
        6 => vec![g(0, 0), g(0, 0)],
        _ => (0..8).map(|i| g(i, i)).collect(),
    }
}

// ---- objects ----

/// An object of one of the kinds of the specification.
pub trait Obj {
    fn show(&self) -> String;
    fn kind(&self) -> &'static str;
    fn enc(&self, e: &str) -> Result<Bytes, String>;
}

pub fn es<E: ToString>(e: E) -> String {
    e.to_string()
}

macro_rules! obj {
    (@enc $x:ident, proto) => {
        block_on($x.clone().encode()).map_err(es)
    };
    (@enc $x:ident, rlp) => {
        $x.encode_fixed().map_err(es)
    };
    (@enc $x:ident, json) => {
        Ok(Bytes::from($x.json().to_string()))
    };
    (@dec $t:ty, $b:ident, proto) => {
        block_on(<$t as ProtocolCodec>::decode($b)).map_err(es)
    };
    (@dec $t:ty, $b:ident, rlp) => {
        <$t as ProtocolFixedCodec>::decode_fixed($b).map_err(es)
    };
    (@dec $t:ty, $b:ident, json) => {
        serde_json::from_slice::<$t>(&$b).map_err(es)
    };
    ($( $name:literal $t:ty : $($e:ident)+ ;)+) => {
        $( impl Obj for $t {
            fn show(&self) -> String {
                format!("{:?}", self)
            }
            fn kind(&self) -> &'static str {
                $name
            }
            fn enc(&self, e: &str) -> Result<Bytes, String> {
                let x = self;
                $( if e == stringify!($e) { return obj!(@enc x, $e); } )+
                panic!("encoding {}", e)
            }
        } )+
        pub const KINDS: &[&str] = &[$($name),+];
        fn dec(kind: &str, e: &str, b: Bytes) -> Result<Box<dyn Obj>, String> {
            $( $( if kind == $name && e == stringify!($e) {
                let r: Result<$t, String> = obj!(@dec $t, b, $e);
                return r.map(|x| Box::new(x) as Box<dyn Obj>);
            } )+ )+
            panic!("{} {}", kind, e)
        }
        fn encodings(kind: &str) -> Vec<&'static str> {
            $( if kind == $name { return vec![$(stringify!($e)),+]; } )+
            panic!("kind {}", kind)
        }
    };
}

obj! {
    "raw" RawTransaction : proto rlp;
    "signed" SignedTransaction : proto rlp;
    "receipt" Receipt : proto rlp;
    "result" ReceiptResult : rlp;
    "proof" Proof : proto rlp;
    "header" EpochHeader : proto rlp;
    "epoch" Epoch : proto rlp;
    "pill" Pill : proto rlp;
    "validator" Validator : proto rlp;
    "epochid" EpochId : proto rlp;
    "hash" Hash : proto rlp;
    "balance" Balance : proto;
    "fee" Fee : proto rlp;
    "uaddr" UserAddress : proto rlp;
    "caddr" ContractAddress : proto rlp;
    "address" Address : rlp;
    "asset" Asset : proto rlp;
    "account" Account : rlp;
    "genesis" Genesis : rlp json;
    "alloc" GenesisStateAlloc : rlp json;
    "gasset" GenesisStateAsset : rlp json;
}

trait Json {
    fn json(&self) -> Value;
}
impl Json for GenesisStateAsset {
    fn json(&self) -> Value {
        json!({"asset_id": self.asset_id, "balance": self.balance})
    }
}
impl Json for GenesisStateAlloc {
    fn json(&self) -> Value {
        json!({"address": self.address, "assets": self.assets.iter().map(|x| x.json()).collect::<Vec<_>>()})
    }
}
impl Json for Genesis {
    fn json(&self) -> Value {
        json!({"timestamp": self.timestamp, "prevhash": self.prevhash, "system_token": {"code": self.system_token.code, "name": self.system_token.name,
                                "symbol": self.system_token.symbol, "supply": self.system_token.supply},
               "state_alloc": self.state_alloc.iter().map(|x| x.json()).collect::<Vec<_>>()})
    }
}

fn raw_tx(var: &str, f: &[i64]) -> RawTransaction {
    let action = match var {
        "transfer" => TransactionAction::Transfer {
            receiver:       user(f[5]),
            carrying_asset: CarryingAsset { asset_id: hash(f[6]), amount: bal(f[7]) },
        },
        "approve" => TransactionAction::Approve { spender: contract(f[5]), asset_id: hash(f[6]), max: bal(f[7]) },
        "deploy" => TransactionAction::Deploy { code: bytes(f[5]), contract_type: ctype(f[6]) },
        _ => TransactionAction::Call {
            contract:       contract(f[5]),
            method:         text(f[6]),
            args:           args(f[7]),
            carrying_asset: if var == "callwith" {
                Some(CarryingAsset { asset_id: hash(f[8]), amount: bal(f[9]) })
            } else {
                None
            },
        },
    };
    RawTransaction {
        chain_id: hash(f[0]),
        nonce: hash(f[1]),
        timeout: num(f[2]),
        fee: Fee { asset_id: hash(f[3]), cycle: num(f[4]) },
        action,
    }
}

fn result(var: &str, f: &[i64]) -> ReceiptResult {
    match var {
        "transfer" => ReceiptResult::Transfer {
            receiver:      user(f[0]),
            asset_id:      hash(f[1]),
            before_amount: bal(f[2]),
            after_amount:  bal(f[3]),
        },
        "approve" => ReceiptResult::Approve { spender: contract(f[0]), asset_id: hash(f[1]), max: bal(f[2]) },
        "deploy" => ReceiptResult::Deploy { contract: contract(f[0]), contract_type: ctype(f[1]) },
        "call" => ReceiptResult::Call {
            contract:     contract(f[0]),
            return_value: bytes(f[1]),
            logs_bloom:   Box::new(bloom(f[2])),
        },
        _ => ReceiptResult::Fail { system: text(f[0]), user: text(f[1]) },
    }
}

fn proof(f: &[i64]) -> Proof {
    Proof {
        epoch_id:   num(f[0]),
        round:      num(f[1]),
        epoch_hash: hash(f[2]),
        signature:  bytes(f[3]),
        bitmap:     bytes(f[4]),
    }
}

fn header(f: &[i64]) -> EpochHeader {
    EpochHeader {
        chain_id:          hash(f[0]),
        epoch_id:          num(f[1]),
        pre_hash:          hash(f[2]),
        timestamp:         num(f[3]),
        logs_bloom:        bloom(f[4]),
        order_root:        hash(f[5]),
        confirm_root:      hashes(f[6]),
        state_root:        hash(f[7]),
        receipt_root:      hashes(f[8]),
        cycles_used:       num(f[9]),
        proposer:          user(f[10]),
        proof:             proof(&f[11..16]),
        validator_version: num(f[16]),
        validators:        validators(f[17]),
    }
}

pub fn epoch(f: &[i64]) -> Epoch {
    Epoch { header: header(f), ordered_tx_hashes: hashes(f[18]) }
}

/// The type of the system token has no public name; its fields do.
fn genesis(f: &[i64]) -> Genesis {
    let empty = json!({"timestamp": 0, "prevhash": "", "state_alloc": [],
                       "system_token": {"code": "", "name": "", "symbol": "", "supply": 0}});
    let mut g: Genesis = serde_json::from_value(empty).expect("genesis");
    g.timestamp = num(f[0]);
    g.prevhash = text(f[1]);
    g.system_token.code = text(f[2]);
    g.system_token.name = text(f[3]);
    g.system_token.supply = num(f[4]);
    g.system_token.symbol = text(f[5]);
    g.state_alloc = allocs(f[6]);
    g
}

fn build(kind: &str, var: &str, f: &[i64]) -> Box<dyn Obj> {
    let n = f.len();
    match kind {
        "raw" => Box::new(raw_tx(var, f)),
        "signed" => Box::new(signed(var, f)),
        "receipt" => Box::new(Receipt {
            state_root:  hash(f[0]),
            epoch_id:    num(f[1]),
            tx_hash:     hash(f[2]),
            cycles_used: Fee { asset_id: hash(f[3]), cycle: num(f[4]) },
            result:      result(var, &f[5..]),
        }),
        "result" => Box::new(result(var, f)),
        "proof" => Box::new(proof(f)),
        "header" => Box::new(header(f)),
        "epoch" => Box::new(epoch(f)),
        "pill" => Box::new(Pill { epoch: epoch(f), propose_hashes: hashes(f[n - 1]) }),
        "validator" => {
            Box::new(Validator { address: user(f[0]), propose_weight: num8(f[1]), vote_weight: num8(f[2]) })
        }
        "epochid" => Box::new(EpochId { id: num(f[0]) }),
        "hash" => Box::new(hash(f[0])),
        "balance" => Box::new(bal(f[0])),
        "fee" => Box::new(Fee { asset_id: hash(f[0]), cycle: num(f[1]) }),
        "uaddr" => Box::new(user(f[0])),
        "caddr" => Box::new(contract(f[0])),
        "address" => Box::new(if var == "user" { Address::User(user(f[0])) } else { Address::Contract(contract(f[0])) }),
        "asset" => Box::new(Asset {
            id:              hash(f[0]),
            name:            text(f[1]),
            symbol:          text(f[2]),
            supply:          bal(f[3]),
            manage_contract: contract(f[4]),
            storage_root:    hash(f[5]),
        }),
        "account" => Box::new(if var == "user" {
            Account::User(UserAccount { nonce: num(f[0]), assets: user_assets(f[1]) })
        } else {
            Account::Contract(ContractAccount {
                nonce:        num(f[0]),
                assets:       contract_assets(f[1]),
                storage_root: hash(f[2]),
            })
        }),
        "genesis" => Box::new(genesis(f)),
        "alloc" => Box::new(GenesisStateAlloc { address: text(f[0]), assets: gassets(f[1]) }),
        "gasset" => Box::new(GenesisStateAsset { asset_id: text(f[0]), balance: text(f[1]) }),
        k => panic!("kind {}", k),
    }
}

pub fn signed(var: &str, f: &[i64]) -> SignedTransaction {
    let n = f.len();
    SignedTransaction {
        raw:       raw_tx(var, f),
        tx_hash:   hash(f[n - 3]),
        pubkey:    bytes(f[n - 2]),
        signature: bytes(f[n - 1]),
    }
}

// ---- observations ----

/// The object with a decoded one's description, "err" or "panic".
fn outcome<T>(r: Result<T, (String, String)>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err((k, _)) => k,
    }
}

/// The kinds of objects a replay is about.
pub struct Registry {
    pub kinds:     &'static [&'static str],
    pub build:     fn(&str, &str, &[i64]) -> Box<dyn Obj>,
    pub dec:       fn(&str, &str, Bytes) -> Result<Box<dyn Obj>, String>,
    pub encodings: fn(&str) -> Vec<&'static str>,
    pub hashes:    bool,
}

/// Every encoding of an object gives it back.
fn survives(reg: &Registry, x: &dyn Obj) -> bool {
    let k = x.kind();
    (reg.encodings)(k).into_iter().all(|e| {
        guarded(|| {
            let b = x.enc(e)?;
            Ok((reg.dec)(k, e, b)?.show() == x.show())
        }) == Ok(true)
    })
}

fn tx_hash(raw: &RawTransaction) -> Result<Hash, String> {
    Ok(Hash::digest(raw.encode_fixed().map_err(es)?))
}

/// The transaction's hash: computed directly and after trips through each encoding and through storage.
fn tx_hashes(kind: &str, var: &str, f: &[i64], toks: &mut Tokens) -> Vec<String> {
    let raw = raw_tx(var, f);
    let stx = if kind == "signed" {
        signed(var, f)
    } else {
        SignedTransaction { raw: raw.clone(), tx_hash: hash(5), pubkey: bytes(7), signature: bytes(8) }
    };
    let trips: Vec<Box<dyn Fn() -> Result<RawTransaction, String>>> = vec![
        Box::new(|| Ok(raw.clone())),
        Box::new(|| block_on(RawTransaction::decode(block_on(raw.clone().encode()).map_err(es)?)).map_err(es)),
        Box::new(|| RawTransaction::decode_fixed(raw.encode_fixed().map_err(es)?).map_err(es)),
        Box::new(|| {
            Ok(block_on(SignedTransaction::decode(block_on(stx.clone().encode()).map_err(es)?)).map_err(es)?.raw)
        }),
        Box::new(|| Ok(SignedTransaction::decode_fixed(stx.encode_fixed().map_err(es)?).map_err(es)?.raw)),
        Box::new(|| {
            let st = ImplStorage::new(Arc::new(MemoryAdapter::new()));
            block_on(async {
                st.insert_transactions(vec![stx.clone()]).await?;
                st.get_transaction_by_hash(stx.tx_hash.clone()).await
            })
            .map_err(es)
            .map(|t| t.raw)
        }),
    ];
    trips
        .iter()
        .map(|t| match guarded(|| tx_hash(&t()?)) {
            Ok(h) => toks.token(&h.as_bytes()),
            Err((k, _)) => k,
        })
        .collect()
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
}

fn alter(b: &[u8], how: &str, at: i64, val: i64) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    // three positions of four near the front, where lengths and flags are
    let p = if n == 0 {
        0
    } else if val % 4 == 0 {
        (at as usize * n / 1000).min(n - 1)
    } else {
        (at as usize % 97).min(n - 1)
    };
    let x = val as u8;
    match how {
        "trunc" => v.truncate(p),
        "flip" if n > 0 => v[p] ^= 1 << (x % 8),
        "set" if n > 0 => v[p] = x,
        "insert" => v.insert(p, x),
        "append" => v.extend_from_slice(&vec![x; 1 + at as usize % 5]),
        "remove" if n > 0 => {
            v.remove(p);
        }
        "dup" => {
            let tail = v[p..].to_vec();
            v.extend_from_slice(&tail);
        }
        "swap" if n > 0 => {
            let q = x as usize % n;
            v.swap(p, q);
        }
        "noise" => {
            let mut r = Rng((at as u64 + 1) * 7919 + val as u64);
            v = (0..(r.next() % 80)).map(|_| (r.next() >> 11) as u8).collect();
        }
        "nest" => {
            // long-form lengths and deep nesting
            v = match x % 6 {
                0 => vec![0xff; 9 + at as usize % 9],
                1 => vec![0xbf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2],
                2 => vec![0xc1; 1000],
                3 => [vec![0xf8, 0xff], v].concat(),
                4 => [vec![0xfb, 0x7f, 0xff, 0xff, 0xff], v].concat(),
                _ => [vec![0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01], v].concat(),
            };
        }
        _ => {}
    }
    v
}

/// (result of decoding, does what was decoded survive every encoding)
fn try_decode(reg: &Registry, kind: &str, e: &str, b: &[u8]) -> (String, bool) {
    match guarded(|| (reg.dec)(kind, e, Bytes::from(b.to_vec()))) {
        Ok(o) => ("ok".to_owned(), survives(reg, o.as_ref())),
        Err((k, _)) => (k, true),
    }
}

pub fn main() {
    replay(&Registry { kinds: KINDS, build, dec, encodings, hashes: true })
}

pub fn replay(reg: &Registry) {
    let mut out = Out::new();
    for ops in behaviours() {
        out.ev(json!({"e": "reset"}));
        let mut toks = Tokens::new("x");
        let mut objs = Tokens::new("o");
        let mut names = Tokens::new("h");
        let mut last: Vec<(String, Bytes)> = vec![];
        for op in &ops {
            let (kind, var) = (s(op, "kind"), s(op, "var"));
            match s(op, "op") {
                "put" => {
                    let f: Vec<i64> = arr(op, "f").iter().map(|x| x.as_i64().expect("code")).collect();
                    let o = (reg.build)(kind, var, &f);
                    last.clear();
                    let mut enc = vec![];
                    for e in (reg.encodings)(kind) {
                        let b = guarded(|| o.enc(e));
                        if let Ok(b) = &b {
                            last.push((e.to_owned(), b.clone()));
                        }
                        let d = outcome(
                            guarded(|| (reg.dec)(kind, e, o.enc(e)?)),
                            |x| objs.token(x.show().as_bytes()),
                        );
                        let again = guarded(|| o.enc(e));
                        enc.push(json!([
                            e,
                            outcome(b, |b| toks.token(&b)),
                            outcome(again, |b| toks.token(&b)),
                            d
                        ]));
                    }
                    let hs = if reg.hashes && (kind == "raw" || kind == "signed") { tx_hashes(kind, var, &f, &mut names) } else { vec![] };
                    out.ev(json!({"e": "put", "obj": {"kind": kind, "var": var, "f": f}, "tok": objs.token(o.show().as_bytes()),
                                  "enc": enc, "hs": hs}));
                }
                "alter" => {
                    let (at, val) = (int(op, "at"), int(op, "val"));
                    let res: Vec<Value> = last
                        .iter()
                        .map(|(e, b)| {
                            let (kind, e, b) = if s(op, "how") == "cross" {
                                let k = reg.kinds[val as usize % reg.kinds.len()];
                                let es = (reg.encodings)(k);
                                (k, es[at as usize % es.len()], b.to_vec())
                            } else {
                                (kind, e.as_str(), alter(b, s(op, "how"), at, val))
                            };
                            let (r, st) = try_decode(reg, kind, e, &b);
                            if r == "panic" || !st {
                                json!([e, r, st, format!("{} {}", kind, hex::encode(&b))])
                            } else {
                                json!([e, r, st, ""])
                            }
                        })
                        .collect();
                    out.ev(json!({"e": "alter", "how": s(op, "how"), "res": res}));
                }
                "sweep" => {
                    for (e, b) in &last {
                        let mut bad = vec![];
                        let (mut ok, mut err) = (0, 0);
                        // every position near the front (lengths, flags), then every so many
                        let front = if b.len() > 1500 { 60 } else { 150 };
                        let step = 1 + b.len() / 60;
                        for p in (0..b.len()).filter(|p| *p < front || p % step == 0) {
                            let vals: &[u8] = match s(op, "how") {
                                "set" | "insert" => &[0, 1, 0x80, 0xb8, 0xc0, 0xf8, 0xff],
                                _ => &[0],
                            };
                            for x in vals {
                                let mut v = b.to_vec();
                                match s(op, "how") {
                                    "trunc" => v.truncate(p),
                                    "set" => v[p] = *x,
                                    "insert" => v.insert(p, *x),
                                    _ => {
                                        v.remove(p);
                                    }
                                }
                                let (r, st) = try_decode(reg, kind, e, &v);
                                match r.as_str() {
                                    "ok" => ok += 1,
                                    "err" => err += 1,
                                    _ => {}
                                }
                                if (r == "panic" || !st) && bad.len() < 3 {
                                    bad.push(json!([r, st, hex::encode(&v)]));
                                }
                            }
                        }
                        out.ev(json!({"e": "sweep", "enc": e, "kind": kind, "how": s(op, "how"), "ok": ok, "err": err, "bad": bad}));
                    }
                }
                _ => {}
            }
        }
    }
    out.flush();
}
