//! Replays behaviours of spec/Names.tla on the protocol's hashes and addresses.
use bytes::Bytes;
use serde_json::{json, Value};

use protocol::types::{Address, ContractAddress, ContractType, Hash, UserAddress};

use crate::util::*;

/// The value as bytes, as text, its kind, and whether both are read back as the same value.
type Seen = (Bytes, String, &'static str, bool);

fn flavour(c: &ContractAddress) -> &'static str {
    match c.contract_type() {
        ContractType::Asset => "asset",
        ContractType::App => "app",
        ContractType::Library => "library",
        ContractType::Native => "native",
    }
}

fn hash(h: Hash) -> Seen {
    let (b, t) = (h.as_bytes(), h.as_hex());
    let same = Hash::from_bytes(b.clone()).ok().as_ref() == Some(&h) && Hash::from_hex(&t).ok().as_ref() == Some(&h);
    (b, t, "hash", same)
}

fn user(u: UserAddress) -> Seen {
    let (b, t) = (u.as_bytes(), u.as_hex());
    let same = UserAddress::from_bytes(b.clone()).ok().as_ref() == Some(&u)
        && UserAddress::from_hex(&t).ok().as_ref() == Some(&u);
    (b, t, "user", same)
}

fn contract(c: ContractAddress) -> Seen {
    let (b, t) = (c.as_bytes(), c.as_hex());
    let same = ContractAddress::from_bytes(b.clone()).ok().as_ref() == Some(&c)
        && ContractAddress::from_hex(&t).ok().as_ref() == Some(&c);
    (b, t, flavour(&c), same)
}

fn address(a: Address) -> Seen {
    let (b, t) = (a.as_bytes(), a.as_hex());
    let same = Address::from_bytes(b.clone()).ok().as_ref() == Some(&a) && Address::from_hex(&t).ok().as_ref() == Some(&a);
    let f = match &a {
        Address::User(_) => "user",
        Address::Contract(c) => flavour(c),
    };
    (b, t, f, same)
}

fn text(xs: &[u8]) -> String {
    xs.iter()
        .map(|c| match c {
            0..=9 => (b'0' + c) as char,
            10..=15 => (b'a' + c - 10) as char,
            16..=25 => (b'0' + c - 16) as char,
            26..=31 => (b'A' + c - 26) as char,
            32 => 'g',
            33 => 'é',
            34 => 'x',
            35 => ' ',
            36 => '+',
            37 => 'X',
            _ => '?',
        })
        .collect()
}

fn chars(t: &str) -> Vec<u8> {
    t.chars()
        .map(|c| match c {
            '0'..='9' => c as u8 - b'0',
            'a'..='f' => c as u8 - b'a' + 10,
            'A'..='F' => c as u8 - b'A' + 26,
            _ => 99,
        })
        .collect()
}

fn read(op: &Value, xs: &[u8]) -> Result<Seen, String> {
    let e = |e: protocol::ProtocolError| e.to_string();
    let b = Bytes::from(xs);
    Ok(if s(op, "op") == "text" {
        let t = text(xs);
        match s(op, "kind") {
            "hash" => hash(Hash::from_hex(&t).map_err(e)?),
            "user" => user(UserAddress::from_hex(&t).map_err(e)?),
            "contract" => contract(ContractAddress::from_hex(&t).map_err(e)?),
            _ => address(Address::from_hex(&t).map_err(e)?),
        }
    } else {
        match s(op, "kind") {
            "hash" => hash(Hash::from_bytes(b).map_err(e)?),
            "user" => user(UserAddress::from_bytes(b).map_err(e)?),
            "contract" => contract(ContractAddress::from_bytes(b).map_err(e)?),
            _ => address(Address::from_bytes(b).map_err(e)?),
        }
    })
}

pub fn main() {
    let mut out = Out::new();
    for ops in behaviours() {
        out.ev(json!({"e": "reset"}));
        for op in &ops {
            let bytes = |k: &str| -> Vec<u8> { arr(op, k).iter().map(|x| x.as_u64().expect("byte") as u8).collect() };
            let (xs, n) = (bytes("xs"), bytes("n"));
            let e = |e: protocol::ProtocolError| e.to_string();
            let mut d: Vec<u8> = vec![];
            let r = guarded(|| {
                Ok(match s(op, "op") {
                    "text" | "bytes" => read(op, &xs)?,
                    "digest" => {
                        let h = Hash::digest(Bytes::from(xs.clone()));
                        d = h.as_bytes().to_vec();
                        hash(h)
                    }
                    "empty" => {
                        let h = Hash::from_empty();
                        d = if h == Hash::default() { h.as_bytes().to_vec() } else { vec![] };
                        hash(h)
                    }
                    "pubkey" => {
                        d = Hash::digest(Bytes::from(xs.clone())).as_bytes().to_vec();
                        user(UserAddress::from_pubkey_bytes(Bytes::from(xs.clone())).map_err(e)?)
                    }
                    _ => {
                        d = Hash::digest(Bytes::from([xs.clone(), n.clone()].concat())).as_bytes().to_vec();
                        let nonce = n.iter().fold(0u64, |a, b| a << 8 | u64::from(*b));
                        let t = match s(op, "f") {
                            "asset" => ContractType::Asset,
                            "app" => ContractType::App,
                            "library" => ContractType::Library,
                            _ => ContractType::Native,
                        };
                        contract(ContractAddress::from_code(Bytes::from(xs.clone()), nonce, t).map_err(e)?)
                    }
                })
            });
            let (st, b, t, f, same) = match r {
                Ok((b, t, f, same)) => ("ok".to_owned(), b.to_vec(), chars(&t), f, same),
                Err((k, _)) => (k, vec![], vec![], "none", false),
            };
            out.ev(json!({"e": s(op, "op"), "kind": s(op, "kind"), "xs": xs, "n": n, "f0": s(op, "f"), "st": st, "b": b,
                          "text": t, "f": f, "same": same, "d": d}));
        }
    }
    out.flush();
}
