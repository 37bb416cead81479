//! Replays behaviours of spec/Merkle.tla on common/merkle.
use std::collections::BTreeSet;

use bytes::Bytes;
use serde_json::{json, Value};

use common_merkle::Merkle;
use protocol::types::Hash;

use crate::util::*;

fn elem(x: i64) -> Hash {
    Hash::digest(Bytes::from(format!("element {}", x)))
}

fn pair(l: &Hash, r: &Hash) -> Hash {
    Hash::digest(Bytes::from([l.as_bytes().to_vec(), r.as_bytes().to_vec()].concat()))
}

pub fn main() {
    let mut out = Out::new();
    for ops in behaviours() {
        out.ev(json!({"e": "reset"}));
        let mut toks = Tokens::new("t");
        for op in &ops {
            let xs: Vec<i64> = arr(op, "xs").iter().map(|x| x.as_i64().expect("element")).collect();
            let hs: Vec<Hash> = xs.iter().map(|x| elem(*x)).collect();
            let n = hs.len();
            let r = guarded(|| {
                let m = Merkle::from_hashes(hs.clone());
                let positions = (0..n + 2).chain(vec![n * 2 + 1, n + 64, std::usize::MAX / 4]);
                let proofs: Vec<_> = positions.map(|i| (i, m.get_proof_by_input_index(i))).collect();
                Ok((m.get_root_hash(), proofs))
            });
            let (root, proofs) = match r {
                Ok(x) => x,
                Err((k, msg)) => {
                    out.ev(json!({"e": "failed", "xs": xs, "how": k, "msg": msg}));
                    continue;
                }
            };
            // elements to try at every position: those next to it, one that is not in the list, the root
            let mut tries: Vec<Hash> = vec![elem(0), elem(99)];
            tries.extend(hs.iter().take(3).cloned());
            tries.extend(hs.iter().rev().take(2).cloned());
            tries.extend(root.iter().cloned());
            let mut table: BTreeSet<(String, String, String)> = BTreeSet::new();
            let mut ps: Vec<Value> = vec![];
            for (i, p) in &proofs {
                let path: Vec<Value> = p
                    .iter()
                    .flatten()
                    .map(|x| json!([x.is_right, toks.token(&x.hash.as_bytes())]))
                    .collect();
                for start in hs.get(*i).into_iter().chain(tries.iter()) {
                    let mut x = start.clone();
                    for node in p.iter().flatten() {
                        let (l, r) = if node.is_right { (x, node.hash.clone()) } else { (node.hash.clone(), x) };
                        x = pair(&l, &r);
                        table.insert((toks.token(&l.as_bytes()), toks.token(&r.as_bytes()), toks.token(&x.as_bytes())));
                    }
                }
                ps.push(json!([if *i > 1_000_000 { 1_000_000 } else { *i }, p.is_some(), path]));
            }
            out.ev(json!({
                "e": "list", "xs": xs, "toks": hs.iter().map(|h| toks.token(&h.as_bytes())).collect::<Vec<_>>(),
                "root": root.map(|r| toks.token(&r.as_bytes())).unwrap_or_else(|| "none".to_owned()),
                "proofs": ps, "try": tries.iter().map(|h| toks.token(&h.as_bytes())).collect::<Vec<_>>(),
                "h": table.into_iter().map(|(a, b, c)| json!([a, b, c])).collect::<Vec<_>>(),
            }));
        }
    }
    out.flush();
}
