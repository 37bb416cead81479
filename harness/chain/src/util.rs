use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use serde_json::{json, Value};

pub struct Out {
    w: std::io::BufWriter<std::io::Stdout>,
}

impl Out {
    pub fn new() -> Self {
        Out { w: std::io::BufWriter::new(std::io::stdout()) }
    }

    pub fn ev(&mut self, v: Value) {
        writeln!(self.w, "{}", v).expect("write event");
    }

    pub fn flush(&mut self) {
        self.w.flush().expect("flush");
    }
}

/// One behaviour (a JSON array of operations) per line of standard input.
pub fn behaviours() -> Vec<Vec<Value>> {
    std::io::stdin()
        .lock()
        .lines()
        .map(|l| l.expect("read"))
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str::<Value>(&l).expect("behaviour").as_array().expect("array").clone())
        .collect()
}

/// Run code under test; a panic is data.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(("err".to_owned(), e)),
        Err(p) => {
            let msg = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            Err(("panic".to_owned(), msg))
        }
    }
}

pub fn scale_h() -> BigUint {
    num_traits::pow(BigUint::from(10u32), 40)
}
pub fn scale_m() -> BigUint {
    num_traits::pow(BigUint::from(10u32), 10)
}

/// <<h, m, l>> -> h*10^40 + m*10^10 + l
pub fn amount(v: &Value) -> BigUint {
    let p = |i: usize| BigInt::from(v[i].as_i64().expect("amount part"));
    let n = p(0) * BigInt::from(scale_h()) + p(1) * BigInt::from(scale_m()) + p(2);
    n.to_biguint().expect("amounts are not negative")
}

/// The inverse, choosing the digits nearest to zero; [-1,-1,-1] when they do not fit the specification's integers.
pub fn amount_json(b: &BigUint) -> Value {
    fn near(v: &BigInt, s: &BigInt) -> (BigInt, BigInt) {
        // v = q*s + r with r in (-s/2, s/2]
        let two = BigInt::from(2);
        let half: BigInt = s / &two;
        let mut q: BigInt = (v + &half) / s;
        let mut r: BigInt = v - &q * s;
        while r > half {
            q += BigInt::one();
            r -= s;
        }
        while r < -&half {
            q -= BigInt::one();
            r += s;
        }
        (q, r)
    }
    if b.is_zero() {
        return json!([0, 0, 0]);
    }
    let v = BigInt::from(b.clone());
    let (h, rest) = near(&v, &BigInt::from(scale_h()));
    let (m, l) = near(&rest, &BigInt::from(scale_m()));
    let fit = |x: &BigInt| x.to_i64().filter(|x| x.abs() < 1_000_000_000);
    match (fit(&h), fit(&m), fit(&l)) {
        (Some(h), Some(m), Some(l)) => json!([h, m, l]),
        _ => json!([-1, -1, -1]),
    }
}

/// Tokens for values in order of first appearance.
pub struct Tokens {
    prefix: &'static str,
    map:    HashMap<Vec<u8>, String>,
    back:   HashMap<String, Vec<u8>>,
}

impl Tokens {
    pub fn new(prefix: &'static str) -> Self {
        Tokens { prefix, map: HashMap::new(), back: HashMap::new() }
    }

    pub fn token(&mut self, v: &[u8]) -> String {
        if let Some(t) = self.map.get(v) {
            return t.clone();
        }
        let t = format!("{}{}", self.prefix, self.map.len() + 1);
        self.map.insert(v.to_vec(), t.clone());
        self.back.insert(t.clone(), v.to_vec());
        t
    }

    pub fn value(&self, t: &str) -> Option<Vec<u8>> {
        self.back.get(t).cloned()
    }
}

/// A scratch directory that is removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(name: &str) -> Self {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".to_owned());
        let p = PathBuf::from(base).join(format!("h-{}-{}", name, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v[k].as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

pub fn int(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or(0)
}
