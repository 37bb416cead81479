//! Whole nodes: each is a process of the repository's own program (huobi-chain, built next to this), with its own data
//! directory, configuration and ports. Starts, kills and commands them as the behaviours of spec/GenNode.tla say, and
//! reports what they proposed, committed and answer. See stubs/overlord/src/node.rs for the consensus between them.
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use common_crypto::{PrivateKey, PublicKey, Secp256k1PrivateKey};
use protocol::types::UserAddress;

const CHAIN: &str = "b6a4d7da21443f5e816e8700eea87610e6d769657d6b8ec73028457bf2ca4036";
const TOKEN: &str = "fee0decb4f6a76d402f200b5642a9236ba455c22aa80ef82d69fc70ea5ba20b5";

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}
fn int(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or(0)
}
fn ints(v: &Value, k: &str) -> Vec<usize> {
    v[k].as_array().map(|a| a.iter().map(|x| x.as_u64().expect("number") as usize).collect()).unwrap_or_default()
}

/// Nodes are 0.., users 100..
fn secret(i: usize) -> String {
    hex::encode(vec![i as u8 + 1; 32])
}
fn pubkey(i: usize) -> Vec<u8> {
    let k = Secp256k1PrivateKey::try_from(&[i as u8 + 1; 32][..]).expect("key");
    k.pub_key().to_bytes().to_vec()
}
fn address(i: usize) -> String {
    UserAddress::from_pubkey_bytes(pubkey(i).into()).expect("address").as_hex()
}

struct Node {
    child: Child,
    input: ChildStdin,
}

struct World {
    dir:    String,
    n:      usize,
    users:  usize,
    boots:  Vec<Vec<usize>>,
    ports:  Vec<(u16, u16)>,
    nodes:  BTreeMap<usize, Node>,
    said:   Arc<Mutex<Vec<(usize, Vec<String>)>>>,
    pings:  u64,
    top:    u64,
    seen:   Vec<i64>,
    hashes: BTreeMap<String, i64>,
    tokens: Vec<String>,
}

static SCRATCH: AtomicUsize = AtomicUsize::new(0);
static PORT: AtomicU64 = AtomicU64::new(0);

fn free_port() -> u16 {
    loop {
        let k = PORT.fetch_add(1, Ordering::SeqCst);
        let p = 10_000 + ((u64::from(std::process::id()) * 131 + k) % 20_000) as u16;
        if TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}

impl World {
    fn new(op: &Value) -> World {
        let n = int(op, "n") as usize;
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| ".".to_owned());
        let dir = format!("{}/node-{}-{}", base, std::process::id(), SCRATCH.fetch_add(1, Ordering::SeqCst));
        std::fs::create_dir_all(&dir).expect("directory");
        let alloc: Vec<Value> = op["alloc"]
            .as_array()
            .expect("alloc")
            .iter()
            .enumerate()
            .filter(|(_, b)| b.as_u64() > Some(0))
            .map(|(u, b)| {
                let b = format!("{:016x}", b.as_u64().expect("balance"));
                json!({"address": address(100 + u), "assets": [{"asset_id": TOKEN, "balance": b}]})
            })
            .collect();
        let genesis = json!({
            "timestamp": 0,
            "prevhash": "44915be5b6c20b0678cf05fcddbbaa832e25d7e6ac538784cd5c24de00d47472",
            "system_token": {"code": "", "name": "System token", "symbol": "ST", "supply": u64::max_value()},
            "state_alloc": alloc,
        });
        std::fs::write(format!("{}/genesis.json", dir), genesis.to_string()).expect("genesis");
        let w = World {
            dir,
            n,
            users: op["alloc"].as_array().expect("alloc").len(),
            boots: op["boots"].as_array().expect("boots").iter().map(|b| ints(&json!({ "b": b }), "b")).collect(),
            ports: (0..n).map(|_| (free_port(), free_port())).collect(),
            nodes: BTreeMap::new(),
            said: Default::default(),
            pings: 0,
            top: 0,
            seen: vec![],
            hashes: BTreeMap::new(),
            tokens: vec![],
        };
        for i in 0..n {
            w.configure(i, int(op, "price"), op["light"] == json!(true));
        }
        w
    }

    fn configure(&self, i: usize, price: i64, light: bool) {
        let dir = format!("{}/{}", self.dir, i);
        std::fs::create_dir_all(&dir).expect("directory");
        let boots: String = self.boots[i]
            .iter()
            .map(|j| {
                format!("[[network.bootstraps]]\npubkey = \"{}\"\naddress = \"127.0.0.1:{}\"\n\n", hex::encode(pubkey(*j)), self.ports[*j].0)
            })
            .collect();
        let all: Vec<String> = (0..self.n).map(|j| format!("\"{}\"", address(j))).collect();
        let c = format!(
            "chain_id = \"{}\"\nprivkey = \"{}\"\ndata_path = \"./data\"\n\n\
             [graphql]\nlistening_address = \"127.0.0.1:{}\"\ngraphql_uri = \"/graphql\"\ngraphiql_uri = \"/graphiql\"\n\n\
             [network]\nlistening_address = \"127.0.0.1:{}\"\n\n{}\
             [mempool]\ntimeout_gap = 100\npool_size = 2000\nbroadcast_txs_size = 20\nbroadcast_txs_interval = 100\n\n\
             [consensus]\ncycles_limit = 99999999\ncycles_price = {}\ninterval = 3000\nverifier_list = [ {} ]\n\n\
             [consensus.duration]\npropose_numerator = 24\npropose_denominator = 30\nprevote_numerator = 6\n\
             prevote_denominator = 30\nprecommit_numerator = 6\nprecommit_denominator = 30\n\n[executor]\nlight = {}\n",
            CHAIN, secret(i), self.ports[i].1, self.ports[i].0, boots, price, all.join(", "), light
        );
        std::fs::write(format!("{}/config.toml", dir), c).expect("configuration");
    }

    fn start(&mut self, i: usize, die: i64) -> bool {
        let dir = format!("{}/{}", self.dir, i);
        let exe = std::env::current_exe().expect("exe").with_file_name("huobi-chain");
        let mut child = Command::new(exe)
            .args(&["-c", "config.toml", "-g", "../genesis.json"])
            .env("VERIF_NODE", "1")
            .env("VERIF_DIE", die.to_string())
            .env("RUST_LOG", std::env::var("NODE_LOG").unwrap_or_else(|_| "off".to_owned()))
            .current_dir(&dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var("NODE_LOG").is_ok() {
                let f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}-{}.err", self.dir, i));
                Stdio::from(f.expect("log"))
            } else {
                Stdio::null()
            })
            .spawn()
            .expect("spawn");
        let input = child.stdin.take().expect("stdin");
        let output = BufReader::new(child.stdout.take().expect("stdout"));
        let said = Arc::clone(&self.said);
        said.lock().expect("lock").retain(|(k, w)| *k != i || w[0] != "up" && w[0] != "mortal");
        let name = self.dir.clone();
        std::thread::spawn(move || {
            for l in output.lines() {
                let l = l.unwrap_or_default();
                if std::env::var("NODE_LOG").is_ok() {
                    eprintln!("{} {} {}", name, i, l);
                }
                if l.starts_with("@ ") {
                    said.lock().expect("lock").push((i, l[2..].split(' ').map(|x| x.to_owned()).collect()));
                }
            }
        });
        self.nodes.insert(i, Node { child, input });
        if die > 0 {
            // at that write, or when there was none
            let end = Instant::now() + Duration::from_secs(60);
            while Instant::now() < end && !self.dead(i) && self.height(i).is_none() {
                std::thread::sleep(Duration::from_millis(5));
            }
            self.kill(i);
            return false;
        }
        self.wait(Duration::from_secs(60), |h| h.iter().any(|(k, w)| *k == i && w[0] == "up"))
            && self.until(Duration::from_secs(30), |w| w.height(i).is_some())
    }

    fn dead(&mut self, i: usize) -> bool {
        self.nodes.get_mut(&i).map(|n| n.child.try_wait().map(|s| s.is_some()).unwrap_or(true)).unwrap_or(true)
    }
    fn kill(&mut self, i: usize) {
        if let Some(mut n) = self.nodes.remove(&i) {
            let _ = n.child.kill();
            let _ = n.child.wait();
        }
    }

    fn wait(&self, d: Duration, f: impl Fn(&[(usize, Vec<String>)]) -> bool) -> bool {
        self.until(d, |w| f(&w.said.lock().expect("lock")))
    }
    fn until(&self, d: Duration, f: impl Fn(&World) -> bool) -> bool {
        let end = Instant::now() + d;
        loop {
            if f(self) {
                return true;
            }
            if Instant::now() > end {
                return false;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    fn command(&mut self, i: usize, c: String) {
        if let Some(n) = self.nodes.get_mut(&i) {
            let _ = writeln!(n.input, "{}", c);
        }
    }

    /// The answer of a node's API.
    fn ask(&self, i: usize, query: &str, vars: Value) -> Option<Value> {
        let body = json!({"query": query, "variables": vars}).to_string();
        let mut c = TcpStream::connect(("127.0.0.1", self.ports[i].1)).ok()?;
        c.set_read_timeout(Some(Duration::from_secs(30))).ok()?;
        write!(c, "POST /graphql HTTP/1.1\r\nContent-Length: {}\r\n\r\n{}", body.len(), body).ok()?;
        let mut all = String::new();
        c.read_to_string(&mut all).ok()?;
        let at = all.find("\r\n\r\n")?;
        serde_json::from_str(&all[at + 4..]).ok()
    }
    fn epoch(&self, i: usize, h: Option<u64>) -> Option<Value> {
        let vars = h.map(|h| json!({ "epochId": format!("{:x}", h) })).unwrap_or(json!({}));
        let e = self.ask(i, "getLatestEpoch", vars)?["data"]["getLatestEpoch"].clone();
        if e.is_null() { None } else { Some(e) }
    }
    fn height(&self, i: usize) -> Option<u64> {
        u64::from_str_radix(self.epoch(i, None)?["header"]["epochId"].as_str()?, 16).ok()
    }
    fn balance(&self, i: usize, who: usize, h: u64) -> i64 {
        let vars = json!({"address": address(who), "id": TOKEN, "epochId": format!("{:x}", h)});
        let a = self.ask(i, "getBalance", vars).unwrap_or_default();
        a["data"]["getBalance"].as_str().and_then(|b| i64::from_str_radix(if b.is_empty() { "0" } else { b }, 16).ok()).unwrap_or(-1)
    }
    fn heights(&self) -> Value {
        json!(self.nodes.keys().map(|i| json!([i, self.height(*i).map(|h| h as i64).unwrap_or(-1)])).collect::<Vec<_>>())
    }
    fn txs(&self, e: &Value) -> Vec<i64> {
        e["orderedTxHashes"]
            .as_array()
            .map(|a| a.iter().map(|h| h.as_str().and_then(|h| self.hashes.get(h)).cloned().unwrap_or(-1)).collect())
            .unwrap_or_default()
    }
    fn token(&mut self, v: &Value) -> usize {
        let t = v.to_string();
        match self.tokens.iter().position(|x| *x == t) {
            Some(k) => k,
            None => {
                self.tokens.push(t);
                self.tokens.len() - 1
            }
        }
    }

    /// All a node answers about its chain.
    fn look(&mut self, i: usize) -> Value {
        let top = self.height(i);
        let mut blocks = vec![];
        for h in 0..=top.unwrap_or(0) {
            let e = self.epoch(i, Some(h)).unwrap_or_default();
            let by = e["header"]["proposer"].as_str().unwrap_or("").to_owned();
            let by = (0..self.n).find(|j| address(*j) == by).map(|j| j as i64).unwrap_or(-1);
            let height = e["header"]["epochId"].as_str().and_then(|x| i64::from_str_radix(x, 16).ok()).unwrap_or(-1);
            let nodes: Vec<i64> = (0..self.n).map(|j| self.balance(i, j, h)).collect();
            let users: Vec<i64> = (0..self.users).map(|u| self.balance(i, 100 + u, h)).collect();
            let (txs, id) = (self.txs(&e), self.token(&e));
            let root = self.token(&e["header"]["stateRoot"]);
            blocks.push(json!({"h": height, "id": id, "by": by, "txs": txs, "root": root, "users": users, "nodes": nodes}));
        }
        json!({"i": i, "top": top.map(|h| h as i64).unwrap_or(-1), "blocks": blocks})
    }

    /// Everyone pings everyone until all links carry messages, three times in a row.
    fn settle(&mut self, want: &[(usize, usize)], limit: Duration) -> Vec<Value> {
        let end = Instant::now() + limit;
        let mut good = 0;
        loop {
            let ids: Vec<usize> = self.nodes.keys().cloned().collect();
            let mut tags = vec![];
            for i in ids {
                self.pings += 1;
                tags.push((i, self.pings.to_string()));
                self.command(i, format!("ping {}", self.pings));
            }
            let links = |h: &[(usize, Vec<String>)]| -> Vec<(usize, usize)> {
                let from = |w: &Vec<String>| tags.iter().find(|(_, t)| *t == w[1]).map(|(i, _)| *i);
                h.iter().filter(|(_, w)| w[0] == "ping").filter_map(|(j, w)| from(w).map(|i| (i, *j))).collect()
            };
            let all = self.wait(Duration::from_millis(if good > 0 { 1500 } else { 300 }), |h| {
                let l = links(h);
                want.iter().all(|w| l.contains(w))
            });
            let now = links(&self.said.lock().expect("lock"));
            good = if all { good + 1 } else { 0 };
            if good == 3 || Instant::now() > end {
                self.said.lock().expect("lock").retain(|(_, w)| w[0] != "ping");
                return now.into_iter().map(|(i, j)| json!([i, j])).collect();
            }
            std::thread::sleep(Duration::from_millis(100));
        }
    }

    fn submit(&mut self, i: usize, tx: &Value) -> &'static str {
        let kind = s(tx, "kind");
        let chain = if kind == "chain" { TOKEN } else { CHAIN };
        let timeout = if kind == "far" { 100_000 } else { 90 };
        let id = int(tx, "id");
        let vars = json!({
            "inputRaw": {
                "chainId": chain, "feeCycle": format!("{:x}", int(tx, "limit")), "feeAssetId": TOKEN,
                "nonce": format!("{:064x}", id), "timeout": format!("{:x}", timeout),
            },
            "inputAction": {
                "carryingAmount": format!("{:016x}", int(tx, "amt")), "carryingAssetId": TOKEN,
                "receiver": address(100 + int(tx, "to") as usize),
            },
            "inputPrivkey": secret(100 + int(tx, "from") as usize),
        });
        let a = match self.ask(i, "sendUnsafeTransferTransaction", vars) {
            Some(a) => a,
            None => return "none",
        };
        match a["data"]["sendUnsafeTransferTransaction"].as_str() {
            Some(h) => {
                self.hashes.insert(h.to_owned(), id);
                "ok"
            }
            None => "err",
        }
    }

    /// One block proposed by a node; somebody may be killed while it is being committed.
    fn round(&mut self, op: &Value) -> Value {
        let (by, h) = (int(op, "by") as usize, self.top + 1);
        let voters: Vec<usize> = self.nodes.keys().cloned().filter(|i| self.height(*i) == Some(self.top)).collect();
        let victim = op["victim"].as_u64().map(|v| v as usize);
        let fail = |w: &World, r: &str| json!({"e": "round", "by": by, "h": h, "r": r, "txs": [], "voters": voters, "heights": w.heights(), "victim": -1});
        let tag = h.to_string();
        let is = |w: &[String], k: &str| w[0] == k && w[1] == tag;
        self.command(by, format!("propose {} {}", h, voters.len()));
        let done = self.wait(Duration::from_secs(70), |l| {
            l.iter().any(|(i, w)| *i == by && (is(w, "voted") || is(w, "refused") || is(w, "unvoted")))
        });
        if !done {
            return fail(self, "silent");
        }
        if !self.said.lock().expect("lock").iter().any(|(i, w)| *i == by && is(w, "voted")) {
            return fail(self, "unvoted");
        }
        self.top = h;
        let die = int(op, "die");
        if let (Some(v), true) = (victim, die > 0) {
            self.command(v, format!("die {}", die));
            self.wait(Duration::from_secs(10), |l| l.iter().any(|(i, w)| *i == v && w[0] == "mortal"));
        }
        self.command(by, format!("decide {}", h));
        if let Some(v) = victim {
            if die > 0 {
                let t = Instant::now();
                while t.elapsed() < Duration::from_secs(10) && !self.dead(v) && self.height(v) < Some(h) {
                    std::thread::sleep(Duration::from_millis(2));
                }
            } else {
                std::thread::sleep(Duration::from_micros(int(op, "after") as u64));
            }
            self.kill(v);
        }
        let t = Instant::now();
        let mut again = 1;
        let everybody = |w: &World| w.nodes.keys().all(|i| w.height(*i) >= Some(h));
        while !self.until(Duration::from_secs(1), everybody) && t.elapsed() < Duration::from_secs(10) {
            if t.elapsed() > Duration::from_secs(3 * again) {
                again += 1;
                self.command(by, format!("decide {}", h));
            }
        }
        let e = self.epoch(by, Some(h)).unwrap_or_default();
        let v = victim.map(|v| v as i64).unwrap_or(-1);
        let txs = self.txs(&e);
        self.seen.extend(&txs);
        json!({"e": "round", "by": by, "h": h, "r": "ok", "txs": txs, "voters": voters, "heights": self.heights(), "victim": v})
    }
}

impl Drop for World {
    fn drop(&mut self) {
        for i in 0..self.n {
            self.kill(i);
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn pairs(op: &Value) -> Vec<(usize, usize)> {
    op["links"].as_array().map(|a| a.iter().map(|p| (p[0].as_u64().expect("node") as usize, p[1].as_u64().expect("node") as usize)).collect()).unwrap_or_default()
}

/// Stops when something does not work at all.
fn behaviour(ops: &[Value], failed: &AtomicBool) -> Vec<Value> {
    let mut out = vec![];
    let mut w = World::new(&ops[0]);
    let net = &ops[0];
    out.push(json!({"e": "net", "n": w.n, "boots": net["boots"], "alloc": net["alloc"], "price": net["price"]}));
    for op in &ops[1..] {
        let i = int(op, "i") as usize;
        match s(op, "op") {
            "start" => {
                if int(op, "die") > 0 {
                    w.start(i, int(op, "die"));
                    out.push(json!({"e": "stillborn", "i": i}));
                    continue;
                }
                let r = if w.start(i, 0) { "ok" } else { "err" };
                out.push(json!({"e": "start", "i": i, "r": r, "h": w.height(i).map(|h| h as i64).unwrap_or(-1)}));
            }
            "kill" => {
                w.kill(i);
                out.push(json!({"e": "kill", "i": i}));
            }
            "settle" => {
                let t = Instant::now();
                let links = w.settle(&pairs(op), Duration::from_secs(75));
                out.push(json!({"e": "settle", "links": links, "ms": t.elapsed().as_millis() as u64}));
            }
            "submit" => {
                let r = w.submit(i, &op["tx"]);
                out.push(json!({"e": "submit", "i": i, "tx": op["tx"], "r": r}));
            }
            "rest" => std::thread::sleep(Duration::from_millis(500)),
            "round" => out.push(w.round(op)),
            // blocks by one node, until everybody is there and the transactions it has to know are in
            "drain" => {
                let by = int(op, "by") as usize;
                let mut left = ints(op, "want").into_iter().map(|x| x as i64).collect::<Vec<_>>();
                for k in 0..8 {
                    if k > 0 {
                        std::thread::sleep(Duration::from_millis(300 * k));
                    }
                    let e = w.round(&json!({ "by": by }));
                    left.retain(|x| !w.seen.contains(x));
                    let ok = e["r"] == json!("ok");
                    let all = e["heights"].as_array().expect("heights").iter().all(|x| x[1] == e["h"]);
                    out.push(e);
                    if !ok || all && left.is_empty() {
                        break;
                    }
                }
                out.push(json!({"e": "drained", "by": by, "left": left, "heights": w.heights()}));
            }
            "look" => {
                let ids: Vec<usize> = w.nodes.keys().cloned().collect();
                let views: Vec<Value> = ids.into_iter().map(|i| w.look(i)).collect();
                out.push(json!({"e": "look", "views": views}));
            }
            x => panic!("op {}", x),
        }
        let last = &out[out.len() - 1];
        let level = |h: &Value| h.as_array().map(|a| a.iter().all(|x| x[1] == a[0][1])).unwrap_or(true);
        if s(last, "e") == "drained" && (last["left"] != json!([]) || !level(&last["heights"]))
            || last["r"] == json!("none") || last["e"] != json!("submit") && !last["r"].is_null() && last["r"] != json!("ok") {
            failed.store(true, Ordering::SeqCst);
            break;
        }
    }
    out
}

fn main() {
    let all: Vec<Vec<Value>> = std::io::stdin()
        .lock()
        .lines()
        .map(|l| l.expect("read"))
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str::<Value>(&l).expect("behaviour").as_array().expect("array").clone())
        .collect();
    let results: Arc<Mutex<BTreeMap<usize, Vec<Value>>>> = Default::default();
    let next = Arc::new(AtomicUsize::new(0));
    let failed = Arc::new(AtomicBool::new(false));
    let all = Arc::new(all);
    let jobs = std::env::var("NODE_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(5);
    let threads: Vec<_> = (0..jobs)
        .map(|_| {
            let (results, next, all, failed) = (Arc::clone(&results), Arc::clone(&next), Arc::clone(&all), Arc::clone(&failed));
            std::thread::spawn(move || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= all.len() || failed.load(Ordering::SeqCst) {
                    break;
                }
                let r = behaviour(&all[k], &failed);
                results.lock().expect("lock").insert(k, r);
            })
        })
        .collect();
    for t in threads {
        t.join().expect("driver");
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    for (k, evs) in results.lock().expect("lock").iter() {
        writeln!(out, "{}", json!({"e": "reset", "b": k})).expect("write");
        for e in evs {
            writeln!(out, "{}", e).expect("write");
        }
    }
}
