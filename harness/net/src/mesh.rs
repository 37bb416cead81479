//! Real nodes: each is a process of its own with a NetworkService on a loopback port. `node` is such a process, `main`
//! starts, kills and commands them as the behaviours of spec/GenMesh.tla say, and reports what they received.
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::net::{SocketAddr, TcpListener};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use async_trait::async_trait;
use core_network::verif_hooks::Peer;
use core_network::{NetworkConfig, NetworkService, NetworkServiceHandle};
use protocol::traits::{Context, Gossip, MessageHandler, Priority, Rpc};
use protocol::types::UserAddress;
use protocol::ProtocolResult;
use serde_derive::{Deserialize, Serialize};
use serde_json::{json, Value};
use tentacle::secio::SecioKeyPair;

use crate::util::*;

const ENDS: [&str; 3] = ["/gossip/mesh/probe", "/gossip/mesh/one", "/gossip/mesh/two"];
const ASK: &str = "/rpc_call/mesh/ask";
const ANSWER: &str = "/rpc_resp/mesh/ask";

fn secret(i: usize) -> [u8; 32] {
    [i as u8 + 1; 32]
}
fn pair(i: usize) -> SecioKeyPair {
    SecioKeyPair::secp256k1_raw_key(secret(i)).expect("key")
}
fn user(i: usize) -> UserAddress {
    let k = pair(i).to_public_key();
    Peer::new(k.peer_id(), k).user_addr().clone()
}
fn body(tag: u64, size: usize) -> Vec<u8> {
    (0..size).map(|k| (k as u64 * 7 + tag * 13 + (k as u64 >> 8)) as u8).collect()
}

// ---------------------------------------------------------------- a node

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Msg {
    from: u64,
    tag:  u64,
    body: Vec<u8>,
}

type Ctxs = Arc<Mutex<HashMap<u64, Context>>>;

fn say(v: Value) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{}", v);
    let _ = o.flush();
}

struct Heard {
    end:  usize,
    ctxs: Ctxs,
}
#[async_trait]
impl MessageHandler for Heard {
    type Message = Msg;

    async fn process(&self, ctx: Context, m: Msg) -> ProtocolResult<()> {
        self.ctxs.lock().expect("lock").insert(m.from, ctx);
        let ok = m.body == body(m.tag, m.body.len());
        say(json!({"got": [m.from, m.tag, self.end, ok, m.body.len()]}));
        Ok(())
    }
}

struct Answers {
    me:     u64,
    handle: NetworkServiceHandle,
}
#[async_trait]
impl MessageHandler for Answers {
    type Message = Msg;

    async fn process(&self, ctx: Context, m: Msg) -> ProtocolResult<()> {
        say(json!({"asked": [m.from, m.tag]}));
        let size = m.body.len();
        self.handle.response(ctx, ANSWER, Msg { from: self.me, tag: m.tag, body: body(m.tag + self.me, size) }, Priority::High).await
    }
}

struct Log(usize, Instant);
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }

    fn log(&self, r: &log::Record) {
        if r.target().starts_with("core_network") || r.target().starts_with("tentacle") {
            eprintln!("{} {:?} {} {} {}", self.0, self.1.elapsed(), r.level(), r.target(), r.args());
        }
    }

    fn flush(&self) {}
}

pub fn node() {
    runtime_raw::set_runtime(&runtime_tokio::Tokio);
    let stdin = std::io::stdin();
    let mut first = String::new();
    stdin.lock().read_line(&mut first).expect("configuration");
    let c: Value = serde_json::from_str(&first).expect("json");
    let me = int(&c, "i") as usize;
    if std::env::var("MESH_LOG").is_ok() && log::set_logger(Box::leak(Box::new(Log(me, Instant::now())))).is_ok() {
        log::set_max_level(log::LevelFilter::Debug);
    }
    let at = |p: i64| -> SocketAddr { format!("127.0.0.1:{}", p).parse().expect("address") };
    let boots: Vec<(String, SocketAddr)> = arr(&c, "boots")
        .iter()
        .map(|b| {
            let k = pair(b[0].as_i64().expect("peer") as usize).to_public_key();
            (hex::encode(k.inner_ref()), at(b[1].as_i64().expect("port")))
        })
        .collect();
    let config = NetworkConfig::new()
        .max_connections(int(&c, "max") as usize)
        .secio_keypair(hex::encode(&secret(me)[..]))
        .expect("secret")
        .bootstraps(boots)
        .expect("bootstraps")
        .persistence_path(s(&c, "dir"))
        .ping_interval(2)
        .ping_timeout(20)
        .discovery_sync_interval(1)
        .peer_manager_heart_beat_interval(1)
        .heart_beat_interval(1);
    let mut service = NetworkService::new(config);
    let handle = service.handle();
    let ctxs: Ctxs = Default::default();
    for (end, url) in ENDS.iter().enumerate() {
        service.register_endpoint_handler(url, Box::new(Heard { end, ctxs: Arc::clone(&ctxs) })).expect("register");
    }
    service.register_endpoint_handler(ASK, Box::new(Answers { me: me as u64, handle: handle.clone() })).expect("register");
    service.register_rpc_response::<Msg>(ANSWER).expect("register");
    service.listen(at(int(&c, "port"))).expect("listen");
    let _ = runtime::spawn(service);
    say(json!({"up": me}));

    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let op: Value = serde_json::from_str(&line).expect("json");
        let handle = handle.clone();
        let ctxs = Arc::clone(&ctxs);
        let tag = int(&op, "tag") as u64;
        let m = Msg { from: me as u64, tag, body: body(tag, int(&op, "size") as usize) };
        let _ = runtime::spawn(async move {
            match s(&op, "c") {
                "all" => {
                    let r = handle.broadcast(Context::new(), ENDS[int(&op, "end") as usize], m, Priority::High).await;
                    say(json!({"ret": [tag, r.is_ok()]}));
                }
                "some" => {
                    let to = arr(&op, "to").iter().map(|x| user(x.as_i64().expect("peer") as usize)).collect();
                    let r = handle.users_cast(Context::new(), ENDS[int(&op, "end") as usize], to, m, Priority::Normal).await;
                    say(json!({"ret": [tag, r.is_ok()]}));
                }
                "ask" => {
                    let ctx = ctxs.lock().expect("lock").get(&(int(&op, "who") as u64)).cloned();
                    let r: ProtocolResult<Msg> = match ctx {
                        Some(ctx) => handle.call(ctx, ASK, m, Priority::High).await,
                        None => return,
                    };
                    match r {
                        Ok(a) => say(json!({"answer": [tag, a.from, a.tag, a.body == body(tag + a.from, int(&op, "size") as usize)]})),
                        Err(_) => say(json!({"answer": [tag, -1, 0, false]})),
                    }
                }
                _ => {}
            }
        });
    }
    std::process::exit(0);
}

// ---------------------------------------------------------------- the driver

struct Node {
    child: Child,
    input: ChildStdin,
}

struct World {
    dir:   String,
    n:     usize,
    boots: Vec<Vec<usize>>,
    max:   i64,
    ports: Vec<u16>,
    nodes: BTreeMap<usize, Node>,
    heard: Arc<Mutex<Vec<(usize, Value)>>>,
    tag:   u64,
}

static SCRATCH: AtomicUsize = AtomicUsize::new(0);
static PORT: AtomicU64 = AtomicU64::new(0);

/// A port nobody listens on, and that no connection out of here will take meanwhile.
fn free_port() -> u16 {
    loop {
        let k = PORT.fetch_add(1, Ordering::SeqCst);
        let p = 10_000 + ((u64::from(std::process::id()) * 131 + k) % 20_000) as u16;
        if TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}

impl World {
    fn new(op: &Value) -> World {
        let n = int(op, "n") as usize;
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| ".".to_owned());
        let dir = format!("{}/mesh-{}-{}", base, std::process::id(), SCRATCH.fetch_add(1, Ordering::SeqCst));
        let boots = arr(op, "boots")
            .iter()
            .map(|l| l.as_array().expect("list").iter().map(|x| x.as_u64().expect("peer") as usize).collect())
            .collect();
        World {
            dir,
            n,
            boots,
            max: int(op, "max"),
            ports: (0..n).map(|_| free_port()).collect(),
            nodes: BTreeMap::new(),
            heard: Default::default(),
            tag: 0,
        }
    }

    fn start(&mut self, i: usize) {
        let dir = format!("{}/{}", self.dir, i);
        std::fs::create_dir_all(&dir).expect("directory");
        let mut child = Command::new(std::env::current_exe().expect("exe"))
            .arg("node")
            .current_dir(&dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var("MESH_LOG").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn");
        let mut input = child.stdin.take().expect("stdin");
        let output = BufReader::new(child.stdout.take().expect("stdout"));
        let boots: Vec<Value> = self.boots[i].iter().map(|j| json!([j, self.ports[*j]])).collect();
        let c = json!({"i": i, "port": self.ports[i], "boots": boots, "max": self.max, "dir": dir});
        writeln!(input, "{}", c).expect("node");
        let heard = Arc::clone(&self.heard);
        std::thread::spawn(move || {
            for l in output.lines() {
                if let Some(v) = l.ok().and_then(|l| serde_json::from_str(&l).ok()) {
                    heard.lock().expect("lock").push((i, v));
                }
            }
        });
        self.nodes.insert(i, Node { child, input });
        self.wait(Duration::from_secs(30), |h| h.iter().any(|(_, v)| v["up"] == json!(i)));
        self.heard.lock().expect("lock").retain(|(_, v)| v["up"].is_null());
    }

    fn kill(&mut self, i: usize) {
        if let Some(mut n) = self.nodes.remove(&i) {
            let _ = n.child.kill();
            let _ = n.child.wait();
        }
    }

    fn wait(&self, d: Duration, f: impl Fn(&[(usize, Value)]) -> bool) -> bool {
        let end = Instant::now() + d;
        loop {
            if f(&self.heard.lock().expect("lock")) {
                return true;
            }
            if Instant::now() > end {
                return false;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    fn command(&mut self, i: usize, v: Value) {
        if let Some(n) = self.nodes.get_mut(&i) {
            let _ = writeln!(n.input, "{}", v);
        }
    }

    fn fresh(&mut self) -> u64 {
        self.tag += 1;
        self.tag
    }

    /// Who heard a message: [receiver, endpoint, sender, how often, content intact]
    fn receptions(&self, tag: u64, size: i64) -> Vec<Value> {
        let mut m: BTreeMap<(usize, u64, u64, bool), u64> = BTreeMap::new();
        for (j, v) in self.heard.lock().expect("lock").iter() {
            let g = &v["got"];
            if !g.is_null() && g[1] == json!(tag) {
                let ok = g[3] == json!(true) && g[4] == json!(size);
                *m.entry((*j, g[2].as_u64().expect("end"), g[0].as_u64().expect("from"), ok)).or_insert(0) += 1;
            }
        }
        m.into_iter().map(|((j, e, f, ok), n)| json!([j, e, f, n, ok])).collect()
    }

    /// Everyone tells everyone until all the wanted links carry messages in both directions, twice in a row.
    fn settle(&mut self, want: &[(usize, usize)], limit: Duration) -> Vec<Value> {
        let end = Instant::now() + limit;
        let mut good = 0;
        loop {
            let ids: Vec<usize> = self.nodes.keys().cloned().collect();
            let tags: Vec<(usize, u64)> = ids.iter().map(|i| (*i, self.fresh())).collect();
            for (i, t) in &tags {
                self.command(*i, json!({"c": "all", "end": 0, "tag": t, "size": 3}));
            }
            let links = |h: &[(usize, Value)]| -> Vec<(usize, usize)> {
                let mut l: Vec<(usize, usize)> = h
                    .iter()
                    .filter(|(_, v)| v["got"][2] == json!(0) && tags.iter().any(|(_, t)| v["got"][1] == json!(t)))
                    .map(|(j, v)| (v["got"][0].as_u64().expect("from") as usize, *j))
                    .collect();
                l.sort();
                l.dedup();
                l
            };
            let all = self.wait(Duration::from_millis(if good > 0 { 1500 } else { 300 }), |h| {
                let l = links(h);
                want.iter().all(|w| l.contains(w))
            });
            let now = links(&self.heard.lock().expect("lock"));
            good = if all { good + 1 } else { 0 };
            if good == 3 || Instant::now() > end {
                self.heard.lock().expect("lock").retain(|(_, v)| v["got"][2] != json!(0));
                return now.into_iter().map(|(i, j)| json!([i, j])).collect();
            }
            std::thread::sleep(Duration::from_millis(100));
        }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        for i in 0..self.n {
            self.kill(i);
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn indices(op: &Value, k: &str) -> Vec<usize> {
    arr(op, k).iter().map(|x| x.as_u64().expect("peer") as usize).collect()
}
fn pairs(op: &Value) -> Vec<(usize, usize)> {
    arr(op, "links").iter().map(|p| (p[0].as_u64().expect("peer") as usize, p[1].as_u64().expect("peer") as usize)).collect()
}

/// What a try was: the tag of its message, or a call each with its tag.
enum Try {
    Send(u64, &'static str),
    Ask(Vec<(usize, u64)>),
}

/// Receptions are counted when the behaviour is over, so that late ones count. What still fails after the last try ends
/// the behaviour.
fn behaviour(ops: &[Value], failed: &AtomicBool) -> Vec<Value> {
    let limit = Duration::from_secs(std::env::var("MESH_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(75));
    let tries = 3;
    let mut out = vec![];
    let mut done: Vec<(usize, usize, i64, Vec<Try>)> = vec![];
    let mut w = World::new(&ops[0]);
    out.push(json!({"e": "net", "n": w.n, "boots": ops[0]["boots"]}));
    for op in &ops[1..] {
        let i = int(op, "i") as usize;
        match s(op, "op") {
            "start" => {
                w.start(i);
                out.push(json!({"e": "start", "i": i}));
            }
            "kill" => {
                w.kill(i);
                out.push(json!({"e": "kill", "i": i}));
            }
            "settle" => {
                let t = Instant::now();
                let want = pairs(op);
                let links = w.settle(&want, limit);
                let all = want.iter().all(|l| links.contains(&json!([l.0, l.1])));
                out.push(json!({"e": "settle", "links": links, "ms": t.elapsed().as_millis() as u64}));
                if !all {
                    failed.store(true, Ordering::SeqCst);
                    break;
                }
            }
            "send" => {
                let (to, want, all, end, size) = (indices(op, "to"), indices(op, "want"), s(op, "how") == "all", int(op, "end"), int(op, "size"));
                let mut made = vec![];
                let mut good = false;
                for k in 0..tries {
                    if k > 0 {
                        w.settle(&pairs(op), limit / 3);
                    }
                    let tag = w.fresh();
                    if all {
                        w.command(i, json!({"c": "all", "end": end, "tag": tag, "size": size}));
                    } else {
                        w.command(i, json!({"c": "some", "to": to, "end": end, "tag": tag, "size": size}));
                    }
                    let full = w.wait(Duration::from_secs(10), |h| {
                        want.iter().all(|j| h.iter().any(|(x, v)| x == j && v["got"][1] == json!(tag)))
                            && h.iter().any(|(_, v)| v["ret"][0] == json!(tag))
                    });
                    std::thread::sleep(Duration::from_millis(50));
                    let ret = w.heard.lock().expect("lock").iter().find(|(_, v)| v["ret"][0] == json!(tag)).map(|(_, v)| v["ret"][1] == json!(true));
                    made.push(Try::Send(tag, ret.map(|x| if x { "ok" } else { "err" }).unwrap_or("none")));
                    good = full && ret == Some(op["ok"] == json!(true));
                    if good {
                        break;
                    }
                }
                done.push((out.len(), i, size, made));
                out.push(json!({"e": "send", "i": i, "all": all, "to": to, "end": end, "size": size}));
                if !good {
                    failed.store(true, Ordering::SeqCst);
                    break;
                }
            }
            "ask" => {
                // several calls to several nodes at once
                let (to, size) = (indices(op, "to"), int(op, "size"));
                let mut made = vec![];
                let mut good = false;
                for k in 0..tries {
                    if k > 0 {
                        w.settle(&pairs(op), limit / 3);
                    }
                    let calls: Vec<(usize, u64)> = to.iter().map(|j| (*j, w.fresh())).collect();
                    for (j, t) in &calls {
                        w.command(i, json!({"c": "ask", "who": j, "tag": t, "size": size}));
                    }
                    let full = w.wait(Duration::from_secs(10), |h| {
                        calls.iter().all(|(_, t)| h.iter().any(|(_, v)| v["answer"][0] == json!(t)))
                    });
                    std::thread::sleep(Duration::from_millis(30));
                    let h = w.heard.lock().expect("lock").clone();
                    good = full
                        && calls.iter().all(|(j, t)| h.iter().all(|(_, v)| v["answer"][0] != json!(t) || v["answer"][1] == json!(j)));
                    made.push(Try::Ask(calls));
                    if good {
                        break;
                    }
                }
                done.push((out.len(), i, size, made));
                out.push(json!({"e": "ask", "i": i, "to": to, "size": size}));
                if !good {
                    failed.store(true, Ordering::SeqCst);
                    break;
                }
            }
            x => panic!("op {}", x),
        }
    }
    std::thread::sleep(Duration::from_millis(200));
    let h = w.heard.lock().expect("lock").clone();
    for (at, i, size, made) in done {
        let tries: Vec<Value> = made
            .into_iter()
            .map(|t| match t {
                Try::Send(tag, ret) => json!({"ret": ret, "got": w.receptions(tag, size)}),
                Try::Ask(calls) => {
                    let one = |(j, t): (usize, u64)| {
                        let answers: Vec<Value> = h
                            .iter()
                            .filter(|(x, v)| *x == i && v["answer"][0] == json!(t))
                            .map(|(_, v)| json!([v["answer"][1], v["answer"][2] == json!(t), v["answer"][3]]))
                            .collect();
                        let asked: Vec<Value> =
                            h.iter().filter(|(_, v)| v["asked"][1] == json!(t)).map(|(x, v)| json!([x, v["asked"][0]])).collect();
                        json!({"to": j, "answers": answers, "asked": asked})
                    };
                    json!(calls.into_iter().map(one).collect::<Vec<_>>())
                }
            })
            .collect();
        out[at]["tries"] = json!(tries);
    }
    out
}

pub fn main() {
    let all = behaviours();
    let results: Arc<Mutex<BTreeMap<usize, Vec<Value>>>> = Default::default();
    let next = Arc::new(AtomicUsize::new(0));
    // after a failure no further behaviour is begun
    let failed = Arc::new(AtomicBool::new(false));
    let all = Arc::new(all);
    let jobs = std::env::var("MESH_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(3);
    let threads: Vec<_> = (0..jobs)
        .map(|_| {
            let (results, next, all, failed) = (Arc::clone(&results), Arc::clone(&next), Arc::clone(&all), Arc::clone(&failed));
            std::thread::spawn(move || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= all.len() || failed.load(Ordering::SeqCst) {
                    break;
                }
                let r = behaviour(&all[k], &failed);
                results.lock().expect("lock").insert(k, r);
            })
        })
        .collect();
    for t in threads {
        t.join().expect("driver");
    }
    let mut out = Out::new();
    for (k, evs) in results.lock().expect("lock").iter() {
        out.ev(json!({"e": "reset", "b": k}));
        for e in evs {
            out.ev(e.clone());
        }
    }
    out.flush();
}
