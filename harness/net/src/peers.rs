//! The peer manager under a simulated transport.
//!
//! Everything the transport library reports goes through the node's own event translation (service keeper, ping
//! reporter, discovery and identify callbacks) into the real peer manager; its commands are collected. The clock is
//! this driver's. After every event, a message to every user shows who is connected.
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{mpsc, Arc};
use std::task::Poll;
use std::time::Duration;

use core_network::verif_hooks::{
    verif_ping_reporter, ConnectionEvent, ConnectionServiceControl, ConnectionServiceKeeper, CoreProtocol,
    DiscoveryAddrManager, IdentifyCallback, MessageSender, MultiUsersMessage, NetworkError, Peer, PeerManager,
    PeerManagerConfig, PeerManagerEvent,
};
use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
use futures::channel::oneshot;
use futures01::Stream as _;
#[allow(unused_imports)]
use futures01::Future as _;
use generic_channel::Sender as _;
use protocol::traits::Priority;
use protocol::types::UserAddress;
use serde_json::{json, Value};
use tentacle::builder::ServiceBuilder;
use tentacle::bytes::Bytes;
use tentacle::context::{ServiceContext, SessionContext};
use tentacle::error::Error as TentacleError;
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::{PublicKey, SecioKeyPair};
use tentacle::service::{DialProtocol, ServiceControl, ServiceError, ServiceEvent, SessionType, TargetSession};
use tentacle::traits::ServiceHandle;
use tentacle::{ProtocolId, SessionId};
use tentacle_discovery::{AddressManager, Misbehavior};
use tentacle_identify::Callback;
use tentacle_ping::Event as PingEvent;

use crate::util::*;

// ------------------------------------------------------------------ clock
const T0: i64 = 1_600_000_000_000;
static VIRTUAL: AtomicBool = AtomicBool::new(false);
static NOW: AtomicI64 = AtomicI64::new(0);
/// Only this thread's clock is ours: the transport library's threads keep the real one.
static TID: AtomicI64 = AtomicI64::new(0);

fn tid() -> i64 {
    unsafe { libc::syscall(libc::SYS_gettid) }
}

/// Takes the place of the C library's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if VIRTUAL.load(Ordering::SeqCst) && tid() == TID.load(Ordering::SeqCst) {
        let ms = T0 + NOW.load(Ordering::SeqCst);
        (*ts).tv_sec = ms / 1000;
        (*ts).tv_nsec = (ms % 1000) * 1_000_000;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
    }
}

// ------------------------------------------------------------------ a session context of the transport library
struct Grab(mpsc::Sender<Arc<SessionContext>>, mpsc::Sender<Multiaddr>);

impl ServiceHandle for Grab {
    fn handle_event(&mut self, _: &mut ServiceContext, ev: ServiceEvent) {
        match ev {
            ServiceEvent::ListenStarted { address } => {
                let _ = self.1.send(address);
            }
            ServiceEvent::SessionOpen { session_context } => {
                let _ = self.0.send(session_context);
            }
            _ => (),
        }
    }
}

/// Two services meet on the loopback device; the contexts are then adapted.
fn contexts() -> (SessionContext, ServiceControl) {
    let (tx, rx) = mpsc::channel();
    let (atx, arx) = mpsc::channel();
    let key = |n: u8| SecioKeyPair::secp256k1_raw_key([n; 32]).expect("key");
    let proto = |n: u8| {
        tentacle::builder::MetaBuilder::new()
            .id(1.into())
            .name(|_| "p".to_owned())
            .support_versions(vec!["1".to_owned()])
            .service_handle(move || {
                let _ = n;
                tentacle::service::ProtocolHandle::Callback(Box::new(Quiet))
            })
            .build()
    };
    let mut a = ServiceBuilder::default()
        .insert_protocol(proto(1))
        .key_pair(key(91))
        .forever(true)
        .build(Grab(tx.clone(), atx.clone()));
    a.listen("/ip4/127.0.0.1/tcp/0".parse().expect("addr")).expect("listen");
    let control = a.control().clone();
    std::thread::spawn(move || tokio::run(a.map_err(|_| ()).for_each(|_| Ok(()))));
    let addr = arx.recv_timeout(Duration::from_secs(20)).expect("listening");
    let mut b = ServiceBuilder::default().insert_protocol(proto(2)).key_pair(key(92)).forever(true).build(Grab(tx, atx));
    b.dial(addr, DialProtocol::All).expect("dial");
    std::thread::spawn(move || tokio::run(b.map_err(|_| ()).for_each(|_| Ok(()))));
    let ctx = rx.recv_timeout(Duration::from_secs(20)).expect("a session");
    ((*ctx).clone(), control)
}

struct Quiet;
impl tentacle::traits::ServiceProtocol for Quiet {
    fn init(&mut self, _: &mut tentacle::context::ProtocolContext) {}
}

// ------------------------------------------------------------------ names
fn keypair(p: &str) -> SecioKeyPair {
    let n: u8 = p[1..].parse().expect("peer");
    SecioKeyPair::secp256k1_raw_key([n + 1; 32]).expect("key")
}
thread_local! {
    static KEYS: HashMap<String, (PublicKey, UserAddress)> = (0..10)
        .map(|n| {
            let p = format!("p{}", n);
            let key = keypair(&p).to_public_key();
            let user = Peer::new(key.peer_id(), key.clone()).user_addr().clone();
            (p, (key, user))
        })
        .collect();
}
fn pubkey(p: &str) -> PublicKey {
    KEYS.with(|k| k[p].0.clone())
}
fn user(p: &str) -> UserAddress {
    KEYS.with(|k| k[p].1.clone())
}
/// a12 is the second address of p1, a12+ the same with the peer's id; a50 is cut short
fn addr(t: &str) -> Multiaddr {
    let b = t.as_bytes();
    if t == "a50" {
        return "/ip4/10.0.5.0".parse().expect("multiaddr");
    }
    let base = format!("/ip4/10.0.{}.{}/tcp/7000", b[1] - b'0', b[2] - b'0');
    let full = if t.ends_with('x') {
        // the address of one peer with the id of another
        format!("{}/p2p/{}", base, pubkey("p9").peer_id().to_base58())
    } else if t.ends_with('+') {
        format!("{}/p2p/{}", base, pubkey(&format!("p{}", b[1] - b'0')).peer_id().to_base58())
    } else {
        base
    };
    full.parse().expect("multiaddr")
}
fn owner(t: &str) -> String {
    if t.ends_with('x') {
        return "p9".to_owned();
    }
    format!("p{}", &t[1..2])
}

const PEERS: [&str; 5] = ["p0", "p1", "p2", "p3", "p4"];
const USERS: [&str; 5] = ["p1", "p2", "p3", "p4", "p9"];

struct Names {
    addrs: HashMap<Multiaddr, String>,
    users: HashMap<UserAddress, String>,
}

impl Names {
    fn new() -> Self {
        let mut addrs = HashMap::new();
        for p in &PEERS {
            for j in 1..=3 {
                for x in &["", "+", "x"] {
                    let t = format!("a{}{}{}", &p[1..], j, x);
                    addrs.insert(addr(&t), t);
                }
            }
        }
        addrs.insert(addr("a50"), "a50".to_owned());
        let mut users = HashMap::new();
        for u in USERS.iter().chain(PEERS[..1].iter()) {
            users.insert(user(u), u.to_string());
        }
        Names { addrs, users }
    }
    fn addr(&self, a: &Multiaddr) -> String {
        self.addrs.get(a).cloned().unwrap_or_else(|| a.to_string())
    }
    fn user(&self, u: &UserAddress) -> String {
        self.users.get(u).cloned().unwrap_or_else(|| "?".to_owned())
    }
}

// ------------------------------------------------------------------ one node
struct Node {
    mgr:   Option<Pin<Box<PeerManager>>>,
    flag:  Arc<Flag>,
    tx:    UnboundedSender<PeerManagerEvent>,
    conn:  UnboundedReceiver<ConnectionEvent>,
    keep:  ConnectionServiceKeeper,
    _sys:  UnboundedReceiver<NetworkError>,
    disc:  DiscoveryAddrManager,
    ident: IdentifyCallback,
    ping:  Box<dyn FnMut(PingEvent)>,
    ctrl:  ConnectionServiceControl<CoreProtocol>,
}

struct World<'a> {
    names: &'a Names,
    proto: &'a SessionContext,
    ctl:   &'a ServiceControl,
    file:  std::path::PathBuf,
    conf:  Value,
    node:  Option<Node>,
    // the transport
    open:  BTreeMap<String, (usize, SessionType)>,
    gone:  BTreeMap<String, (usize, SessionType)>,
    fly:   Vec<String>,
    next:  usize,
}

#[derive(Default)]
struct Seen {
    dial:   Vec<Vec<String>>,
    disc:   Vec<usize>,
    msgs:   Vec<Value>,
    panics: usize,
}

impl Seen {
    fn json(self) -> Value {
        json!({"dial": self.dial, "disc": self.disc, "msgs": self.msgs, "panics": self.panics})
    }
}

fn service_context() -> &'static mut ServiceContext {
    // The keeper takes a context that it does not use.
    let layout = std::alloc::Layout::new::<ServiceContext>();
    unsafe { &mut *(std::alloc::alloc_zeroed(layout) as *mut ServiceContext) }
}

impl<'a> World<'a> {
    fn start(&mut self, sc: &'static Path) {
        let _ = sc;
        let (tx, rx) = unbounded();
        let (ctx, crx) = unbounded();
        let (stx, srx) = unbounded();
        let boots: Vec<Peer> = arr(&self.conf, "boots")
            .iter()
            .map(|p| {
                let p = p.as_str().expect("peer");
                Peer::from_pair((pubkey(p), addr(&format!("a{}1", &p[1..]))))
            })
            .collect();
        let config = PeerManagerConfig {
            our_id:           pubkey("p0").peer_id(),
            pubkey:           pubkey("p0"),
            bootstraps:       boots.clone(),
            max_connections:  int(&self.conf, "max") as usize,
            routine_interval: Duration::from_secs(100_000_000),
            persistence_path: self.file.clone(),
        };
        let mut mgr = PeerManager::new(config, rx, ctx);
        let handle = mgr.handle();
        mgr.enable_persistence();
        let _ = mgr.load_peers();
        if !boots.is_empty() {
            mgr.bootstrap();
        }
        let mut reporter = verif_ping_reporter(tx.clone());
        self.node = Some(Node {
            mgr: Some(Box::pin(mgr)),
            flag: Flag::set(),
            conn: crx,
            keep: ConnectionServiceKeeper::new(tx.clone(), stx),
            _sys: srx,
            disc: DiscoveryAddrManager::new(handle.clone(), tx.clone()),
            ident: IdentifyCallback::new(handle, tx.clone()),
            ping: Box::new(move |e| {
                let _ = reporter.try_send(e);
            }),
            ctrl: ConnectionServiceControl::new(self.ctl.clone(), tx.clone()),
            tx,
        });
        self.open.clear();
        self.fly.clear();
    }

    fn poll(&mut self) -> Seen {
        let names = self.names;
        let n = self.node.as_mut().expect("node");
        let mut seen = Seen::default();
        if let Some(m) = n.mgr.as_mut() {
            match poll_guarded(m.as_mut(), &n.flag) {
                Ok(Poll::Pending) => (),
                Ok(Poll::Ready(())) => seen.panics += 1,
                Err(()) => {
                    seen.panics += 1;
                    std::mem::forget(n.mgr.take());
                }
            }
        }
        while let Ok(Some(c)) = n.conn.try_next() {
            match c {
                ConnectionEvent::Connect { addrs, .. } => {
                    let mut v: Vec<String> = addrs.iter().map(|a| names.addr(a)).collect();
                    v.sort();
                    seen.dial.push(v);
                }
                ConnectionEvent::Disconnect(sid) => seen.disc.push(sid.value()),
                ConnectionEvent::SendMsg { tar, msg, pri } => {
                    let mut to: Vec<usize> = match tar {
                        TargetSession::Multi(v) => v.iter().map(|s| s.value()).collect(),
                        TargetSession::Single(s) => vec![s.value()],
                        TargetSession::All => vec![999_999],
                    };
                    to.sort();
                    let pri = match pri {
                        Priority::High => "high",
                        Priority::Normal => "normal",
                    };
                    seen.msgs.push(json!({"to": to, "msg": String::from_utf8_lossy(&msg), "pri": pri}));
                }
            }
        }
        seen
    }

    fn session(&self, p: &str) -> Arc<SessionContext> {
        self.context(p, self.open[p])
    }

    fn context(&self, p: &str, (sid, ty): (usize, SessionType)) -> Arc<SessionContext> {
        let mut c = self.proto.clone();
        c.id = SessionId::new(sid);
        c.ty = ty;
        c.remote_pubkey = Some(pubkey(p));
        c.address = match ty {
            SessionType::Inbound => format!("/ip4/10.9.9.{}/tcp/{}/p2p/{}", &p[1..], 50_000 + sid, pubkey(p).peer_id().to_base58())
                .parse()
                .expect("multiaddr"),
            SessionType::Outbound => addr(&format!("a{}1", &p[1..])),
        };
        Arc::new(c)
    }

    fn opened(&mut self, p: &str, ty: SessionType, at: Option<Multiaddr>) -> usize {
        let sid = self.next;
        self.next += 1;
        self.open.insert(p.to_owned(), (sid, ty));
        let mut c = (*self.session(p)).clone();
        if let Some(a) = at {
            c.address = a;
        }
        let n = self.node.as_mut().expect("node");
        n.keep.handle_event(service_context(), ServiceEvent::SessionOpen { session_context: Arc::new(c) });
        sid
    }

    fn known(&mut self) -> Vec<String> {
        let n = self.node.as_mut().expect("node");
        let mut v: Vec<String> = n.disc.get_random(10_000).iter().map(|a| self.names.addr(a)).collect();
        v.sort();
        v
    }

    /// A message to every user: who is connected, who is missed and dialed.
    fn probe(&mut self) -> Value {
        let (miss_tx, mut miss_rx) = oneshot::channel();
        let msg = MultiUsersMessage {
            user_addrs: USERS.iter().map(|u| user(u)).collect(),
            msg:        Bytes::from("probe"),
            pri:        Priority::Normal,
        };
        let n = self.node.as_mut().expect("node");
        let _ = n.tx.unbounded_send(PeerManagerEvent::RouteMultiUsersMessage { users_msg: msg, miss_tx });
        let seen = self.poll();
        let mut miss: Vec<String> = match miss_rx.try_recv() {
            Ok(Some(v)) => v.iter().map(|u| self.names.user(u)).collect(),
            _ => vec!["none".to_owned()],
        };
        miss.sort();
        // what it dials to reach the missed is this driver's doing; the rest is not
        for d in seen.dial.iter().skip(1).flatten() {
            self.fly.push(d.clone());
        }
        let mut v = seen.json();
        v["miss"] = json!(miss);
        v
    }

    fn report(&mut self, e: &str, op: &Value, mut more: Value, seen: Seen) -> Value {
        // what was dialed is in flight; the transport opens at most one session per peer, and reports the rest
        self.fly.extend(seen.dial.iter().flatten().cloned());
        let probe = self.probe();
        self.fly.sort();
        for (k, v) in op.as_object().expect("op") {
            if k != "op" && more.get(k).is_none() {
                more[k] = v.clone();
            }
        }
        let s = seen.json();
        for (k, v) in s.as_object().expect("seen") {
            more[k] = v.clone();
        }
        more["e"] = json!(e);
        more["now"] = json!(NOW.load(Ordering::SeqCst));
        more["probe"] = probe;
        more["known"] = json!(self.known());
        more
    }

    fn step(&mut self, op: &Value, dir: &'static Path) -> Value {
        let tick = |ms: i64| NOW.fetch_add(ms, Ordering::SeqCst);
        tick(1);
        let p = s(op, "p").to_owned();
        let none = json!({"e": "noop"});
        match s(op, "op") {
            "start" => {
                self.conf = op.clone();
                self.start(dir);
                tick(1);
                let seen = self.poll();
                self.report("start", op, json!({}), seen)
            }
            "restart" => {
                // the manager saves its peers when it goes; a killed one does not
                let how = s(op, "how");
                if how != "stop" {
                    std::mem::forget(self.node.take().and_then(|mut n| n.mgr.take()));
                }
                self.node = None;
                if how == "cut" {
                    if let Ok(d) = std::fs::read(&self.file) {
                        std::fs::write(&self.file, &d[..d.len() * int(op, "at") as usize / 100]).expect("write");
                    }
                } else if how == "gone" {
                    let _ = std::fs::remove_file(&self.file);
                }
                self.start(dir);
                tick(1);
                let seen = self.poll();
                self.report("restart", op, json!({}), seen)
            }
            "in" => {
                if self.open.contains_key(&p) {
                    // the transport refuses a second session and reports it
                    let sid = self.open[&p].0;
                    let n = self.node.as_mut().expect("node");
                    let error = TentacleError::RepeatedConnection(SessionId::new(sid));
                    n.keep.handle_error(service_context(), ServiceError::ListenError { address: addr("a01"), error });
                    let seen = self.poll();
                    return self.report("again", op, json!({}), seen);
                }
                let sid = self.opened(&p, SessionType::Inbound, None);
                let seen = self.poll();
                self.report("in", op, json!({ "sid": sid }), seen)
            }
            "dial" => {
                if self.fly.is_empty() {
                    return none;
                }
                let want = s(op, "a");
                let i = self.fly.iter().position(|a| a == want).unwrap_or(int(op, "i") as usize % self.fly.len());
                let a = self.fly.remove(i);
                let p = owner(&a);
                let out = if p == "p0" {
                    "self"
                } else if !PEERS.contains(&p.as_str()) {
                    "refused"
                } else {
                    s(op, "out")
                };
                let fail = |w: &mut World, error: TentacleError| {
                    let n = w.node.as_mut().expect("node");
                    n.keep.handle_error(service_context(), ServiceError::DialerError { address: addr(&a), error });
                };
                let io = |k: std::io::ErrorKind| TentacleError::IoError(k.into());
                let mut sid = 0;
                let mut res = out;
                match out {
                    "self" => fail(self, TentacleError::ConnectSelf),
                    "ok" => match self.open.get(&p) {
                        Some((s, _)) => {
                            sid = *s;
                            res = "repeated";
                            fail(self, TentacleError::RepeatedConnection(SessionId::new(sid)));
                        }
                        None => {
                            let mut full = a.clone();
                            if !full.ends_with('+') {
                                full.push('+');
                            }
                            sid = self.opened(&p, SessionType::Outbound, Some(addr(&full)));
                        }
                    },
                    "refused" => fail(self, io(std::io::ErrorKind::ConnectionRefused)),
                    "dns" => {
                        res = "refused";
                        fail(self, TentacleError::DNSResolverError(std::io::ErrorKind::Other.into()))
                    }
                    "timeout" => fail(self, io(std::io::ErrorKind::TimedOut)),
                    _ => {
                        res = "timeout";
                        fail(self, io(std::io::ErrorKind::Interrupted))
                    }
                }
                let seen = self.poll();
                self.report("dial", &json!({}), json!({"a": a, "out": res, "sid": sid}), seen)
            }
            "close" => {
                let session_context = match self.open.get(&p) {
                    Some(_) => self.session(&p),
                    None => return none,
                };
                let (sid, ty) = self.open.remove(&p).expect("session");
                self.gone.insert(p, (sid, ty));
                let n = self.node.as_mut().expect("node");
                n.keep.handle_event(service_context(), ServiceEvent::SessionClose { session_context });
                let seen = self.poll();
                self.report("close", op, json!({ "sid": sid }), seen)
            }
            "alive" => {
                let pid = pubkey(&p).peer_id();
                let ev = if s(op, "k") == "ping" { PingEvent::Ping(pid) } else { PingEvent::Pong(pid, Duration::from_millis(5)) };
                (self.node.as_mut().expect("node").ping)(ev);
                let seen = self.poll();
                self.report("alive", op, json!({}), seen)
            }
            "err" | "late" => {
                // of the session that is open, or, late, of the one before
                let from = if s(op, "op") == "err" { &self.open } else { &self.gone };
                let session_context = match from.get(&p) {
                    Some(c) => self.context(&p, *c),
                    None => return none,
                };
                let id = session_context.id;
                let pid = pubkey(&p).peer_id();
                let n = self.node.as_mut().expect("node");
                let error = TentacleError::IoError(std::io::ErrorKind::InvalidData.into());
                let mut keep = |e: ServiceError| n.keep.handle_error(service_context(), e);
                match s(op, "k") {
                    "unknownproto" => keep(ServiceError::ProtocolSelectError { proto_name: Some("x".to_owned()), session_context }),
                    "select" => keep(ServiceError::ProtocolSelectError { proto_name: None, session_context }),
                    "proto" => keep(ServiceError::ProtocolError { id, proto_id: ProtocolId::new(4), error }),
                    "idle" => keep(ServiceError::SessionTimeout { session_context }),
                    "mux" => keep(ServiceError::MuxerError { session_context, error }),
                    "blocked" => keep(ServiceError::SessionBlocked { session_context }),
                    "pingtimeout" => (n.ping)(PingEvent::Timeout(pid)),
                    "pingerr" => (n.ping)(PingEvent::UnexpectedError(pid)),
                    "misbehave" => {
                        n.disc.misbehave(id, Misbehavior::TooManyAddresses(9));
                    }
                    x => panic!("unknown error {:?}", x),
                }
                let seen = self.poll();
                self.report(s(op, "op"), op, json!({ "sid": id.value() }), seen)
            }
            "disc" => {
                let mut list: Vec<Multiaddr> = arr(op, "as").iter().map(|t| addr(t.as_str().expect("token"))).collect();
                let n = self.node.as_mut().expect("node");
                if list.len() == 1 {
                    n.disc.add_new_addr(SessionId::new(1), list.pop().expect("one"));
                } else {
                    n.disc.add_new_addrs(SessionId::new(1), list);
                }
                let seen = self.poll();
                self.report("disc", op, json!({}), seen)
            }
            "ident" => {
                if !self.open.contains_key(&p) {
                    return none;
                }
                let list: Vec<Multiaddr> = arr(op, "as").iter().map(|t| addr(t.as_str().expect("token"))).collect();
                let n = self.node.as_mut().expect("node");
                n.ident.add_remote_listen_addrs(&pubkey(&p).peer_id(), list);
                let seen = self.poll();
                self.report("ident", op, json!({}), seen)
            }
            "listen" => {
                let address = addr(s(op, "a"));
                let n = self.node.as_mut().expect("node");
                let ev = if s(op, "on") == "yes" { ServiceEvent::ListenStarted { address } } else { ServiceEvent::ListenClose { address } };
                n.keep.handle_event(service_context(), ev);
                let seen = self.poll();
                self.report("listen", op, json!({}), seen)
            }
            "mcast" => {
                let users: Vec<UserAddress> = arr(op, "us").iter().map(|u| user(u.as_str().expect("user"))).collect();
                let pri = if s(op, "pri") == "high" { Priority::High } else { Priority::Normal };
                let ctrl = self.node.as_ref().expect("node").ctrl.clone();
                let msg = Bytes::from(s(op, "msg"));
                let mut fut: Pin<Box<dyn Future<Output = Result<(), NetworkError>> + Send>> =
                    Box::pin(async move { ctrl.users_send(users, msg, pri).await });
                let flag = Flag::set();
                let first = poll_guarded(fut.as_mut(), &flag);
                let seen = self.poll();
                let last = match first {
                    Ok(Poll::Pending) => poll_guarded(fut.as_mut(), &flag),
                    other => other,
                };
                let (res, mut miss) = match last {
                    Ok(Poll::Ready(Ok(()))) => ("ok", vec![]),
                    Ok(Poll::Ready(Err(NetworkError::PartialRouteMessage { miss }))) => {
                        ("miss", miss.iter().map(|u| self.names.user(u)).collect())
                    }
                    Ok(Poll::Ready(Err(_))) => ("err", vec![]),
                    Ok(Poll::Pending) => ("wait", vec![]),
                    Err(()) => ("panic", vec![]),
                };
                miss.sort();
                self.report("mcast", op, json!({"res": res, "miss": miss}), seen)
            }
            "tick" => {
                tick(int(op, "s") * 1000);
                let seen = self.poll();
                self.report("tick", op, json!({}), seen)
            }
            x => panic!("unknown operation {:?}", x),
        }
    }
}

pub fn main() {
    let rt = Rt::install();
    let (proto, ctl) = contexts();
    let names = Names::new();
    let scratch = Scratch::new("peers");
    let dir: &'static Path = Box::leak(scratch.0.clone().into_boxed_path());
    TID.store(tid(), Ordering::SeqCst);
    VIRTUAL.store(true, Ordering::SeqCst);
    let mut out = Out::new();
    for (b, ops) in behaviours().iter().enumerate() {
        NOW.store(0, Ordering::SeqCst);
        out.ev(json!({"e": "reset", "b": b}));
        out.flush();
        let file = dir.join(format!("peers-{}", b));
        let mut w = World {
            names: &names,
            proto: &proto,
            ctl: &ctl,
            file: file.clone(),
            conf: json!({}),
            node: None,
            open: BTreeMap::new(),
            gone: BTreeMap::new(),
            fly: vec![],
            next: 1,
        };
        for op in ops {
            let ev = w.step(op, dir);
            out.ev(ev);
        }
        w.node = None;
        rt.clear();
        let _ = std::fs::remove_file(&file);
    }
    out.flush();
    VIRTUAL.store(false, Ordering::SeqCst);
    drop(scratch);
    std::process::exit(0);
}
