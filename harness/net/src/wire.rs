//! Messages between the wire and the handlers: router, reactors, rpc calls, gossip.
//!
//! The transport is this driver: frames it makes up enter where the transmitter protocol hands them over, and
//! frames the node sends are taken from the sender it was given. Between two `run` operations everything is
//! concurrent; the runtime picks the order.
use std::collections::HashSet;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as TaskContext, Poll};

use async_trait::async_trait;
use core_network::verif_hooks::{
    Compression, MessageSender, NetworkContext, NetworkError, NetworkGossip, NetworkMessage, NetworkRpc,
    RawSessionMessage, Snappy,
};
use core_network::{NetworkConfig, NetworkService};
use futures::channel::mpsc::UnboundedSender;
use futures::executor::block_on;
use protocol::traits::{Context, Gossip, MessageCodec, MessageHandler, Priority, Rpc};
use protocol::types::UserAddress;
use protocol::ProtocolResult;
use serde::{Deserialize as De, Deserializer};
use serde_derive::{Deserialize, Serialize};
use serde_json::{json, Value};
use tentacle::bytes::Bytes;
use tentacle::service::TargetSession;
use tentacle::SessionId;

use crate::util::*;

const MT: u32 = 0x7479_7054;
const MN: u32 = 0x7479_704e;

fn mt<'de, D: Deserializer<'de>>(d: D) -> Result<u32, D::Error> {
    let m = u32::deserialize(d)?;
    if m == MT { Ok(m) } else { Err(serde::de::Error::custom("not a T")) }
}
fn mn<'de, D: Deserializer<'de>>(d: D) -> Result<u32, D::Error> {
    let m = u32::deserialize(d)?;
    if m == MN { Ok(m) } else { Err(serde::de::Error::custom("not an N")) }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct T {
    #[serde(deserialize_with = "mt")]
    magic: u32,
    val:   i64,
    pad:   Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct N {
    #[serde(deserialize_with = "mn")]
    magic: u32,
    name:  String,
    val:   i64,
}

fn big(val: i64) -> usize {
    // above every frame and buffer size on the way
    if val % 10 == 9 { 150_000 } else { (val as usize % 10) * 3 }
}

trait Payload: MessageCodec + Clone + Sync {
    const TY: &'static str;
    fn new(val: i64) -> Self;
    /// -1 when the content is not what `new` makes
    fn val(&self) -> i64;
}

impl Payload for T {
    const TY: &'static str = "T";
    fn new(val: i64) -> Self {
        T { magic: MT, val, pad: (0..big(val)).map(|i| (i * 7 % 251) as u8).collect() }
    }
    fn val(&self) -> i64 {
        if self.pad == T::new(self.val).pad { self.val } else { -1 }
    }
}

impl Payload for N {
    const TY: &'static str = "N";
    fn new(val: i64) -> Self {
        N { magic: MN, name: "x".repeat(big(val)), val }
    }
    fn val(&self) -> i64 {
        if self.name == N::new(self.val).name { self.val } else { -1 }
    }
}

fn encode(ty: &str, val: i64) -> Bytes {
    match ty {
        "T" => block_on(T::new(val).encode()).expect("encode"),
        "N" => block_on(N::new(val).encode()).expect("encode"),
        _ => Bytes::from(vec![1u8, 2, 3]),
    }
}

fn classify(content: &[u8]) -> (String, i64) {
    if let Ok(t) = block_on(T::decode(Bytes::from(content.to_vec()))) {
        return ("T".to_owned(), t.val());
    }
    if let Ok(n) = block_on(N::decode(Bytes::from(content.to_vec()))) {
        return ("N".to_owned(), n.val());
    }
    ("bad".to_owned(), 0)
}

struct Sent {
    kind:  &'static str,
    sid:   usize,
    users: Vec<UserAddress>,
    msg:   Bytes,
    pri:   &'static str,
}

#[derive(Clone)]
struct Sender {
    log:  Arc<Mutex<Vec<Sent>>>,
    fail: Arc<Mutex<bool>>,
}

fn pri_name(p: Priority) -> &'static str {
    match p {
        Priority::High => "high",
        Priority::Normal => "normal",
    }
}

#[async_trait]
impl MessageSender for Sender {
    fn send(&self, tar: TargetSession, msg: Bytes, pri: Priority) -> Result<(), NetworkError> {
        if *self.fail.lock().expect("lock") {
            return Err(NetworkError::Busy);
        }
        let (kind, sid) = match tar {
            TargetSession::All => ("all", 0),
            TargetSession::Single(s) => ("one", s.value()),
            TargetSession::Multi(_) => ("multi", 0),
        };
        self.log.lock().expect("lock").push(Sent { kind, sid, users: vec![], msg, pri: pri_name(pri) });
        Ok(())
    }

    async fn users_send(&self, users: Vec<UserAddress>, msg: Bytes, pri: Priority) -> Result<(), NetworkError> {
        if *self.fail.lock().expect("lock") {
            return Err(NetworkError::PartialRouteMessage { miss: users });
        }
        self.log.lock().expect("lock").push(Sent { kind: "users", sid: 0, users, msg, pri: pri_name(pri) });
        Ok(())
    }
}

struct Inv {
    end: String,
    ty:  &'static str,
    sid: i64,
    rid: String,
    val: i64,
    ctx: Context,
}

/// Yields to the other tasks a few times.
struct Yield(usize);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut TaskContext<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

struct Handler<P> {
    end: String,
    log: Arc<Mutex<Vec<Inv>>>,
    pin: PhantomData<fn() -> P>,
}

#[async_trait]
impl<P: Payload> MessageHandler for Handler<P> {
    type Message = P;

    async fn process(&self, ctx: Context, msg: P) -> ProtocolResult<()> {
        Yield((msg.val().max(0) % 3) as usize).await;
        let inv = Inv {
            end: self.end.clone(),
            ty:  P::TY,
            sid: ctx.session_id().map(|s| s.value() as i64).unwrap_or(-1),
            rid: ctx.rpc_id().map(|r| r.to_string()).unwrap_or_else(|_| "-".to_owned()),
            val: msg.val(),
            ctx: ctx.clone(),
        };
        self.log.lock().expect("lock").push(inv);
        if msg.val() % 10 == 4 {
            // a handler that fails
            return Err(NetworkError::Busy.into());
        }
        Ok(())
    }
}

type CallFut = Pin<Box<dyn Future<Output = Result<i64, ()>> + Send>>;

struct Call {
    fut:  Option<CallFut>,
    flag: Arc<Flag>,
    rid:  String,
}

struct Node {
    raw_tx: UnboundedSender<RawSessionMessage>,
    rpc:    NetworkRpc<Sender, Snappy>,
    gossip: NetworkGossip<Sender, Snappy>,
    sender: Sender,
    log:    Arc<Mutex<Vec<Inv>>>,
    shown:  usize,
    calls:  Vec<Call>,
    frames: Vec<Bytes>,
    /// every session and call id that was ever sent
    ids:    HashSet<(i64, String)>,
}

fn user(tok: &str) -> UserAddress {
    UserAddress::from_pubkey_bytes(Bytes::from(tok.as_bytes().to_vec())).expect("address")
}

fn start(op: &Value, rt: &'static Rt) -> (Node, Value) {
    let log: Arc<Mutex<Vec<Inv>>> = Default::default();
    let mut srv = NetworkService::new(NetworkConfig::new());
    let mut res = vec![];
    for r in arr(op, "regs") {
        let end = s(r, "end").to_owned();
        let ret = match (s(r, "api"), s(r, "ty")) {
            ("handler", "T") => srv.register_endpoint_handler(
                &end,
                Box::new(Handler::<T> { end: end.clone(), log: Arc::clone(&log), pin: PhantomData }),
            ),
            ("handler", _) => srv.register_endpoint_handler(
                &end,
                Box::new(Handler::<N> { end: end.clone(), log: Arc::clone(&log), pin: PhantomData }),
            ),
            (_, "T") => srv.register_rpc_response::<T>(&end),
            (_, _) => srv.register_rpc_response::<N>(&end),
        };
        res.push(json!({"end": end, "ty": s(r, "ty"), "api": s(r, "api"), "res": if ret.is_ok() { "ok" } else { "err" }}));
    }
    let (raw_tx, router, map) = srv.verif_inbound();
    rt.spawn(router.expect("router"));
    let sender = Sender { log: Default::default(), fail: Default::default() };
    let node = Node {
        raw_tx,
        rpc: NetworkRpc::new(sender.clone(), Snappy, map),
        gossip: NetworkGossip::new(sender.clone(), Snappy),
        sender,
        log,
        shown: 0,
        calls: vec![],
        frames: vec![],
        ids: HashSet::new(),
    };
    (node, json!({"e": "conf", "regs": res}))
}

impl Rt {
    fn spawn<F: Future<Output = ()> + Send + 'static>(&self, f: F) {
        runtime_raw::Runtime::spawn_boxed(self, Box::pin(f)).expect("spawn");
    }
}

fn pri(op: &Value) -> Priority {
    if s(op, "pri") == "high" { Priority::High } else { Priority::Normal }
}

impl Node {
    fn deliver(&self, sid: i64, frame: &str, url: &str, ty: &str, val: i64) {
        let msg = NetworkMessage { url: url.to_owned(), content: encode(ty, val).to_vec() };
        let plain = block_on(msg.encode()).expect("encode");
        let whole = Snappy.compress(plain.clone()).expect("compress");
        let bytes = match frame {
            "ok" => whole,
            // not compressed data
            "garbage" => Bytes::from(vec![0xde, 0xad, 0xbe, 0xef, 0, 1, 2, 3, 4, 5, 6, 7]),
            // a message, but not compressed
            "plain" => plain,
            // compressed, but not a message
            "nomsg" => Snappy.compress(Bytes::from(vec![0xffu8; 9])).expect("compress"),
            // the end is missing
            "cut" => whole.slice_to(whole.len() - 2),
            _ => Bytes::new(),
        };
        self.raw_in(sid, bytes);
    }

    fn raw_in(&self, sid: i64, bytes: Bytes) {
        let raw = RawSessionMessage::new(SessionId::new(sid as usize), bytes);
        self.raw_tx.unbounded_send(raw).expect("the router is gone");
    }

    /// What was sent since the last look.
    fn sent(&mut self) -> Vec<Value> {
        let log: Vec<Sent> = self.sender.log.lock().expect("lock").drain(..).collect();
        let mut out = vec![];
        for f in log {
            let msg = Snappy.decompress(f.msg.clone()).ok().and_then(|p| block_on(NetworkMessage::decode(p)).ok());
            let (url, ty, val) = match msg {
                Some(m) => {
                    let (ty, val) = classify(&m.content);
                    (m.url, ty, val)
                }
                None => ("?".to_owned(), "?".to_owned(), 0),
            };
            let at = url.rfind('/').unwrap_or(0);
            let users: Vec<String> = f
                .users
                .iter()
                .map(|u| {
                    ["u1", "u2", "u3"].iter().find(|t| &user(t) == u).map(|t| t.to_string()).unwrap_or_else(|| "?".to_owned())
                })
                .collect();
            out.push(json!({
                "to": f.kind, "sid": f.sid, "users": users, "url": url, "base": &url[..at], "last": &url[(at + 1).min(url.len())..],
                "ty": ty, "val": val, "pri": f.pri,
            }));
            self.frames.push(f.msg);
        }
        out
    }

    /// Completions of calls, one poll round.
    fn polls(&mut self, panics: &mut usize, done: &mut Vec<Value>) -> bool {
        let mut any = false;
        for (k, c) in self.calls.iter_mut().enumerate() {
            if c.fut.is_none() || !c.flag.take() {
                continue;
            }
            any = true;
            let ret = poll_guarded(c.fut.as_mut().expect("call").as_mut(), &c.flag);
            match ret {
                Ok(Poll::Pending) => (),
                Ok(Poll::Ready(r)) => {
                    c.fut = None;
                    done.push(match r {
                        Ok(v) => json!({"k": k + 1, "res": "ok", "val": v}),
                        Err(()) => json!({"k": k + 1, "res": "err", "val": 0}),
                    });
                }
                Err(()) => {
                    c.fut = None;
                    *panics += 1;
                }
            }
        }
        any
    }

    fn call(&mut self, op: &Value) -> Value {
        let rpc = self.rpc.clone();
        let sid = int(op, "sid");
        let mut ctx = Context::new();
        if sid > 0 {
            ctx = ctx.set_session_id(SessionId::new(sid as usize));
        }
        let (end, val, p) = (s(op, "end").to_owned(), int(op, "val"), pri(op));
        macro_rules! fut {
            ($m:ty, $r:ty) => {
                Box::pin(async move {
                    match rpc.call::<$m, $r>(ctx, &end, <$m>::new(val), p).await {
                        Ok(r) => Ok(r.val()),
                        Err(_) => Err(()),
                    }
                })
            };
        }
        let fut: CallFut = match (s(op, "ty"), s(op, "want")) {
            ("T", "T") => fut!(T, T),
            ("T", _) => fut!(T, N),
            (_, "T") => fut!(N, T),
            _ => fut!(N, N),
        };
        *self.sender.fail.lock().expect("lock") = s(op, "send") == "fail";
        let flag = Flag::set();
        flag.take();
        self.calls.push(Call { fut: Some(fut), flag: Arc::clone(&flag), rid: "none".to_owned() });
        let k = self.calls.len() - 1;
        let ret = poll_guarded(self.calls[k].fut.as_mut().expect("call").as_mut(), &flag);
        let (res, panics) = match ret {
            Ok(Poll::Pending) => ("wait", 0),
            Ok(Poll::Ready(Ok(_))) => ("ok", 0),
            Ok(Poll::Ready(Err(()))) => ("err", 0),
            Err(()) => ("panic", 1),
        };
        if res != "wait" {
            self.calls[k].fut = None;
        }
        *self.sender.fail.lock().expect("lock") = false;
        let sent = self.sent();
        let mut fresh = true;
        if let Some(f) = sent.get(0) {
            self.calls[k].rid = s(f, "last").to_owned();
            fresh = self.ids.insert((sid, self.calls[k].rid.clone()));
        }
        json!({"e": "call", "sid": sid, "end": s(op, "end"), "ty": s(op, "ty"), "val": int(op, "val"), "want": s(op, "want"),
               "send": s(op, "send"), "pri": s(op, "pri"), "res": res, "panics": panics, "sent": sent, "fresh": fresh})
    }

    /// Many calls that the caller gives up at once.
    fn burn(&mut self, op: &Value) -> Value {
        let (sid, n) = (int(op, "sid"), int(op, "n"));
        let mut fresh = true;
        let mut sent = 0;
        for _ in 0..n {
            let rpc = self.rpc.clone();
            let ctx = Context::new().set_session_id(SessionId::new(sid as usize));
            let mut fut: CallFut = Box::pin(async move {
                match rpc.call::<T, T>(ctx, "/rpc_call/a/b", T::new(0), Priority::Normal).await {
                    Ok(r) => Ok(r.val()),
                    Err(_) => Err(()),
                }
            });
            let _ = poll_guarded(fut.as_mut(), &Flag::set());
            for f in self.sender.log.lock().expect("lock").drain(..) {
                sent += 1;
                let msg = Snappy.decompress(f.msg).ok().and_then(|p| block_on(NetworkMessage::decode(p)).ok());
                let url = msg.map(|m| m.url).unwrap_or_default();
                fresh = self.ids.insert((sid, url[url.rfind('/').map(|i| i + 1).unwrap_or(0)..].to_owned())) && fresh;
            }
        }
        json!({"e": "burn", "sid": sid, "n": n, "sent": sent, "fresh": fresh})
    }

    fn respond(&mut self, op: &Value) -> Value {
        let (sid, rid) = (int(op, "sid"), s(op, "rid"));
        let ctx = {
            let log = self.log.lock().expect("lock");
            log.iter().find(|i| i.sid == sid && i.rid == rid).map(|i| i.ctx.clone())
        };
        let mut ev = json!({"e": "resp", "sid": sid, "rid": rid, "end": s(op, "end"), "ty": s(op, "ty"), "val": int(op, "val"),
               "send": s(op, "send"), "pri": s(op, "pri")});
        let ctx = match ctx {
            Some(c) => c,
            None => {
                ev["res"] = json!("noctx");
                ev["sent"] = json!([]);
                return ev;
            }
        };
        *self.sender.fail.lock().expect("lock") = s(op, "send") == "fail";
        let (end, val, p) = (s(op, "end").to_owned(), int(op, "val"), pri(op));
        let ret = match s(op, "ty") {
            "T" => block_on(self.rpc.response(ctx, &end, T::new(val), p)),
            _ => block_on(self.rpc.response(ctx, &end, N::new(val), p)),
        };
        *self.sender.fail.lock().expect("lock") = false;
        ev["res"] = json!(if ret.is_ok() { "ok" } else { "err" });
        ev["sent"] = json!(self.sent());
        ev
    }

    fn cast(&mut self, op: &Value) -> Value {
        *self.sender.fail.lock().expect("lock") = s(op, "send") == "fail";
        let (end, val, p) = (s(op, "end").to_owned(), int(op, "val"), pri(op));
        let users: Vec<UserAddress> = arr(op, "users").iter().map(|u| user(u.as_str().expect("user"))).collect();
        let cx = Context::new();
        let ret = match (s(op, "op"), s(op, "ty")) {
            ("bc", "T") => block_on(self.gossip.broadcast(cx, &end, T::new(val), p)),
            ("bc", _) => block_on(self.gossip.broadcast(cx, &end, N::new(val), p)),
            (_, "T") => block_on(self.gossip.users_cast(cx, &end, users, T::new(val), p)),
            (_, _) => block_on(self.gossip.users_cast(cx, &end, users, N::new(val), p)),
        };
        *self.sender.fail.lock().expect("lock") = false;
        json!({"e": s(op, "op"), "end": s(op, "end"), "ty": s(op, "ty"), "val": val, "pri": s(op, "pri"), "users": op["users"],
               "send": s(op, "send"), "res": if ret.is_ok() { "ok" } else { "err" }, "sent": self.sent()})
    }

    fn run(&mut self, op: &Value, rt: &'static Rt) -> Value {
        let mut panics = 0;
        let mut done = vec![];
        let mut n = 0;
        loop {
            panics += rt.run(int(op, "seed") as u64 + n);
            n += 1;
            if !self.polls(&mut panics, &mut done) {
                break;
            }
        }
        let inv: Vec<Value> = self.log.lock().expect("lock")[self.shown..]
            .iter()
            .map(|i| json!({"end": i.end, "ty": i.ty, "sid": i.sid, "rid": i.rid, "val": i.val}))
            .collect();
        self.shown += inv.len();
        json!({"e": "run", "inv": inv, "done": done, "panics": panics, "sent": self.sent()})
    }
}

pub fn main() {
    let rt = Rt::install();
    let mut out = Out::new();
    for (b, ops) in behaviours().iter().enumerate() {
        out.ev(json!({"e": "reset", "b": b}));
        out.flush();
        let mut node: Option<Node> = None;
        for op in ops {
            if s(op, "op") == "conf" {
                let (n, ev) = start(op, rt);
                node = Some(n);
                out.ev(ev);
                continue;
            }
            let n = node.as_mut().expect("conf comes first");
            let ev = match s(op, "op") {
                "dl" => {
                    n.deliver(int(op, "sid"), s(op, "frame"), s(op, "raw"), s(op, "ty"), int(op, "val"));
                    json!({"e": "dl", "sid": int(op, "sid"), "frame": s(op, "frame"), "u": int(op, "u"), "ty": s(op, "ty"), "val": int(op, "val")})
                }
                "ans" => {
                    let k = int(op, "k") as usize;
                    let rid = n.calls.get(k - 1).map(|c| c.rid.clone()).unwrap_or_else(|| "none".to_owned());
                    if rid != "none" {
                        let url = format!("{}/{}", s(op, "end"), rid);
                        n.deliver(int(op, "sid"), "ok", &url, s(op, "ty"), int(op, "val"));
                    }
                    json!({"e": "ans", "sid": int(op, "sid"), "k": k, "rid": rid, "end": s(op, "end"), "ty": s(op, "ty"), "val": int(op, "val")})
                }
                "loop" => {
                    let f = int(op, "f") as usize;
                    let ok = match n.frames.get(f - 1).cloned() {
                        Some(bytes) => {
                            n.raw_in(int(op, "sid"), bytes);
                            true
                        }
                        None => false,
                    };
                    json!({"e": "loop", "sid": int(op, "sid"), "f": f, "there": ok})
                }
                "run" => n.run(op, rt),
                "call" => n.call(op),
                "drop" => {
                    let k = int(op, "k") as usize;
                    if let Some(c) = n.calls.get_mut(k - 1) {
                        c.fut = None;
                    }
                    json!({"e": "drop", "k": k})
                }
                "burn" => n.burn(op),
                "resp" => n.respond(op),
                "bc" | "cast" => n.cast(op),
                x => panic!("unknown operation {:?}", x),
            };
            out.ev(ev);
        }
        drop(node);
        rt.clear();
    }
    out.flush();
}
