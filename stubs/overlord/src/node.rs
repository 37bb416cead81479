//! A consensus of the simplest kind for whole nodes (VERIF_NODE is set): told to on its input, a node proposes; who
//! accepts the proposal votes for it; when there are enough votes the proposer tells all to commit. What happens is
//! written to the output, in lines that begin with '@'.
use std::collections::{HashMap, HashSet};
use std::io::BufRead;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use bytes::Bytes;
use creep::Context;
use futures::executor::block_on;
use rlp::{Rlp, RlpStream};

use crate::types::{AggregatedSignature, AggregatedVote, Proof, SignedVote};
use crate::{Driven, Sent};
use rlp::Encodable;

lazy_static::lazy_static! {
    static ref ON: bool = std::env::var("VERIF_NODE").is_ok();
    static ref QUEUE: (Mutex<Sender<(Context, Sent)>>, Mutex<Option<Receiver<(Context, Sent)>>>) = {
        let (tx, rx) = channel();
        (Mutex::new(tx), Mutex::new(Some(rx)))
    };
}
const PING: u64 = 1 << 40;

pub fn on() -> bool {
    *ON
}
pub fn heard(ctx: Context, s: Sent) {
    let _ = QUEUE.0.lock().unwrap().send((ctx, s));
}

struct Proposal {
    h:       u64,
    content: Bytes,
    done:    bool,
    voters:  HashSet<Bytes>,
    votes:   Vec<Bytes>,
}
struct Node {
    me:        Bytes,
    driven:    Arc<dyn Driven>,
    proposals: Mutex<HashMap<Bytes, Proposal>>,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn vote(hash: &Bytes, h: u64, sig: Bytes) -> Bytes {
    Bytes::from([&hash[..], &h.to_be_bytes()[..], &sig[..]].concat())
}
fn unvote(b: &Bytes) -> Option<(Bytes, u64, Bytes)> {
    if b.len() < 40 {
        return None;
    }
    let mut h = [0; 8];
    h.copy_from_slice(&b[32..40]);
    Some((b.slice(0, 32), u64::from_be_bytes(h), b.slice(40, b.len())))
}

impl Node {
    fn sign(&self, hash: &Bytes) -> Bytes {
        self.driven.crypto().lock().unwrap().sign(hash.clone()).expect("sign")
    }

    fn voter(&self, sig: Bytes, hash: &Bytes) -> Option<Bytes> {
        self.driven.crypto().lock().unwrap().verify_signature(sig, hash.clone()).ok()
    }

    fn send(&self, to: Option<Bytes>, m: Sent) {
        if let Err(e) = block_on(self.driven.send(Context::new(), to, m)) {
            println!("@ error send {}", e);
        }
    }

    fn propose(self: Arc<Self>, h: u64, need: usize) {
        let (content, hash) = match block_on(self.driven.get_epoch(Context::new(), h)) {
            Ok(x) => x,
            Err(e) => return println!("@ refused {} {}", h, e),
        };
        let full = block_on(self.driven.check_epoch(Context::new(), h, hash.clone(), content.clone()));
        println!("@ proposed {} {} {}", h, hex(&hash), full.is_ok());
        let p = Proposal { h, content: content.clone(), done: false, voters: vec![self.me.clone()].into_iter().collect(), votes: vec![] };
        self.proposals.lock().unwrap().insert(hash.clone(), p);
        // the message holds the signed hash and the content
        let mut s = RlpStream::new_list(2);
        s.append(&vote(&hash, h, self.sign(&hash)).to_vec()).append(&content.to_vec());
        let m = s.out();
        for _ in 0..40 {
            self.send(None, Sent::SignedProposal(m.clone()));
            for _ in 0..75 {
                if self.proposals.lock().unwrap()[&hash].voters.len() >= need {
                    println!("@ voted {} {}", h, hex(&hash));
                    return;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
        println!("@ unvoted {} {}", h, hex(&hash));
    }

    /// The proposer has the votes: everybody may commit.
    fn decide(self: Arc<Self>, h: u64) {
        let qc = {
            let ps = self.proposals.lock().unwrap();
            let (hash, p) = ps.iter().find(|(_, p)| p.h == h && p.voters.contains(&self.me)).expect("proposal");
            let sig = self.driven.crypto().lock().unwrap().aggregate_signatures(p.votes.clone(), p.voters.iter().cloned().collect());
            let signature = AggregatedSignature { signature: sig.expect("aggregate"), address_bitmap: hash.clone() };
            AggregatedVote { signature, epoch_id: h }
        };
        self.send(None, Sent::AggregatedVote(qc.rlp_bytes()));
        self.commit(Context::new(), qc);
    }

    fn commit(&self, ctx: Context, qc: AggregatedVote) {
        let hash = qc.signature.address_bitmap.clone();
        let content = match self.proposals.lock().unwrap().get_mut(&hash) {
            Some(p) => {
                if p.done {
                    return;
                }
                p.done = true;
                p.content.clone()
            }
            None => return,
        };
        let proof = Proof { epoch_id: qc.epoch_id, round: 0, epoch_hash: hash.clone(), signature: qc.signature };
        match block_on(self.driven.commit(ctx, qc.epoch_id, content, proof)) {
            Ok(s) => println!("@ committed {} {} {}", qc.epoch_id, hex(&hash), s.epoch_id),
            Err(e) => println!("@ uncommitted {} {} {}", qc.epoch_id, hex(&hash), e),
        }
    }

    fn on_proposal(&self, ctx: Context, m: Vec<u8>) -> Option<()> {
        let r = Rlp::new(&m);
        let (hash, h, sig) = unvote(&Bytes::from(r.val_at::<Vec<u8>>(0).ok()?))?;
        let content = Bytes::from(r.val_at::<Vec<u8>>(1).ok()?);
        let proposer = self.voter(sig, &hash)?;
        if !self.proposals.lock().unwrap().contains_key(&hash) {
            let r = block_on(self.driven.check_epoch(ctx, h, hash.clone(), content.clone()));
            println!("@ checked {} {} {}", h, hex(&hash), r.as_ref().map(|_| "ok".to_owned()).unwrap_or_else(|e| e.to_string()));
            r.ok()?;
            let p = Proposal { h, content, done: false, voters: Default::default(), votes: vec![] };
            self.proposals.lock().unwrap().insert(hash.clone(), p);
        }
        let m = SignedVote { signature: vote(&hash, h, self.sign(&hash)), epoch_id: h };
        self.send(Some(proposer), Sent::SignedVote(m.rlp_bytes()));
        Some(())
    }

    fn on_vote(&self, m: Vec<u8>) -> Option<()> {
        let v: SignedVote = rlp::decode(&m).ok()?;
        let (hash, _, sig) = unvote(&v.signature)?;
        let voter = self.voter(sig.clone(), &hash)?;
        let mut ps = self.proposals.lock().unwrap();
        let p = ps.get_mut(&hash)?;
        if p.voters.insert(voter) {
            p.votes.push(sig);
        }
        Some(())
    }

    fn on_qc(&self, ctx: Context, m: Vec<u8>) -> Option<()> {
        let qc: AggregatedVote = rlp::decode(&m).ok()?;
        if qc.epoch_id >= PING {
            println!("@ ping {}", qc.epoch_id - PING);
        } else {
            self.commit(ctx, qc);
        }
        Some(())
    }

    fn ping(&self, id: u64) {
        let qc = AggregatedVote { signature: AggregatedSignature::default(), epoch_id: PING + id };
        self.send(None, Sent::AggregatedVote(qc.rlp_bytes()));
    }

    fn on(&self, ctx: Context, s: Sent) {
        match s {
            Sent::SignedProposal(m) => self.on_proposal(ctx, m),
            Sent::SignedVote(m) => self.on_vote(m),
            Sent::AggregatedVote(m) => self.on_qc(ctx, m),
            Sent::RichStatus(s) => Some(println!("@ status {}", s.epoch_id)),
        };
    }
}

pub fn run(me: Bytes, driven: Arc<dyn Driven>) {
    let node = Arc::new(Node { me, driven, proposals: Default::default() });
    let queue = QUEUE.1.lock().unwrap().take().expect("run once");
    let listener = Arc::clone(&node);
    std::thread::spawn(move || {
        for (ctx, s) in queue {
            // a check may wait for others as long as it likes
            let n = Arc::clone(&listener);
            std::thread::spawn(move || n.on(ctx, s));
        }
    });
    std::thread::spawn(move || {
        let stdin = std::io::stdin();
        println!("@ up");
        for l in stdin.lock().lines() {
            let l = l.unwrap_or_default();
            let w: Vec<&str> = l.split(' ').collect();
            let arg = |i: usize| w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0u64);
            let n = Arc::clone(&node);
            match w[0] {
                "propose" => {
                    let (h, need) = (arg(1), arg(2) as usize);
                    std::thread::spawn(move || n.propose(h, need));
                }
                "decide" => {
                    let h = arg(1);
                    std::thread::spawn(move || n.decide(h));
                }
                "die" => {
                    crate::crash::die_at(arg(1) as i64);
                    println!("@ mortal");
                }
                "ping" => n.ping(arg(1)),
                _ => {}
            }
        }
        std::process::exit(0);
    });
}
