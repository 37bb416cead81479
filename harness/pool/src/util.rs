use std::future::Future;
use std::io::{self, BufRead, Write};
use std::net::SocketAddr;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use futures::future::BoxFuture;
use futures::task::{waker, ArcWake, SpawnError};
use runtime_raw::{Delay, Interval, Runtime, TcpListener, TcpStream, UdpSocket};
use serde_json::Value;

pub struct Out {
    w: io::BufWriter<io::Stdout>,
}

impl Out {
    pub fn new() -> Self {
        Out { w: io::BufWriter::new(io::stdout()) }
    }

    pub fn ev(&mut self, v: Value) {
        writeln!(self.w, "{}", v).expect("write event");
    }

    pub fn flush(&mut self) {
        self.w.flush().expect("flush");
    }
}

/// One behaviour (a JSON array of operations) per line of standard input.
pub fn behaviours() -> Vec<Vec<Value>> {
    io::stdin()
        .lock()
        .lines()
        .map(|l| l.expect("read"))
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str::<Value>(&l).expect("behaviour").as_array().expect("array").clone())
        .collect()
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v[k].as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

pub fn int(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or(0)
}

/// A scratch directory that is removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(name: &str) -> Self {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".to_owned());
        let p = PathBuf::from(base).join(format!("h-{}-{}", name, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Rng(pub u64);

impl Rng {
    pub fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        ((self.0 >> 33) as usize) % n
    }
}

pub struct Flag(AtomicBool);

impl Flag {
    pub fn set() -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(true)))
    }
    pub fn take(&self) -> bool {
        self.0.swap(false, Ordering::SeqCst)
    }
    pub fn get(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
}

impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst)
    }
}

/// A runtime that runs spawned tasks one poll at a time, in an order chosen by a seed.
pub struct Rt {
    spawned: Mutex<Vec<BoxFuture<'static, ()>>>,
    tasks:   Mutex<Vec<(BoxFuture<'static, ()>, Arc<Flag>)>>,
}

impl Rt {
    /// The one runtime of this thread.
    pub fn install() -> &'static Rt {
        let rt: &'static Rt =
            Box::leak(Box::new(Rt { spawned: Mutex::new(vec![]), tasks: Mutex::new(vec![]) }));
        runtime_raw::set_runtime(rt);
        rt
    }

    pub fn clear(&self) {
        let a: Vec<_> = self.spawned.lock().expect("lock").drain(..).collect();
        let b: Vec<_> = self.tasks.lock().expect("lock").drain(..).collect();
        drop(a);
        drop(b);
    }

    /// Run until nothing is ready; the number of tasks that panicked.
    pub fn run(&self, seed: u64) -> usize {
        let mut rng = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(12345));
        let mut panics = 0;
        for _ in 0..1_000_000 {
            let new: Vec<_> = self.spawned.lock().expect("lock").drain(..).collect();
            let mut tasks = self.tasks.lock().expect("lock");
            for f in new {
                tasks.push((f, Flag::set()));
            }
            let ready: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].1.get()).collect();
            if ready.is_empty() {
                return panics;
            }
            let i = ready[rng.below(ready.len())];
            let (mut fut, flag) = tasks.swap_remove(i);
            drop(tasks);
            flag.take();
            match poll_guarded(fut.as_mut(), &flag) {
                Ok(Poll::Ready(())) => (),
                Ok(Poll::Pending) => self.tasks.lock().expect("lock").push((fut, flag)),
                Err(()) => panics += 1,
            }
        }
        panics + 1
    }
}

/// Poll once; Err when it panicked.
pub fn poll_guarded<F: Future + ?Sized>(fut: Pin<&mut F>, flag: &Arc<Flag>) -> Result<Poll<F::Output>, ()> {
    let w = waker(Arc::clone(flag));
    let mut cx = Context::from_waker(&w);
    catch_unwind(AssertUnwindSafe(|| fut.poll(&mut cx))).map_err(|_| ())
}

impl Runtime for Rt {
    fn spawn_boxed(&self, fut: BoxFuture<'static, ()>) -> Result<(), SpawnError> {
        self.spawned.lock().expect("lock").push(fut);
        Ok(())
    }
    fn connect_tcp_stream(&self, _: &SocketAddr) -> BoxFuture<'static, io::Result<Pin<Box<dyn TcpStream>>>> {
        unimplemented!()
    }
    fn bind_tcp_listener(&self, _: &SocketAddr) -> io::Result<Pin<Box<dyn TcpListener>>> {
        unimplemented!()
    }
    fn bind_udp_socket(&self, _: &SocketAddr) -> io::Result<Pin<Box<dyn UdpSocket>>> {
        unimplemented!()
    }
    fn new_delay(&self, _: Duration) -> Pin<Box<dyn Delay>> {
        unimplemented!()
    }
    fn new_delay_at(&self, _: Instant) -> Pin<Box<dyn Delay>> {
        unimplemented!()
    }
    fn new_interval(&self, _: Duration) -> Pin<Box<dyn Interval>> {
        unimplemented!()
    }
}

/// Run code under test; a panic is data.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(("err".to_owned(), e)),
        Err(p) => {
            let msg = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            Err(("panic".to_owned(), msg))
        }
    }
}


thread_local! {
    static INSIDE: std::cell::RefCell<Option<Inside>> = std::cell::RefCell::new(None);
}

/// An operation inside another one: has a thread of its own, and pauses when it has to wait for the outer one.
#[derive(Clone, Default)]
pub struct Inside(Arc<(Mutex<(bool, bool)>, std::sync::Condvar)>);

impl Inside {
    fn say(&self, paused: bool) {
        let mut s = (self.0).0.lock().expect("lock");
        if paused { s.0 = true } else { s.1 = true }
        (self.0).1.notify_all();
    }
    /// In the inner one.
    pub fn wait() {
        if let Some(me) = INSIDE.with(|i| i.borrow().clone()) {
            me.say(true);
            let mut s = (me.0).0.lock().expect("lock");
            while !s.1 {
                s = (me.0).1.wait(s).expect("lock");
            }
        }
    }
    /// Runs f until it is done or pauses.
    pub fn begin(&self, rt: &'static Rt, f: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> {
        let me = self.clone();
        let t = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                runtime_raw::set_runtime(rt);
                INSIDE.with(|i| *i.borrow_mut() = Some(me.clone()));
                let r = catch_unwind(AssertUnwindSafe(f));
                me.say(true);
                if let Err(e) = r {
                    std::panic::resume_unwind(e);
                }
            })
            .expect("thread");
        let mut s = (self.0).0.lock().expect("lock");
        while !s.0 {
            s = (self.0).1.wait(s).expect("lock");
        }
        drop(s);
        t
    }
    pub fn finish(&self, t: std::thread::JoinHandle<()>) {
        self.say(false);
        let _ = t.join();
    }
}
