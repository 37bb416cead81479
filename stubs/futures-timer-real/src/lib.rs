//! Stand-in for futures-timer 1.0 (not available offline) on the real clock.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

pub struct Delay {
    at: Instant,
}

impl Delay {
    pub fn new(dur: Duration) -> Delay {
        Delay { at: Instant::now() + dur }
    }
}

impl Future for Delay {
    type Output = ();

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let now = Instant::now();
        if now >= self.at {
            return Poll::Ready(());
        }
        let (waker, left) = (cx.waker().clone(), self.at - now);
        std::thread::spawn(move || {
            std::thread::sleep(left);
            waker.wake()
        });
        Poll::Pending
    }
}
