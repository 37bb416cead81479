//! Stand-in for futures-timer 1.0 (not available offline) whose clock only moves when told to.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

thread_local! {
    static CLOCK: RefCell<(Duration, Vec<Waker>)> = RefCell::new((Duration::from_secs(0), vec![]));
}

pub struct Delay {
    at: Duration,
}

impl Delay {
    pub fn new(dur: Duration) -> Delay {
        Delay { at: CLOCK.with(|c| c.borrow().0) + dur }
    }
}

impl Future for Delay {
    type Output = ();

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        CLOCK.with(|c| {
            let mut c = c.borrow_mut();
            if c.0 >= self.at {
                Poll::Ready(())
            } else {
                c.1.push(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}

/// Let time pass on this thread.
pub fn advance(dur: Duration) {
    let wakers = CLOCK.with(|c| {
        let mut c = c.borrow_mut();
        c.0 += dur;
        std::mem::replace(&mut c.1, vec![])
    });
    wakers.into_iter().for_each(|w| w.wake());
}
