//! Stand-in (not available offline) for `select!` in the one shape the repository uses: two branches
//! and `complete`.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub use futures_core::future::FusedFuture;

pub enum Out<A, B> { A(A), B(B), Done }

pub struct Select<'a, F, G>(pub &'a mut F, pub &'a mut G);
impl<'a, F: FusedFuture + Unpin, G: FusedFuture + Unpin> Future for Select<'a, F, G> {
    type Output = Out<F::Output, G::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = &mut *self;
        let mut alive = false;
        if !this.0.is_terminated() {
            match Pin::new(&mut *this.0).poll(cx) {
                Poll::Ready(v) => return Poll::Ready(Out::A(v)),
                Poll::Pending => alive = true,
            }
        }
        if !this.1.is_terminated() {
            match Pin::new(&mut *this.1).poll(cx) {
                Poll::Ready(v) => return Poll::Ready(Out::B(v)),
                Poll::Pending => alive = true,
            }
        }
        if alive { Poll::Pending } else { Poll::Ready(Out::Done) }
    }
}

#[macro_export]
macro_rules! select {
    (futures_crate_path ( ::futures ) $p1:pat = $e1:expr => $b1:expr, $p2:pat = $e2:expr => $b2:expr, complete => $c:expr $(,)?) => {{
        let out = {
            let mut f1 = $e1;
            let mut f2 = $e2;
            $crate::Select(&mut f1, &mut f2).await
        };
        match out {
            $crate::Out::A($p1) => $b1,
            $crate::Out::B($p2) => $b2,
            $crate::Out::Done => $c,
        }
    }};
}
