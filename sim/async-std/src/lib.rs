#![allow(clippy::all)]
pub use async_std_core::*;
pub mod net;
pub mod task;
pub mod future {
    pub use async_std_core::future::*;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use std::time::Duration;
    #[derive(Clone, Copy, Debug, Eq, PartialEq)]
    pub struct TimeoutError(());
    impl std::fmt::Display for TimeoutError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("future has timed out")
        }
    }
    impl std::error::Error for TimeoutError {}
    pub async fn timeout<F: std::future::Future>(d: Duration, f: F) -> Result<F::Output, TimeoutError> {
        let mut f = Box::pin(f);
        let mut s = Box::pin(crate::task::sleep(d));
        std::future::poll_fn(move |cx: &mut Context<'_>| {
            if let Poll::Ready(v) = Pin::as_mut(&mut f).poll(cx) {
                return Poll::Ready(Ok(v));
            }
            if let Poll::Ready(()) = Pin::as_mut(&mut s).poll(cx) {
                return Poll::Ready(Err(TimeoutError(())));
            }
            Poll::Pending
        })
        .await
    }
}
pub mod io {
    pub use async_std_core::io::*;
    pub async fn timeout<F, T>(d: std::time::Duration, f: F) -> std::io::Result<T>
    where
        F: std::future::Future<Output = std::io::Result<T>>,
    {
        match crate::future::timeout(d, f).await {
            Ok(r) => r,
            Err(_) => Err(std::io::Error::from(std::io::ErrorKind::TimedOut)),
        }
    }
}
