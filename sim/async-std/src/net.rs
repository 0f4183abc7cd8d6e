use futures_io::{AsyncRead, AsyncWrite};
use std::io::{self, Error};
pub use std::net::*;
pub use std::net::{Shutdown, SocketAddr};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

/// as in async-std, reduced to what resolves without a name server
pub trait ToSocketAddrs {
    fn sim_addr(&self) -> io::Result<SocketAddr>;
}
macro_rules! via_std {
    ($($t:ty),*) => { $(impl ToSocketAddrs for $t {
        fn sim_addr(&self) -> io::Result<SocketAddr> {
            std::net::ToSocketAddrs::to_socket_addrs(self)?.next().ok_or_else(|| Error::from(io::ErrorKind::AddrNotAvailable))
        }
    })* };
}
via_std!(str, String, SocketAddr, (&str, u16), (String, u16), (IpAddr, u16), (Ipv4Addr, u16));
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn sim_addr(&self) -> io::Result<SocketAddr> {
        (**self).sim_addr()
    }
}

#[derive(Debug)]
pub struct TcpListener {
    port: u16,
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        let port = a.sim_addr()?.port();
        simcore::net::bind(port)?;
        Ok(TcpListener { port })
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        let port = self.port;
        let c = std::future::poll_fn(move |cx| simcore::net::poll_accept(port, cx)).await?;
        let s = TcpStream { c: Arc::new(Cn(c)) };
        let a = SocketAddr::from(([127, 0, 0, 1], 40000 + c as u16));
        Ok((s, a))
    }
    pub fn incoming(&self) -> Incoming<'_> {
        Incoming { l: self }
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], self.port)))
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        simcore::net::unbind(self.port);
    }
}
pub struct Incoming<'a> {
    l: &'a TcpListener,
}
impl futures_core::Stream for Incoming<'_> {
    type Item = io::Result<TcpStream>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match simcore::net::poll_accept(self.l.port, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(c)) => Poll::Ready(Some(Ok(TcpStream { c: Arc::new(Cn(c)) }))),
            Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
        }
    }
}
#[derive(Debug)]
struct Cn(usize);
impl Drop for Cn {
    fn drop(&mut self) {
        simcore::net::srv_close(self.0);
    }
}
#[derive(Debug, Clone)]
pub struct TcpStream {
    c: Arc<Cn>,
}
impl TcpStream {
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        simcore::net::peer_addr(self.c.0).map(|p| SocketAddr::from(([127, 0, 0, 1], p)))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], 2039)))
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(false)
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        match how {
            Shutdown::Read => simcore::net::srv_shutdown(self.c.0, true, false),
            Shutdown::Write => simcore::net::srv_shutdown(self.c.0, false, true),
            Shutdown::Both => simcore::net::srv_shutdown(self.c.0, true, true),
        }
        Ok(())
    }
}
impl AsyncRead for &TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        simcore::net::srv_poll_read(self.c.0, cx, b)
    }
}
impl AsyncWrite for &TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        simcore::net::srv_poll_write(self.c.0, cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        simcore::net::srv_shutdown(self.c.0, false, true);
        Poll::Ready(Ok(()))
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        simcore::net::srv_poll_read(self.c.0, cx, b)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        simcore::net::srv_poll_write(self.c.0, cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        simcore::net::srv_shutdown(self.c.0, false, true);
        Poll::Ready(Ok(()))
    }
}
