//! simulated TCP: listeners, connections as two bounded byte pipes, and their faults.
//! The server side is asynchronous (poll + waker), the client side (the harness) blocks the
//! simulated client thread.
use std::collections::{BTreeMap, VecDeque};
use std::io::{Error, ErrorKind};
use std::sync::Mutex;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    cap: usize,
    wr_closed: bool,
    rd_closed: bool,
    wakers: Vec<Waker>,
    key: u64,
    total: u64,
}
impl Pipe {
    fn changed(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake();
        }
        crate::wake(self.key);
    }
}
struct Conn {
    c2s: Pipe,
    s2c: Pipe,
    reset: bool,
    /// the server side socket died of an injected error: every further operation fails
    srv_err: bool,
    accepted: bool,
    srv_closed: bool,
}
#[derive(Default)]
struct Lst {
    q: VecDeque<usize>,
    wakers: Vec<Waker>,
    alive: bool,
}
#[derive(Default)]
struct Net {
    lst: BTreeMap<u16, Lst>,
    conns: Vec<Conn>,
    cap: usize,
}
static N: Mutex<Option<Net>> = Mutex::new(None);
fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    let mut g = match N.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    if g.is_none() {
        *g = Some(Net { cap: 1 << 16, ..Default::default() });
    }
    f(g.as_mut().unwrap())
}
const BIND_KEY: u64 = (1 << 58) + 1;
pub fn set_capacity(c: usize) {
    net(|n| n.cap = c);
}

// ------------------------------------------------------------ server side
pub fn bind(port: u16) -> Result<(), Error> {
    crate::point("bind");
    let r = net(|n| {
        let l = n.lst.entry(port).or_default();
        if l.alive {
            return Err(Error::from(ErrorKind::AddrInUse));
        }
        l.alive = true;
        Ok(())
    });
    crate::wake(BIND_KEY);
    r
}
pub fn unbind(port: u16) {
    net(|n| {
        if let Some(l) = n.lst.get_mut(&port) {
            l.alive = false;
            let q: Vec<usize> = l.q.drain(..).collect();
            for c in q {
                n.conns[c].reset = true;
                n.conns[c].s2c.changed();
                n.conns[c].c2s.changed();
            }
        }
    });
    crate::wake(BIND_KEY);
}
pub fn listening(port: u16) -> bool {
    net(|n| n.lst.get(&port).map(|l| l.alive).unwrap_or(false))
}
pub fn poll_accept(port: u16, cx: &mut Context<'_>) -> Poll<Result<usize, Error>> {
    crate::point("accept");
    let have = net(|n| !n.lst.entry(port).or_default().q.is_empty());
    if have {
        // the peer may have gone away between handshake and accept, or the process may be out of
        // descriptors; neither consumes a healthy connection
        if crate::fault("accept_aborted").is_some() {
            let c = net(|n| n.lst.get_mut(&port).unwrap().q.pop_front().unwrap());
            net(|n| {
                n.conns[c].reset = true;
                n.conns[c].c2s.changed();
                n.conns[c].s2c.changed();
            });
            return Poll::Ready(Err(Error::from(ErrorKind::ConnectionAborted)));
        }
        if crate::fault("accept_emfile").is_some() {
            return Poll::Ready(Err(Error::from_raw_os_error(24)));
        }
        let c = net(|n| {
            let c = n.lst.get_mut(&port).unwrap().q.pop_front().unwrap();
            n.conns[c].accepted = true;
            c
        });
        return Poll::Ready(Ok(c));
    }
    net(|n| n.lst.entry(port).or_default().wakers.push(cx.waker().clone()));
    Poll::Pending
}
pub fn peer_addr(c: usize) -> Result<u16, Error> {
    crate::point("peer");
    // getpeername fails with ENOTCONN when the peer has reset the connection meanwhile
    let dead = net(|n| n.conns[c].reset);
    if dead {
        crate::probe("peer_addr_of_reset_connection");
        return Err(Error::from(ErrorKind::NotConnected));
    }
    if crate::fault("peer_addr_err").is_some() {
        net(|n| {
            n.conns[c].reset = true;
            n.conns[c].srv_err = true;
        });
        return Err(Error::from(ErrorKind::NotConnected));
    }
    Ok(40000 + c as u16)
}
pub fn srv_poll_read(c: usize, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<Result<usize, Error>> {
    crate::point("net-read");
    if b.is_empty() {
        return Poll::Ready(Ok(0));
    }
    if crate::fault("net_pending").is_some() {
        // spurious wake-up
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    let (reset, avail, closed) = net(|n| {
        let k = &n.conns[c];
        (k.reset || k.srv_err, k.c2s.buf.len(), k.c2s.wr_closed)
    });
    if reset {
        return Poll::Ready(Err(Error::from(ErrorKind::ConnectionReset)));
    }
    if avail > 0 {
        if crate::fault("net_read_err").is_some() {
            net(|n| {
                n.conns[c].srv_err = true;
                n.conns[c].reset = true;
                n.conns[c].s2c.changed();
            });
            return Poll::Ready(Err(Error::from(ErrorKind::ConnectionReset)));
        }
        let mut m = avail.min(b.len());
        if m > 1 {
            if let Some(v) = crate::fault("net_short_read") {
                m = 1 + (v as usize % (m - 1));
            }
        }
        net(|n| {
            let p = &mut n.conns[c].c2s;
            for x in b.iter_mut().take(m) {
                *x = p.buf.pop_front().unwrap();
            }
            p.changed();
        });
        return Poll::Ready(Ok(m));
    }
    if closed {
        return Poll::Ready(Ok(0));
    }
    net(|n| n.conns[c].c2s.wakers.push(cx.waker().clone()));
    Poll::Pending
}
pub fn srv_poll_write(c: usize, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize, Error>> {
    crate::point("net-write");
    if b.is_empty() {
        return Poll::Ready(Ok(0));
    }
    let (reset, rdc, room) = net(|n| {
        let k = &n.conns[c];
        (k.reset || k.srv_err, k.s2c.rd_closed, k.s2c.cap - k.s2c.buf.len().min(k.s2c.cap))
    });
    if reset {
        return Poll::Ready(Err(Error::from(ErrorKind::ConnectionReset)));
    }
    if rdc {
        return Poll::Ready(Err(Error::from(ErrorKind::BrokenPipe)));
    }
    if crate::fault("net_write_err").is_some() {
        net(|n| {
            n.conns[c].srv_err = true;
            n.conns[c].reset = true;
            n.conns[c].s2c.changed();
        });
        return Poll::Ready(Err(Error::from(ErrorKind::BrokenPipe)));
    }
    if room == 0 {
        crate::probe("net_backpressure");
        net(|n| n.conns[c].s2c.wakers.push(cx.waker().clone()));
        return Poll::Pending;
    }
    let mut m = room.min(b.len());
    if m > 1 {
        if let Some(v) = crate::fault("net_short_write") {
            m = 1 + (v as usize % (m - 1));
        }
    }
    net(|n| {
        let p = &mut n.conns[c].s2c;
        p.buf.extend(&b[..m]);
        p.total += m as u64;
        p.changed();
    });
    Poll::Ready(Ok(m))
}
pub fn srv_shutdown(c: usize, rd: bool, wr: bool) {
    net(|n| {
        let k = &mut n.conns[c];
        if wr {
            k.s2c.wr_closed = true;
            k.s2c.changed();
        }
        if rd {
            k.c2s.rd_closed = true;
            k.c2s.changed();
        }
    });
}
pub fn srv_close(c: usize) {
    net(|n| n.conns[c].srv_closed = true);
    srv_shutdown(c, true, true);
}

// ------------------------------------------------------------ client side (harness)
/// waits until the server listens, then connects
pub fn connect(port: u16, max_wait_ns: u64) -> Result<usize, Error> {
    crate::point("connect");
    let dl = crate::now_raw().saturating_add(max_wait_ns);
    while !listening(port) {
        if crate::block_until(BIND_KEY, Some(dl), "connect") {
            return Err(Error::from(ErrorKind::ConnectionRefused));
        }
    }
    Ok(net(|n| {
        let cap = n.cap;
        let id = n.conns.len();
        let mk = || Pipe { cap, key: crate::new_key(), ..Default::default() };
        n.conns.push(Conn { c2s: mk(), s2c: mk(), reset: false, srv_err: false, accepted: false, srv_closed: false });
        let l = n.lst.get_mut(&port).unwrap();
        l.q.push_back(id);
        for w in l.wakers.drain(..) {
            w.wake();
        }
        id
    }))
}
/// writes everything (in segments); Err when the connection is gone
pub fn cl_write(c: usize, mut b: &[u8]) -> Result<(), Error> {
    while !b.is_empty() {
        crate::point("cl-write");
        let r = net(|n| {
            let k = &mut n.conns[c];
            if k.reset || k.c2s.rd_closed || k.c2s.wr_closed {
                return Err(Error::from(ErrorKind::BrokenPipe));
            }
            let room = k.c2s.cap - k.c2s.buf.len().min(k.c2s.cap);
            let m = room.min(b.len());
            k.c2s.buf.extend(&b[..m]);
            if m > 0 {
                k.c2s.changed();
            }
            Ok((m, k.c2s.key))
        });
        match r {
            Err(e) => return Err(e),
            Ok((0, key)) => crate::block(key, "cl-write"),
            Ok((m, _)) => b = &b[m..],
        }
    }
    Ok(())
}
/// takes what has arrived; Ok(None) = end of stream
pub fn cl_take(c: usize) -> Result<Option<Vec<u8>>, Error> {
    crate::point("cl-read");
    net(|n| {
        let k = &mut n.conns[c];
        let v: Vec<u8> = k.s2c.buf.drain(..).collect();
        if !v.is_empty() {
            k.s2c.changed();
            return Ok(Some(v));
        }
        if k.reset {
            return Err(Error::from(ErrorKind::ConnectionReset));
        }
        if k.s2c.wr_closed {
            return Ok(None);
        }
        Ok(Some(vec![]))
    })
}
/// blocks until something arrives, end of stream, error, or the timeout
pub fn cl_wait(c: usize, max_ns: u64) -> bool {
    let dl = crate::now_raw().saturating_add(max_ns);
    loop {
        let (ready, key) = net(|n| {
            let k = &n.conns[c];
            (!k.s2c.buf.is_empty() || k.reset || k.s2c.wr_closed, k.s2c.key)
        });
        if ready {
            return true;
        }
        if crate::block_until(key, Some(dl), "cl-wait") {
            return false;
        }
    }
}
pub fn cl_shutdown_write(c: usize) {
    crate::point("cl-shut");
    net(|n| {
        n.conns[c].c2s.wr_closed = true;
        n.conns[c].c2s.changed();
    });
}
pub fn cl_close(c: usize) {
    crate::point("cl-close");
    net(|n| {
        let k = &mut n.conns[c];
        k.c2s.wr_closed = true;
        k.s2c.rd_closed = true;
        k.c2s.changed();
        k.s2c.changed();
    });
}
/// abortive close: unread data is lost, both sides see an error
pub fn cl_reset(c: usize) {
    crate::point("cl-reset");
    net(|n| {
        let k = &mut n.conns[c];
        k.reset = true;
        k.c2s.buf.clear();
        k.c2s.changed();
        k.s2c.changed();
    });
}
#[derive(Clone, Debug)]
pub struct ConnInfo {
    pub accepted: bool,
    pub reset: bool,
    pub srv_err: bool,
    pub srv_closed: bool,
    pub unread_by_server: usize,
    pub unread_by_client: usize,
}
pub fn info(c: usize) -> ConnInfo {
    net(|n| {
        let k = &n.conns[c];
        ConnInfo {
            accepted: k.accepted,
            reset: k.reset,
            srv_err: k.srv_err,
            srv_closed: k.srv_closed,
            unread_by_server: k.c2s.buf.len(),
            unread_by_client: k.s2c.buf.len(),
        }
    })
}
