pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::collections::VecDeque;
use ::std::sync::{Arc as A, Mutex as M};
use ::std::time::Duration;

struct St<T> {
    q: VecDeque<T>,
    senders: usize,
    rx: bool,
    taken: u64,
    pushed: u64,
}
struct Ch<T> {
    st: M<St<T>>,
    cap: Option<usize>,
    kr: u64, // receivers wait here
    ks: u64, // senders wait here
}
impl<T> Ch<T> {
    fn s(&self) -> ::std::sync::MutexGuard<'_, St<T>> {
        match self.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    fn send(&self, v: T) -> Result<(), SendError<T>> {
        simcore::point("send");
        simcore::observe_send(::std::any::type_name::<T>(), &v as *const T as *const ());
        let mut v = Some(v);
        let my;
        loop {
            {
                let mut s = self.s();
                if !s.rx {
                    return Err(SendError(v.take().unwrap()));
                }
                let full = match self.cap {
                    None => false,
                    Some(c) => s.q.len() >= c.max(1),
                };
                if !full {
                    s.q.push_back(v.take().unwrap());
                    my = s.pushed;
                    s.pushed += 1;
                    break;
                }
            }
            simcore::probe("channel_full");
            simcore::block(self.ks, "channel-full");
        }
        simcore::wake(self.kr);
        if self.cap == Some(0) {
            // rendezvous: wait until taken
            loop {
                {
                    let s = self.s();
                    if s.taken > my || !s.rx {
                        break;
                    }
                }
                simcore::block(self.ks, "rendezvous");
            }
        }
        simcore::point("sent");
        Ok(())
    }
    fn pop(&self) -> Result<T, TryRecvError> {
        let mut s = self.s();
        match s.q.pop_front() {
            Some(v) => {
                s.taken += 1;
                drop(s);
                simcore::wake(self.ks);
                Ok(v)
            }
            None if s.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
}
fn mk<T>(cap: Option<usize>) -> A<Ch<T>> {
    A::new(Ch {
        st: M::new(St { q: VecDeque::new(), senders: 1, rx: true, taken: 0, pushed: 0 }),
        cap,
        kr: simcore::new_key(),
        ks: simcore::new_key(),
    })
}
pub struct Sender<T>(A<Ch<T>>);
pub struct SyncSender<T>(A<Ch<T>>);
pub struct Receiver<T>(A<Ch<T>>, ::std::marker::PhantomData<::std::cell::Cell<()>>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for SyncSender<T> {}
unsafe impl<T: Send> Sync for SyncSender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = mk(None);
    (Sender(c.clone()), Receiver(c, ::std::marker::PhantomData))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = mk(Some(n));
    (SyncSender(c.clone()), Receiver(c, ::std::marker::PhantomData))
}
macro_rules! sender {
    ($n:ident) => {
        impl<T> $n<T> {
            pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                self.0.send(v)
            }
        }
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.s().senders += 1;
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                let last = {
                    let mut s = self.0.s();
                    s.senders -= 1;
                    s.senders == 0
                };
                if last {
                    simcore::wake(self.0.kr);
                }
            }
        }
        impl<T> ::std::fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.write_str(stringify!($n))
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        simcore::point("trysend");
        simcore::observe_send(::std::any::type_name::<T>(), &v as *const T as *const ());
        {
            let mut s = self.0.s();
            if !s.rx {
                return Err(TrySendError::Disconnected(v));
            }
            if s.q.len() >= self.0.cap.unwrap_or(usize::MAX).max(1) {
                return Err(TrySendError::Full(v));
            }
            s.q.push_back(v);
            s.pushed += 1;
        }
        simcore::wake(self.0.kr);
        Ok(())
    }
}
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        simcore::point("tryrecv");
        self.0.pop()
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        simcore::point("recv");
        loop {
            match self.0.pop() {
                Ok(v) => {
                    simcore::point("recvd");
                    return Ok(v);
                }
                Err(TryRecvError::Disconnected) => return Err(RecvError),
                Err(TryRecvError::Empty) => simcore::block(self.0.kr, "channel-empty"),
            }
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        simcore::point("recv");
        let dl = simcore::now_raw().saturating_add(d.as_nanos() as u64);
        loop {
            match self.0.pop() {
                Ok(v) => return Ok(v),
                Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) => {
                    if simcore::block_until(self.0.kr, Some(dl), "channel-empty") {
                        return self.0.pop().map_err(|e| match e {
                            TryRecvError::Empty => RecvTimeoutError::Timeout,
                            TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
                        });
                    }
                }
            }
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let q = {
            let mut s = self.0.s();
            s.rx = false;
            ::std::mem::take(&mut s.q)
        };
        drop(q);
        simcore::wake(self.0.ks);
    }
}
impl<T> ::std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Receiver")
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        Iter(self)
    }
}
