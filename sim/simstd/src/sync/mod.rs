pub use ::std::sync::*;
pub mod atomic;
pub mod mpsc;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as r;
use ::std::time::Duration;
use simcore::{RawMx, RawRw};

// ------------------------------------------------------------ Mutex
pub struct Mutex<T: ?Sized> {
    raw: RawMx,
    inner: r::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    g: Option<r::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { raw: RawMx::new(), inner: r::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn wrap(&self) -> LockResult<MutexGuard<'_, T>> {
        match self.inner.lock() {
            Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
            Err(e) => Err(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m: self })),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock();
        self.wrap()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        simcore::point("tl");
        if !self.raw.try_lock() {
            return Err(TryLockError::WouldBlock);
        }
        self.wrap().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        self.m.raw.unlock();
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + ::std::fmt::Display> ::std::fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}

// ------------------------------------------------------------ RwLock
pub struct RwLock<T: ?Sized> {
    raw: RawRw,
    inner: r::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    g: Option<r::RwLockReadGuard<'a, T>>,
    m: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    g: Option<r::RwLockWriteGuard<'a, T>>,
    m: &'a RwLock<T>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { raw: RawRw::new(), inner: r::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn wr(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        match self.inner.read() {
            Ok(g) => Ok(RwLockReadGuard { g: Some(g), m: self }),
            Err(e) => Err(PoisonError::new(RwLockReadGuard { g: Some(e.into_inner()), m: self })),
        }
    }
    fn ww(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        match self.inner.write() {
            Ok(g) => Ok(RwLockWriteGuard { g: Some(g), m: self }),
            Err(e) => Err(PoisonError::new(RwLockWriteGuard { g: Some(e.into_inner()), m: self })),
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.lock_shared();
        self.wr()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.lock_exclusive();
        self.ww()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        simcore::point("tr");
        if !self.raw.try_shared() {
            return Err(TryLockError::WouldBlock);
        }
        self.wr().map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        simcore::point("tw");
        if !self.raw.try_exclusive() {
            return Err(TryLockError::WouldBlock);
        }
        self.ww().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        self.m.raw.unlock_shared();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        self.m.raw.unlock_exclusive();
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.inner.fmt(f)
    }
}

// ------------------------------------------------------------ Condvar
#[derive(Debug)]
pub struct Condvar {
    key: r::OnceLock<u64>,
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { key: r::OnceLock::new() }
    }
    fn k(&self) -> u64 {
        *self.key.get_or_init(simcore::new_key)
    }
    fn wait_dl<'a, T>(&self, mut g: MutexGuard<'a, T>, dl: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        drop(g.g.take());
        ::std::mem::forget(g);
        // release and block atomically (no scheduling point in between)
        m.raw.unlock_quiet();
        let to = simcore::block_until(self.k(), dl, "condvar");
        (m.lock(), to)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_dl(g, None).0
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let dl = simcore::now_raw().saturating_add(d.as_nanos() as u64);
        let (r, to) = self.wait_dl(g, Some(dl));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(to))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(to)))),
        }
    }
    pub fn notify_one(&self) {
        simcore::point("notify");
        simcore::wake_one(self.k());
    }
    pub fn notify_all(&self) {
        simcore::point("notify");
        simcore::wake(self.k());
    }
}

// ------------------------------------------------------------ Barrier
pub struct Barrier {
    m: Mutex<(usize, u64)>,
    c: Condvar,
    n: usize,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.c.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}
