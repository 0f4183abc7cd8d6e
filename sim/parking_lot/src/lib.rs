#![allow(clippy::all)]
pub use lock_api;
use simcore as sc;
use std::time::{Duration, Instant};

pub struct RawRwLock(sc::RawRw);
unsafe impl lock_api::RawRwLock for RawRwLock {
    const INIT: RawRwLock = RawRwLock(sc::RawRw::new());
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        self.0.lock_shared()
    }
    fn try_lock_shared(&self) -> bool {
        sc::point("tr");
        self.0.try_shared()
    }
    unsafe fn unlock_shared(&self) {
        self.0.unlock_shared()
    }
    fn lock_exclusive(&self) {
        self.0.lock_exclusive()
    }
    fn try_lock_exclusive(&self) -> bool {
        sc::point("tw");
        self.0.try_exclusive()
    }
    unsafe fn unlock_exclusive(&self) {
        sc::observe(self as *const _ as usize);
        self.0.unlock_exclusive()
    }
    fn is_locked(&self) -> bool {
        self.0.is_locked()
    }
    fn is_locked_exclusive(&self) -> bool {
        self.0.is_locked_exclusive()
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.0.lock_shared_recursive()
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.0.try_shared()
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        sc::observe(self as *const _ as usize);
        self.0.downgrade()
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.0.unlock_shared()
    }
    unsafe fn unlock_exclusive_fair(&self) {
        sc::observe(self as *const _ as usize);
        self.0.unlock_exclusive()
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.0.lock_upgradable()
    }
    fn try_lock_upgradable(&self) -> bool {
        self.0.try_upgradable()
    }
    unsafe fn unlock_upgradable(&self) {
        self.0.unlock_upgradable()
    }
    unsafe fn upgrade(&self) {
        self.0.upgrade()
    }
    unsafe fn try_upgrade(&self) -> bool {
        self.0.try_upgrade()
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.0.unlock_upgradable();
        self.0.lock_shared_recursive();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.0.downgrade_to_upgradable()
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, d: Duration) -> bool {
        self.0.try_shared_for(d.as_nanos() as u64)
    }
    fn try_lock_shared_until(&self, _d: Instant) -> bool {
        self.0.try_shared_for(1_000_000)
    }
    fn try_lock_exclusive_for(&self, d: Duration) -> bool {
        self.0.try_exclusive_for(d.as_nanos() as u64)
    }
    fn try_lock_exclusive_until(&self, _d: Instant) -> bool {
        self.0.try_exclusive_for(1_000_000)
    }
}
pub struct RawMutex(sc::RawMx);
unsafe impl lock_api::RawMutex for RawMutex {
    const INIT: RawMutex = RawMutex(sc::RawMx::new());
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        self.0.lock()
    }
    fn try_lock(&self) -> bool {
        sc::point("tl");
        self.0.try_lock()
    }
    unsafe fn unlock(&self) {
        self.0.unlock()
    }
    fn is_locked(&self) -> bool {
        self.0.is_locked()
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.0.unlock()
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, d: Duration) -> bool {
        self.0.lock_for(d.as_nanos() as u64)
    }
    fn try_lock_until(&self, _d: Instant) -> bool {
        self.0.lock_for(1_000_000)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(sc::tid().wrapping_add(2)).unwrap()
    }
}
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}
#[derive(Debug, Default)]
pub struct Condvar {
    key: std::sync::OnceLock<u64>,
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { key: std::sync::OnceLock::new() }
    }
    fn k(&self) -> u64 {
        *self.key.get_or_init(sc::new_key)
    }
    fn w<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, dl: Option<u64>) -> bool {
        let raw = unsafe { MutexGuard::mutex(g).raw() };
        raw.0.unlock_quiet();
        let to = sc::block_until(self.k(), dl, "condvar");
        raw.0.lock();
        to
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.w(g, None);
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F) {
        while f(&mut **g) {
            self.wait(g);
        }
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        let dl = sc::now_raw().saturating_add(d.as_nanos() as u64);
        WaitTimeoutResult(self.w(g, Some(dl)))
    }
    pub fn notify_one(&self) -> bool {
        sc::point("notify");
        sc::wake_one(self.k());
        true
    }
    pub fn notify_all(&self) -> usize {
        sc::point("notify");
        sc::wake(self.k());
        0
    }
}
