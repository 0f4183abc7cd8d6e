//! raw simulated reader/writer lock and mutex (used by the parking_lot and std stand-ins)
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Debug)]
struct RwSt {
    writer: bool,
    readers: u32,
    /// writers which announced themselves: new readers have to wait (as in parking_lot and std)
    waiting: u32,
    upgradable: bool,
}
#[derive(Debug)]
pub struct RawRw {
    id: AtomicU64,
    st: Mutex<RwSt>,
}
impl RawRw {
    pub const fn new() -> RawRw {
        RawRw {
            id: AtomicU64::new(0),
            st: Mutex::new(RwSt { writer: false, readers: 0, waiting: 0, upgradable: false }),
        }
    }
    fn key(&self) -> u64 {
        let k = self.id.load(Ordering::Relaxed);
        if k != 0 {
            return k;
        }
        let k = crate::new_key();
        self.id.store(k, Ordering::Relaxed);
        k
    }
    pub fn try_shared(&self) -> bool {
        let mut s = self.st.lock().unwrap();
        if !s.writer && s.waiting == 0 {
            s.readers += 1;
            true
        } else {
            false
        }
    }
    pub fn try_exclusive(&self) -> bool {
        let mut s = self.st.lock().unwrap();
        if !s.writer && s.readers == 0 && !s.upgradable {
            s.writer = true;
            true
        } else {
            false
        }
    }
    pub fn try_upgradable(&self) -> bool {
        let mut s = self.st.lock().unwrap();
        if !s.writer && s.waiting == 0 && !s.upgradable {
            s.upgradable = true;
            true
        } else {
            false
        }
    }
    pub fn lock_shared(&self) {
        crate::point("rd");
        while !self.try_shared() {
            crate::probe("lock_contended");
            crate::block(self.key(), "wait-read-lock");
        }
    }
    pub fn lock_shared_recursive(&self) {
        crate::point("rd");
        loop {
            {
                let mut s = self.st.lock().unwrap();
                if !s.writer {
                    s.readers += 1;
                    return;
                }
            }
            crate::block(self.key(), "wait-read-lock");
        }
    }
    pub fn lock_upgradable(&self) {
        crate::point("up");
        while !self.try_upgradable() {
            crate::block(self.key(), "wait-upgradable-lock");
        }
    }
    pub fn lock_exclusive(&self) {
        crate::point("wr");
        while !self.try_exclusive() {
            crate::probe("lock_contended");
            self.st.lock().unwrap().waiting += 1;
            crate::block(self.key(), "wait-write-lock");
        }
    }
    fn released(&self) {
        // woken writers race with newly arriving readers, as with the real locks
        self.st.lock().unwrap().waiting = 0;
        if crate::in_sim() {
            crate::wake(self.key());
        }
    }
    pub fn unlock_shared(&self) {
        let last = {
            let mut s = self.st.lock().unwrap();
            s.readers -= 1;
            s.readers == 0
        };
        if last {
            self.released();
        }
        crate::point("ru");
    }
    pub fn unlock_upgradable(&self) {
        self.st.lock().unwrap().upgradable = false;
        self.released();
        crate::point("uu");
    }
    pub fn unlock_exclusive(&self) {
        self.st.lock().unwrap().writer = false;
        self.released();
        crate::point("wu");
    }
    pub fn try_upgrade(&self) -> bool {
        let mut s = self.st.lock().unwrap();
        if s.readers == 0 {
            s.upgradable = false;
            s.writer = true;
            true
        } else {
            false
        }
    }
    pub fn upgrade(&self) {
        crate::point("ug");
        while !self.try_upgrade() {
            self.st.lock().unwrap().waiting += 1;
            crate::block(self.key(), "wait-upgrade");
        }
    }
    pub fn downgrade(&self) {
        {
            let mut s = self.st.lock().unwrap();
            s.writer = false;
            s.readers += 1;
        }
        self.released();
    }
    pub fn downgrade_to_upgradable(&self) {
        {
            let mut s = self.st.lock().unwrap();
            s.writer = false;
            s.upgradable = true;
        }
        self.released();
    }
    pub fn is_locked(&self) -> bool {
        let s = self.st.lock().unwrap();
        s.writer || s.readers > 0 || s.upgradable
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.st.lock().unwrap().writer
    }
    pub fn try_shared_for(&self, ns: u64) -> bool {
        crate::point("rd");
        let dl = crate::now_raw().saturating_add(ns);
        while !self.try_shared() {
            if crate::block_until(self.key(), Some(dl), "wait-read-lock") {
                return self.try_shared();
            }
        }
        true
    }
    pub fn try_exclusive_for(&self, ns: u64) -> bool {
        crate::point("wr");
        let dl = crate::now_raw().saturating_add(ns);
        while !self.try_exclusive() {
            self.st.lock().unwrap().waiting += 1;
            if crate::block_until(self.key(), Some(dl), "wait-write-lock") {
                let ok = self.try_exclusive();
                if !ok {
                    let mut s = self.st.lock().unwrap();
                    s.waiting = s.waiting.saturating_sub(1);
                }
                return ok;
            }
        }
        true
    }
}

#[derive(Debug)]
pub struct RawMx {
    id: AtomicU64,
    st: Mutex<bool>,
}
impl RawMx {
    pub const fn new() -> RawMx {
        RawMx { id: AtomicU64::new(0), st: Mutex::new(false) }
    }
    fn key(&self) -> u64 {
        let k = self.id.load(Ordering::Relaxed);
        if k != 0 {
            return k;
        }
        let k = crate::new_key();
        self.id.store(k, Ordering::Relaxed);
        k
    }
    pub fn try_lock(&self) -> bool {
        let mut s = self.st.lock().unwrap();
        if *s {
            false
        } else {
            *s = true;
            true
        }
    }
    pub fn lock(&self) {
        crate::point("lk");
        while !self.try_lock() {
            crate::probe("lock_contended");
            crate::block(self.key(), "wait-mutex");
        }
    }
    pub fn lock_for(&self, ns: u64) -> bool {
        crate::point("lk");
        let dl = crate::now_raw().saturating_add(ns);
        while !self.try_lock() {
            if crate::block_until(self.key(), Some(dl), "wait-mutex") {
                return self.try_lock();
            }
        }
        true
    }
    pub fn unlock(&self) {
        *self.st.lock().unwrap() = false;
        if crate::in_sim() {
            crate::wake(self.key());
        }
        crate::point("ul");
    }
    pub fn is_locked(&self) -> bool {
        *self.st.lock().unwrap()
    }
}
impl RawMx {
    /// unlock without a scheduling point (condition variables: release + block is atomic)
    pub fn unlock_quiet(&self) {
        *self.st.lock().unwrap() = false;
        if crate::in_sim() {
            crate::wake(self.key());
        }
    }
}
