pub use ::std::sync::atomic::*;
use ::std::sync::atomic as r;
pub use ::std::sync::atomic::Ordering;

macro_rules! common {
    ($n:ident, $t:ty) => {
        pub struct $n(r::$n);
        impl $n {
            pub const fn new(v: $t) -> $n {
                $n(r::$n::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                simcore::point("ald");
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                simcore::point("ast");
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                simcore::point("asw");
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                simcore::point("acx");
                self.0.compare_exchange(c, n, a, b)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                simcore::point("acx");
                self.0.compare_exchange(c, n, a, b)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, a: Ordering, b: Ordering, f: F) -> Result<$t, $t> {
                simcore::point("afu");
                self.0.fetch_update(a, b, f)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub const fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
        }
        impl ::std::fmt::Debug for $n {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl Default for $n {
            fn default() -> $n {
                $n::new(Default::default())
            }
        }
        impl From<$t> for $n {
            fn from(v: $t) -> $n {
                $n::new(v)
            }
        }
    };
}
macro_rules! int {
    ($n:ident, $t:ty) => {
        common!($n, $t);
        impl $n {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                simcore::point("afa");
                self.0.fetch_add(v, o)
            }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                simcore::point("afs");
                self.0.fetch_sub(v, o)
            }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                simcore::point("afm");
                self.0.fetch_max(v, o)
            }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                simcore::point("afm");
                self.0.fetch_min(v, o)
            }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                simcore::point("afn");
                self.0.fetch_and(v, o)
            }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                simcore::point("afo");
                self.0.fetch_or(v, o)
            }
        }
    };
}
int!(AtomicI8, i8);
int!(AtomicU8, u8);
int!(AtomicI16, i16);
int!(AtomicU16, u16);
int!(AtomicI32, i32);
int!(AtomicU32, u32);
int!(AtomicI64, i64);
int!(AtomicU64, u64);
int!(AtomicIsize, isize);
int!(AtomicUsize, usize);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        simcore::point("afn");
        self.0.fetch_and(v, o)
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        simcore::point("afo");
        self.0.fetch_or(v, o)
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        simcore::point("afx");
        self.0.fetch_xor(v, o)
    }
}
