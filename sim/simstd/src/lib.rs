//! Stand-in for `std`, injected as `std` into the compilation of the crate under test (and only of
//! it) by /verif/tools/rustc-wrap.sh. Everything is re-exported from the real std, except what is a source
//! of nondeterminism or a fault surface: threads, locks, channels, atomics, clocks, stdin/stdout,
//! files, process exit and arguments.
#![allow(clippy::all)]
pub use ::std::*;

pub mod thread;
pub mod sync;
pub mod time;
pub mod io;
pub mod fs;

pub mod prelude {
    pub use ::std::prelude::*;
    pub mod v1 {
        pub use crate::{eprint, eprintln, print, println};
        pub use ::std::prelude::v1::*;
    }
    pub mod rust_2015 {
        pub use crate::{eprint, eprintln, print, println};
        pub use ::std::prelude::rust_2015::*;
    }
    pub mod rust_2018 {
        pub use crate::{eprint, eprintln, print, println};
        pub use ::std::prelude::rust_2018::*;
    }
    pub mod rust_2021 {
        pub use crate::{eprint, eprintln, print, println};
        pub use ::std::prelude::rust_2021::*;
    }
    pub mod rust_2024 {
        pub use crate::{eprint, eprintln, print, println};
        pub use ::std::prelude::rust_2024::*;
    }
}

pub mod process {
    pub use ::std::process::*;
    pub fn exit(code: i32) -> ! {
        simcore::exit(code)
    }
    pub fn abort() -> ! {
        simcore::exit(134)
    }
}
pub mod env {
    pub use ::std::env::*;
    pub struct Args(::std::vec::IntoIter<String>);
    impl Iterator for Args {
        type Item = String;
        fn next(&mut self) -> Option<String> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl ExactSizeIterator for Args {}
    impl DoubleEndedIterator for Args {
        fn next_back(&mut self) -> Option<String> {
            self.0.next_back()
        }
    }
    pub fn args() -> Args {
        Args(simcore::args().into_iter())
    }
}

#[macro_export]
macro_rules! println {
    () => { $crate::__print("\n".to_string(), false) };
    ($($t:tt)*) => { $crate::__print($crate::format!($($t)*) + "\n", false) };
}
#[macro_export]
macro_rules! print {
    ($($t:tt)*) => { $crate::__print($crate::format!($($t)*), false) };
}
#[macro_export]
macro_rules! eprintln {
    () => { $crate::__print("\n".to_string(), true) };
    ($($t:tt)*) => { $crate::__print($crate::format!($($t)*) + "\n", true) };
}
#[macro_export]
macro_rules! eprint {
    ($($t:tt)*) => { $crate::__print($crate::format!($($t)*), true) };
}
::std::thread_local! {
    static BUF: ::std::cell::RefCell<[String; 2]> = ::std::cell::RefCell::new([String::new(), String::new()]);
}
#[doc(hidden)]
pub fn __print(s: String, err: bool) {
    let lines: Vec<String> = BUF
        .try_with(|b| {
            let mut b = b.borrow_mut();
            let b = &mut b[err as usize];
            b.push_str(&s);
            let mut out = vec![];
            if b.contains('\n') {
                let all = ::std::mem::take(b);
                let mut parts: Vec<&str> = all.split('\n').collect();
                let rest = parts.pop().unwrap_or("").to_string();
                out = parts.into_iter().map(|x| x.to_string()).collect();
                *b = rest;
            }
            out
        })
        .unwrap_or_default();
    for l in lines {
        simcore::emit(if err { "[stderr] ".to_string() + &l } else { l });
    }
}
