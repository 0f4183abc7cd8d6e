//! The Rust B-Tree Map

mod extend;
mod from_stream;

#[doc(inline)]
pub use std::collections::BTreeMap;
