//! Which optional features of the crate under test the current scenario may
//! use. Everything, except for P19.

use std::sync::atomic::{AtomicU8, Ordering};

pub const FILTERS: u8 = 1;
pub const SERDE: u8 = 2;
pub const UNICODE: u8 = 4;
pub const ALL: u8 = 7;

static NOW: AtomicU8 = AtomicU8::new(ALL);

pub fn set(feats: Option<u8>) {
    NOW.store(feats.unwrap_or(ALL), Ordering::Relaxed);
}

pub fn has(f: u8) -> bool {
    NOW.load(Ordering::Relaxed) & f != 0
}

pub fn has_all() -> bool {
    NOW.load(Ordering::Relaxed) == ALL
}

/// What this binary was built with.
pub fn built() -> u8 {
    let mut m = 0;
    if cfg!(feature = "ff") {
        m |= FILTERS;
    }
    if cfg!(feature = "fs") {
        m |= SERDE;
    }
    if cfg!(feature = "fu") {
        m |= UNICODE;
    }
    m
}

pub fn describe(m: u8) -> String {
    let v: Vec<&str> = [(FILTERS, "filters"), (SERDE, "serde"), (UNICODE, "unicode")]
        .into_iter()
        .filter(|(b, _)| m & b != 0)
        .map(|x| x.1)
        .collect();
    if v.is_empty() {
        "no features".into()
    } else {
        format!("features {}", v.join(","))
    }
}
