//! `std`, with the parts that threads synchronise through replaced by controlled ones.
#![feature(unsize, coerce_unsized, dispatch_from_dyn)]
pub use std::*;
pub mod sched;
mod arc;
mod atomic;
mod once;
#[path = "sync.rs"]
mod sync_impl;

pub mod sync {
    pub use crate::arc::{Arc, Weak};
    pub use crate::once::{LazyLock, Once, OnceLock};
    pub use crate::sync_impl::{mpsc, Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use std::sync::*;
    pub mod atomic {
        pub use crate::atomic::*;
    }
}
pub mod thread {
    pub use std::thread::*;
    pub fn yield_now() {
        crate::sched::give_way()
    }
    pub fn sleep(_: std::time::Duration) {
        crate::sched::give_way()
    }
}
pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        crate::sched::give_way()
    }
}
