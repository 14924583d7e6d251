//! Stand-in for the `shuttle` crate: the same synchronisation types with exactly the semantics of
//! `std::sync` (including `try_*`, poisoning and `fetch_update`'s retry loop), each operation being a
//! scheduling point when it happens inside [`control::section`]. Outside a section they are plain
//! `std` operations. Memory is sequentially consistent.
pub mod control;
pub mod sync;
pub mod thread {
    pub use std::thread::*;
    /// A scheduling point.
    pub fn yield_now() {
        crate::control::point(0);
    }
}
pub mod hint {
    /// A scheduling point.
    pub fn spin_loop() {
        crate::control::point(0);
    }
}
