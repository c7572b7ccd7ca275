//! A drop-in `std` whose threads, locks, channels and atomics are run one at a time by a
//! deterministic scheduler. A crate gets it by a Cargo dependency that is *named* `std`; its
//! source is compiled unmodified. With WSCHED unset, threads run freely (real std).
#![allow(clippy::all)]
pub use std::*;

pub mod sched;
pub mod thread;
pub mod sync;
/// The unscheduled originals, for the recording in the driver.
pub mod real {
    pub use std::sync::Mutex;
}
