//! Stands in for `std` when the library is compiled for schedule exploration: everything is std's, except
//! that locks, atomics, channels and threads report to a scheduler (`weave`) when a controlled run is on.
pub use ::std::*;

pub mod weave;

pub mod chan;
pub mod sync;
pub mod thread;
