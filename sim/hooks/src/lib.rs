//! The parts of the simulator that run underneath the code under test: the allocator, the
//! scheduler, and the C library functions through which it could see time, randomness and other
//! threads. This crate is never instrumented.

pub mod memory;
pub mod nest;
pub mod sched;
mod libcalls;

pub use libcalls::{entropy_reads, simulate_world, world_off};
