//! Simulator runtime: seeded PRNG, thread scheduler, and the process-level seams
//! (atomics, allocator, randomness, clock, blocking system calls).
//! This crate is compiled without the tsan pass, so nothing in it is a scheduling point.
pub mod alloc;
pub mod atomics;
pub mod os;
pub mod prng;
pub mod sched;
