//! Runtime of the simulator: scheduler, clock, randomness, allocator and the seams they sit behind.
pub mod alloc;
pub mod cb;
pub mod hooks;
pub mod rng;
pub mod sched;
pub mod shm;
pub mod sys;

pub use rng::Rng;
