//! The simulated machine: scheduler, memory, random bytes, clock and disk.  This crate is compiled
//! without instrumentation; linestring and the simulator's own calls of it are compiled so that
//! every atomic operation (and every access to a static) is a call into `atomics.rs`.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub mod atomics;
pub mod disk;
pub mod env;
pub mod rng;
pub mod sched;
pub mod shm;
