//! The simulated kernel, the libc symbols in front of it, and what a scenario is.
#![allow(invalid_runtime_symbol_definitions)]
pub mod alloc;
pub mod cov;
pub mod ffi;
pub mod kern;
pub mod rng;
pub mod scenario;
pub mod sys;
