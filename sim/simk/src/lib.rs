#![allow(static_mut_refs)]
pub mod api;
pub mod kern;
pub mod raw;
pub mod rng;
pub mod shim;
pub mod shm;
pub mod vfs;
pub use kern::{f, k, now, start, Cfg};
pub use rng::Rng;
pub use shm::{Dec, Shm};
