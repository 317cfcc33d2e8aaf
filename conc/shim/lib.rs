//! A stand-in for the standard library's crate name: everything of it, but with locks that a
//! controlled scheduler sees. wz_reader and the harness are compiled with `--extern std=<this>`.
#![allow(unused_imports)]
pub use std::*;
pub mod ctl;
mod fake;
pub mod sync {
    pub use crate::fake::{Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use std::sync::*;
}
