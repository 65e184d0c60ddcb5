//! parking_lot, with its locks under the explorer.
pub use real::*;
pub use dam_mc::pl::{const_mutex, const_rwlock, Condvar, WaitTimeoutResult, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
