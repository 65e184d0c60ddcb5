//! The model-checking runtime.  The crate root re-exports `std` with threads, synchronisation, atomics and panics
//! replaced by controlled ones, so that `extern crate dam_mc as std;` puts a whole crate under the explorer.
pub use ::std::*;

pub mod atomic;
pub mod cb;
pub mod chan;
pub mod lock;
pub mod panic;
pub mod pl;
pub mod rt;
pub mod selftest;
pub mod sync;
pub mod thread;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::thread::yield_now()
    }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = const { $e:expr } ; $($rest:tt)*) => {
        $(#[$a])* $vis static $name: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $e);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = const { $e:expr }) => {
        $(#[$a])* $vis static $name: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $e);
    };
    ($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = $e:expr ; $($rest:tt)*) => {
        $(#[$a])* $vis static $name: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $e);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = $e:expr) => {
        $(#[$a])* $vis static $name: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $e);
    };
}
