//! The part of the `may` coroutine runtime that DAM uses, under the explorer.
pub mod coroutine {
    pub use dam_mc::thread::{current, park, sleep, yield_now, Thread as Coroutine};
    use dam_mc::thread as th;

    /// `may::coroutine::Scope`: like a thread scope, whose spawns are unsafe.
    pub struct Scope<'a> {
        inner: *const (),
        spawn: fn(*const (), Option<String>, Box<dyn FnOnce() + 'a>),
    }
    unsafe impl Send for Scope<'_> {}
    unsafe impl Sync for Scope<'_> {}
    fn do_spawn<'a>(p: *const (), name: Option<String>, f: Box<dyn FnOnce() + 'a>) {
        // SAFETY: `p` is the scope `scope` below keeps alive.
        let s: &'static th::Scope<'static, 'static> = unsafe { &*(p as *const th::Scope) };
        let _ = s.spawn_named(name, f);
    }
    impl<'a> Scope<'a> {
        pub unsafe fn spawn<F: FnOnce() + Send + 'a>(&self, f: F) {
            (self.spawn)(self.inner, None, Box::new(f))
        }
        pub unsafe fn spawn_with_builder<F: FnOnce() + Send + 'a>(&self, f: F, b: Builder) {
            (self.spawn)(self.inner, b.name, Box::new(f))
        }
    }
    pub fn scope<'a, F, R>(f: F) -> R
    where
        F: FnOnce(&Scope<'a>) -> R,
    {
        th::scope(|s| f(&Scope { inner: s as *const _ as *const (), spawn: do_spawn }))
    }
    #[derive(Debug, Default)]
    pub struct Builder {
        name: Option<String>,
    }
    impl Builder {
        pub fn new() -> Builder {
            Builder::default()
        }
        pub fn name(mut self, n: String) -> Builder {
            self.name = Some(n);
            self
        }
        pub fn stack_size(self, _: usize) -> Builder {
            self
        }
        pub fn id(self, _: usize) -> Builder {
            self
        }
    }
}
pub mod sync {
    pub use dam_mc::sync::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod spsc {
        use dam_mc::chan::{Chan, TryErr};
        pub use std::sync::mpsc::{RecvError, SendError, TryRecvError};
        use std::sync::Arc;
        pub struct Sender<T>(Arc<Chan<T>>);
        pub struct Receiver<T>(Arc<Chan<T>>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let c = Chan::new(None);
            (Sender(c.clone()), Receiver(c))
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t).map_err(SendError)
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.drop_tx()
            }
        }
        impl<T> Receiver<T> {
            pub fn recv(&self) -> Result<T, RecvError> {
                self.0.recv().ok_or(RecvError)
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                self.0.try_recv().map_err(|e| match e {
                    TryErr::Disconnected => TryRecvError::Disconnected,
                    _ => TryRecvError::Empty,
                })
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.drop_rx()
            }
        }
    }
}
pub struct Config(());
impl Config {
    pub fn set_workers(&self, _: usize) -> &Self {
        self
    }
    pub fn get_workers(&self) -> usize {
        1
    }
}
pub fn config() -> Config {
    Config(())
}
#[macro_export]
macro_rules! coroutine_local {
    ($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = $e:expr) => {
        $(#[$a])* $vis static $name: $crate::__LocalKey<$t> = $crate::__LocalKey::new(|| $e);
    };
}
#[doc(hidden)]
pub use dam_mc::thread::LocalKey as __LocalKey;
