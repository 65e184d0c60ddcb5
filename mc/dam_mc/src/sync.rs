//! Drop-in `std::sync`.
pub use crate::atomic;
pub use ::std::sync::*;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};

use ::std::time::Duration;

use crate::lock::{RawCondvar, RawLock};

macro_rules! guard {
    ($g:ident, $l:ident, mutable) => {
        guard!($g, $l);
        impl<T: ?Sized> DerefMut for $g<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.l.data.get() }
            }
        }
    };
    ($g:ident, $l:ident) => {
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.l.data.get() }
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}

macro_rules! lockty {
    ($l:ident) => {
        pub struct $l<T: ?Sized> {
            raw: RawLock,
            poison: UnsafeCell<bool>,
            data: UnsafeCell<T>,
        }
        unsafe impl<T: ?Sized + Send> Sync for $l<T> {}
        unsafe impl<T: ?Sized + Send> Send for $l<T> {}
        impl<T: ?Sized> ::std::panic::UnwindSafe for $l<T> {}
        impl<T: ?Sized> ::std::panic::RefUnwindSafe for $l<T> {}
        impl<T> $l<T> {
            pub const fn new(t: T) -> Self {
                $l { raw: RawLock::new(), poison: UnsafeCell::new(false), data: UnsafeCell::new(t) }
            }
            pub fn into_inner(self) -> LockResult<T> {
                let p = self.poison.into_inner();
                let d = self.data.into_inner();
                if p {
                    Err(PoisonError::new(d))
                } else {
                    Ok(d)
                }
            }
        }
        impl<T: ?Sized> $l<T> {
            fn settle(&self) {
                if self.raw.settle(self.data.get()) {
                    unsafe { *self.poison.get() = false }
                }
            }
            pub fn is_poisoned(&self) -> bool {
                unsafe { *self.poison.get() }
            }
            pub fn clear_poison(&self) {
                unsafe { *self.poison.get() = false }
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                let p = *self.poison.get_mut();
                let d = self.data.get_mut();
                if p {
                    Err(PoisonError::new(d))
                } else {
                    Ok(d)
                }
            }
            fn wrap<G>(&self, g: G) -> LockResult<G> {
                if self.is_poisoned() {
                    Err(PoisonError::new(g))
                } else {
                    Ok(g)
                }
            }
        }
        impl<T: Default> Default for $l<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }
        impl<T> From<T> for $l<T> {
            fn from(t: T) -> Self {
                Self::new(t)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $l<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($l)).finish_non_exhaustive()
            }
        }
    };
}

lockty!(Mutex);
pub struct MutexGuard<'a, T: ?Sized> {
    l: &'a Mutex<T>,
    was_panicking: bool,
}
guard!(MutexGuard, Mutex, mutable);
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> MutexGuard<'_, T> {
        MutexGuard { l: self, was_panicking: crate::thread::panicking() }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.settle();
        self.raw.lock();
        self.wrap(self.guard())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        self.settle();
        if self.raw.try_lock() {
            self.wrap(self.guard()).map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.was_panicking && crate::thread::panicking() {
            unsafe { *self.l.poison.get() = true };
        }
        self.l.raw.unlock();
    }
}

lockty!(RwLock);
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    was_panicking: bool,
}
guard!(RwLockReadGuard, RwLock);
guard!(RwLockWriteGuard, RwLock, mutable);
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.settle();
        self.raw.rlock();
        self.wrap(RwLockReadGuard { l: self })
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.settle();
        self.raw.lock();
        self.wrap(RwLockWriteGuard { l: self, was_panicking: crate::thread::panicking() })
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        self.settle();
        if self.raw.try_rlock() {
            self.wrap(RwLockReadGuard { l: self }).map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        self.settle();
        if self.raw.try_lock() {
            self.wrap(RwLockWriteGuard { l: self, was_panicking: crate::thread::panicking() })
                .map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.runlock();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.was_panicking && crate::thread::panicking() {
            unsafe { *self.l.poison.get() = true };
        }
        self.l.raw.unlock();
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub struct Condvar(RawCondvar);
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar(RawCondvar::new())
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let l = g.l;
        self.0.wait(&l.raw);
        l.wrap(g)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        _: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        // modelled as an immediate time-out: let the others run, then look again
        let l = g.l;
        l.raw.unlock();
        crate::thread::yield_now();
        l.raw.lock();
        Ok((g, WaitTimeoutResult(true)))
    }
    pub fn notify_one(&self) {
        self.0.notify(false)
    }
    pub fn notify_all(&self) {
        self.0.notify(true)
    }
}

pub struct Barrier {
    m: Mutex<(usize, usize)>,
    c: Condvar,
    n: usize,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.c.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}

pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use crate::chan::{Chan, TryErr};
    use ::std::sync::Arc;
    use ::std::time::Duration;

    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct SyncSender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Chan::new(None);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = Chan::new(Some(n));
        (SyncSender(c.clone()), Receiver(c))
    }
    macro_rules! snd {
        ($s:ident) => {
            impl<T> $s<T> {
                pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                    self.0.send(t).map_err(SendError)
                }
            }
            impl<T> Clone for $s<T> {
                fn clone(&self) -> Self {
                    self.0.add_tx();
                    $s(self.0.clone())
                }
            }
            impl<T> Drop for $s<T> {
                fn drop(&mut self) {
                    self.0.drop_tx()
                }
            }
            impl<T> ::std::fmt::Debug for $s<T> {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    f.write_str(stringify!($s))
                }
            }
        };
    }
    snd!(Sender);
    snd!(SyncSender);
    impl<T> SyncSender<T> {
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            self.0.try_send(t).map_err(|(t, e)| match e {
                TryErr::Full => TrySendError::Full(t),
                _ => TrySendError::Disconnected(t),
            })
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            self.0.recv().ok_or(RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            self.0.try_recv().map_err(|e| match e {
                TryErr::Disconnected => TryRecvError::Disconnected,
                _ => TryRecvError::Empty,
            })
        }
        pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
            crate::thread::yield_now();
            self.0.try_recv().map_err(|e| match e {
                TryErr::Disconnected => RecvTimeoutError::Disconnected,
                _ => RecvTimeoutError::Timeout,
            })
        }
        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
            ::std::iter::from_fn(move || self.recv().ok())
        }
        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
            ::std::iter::from_fn(move || self.try_recv().ok())
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.drop_rx()
        }
    }
    impl<T> ::std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("Receiver")
        }
    }
}
