//! parking_lot shaped locks.
use crate::lock::{RawCondvar, RawLock as Raw};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.settle(self.data.get());
        self.raw.lock();
        MutexGuard(self)
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.raw.settle(self.data.get());
        if self.raw.try_lock() {
            Some(MutexGuard(self))
        } else {
            None
        }
    }
    pub fn try_lock_for(&self, _: ::std::time::Duration) -> Option<MutexGuard<'_, T>> {
        self.try_lock()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        self.raw.is_locked()
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for RwLock<T> {}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.settle(self.data.get());
        self.raw.rlock();
        RwLockReadGuard(self)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.settle(self.data.get());
        self.raw.lock();
        RwLockWriteGuard(self)
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.raw.try_rlock().then(|| RwLockReadGuard(self))
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.raw.try_lock().then(|| RwLockWriteGuard(self))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.runlock()
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub const fn const_mutex<T>(t: T) -> Mutex<T> {
    Mutex::new(t)
}
pub const fn const_rwlock<T>(t: T) -> RwLock<T> {
    RwLock::new(t)
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
pub struct Condvar(RawCondvar);
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar(RawCondvar::new())
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.0.wait(&g.0.raw)
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut c: F) {
        while c(&mut **g) {
            self.wait(g);
        }
    }
    /// modelled as an immediate time-out: let the others run, then look again
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _: ::std::time::Duration) -> WaitTimeoutResult {
        g.0.raw.unlock();
        crate::thread::yield_now();
        g.0.raw.lock();
        WaitTimeoutResult(true)
    }
    pub fn notify_one(&self) -> bool {
        self.0.notify(false);
        true
    }
    pub fn notify_all(&self) -> usize {
        self.0.notify(true);
        0
    }
}
