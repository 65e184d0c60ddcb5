//! crossbeam-channel shaped channels.
use crate::chan::{Chan, TryErr};
pub use real_crossbeam_channel::{
    ReadyTimeoutError, RecvError, RecvTimeoutError, SelectTimeoutError, SendError, SendTimeoutError, TryRecvError,
    TryReadyError, TrySelectError, TrySendError,
};
use ::std::fmt;
use ::std::sync::Arc;
use ::std::time::Duration;

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let c = Chan::new(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let c = Chan::new(Some(n));
    (Sender(c.clone()), Receiver(c))
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t).map_err(SendError)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.try_send(t).map_err(|(t, e)| match e {
            TryErr::Full => TrySendError::Full(t),
            _ => TrySendError::Disconnected(t),
        })
    }
    pub fn send_timeout(&self, t: T, _: Duration) -> Result<(), SendTimeoutError<T>> {
        crate::thread::yield_now();
        self.0.try_send(t).map_err(|(t, e)| match e {
            TryErr::Full => SendTimeoutError::Timeout(t),
            _ => SendTimeoutError::Disconnected(t),
        })
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.0.cap().map(|c| self.0.len() >= c).unwrap_or(false)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap()
    }
    pub fn same_channel(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.add_tx();
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.drop_tx()
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.recv().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.try_recv().map_err(|e| match e {
            TryErr::Disconnected => TryRecvError::Disconnected,
            _ => TryRecvError::Empty,
        })
    }
    pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
        crate::thread::yield_now();
        self.0.try_recv().map_err(|e| match e {
            TryErr::Disconnected => RecvTimeoutError::Disconnected,
            _ => RecvTimeoutError::Timeout,
        })
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
    pub fn same_channel(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.0.cap().map(|c| self.0.len() >= c).unwrap_or(false)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap()
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.add_rx();
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.drop_rx()
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        Iter(self)
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Sender { .. }")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Receiver { .. }")
    }
}
