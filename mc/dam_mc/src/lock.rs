//! Raw lock shared by the std- and parking_lot-shaped locks.
use crate::rt::{ex, join_view, key, visible, Op, View, K};
use ::std::cell::UnsafeCell;

struct St {
    epoch: u32,
    id: u32,
    writer: bool,
    readers: u32,
    version: u32,
    view: View,
    rview: View,
    /// what was protected when it was first used
    init: [u8; 16],
}

pub struct RawLock(UnsafeCell<St>);
unsafe impl Sync for RawLock {}
unsafe impl Send for RawLock {}

struct TryWait {
    lock: *const RawLock,
    failed: Option<u32>,
    write: bool,
}

unsafe fn can_w(p: *const ()) -> bool {
    let s = (*(p as *const RawLock)).st();
    !s.writer && s.readers == 0
}
unsafe fn can_r(p: *const ()) -> bool {
    !(*(p as *const RawLock)).st().writer
}
unsafe fn try_soft(p: *const ()) -> bool {
    let w = &*(p as *const TryWait);
    w.failed != Some((*w.lock).st().version)
}
unsafe fn try_ok(p: *const ()) -> bool {
    let w = &*(p as *const TryWait);
    if w.write {
        can_w(w.lock as *const ())
    } else {
        can_r(w.lock as *const ())
    }
}

impl RawLock {
    pub const fn new() -> Self {
        RawLock(UnsafeCell::new(St {
            epoch: 0,
            id: 0,
            writer: false,
            readers: 0,
            version: 0,
            view: View::new(),
            rview: View::new(),
            init: [0; 16],
        }))
    }
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut St {
        let s = unsafe { &mut *self.0.get() };
        if let Some(e) = ex() {
            if s.epoch != e.epoch {
                *s = St {
                    epoch: e.epoch,
                    id: e.new_obj("lock"),
                    writer: false,
                    readers: 0,
                    version: 0,
                    view: View::new(),
                    rview: View::new(),
                    init: s.init,
                };
            }
        }
        s
    }
    /// A lock that outlives an execution (a static) protects in the next what it protected at first, as long as that
    /// is plain data.  Tells whether this is the first use in an execution other than the first.
    pub fn settle<T: ?Sized>(&self, data: *mut T) -> bool {
        let s = unsafe { &mut *self.0.get() };
        let Some(e) = ex() else { return false };
        if s.epoch == e.epoch {
            return false;
        }
        let n = ::std::mem::size_of_val(unsafe { &*data });
        if !::std::mem::needs_drop::<T>() && n <= s.init.len() {
            let d = data as *mut u8;
            unsafe {
                if s.epoch == 0 {
                    ::std::ptr::copy_nonoverlapping(d, s.init.as_mut_ptr(), n);
                } else {
                    ::std::ptr::copy_nonoverlapping(s.init.as_ptr(), d, n);
                }
            }
        }
        s.epoch != 0
    }
    fn me(&self) -> *const () {
        self as *const RawLock as *const ()
    }
    fn acquired(&self, write: bool) {
        let s = self.st();
        s.version = s.version.wrapping_add(1);
        if write {
            s.writer = true;
        } else {
            s.readers += 1;
        }
        if let Some(e) = ex() {
            if e.cfg.weak {
                let v = s.view.clone();
                let rv = s.rview.clone();
                let t = e.t();
                join_view(&mut t.view, &v);
                if write {
                    join_view(&mut t.view, &rv);
                }
            }
            e.t().try_fail = None;
        }
    }
    pub fn lock(&self) {
        let s = self.st();
        if ex().is_some() {
            visible(Op::new(K::Lock, s.id).w(key(s.id, 0)).enabled_if(can_w, self.me()));
        }
        assert!(unsafe { can_w(self.me()) }, "dam_mc: lock contended outside an exploration");
        self.acquired(true);
    }
    pub fn rlock(&self) {
        let s = self.st();
        if ex().is_some() {
            visible(Op::new(K::RLock, s.id).r(key(s.id, 0)).enabled_if(can_r, self.me()));
        }
        assert!(unsafe { can_r(self.me()) }, "dam_mc: lock contended outside an exploration");
        self.acquired(false);
    }
    fn try_any(&self, write: bool) -> bool {
        let s = self.st();
        if let Some(e) = ex() {
            let failed = match e.t().try_fail {
                Some((id, v)) if id == s.id => Some(v),
                _ => None,
            };
            let w = TryWait { lock: self, failed, write };
            let p = &w as *const TryWait as *const ();
            let op = Op::new(K::TryLock, s.id);
            let op = if write { op.w(key(s.id, 0)) } else { op.r(key(s.id, 0)) };
            visible(op.soft_unless(try_soft, p).succeeds_if(try_ok, p).ro());
        }
        let ok = unsafe { if write { can_w(self.me()) } else { can_r(self.me()) } };
        if ok {
            self.acquired(write);
        } else if let Some(e) = ex() {
            e.t().try_fail = Some((s.id, self.st().version));
        }
        ok
    }
    pub fn try_lock(&self) -> bool {
        self.try_any(true)
    }
    pub fn try_rlock(&self) -> bool {
        self.try_any(false)
    }
    pub fn unlock(&self) {
        let s = self.st();
        if ex().is_some() {
            visible(Op::new(K::Unlock, s.id).w(key(s.id, 0)));
        }
        let s = self.st();
        s.writer = false;
        s.version = s.version.wrapping_add(1);
        if let Some(e) = ex() {
            if e.cfg.weak {
                s.view = e.t().view.clone();
            }
        }
    }
    pub fn runlock(&self) {
        let s = self.st();
        if ex().is_some() {
            visible(Op::new(K::RUnlock, s.id).r(key(s.id, 0)));
        }
        let s = self.st();
        s.readers -= 1;
        s.version = s.version.wrapping_add(1);
        if let Some(e) = ex() {
            if e.cfg.weak {
                let v = e.t().view.clone();
                join_view(&mut s.rview, &v);
            }
        }
    }
    pub fn is_locked(&self) -> bool {
        let s = self.st();
        if ex().is_some() {
            visible(Op::new(K::Load, s.id).r(key(s.id, 0)).ro());
        }
        let s = self.st();
        s.writer || s.readers > 0
    }
}

/// Condition variable core: a set of waiting threads with notification flags.
struct Cv {
    epoch: u32,
    id: u32,
    waiters: Vec<(usize, bool)>,
    view: View,
}
pub struct RawCondvar(UnsafeCell<Cv>);
unsafe impl Sync for RawCondvar {}
unsafe impl Send for RawCondvar {}
struct CvWait {
    cv: *const RawCondvar,
    t: usize,
}
unsafe fn notified(p: *const ()) -> bool {
    let w = &*(p as *const CvWait);
    (*w.cv).st().waiters.iter().any(|x| x.0 == w.t && x.1)
}
impl RawCondvar {
    pub const fn new() -> Self {
        RawCondvar(UnsafeCell::new(Cv { epoch: 0, id: 0, waiters: Vec::new(), view: View::new() }))
    }
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut Cv {
        let s = unsafe { &mut *self.0.get() };
        if let Some(e) = ex() {
            if s.epoch != e.epoch {
                *s = Cv { epoch: e.epoch, id: e.new_obj("condvar"), waiters: vec![], view: View::new() };
            }
        }
        s
    }
    /// Called with the lock held; releases it, waits, and takes it again.
    pub fn wait(&self, l: &RawLock) {
        let e = ex().expect("dam_mc: Condvar::wait outside an exploration");
        let me = e.cur;
        let id = self.st().id;
        // registering is atomic with the unlock
        visible(Op::new(K::Access, id).w(key(id, 0)));
        self.st().waiters.push((me, false));
        l.unlock();
        let w = CvWait { cv: self, t: me };
        visible(
            Op::new(K::Wait, id).w(key(id, 0)).enabled_if(notified, &w as *const CvWait as *const ()),
        );
        let s = self.st();
        s.waiters.retain(|x| x.0 != me);
        if let Some(e) = ex() {
            if e.cfg.weak {
                let v = s.view.clone();
                join_view(&mut e.t().view, &v);
            }
        }
        l.lock();
    }
    pub fn notify(&self, all: bool) {
        let s = self.st();
        if ex().is_none() {
            return;
        }
        visible(Op::new(K::Notify, s.id).w(key(s.id, 0)));
        let s = self.st();
        for w in s.waiters.iter_mut() {
            if !w.1 {
                w.1 = true;
                if !all {
                    break;
                }
            }
        }
        let e = ex().unwrap();
        if e.cfg.weak {
            let v = e.t().view.clone();
            join_view(&mut s.view, &v);
        }
    }
}
