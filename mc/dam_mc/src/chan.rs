//! Channel core used by the crossbeam-, std::mpsc- and may-shaped channels.
use crate::rt::{ex, join_view, key, visible, Op, View, K};
use ::std::cell::UnsafeCell;
use ::std::collections::VecDeque;
use ::std::sync::Arc;

pub struct St<T> {
    epoch: u32,
    id: u32,
    loc: u32,
    q: VecDeque<(T, View)>,
    cap: Option<usize>,
    sent: u32,
    recvd: u32,
    tx: usize,
    rx: usize,
    multi: bool,
    close_view: View,
    rx_view: View,
    freed: VecDeque<View>,
}

pub struct Chan<T>(UnsafeCell<St<T>>);
unsafe impl<T: Send> Sync for Chan<T> {}
unsafe impl<T: Send> Send for Chan<T> {}

const RXALIVE: u32 = 0;
const HEAD: u32 = 1;
const MULTI: u32 = 2;
const SLOT: u32 = 16;
const FREED: u32 = 0x8000_0000;

unsafe fn can_send<T>(p: *const ()) -> bool {
    let s = (*(p as *const Chan<T>)).st();
    match s.cap {
        None => true,
        Some(c) => s.q.len() < c || s.rx == 0,
    }
}
unsafe fn can_recv<T>(p: *const ()) -> bool {
    let s = (*(p as *const Chan<T>)).st();
    !s.q.is_empty() || s.tx == 0
}
unsafe fn try_choices<T>(p: *const ()) -> u32 {
    let s = (*(p as *const Chan<T>)).st();
    let e = ex().unwrap();
    let known = e.t().view.get(s.loc as usize).copied().unwrap_or(0);
    let there = !s.q.is_empty() || s.tx == 0;
    if there && known < s.recvd + 1 {
        2
    } else {
        1
    }
}

pub enum TryErr {
    Empty,
    Disconnected,
    Full,
}

impl<T> Chan<T> {
    pub fn new(cap: Option<usize>) -> Arc<Chan<T>> {
        Arc::new(Chan(UnsafeCell::new(St {
            epoch: 0,
            id: 0,
            loc: 0,
            q: VecDeque::new(),
            cap,
            sent: 0,
            recvd: 0,
            tx: 1,
            rx: 1,
            multi: false,
            close_view: View::new(),
            rx_view: View::new(),
            freed: VecDeque::new(),
        })))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn st(&self) -> &mut St<T> {
        let s = unsafe { &mut *self.0.get() };
        if let Some(e) = ex() {
            if s.epoch != e.epoch {
                s.epoch = e.epoch;
                s.id = e.new_obj("channel");
                s.loc = e.next_loc;
                e.next_loc += 1;
            }
        }
        s
    }
    fn me(&self) -> *const () {
        self as *const Chan<T> as *const ()
    }
    fn multi_key(id: u32) -> u64 {
        key(id, MULTI)
    }
    fn send_op(&self, k: K) -> Op {
        let s = self.st();
        let mut op = Op::new(k, s.id).r(key(s.id, RXALIVE));
        if s.multi {
            op = if ex().map(|e| e.cfg.mpsc_commute).unwrap_or(false) {
                op.r(Self::multi_key(s.id))
            } else {
                op.w(Self::multi_key(s.id))
            };
        } else {
            op = op.w(key(s.id, SLOT + s.sent));
            if let Some(c) = s.cap {
                if s.sent as usize >= c {
                    op = op.r(key(s.id, FREED + s.sent - c as u32));
                }
            }
        }
        op
    }
    fn recv_op(&self, k: K) -> Op {
        let s = self.st();
        let mut op = Op::new(k, s.id).w(key(s.id, HEAD));
        if s.multi {
            op = if ex().map(|e| e.cfg.mpsc_commute).unwrap_or(false) || s.cap.is_some() {
                op.w(Self::multi_key(s.id))
            } else {
                op.r(Self::multi_key(s.id))
            };
        } else {
            op = op.r(key(s.id, SLOT + s.recvd));
            if s.cap.is_some() {
                op = op.w(key(s.id, FREED + s.recvd));
            }
        }
        op
    }
    fn push(&self, v: T) {
        let s = self.st();
        s.sent += 1;
        let mut view = View::new();
        if let Some(e) = ex() {
            if e.cfg.weak {
                let fv = if s.cap.is_some() && s.sent as usize > s.cap.unwrap() {
                    s.freed.pop_front()
                } else {
                    None
                };
                let t = e.t();
                if let Some(f) = fv {
                    join_view(&mut t.view, &f);
                }
                let l = s.loc as usize;
                if t.view.len() <= l {
                    t.view.resize(l + 1, 0);
                }
                t.view[l] = t.view[l].max(s.sent);
                view = t.view.clone();
            }
        }
        s.q.push_back((v, view));
    }
    fn pop(&self) -> T {
        let s = self.st();
        let (v, view) = s.q.pop_front().unwrap();
        s.recvd += 1;
        if let Some(e) = ex() {
            if e.cfg.weak {
                let t = e.t();
                join_view(&mut t.view, &view);
                if s.cap.is_some() {
                    s.freed.push_back(t.view.clone());
                }
            }
        }
        v
    }
    pub fn send(&self, v: T) -> Result<(), T> {
        if ex().is_some() {
            let bounded = self.st().cap.is_some();
            let mut op = self.send_op(K::Send);
            if bounded {
                op = op.enabled_if(can_send::<T>, self.me());
            }
            visible(op);
        }
        let s = self.st();
        if s.rx == 0 {
            if let Some(e) = ex() {
                if e.cfg.weak {
                    join_view(&mut e.t().view, &s.rx_view);
                }
            }
            return Err(v);
        }
        assert!(unsafe { can_send::<T>(self.me()) }, "dam_mc: blocking send outside an exploration");
        self.push(v);
        Ok(())
    }
    pub fn try_send(&self, v: T) -> Result<(), (T, TryErr)> {
        if ex().is_some() {
            visible(self.send_op(K::Access));
        }
        let s = self.st();
        if s.rx == 0 {
            return Err((v, TryErr::Disconnected));
        }
        if !unsafe { can_send::<T>(self.me()) } {
            return Err((v, TryErr::Full));
        }
        self.push(v);
        Ok(())
    }
    fn closed_sync(&self) {
        let s = self.st();
        if let Some(e) = ex() {
            if e.cfg.weak {
                let v = s.close_view.clone();
                join_view(&mut e.t().view, &v);
            }
        }
    }
    pub fn recv(&self) -> Option<T> {
        if ex().is_some() {
            visible(self.recv_op(K::Recv).enabled_if(can_recv::<T>, self.me()));
        }
        let s = self.st();
        if s.q.is_empty() {
            assert!(s.tx == 0, "dam_mc: blocking recv outside an exploration");
            self.closed_sync();
            return None;
        }
        Some(self.pop())
    }
    pub fn try_recv(&self) -> Result<T, TryErr> {
        let mut stale = false;
        if ex().is_some() {
            let mut op = self.recv_op(K::TryRecv).ro();
            if crate::rt::weak() {
                op = op.choose(try_choices::<T>, self.me());
            }
            visible(op);
            stale = ex().unwrap().choice == 1;
        }
        let s = self.st();
        if stale {
            return Err(TryErr::Empty);
        }
        if s.q.is_empty() {
            if s.tx == 0 {
                self.closed_sync();
                return Err(TryErr::Disconnected);
            }
            return Err(TryErr::Empty);
        }
        if let Some(e) = ex() {
            e.t().clear_ro();
        }
        Ok(self.pop())
    }
    pub fn len(&self) -> usize {
        let s = self.st();
        if ex().is_some() {
            visible(
                Op::new(K::Access, s.id)
                    .r(key(s.id, SLOT + s.sent))
                    .r(key(s.id, HEAD))
                    .r(Self::multi_key(s.id))
                    .ro(),
            );
        }
        self.st().q.len()
    }
    pub fn cap(&self) -> Option<usize> {
        self.st().cap
    }
    pub fn add_tx(&self) {
        let s = self.st();
        s.tx += 1;
        s.multi = true;
    }
    pub fn add_rx(&self) {
        let s = self.st();
        s.rx += 1;
        s.multi = true;
    }
    pub fn drop_tx(&self) {
        let s = self.st();
        if ex().is_some() {
            let mut op = Op::new(K::Close, s.id);
            op = if s.multi {
                if ex().map(|e| e.cfg.mpsc_commute).unwrap_or(false) {
                    op.r(Self::multi_key(s.id))
                } else {
                    op.w(Self::multi_key(s.id))
                }
            } else {
                op.w(key(s.id, SLOT + s.sent))
            };
            visible(op);
        }
        let s = self.st();
        s.tx -= 1;
        if s.tx == 0 {
            if let Some(e) = ex() {
                if e.cfg.weak {
                    let t = e.t();
                    let l = s.loc as usize;
                    if t.view.len() <= l {
                        t.view.resize(l + 1, 0);
                    }
                    t.view[l] = t.view[l].max(s.sent + 1);
                    s.close_view = t.view.clone();
                }
            }
        }
    }
    pub fn drop_rx(&self) {
        let s = self.st();
        if ex().is_some() {
            visible(Op::new(K::RxDrop, s.id).w(key(s.id, RXALIVE)));
        }
        let s = self.st();
        s.rx -= 1;
        if s.rx == 0 {
            if let Some(e) = ex() {
                if e.cfg.weak {
                    s.rx_view = e.t().view.clone();
                }
            }
            let q = ::std::mem::take(&mut s.q);
            drop(q);
        }
    }
}
