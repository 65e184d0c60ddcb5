//! Drop-in `std::sync::atomic`: sequentially consistent interleavings by default, and in weak-memory mode a
//! view-based release/acquire/relaxed semantics in which a load may return any store that is not yet hidden.

pub use ::std::sync::atomic::Ordering;
use ::std::cell::UnsafeCell;
use ::std::fmt;

use crate::rt::{ex, join_view, key, visible, Op, View, K};

pub(crate) struct Inner<T> {
    init: T,
    val: T,
    epoch: u32,
    id: u32,
    loc: u32,
    hist: Vec<(T, View)>,
}

fn is_acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn is_rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

pub(crate) struct Cell0<T>(UnsafeCell<Inner<T>>);

fn vget(v: &View, l: u32) -> u32 {
    v.get(l as usize).copied().unwrap_or(0)
}
fn vset(v: &mut View, l: u32, t: u32) {
    if v.len() <= l as usize {
        v.resize(l as usize + 1, 0);
    }
    if v[l as usize] < t {
        v[l as usize] = t;
    }
}

unsafe fn load_choices<T: Copy>(p: *const ()) -> u32 {
    let i = &*(p as *const Inner<T>);
    let e = ex().unwrap();
    let min = vget(&e.t().view, i.loc);
    i.hist.len() as u32 - min
}

impl<T: Copy + PartialEq + Default> Cell0<T> {
    pub const fn new(v: T) -> Self {
        Cell0(UnsafeCell::new(Inner { init: v, val: v, epoch: 0, id: 0, loc: 0, hist: Vec::new() }))
    }
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut Inner<T> {
        let i = unsafe { &mut *self.0.get() };
        if let Some(e) = ex() {
            if i.epoch != e.epoch {
                if i.epoch != 0 {
                    i.val = i.init;
                }
                i.epoch = e.epoch;
                i.id = e.new_obj("atomic");
                i.hist = Vec::new();
                if e.cfg.weak {
                    i.loc = e.next_loc;
                    e.next_loc += 1;
                    i.hist.push((i.val, View::new()));
                }
            }
        }
        i
    }
    pub fn load(&self, o: Ordering) -> T {
        let i = self.st();
        if ex().is_none() {
            return i.val;
        }
        let k = key(i.id, 0);
        let mut op = Op::new(K::Load, i.id).r(k).ro();
        if crate::rt::weak() {
            op = op.choose(load_choices::<T>, i as *const Inner<T> as *const ());
        }
        visible(op);
        let e = ex().unwrap();
        if !e.cfg.weak {
            return i.val;
        }
        let c = e.choice as usize;
        let sc = e.sc_view.clone();
        let t = e.t();
        if o == Ordering::SeqCst {
            join_view(&mut t.view, &sc);
        }
        let lo = vget(&t.view, i.loc) as usize;
        // choice 0 is the newest store
        let ix = (i.hist.len() - 1).saturating_sub(c).max(lo);
        let (v, view) = &i.hist[ix];
        if is_acq(o) {
            join_view(&mut t.view, view);
        }
        join_view(&mut t.acq, view);
        vset(&mut t.view, i.loc, ix as u32);
        vset(&mut t.acq, i.loc, ix as u32);
        *v
    }
    fn push(&self, i: &mut Inner<T>, v: T, o: Ordering, carry: Option<View>) {
        i.val = v;
        let e = ex().unwrap();
        if !e.cfg.weak {
            return;
        }
        let ts = i.hist.len() as u32;
        let t = e.t();
        vset(&mut t.view, i.loc, ts);
        vset(&mut t.acq, i.loc, ts);
        let mut mv = if is_rel(o) { t.view.clone() } else { t.rel.clone() };
        if let Some(c) = carry {
            join_view(&mut mv, &c);
        }
        vset(&mut mv, i.loc, ts);
        if o == Ordering::SeqCst {
            let tv = t.view.clone();
            join_view(&mut e.sc_view, &tv);
        }
        i.hist.push((v, mv));
    }
    pub fn store(&self, v: T, o: Ordering) {
        let i = self.st();
        if ex().is_none() {
            i.val = v;
            return;
        }
        visible(Op::new(K::Store, i.id).w(key(i.id, 0)));
        self.push(i, v, o, None);
    }
    /// f returns None to leave the value alone (failed compare-exchange)
    pub fn rmw(&self, o: Ordering, fail: Ordering, f: impl FnOnce(T) -> Option<T>) -> Result<T, T> {
        let i = self.st();
        if ex().is_none() {
            let old = i.val;
            return match f(old) {
                Some(v) => {
                    i.val = v;
                    Ok(old)
                }
                None => Err(old),
            };
        }
        visible(Op::new(K::Rmw, i.id).w(key(i.id, 0)));
        let e = ex().unwrap();
        let old = i.val;
        let mut carry = None;
        let r = f(old);
        if e.cfg.weak {
            let ix = i.hist.len() - 1;
            let view = i.hist[ix].1.clone();
            let sc = e.sc_view.clone();
            let t = e.t();
            let oo = if r.is_some() { o } else { fail };
            if oo == Ordering::SeqCst {
                join_view(&mut t.view, &sc);
            }
            if is_acq(oo) {
                join_view(&mut t.view, &view);
            }
            join_view(&mut t.acq, &view);
            vset(&mut t.view, i.loc, ix as u32);
            carry = Some(view);
        }
        match r {
            Some(v) => {
                self.push(i, v, o, carry);
                Ok(old)
            }
            None => Err(old),
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        let i = self.0.get_mut();
        i.hist.clear();
        i.init = i.val;
        i.epoch = 0;
        &mut i.val
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().val
    }
    pub fn peek(&self) -> T {
        self.st().val
    }
}

macro_rules! common {
    ($name:ident, $t:ty) => {
        pub struct $name(Cell0<$t>);
        unsafe impl Sync for $name {}
        unsafe impl Send for $name {}
        impl ::std::panic::RefUnwindSafe for $name {}
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&self.0.peek(), f)
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::new(Default::default())
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name(Cell0::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                self.0.rmw(o, o, |_| Some(v)).unwrap_or(v)
            }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.0.rmw(s, f, |x| if x == c { Some(n) } else { None })
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(c, n, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self,
                s: Ordering,
                f: Ordering,
                mut func: F,
            ) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = func(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
        }
    };
}

macro_rules! ints {
    ($($name:ident $t:ty),*) => {$(
        common!($name, $t);
        impl $name {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.0.rmw(o, o, |x| Some(x.wrapping_add(v))).unwrap_or(v) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.0.rmw(o, o, |x| Some(x.wrapping_sub(v))).unwrap_or(v) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.0.rmw(o, o, |x| Some(x.max(v))).unwrap_or(v) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.0.rmw(o, o, |x| Some(x.min(v))).unwrap_or(v) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.0.rmw(o, o, |x| Some(x & v)).unwrap_or(v) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.0.rmw(o, o, |x| Some(x | v)).unwrap_or(v) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.0.rmw(o, o, |x| Some(x ^ v)).unwrap_or(v) }
        }
    )*};
}
ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
      AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(o, o, |x| Some(x & v)).unwrap_or(v)
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(o, o, |x| Some(x | v)).unwrap_or(v)
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        self.0.rmw(o, o, |x| Some(x ^ v)).unwrap_or(v)
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.0.rmw(o, o, |x| Some(!x)).unwrap_or(false)
    }
}
pub use ::std::sync::atomic::AtomicPtr;

pub fn fence(o: Ordering) {
    let Some(e) = ex() else { return };
    if !e.cfg.weak {
        return;
    }
    if o == Ordering::SeqCst {
        visible(Op::new(K::Access, 2).w(key(2, 0)));
        let e = ex().unwrap();
        let sc = e.sc_view.clone();
        let t = e.t();
        let a = t.acq.clone();
        join_view(&mut t.view, &a);
        join_view(&mut t.view, &sc);
        t.rel = t.view.clone();
        let v = t.view.clone();
        join_view(&mut e.sc_view, &v);
        return;
    }
    let t = e.t();
    if is_acq(o) {
        let a = t.acq.clone();
        join_view(&mut t.view, &a);
    }
    if is_rel(o) {
        t.rel = t.view.clone();
    }
}
pub fn compiler_fence(_: Ordering) {}
pub fn spin_loop_hint() {
    crate::thread::yield_now()
}
