//! Drop-in `std::thread`.
pub use ::std::thread::{available_parallelism, AccessError, Result, ThreadId as RealThreadId};
use ::std::any::Any;
use ::std::cell::{Cell, RefCell, UnsafeCell};
use ::std::marker::PhantomData;
use ::std::num::NonZeroU64;
use ::std::panic::AssertUnwindSafe;
use ::std::rc::Rc;
use ::std::sync::Arc;
use ::std::time::Duration;

use crate::rt::{ex, join_thread, join_view, key, park_obj, spawn_fiber, visible, Op, K};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);
impl ThreadId {
    pub fn as_u64(&self) -> NonZeroU64 {
        NonZeroU64::new(self.0 as u64 + 1).unwrap()
    }
}

#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id)
    }
    pub fn name(&self) -> Option<&str> {
        ex().and_then(|e| e.th.get(self.id).and_then(|t| t.name.as_deref()))
    }
    pub fn unpark(&self) {
        if ex().is_none() || self.id == usize::MAX {
            return;
        }
        let o = park_obj(self.id);
        visible(Op::new(K::Unpark, o).r(key(o, 0)));
        let e = ex().unwrap();
        let v = e.t().view.clone();
        let t = &mut e.th[self.id];
        t.token = true;
        join_view(&mut t.token_view, &v);
    }
}
pub fn current() -> Thread {
    Thread { id: ex().map(|e| e.cur).unwrap_or(usize::MAX) }
}
unsafe fn park_ok(p: *const ()) -> bool {
    let e = ex().unwrap();
    e.th[p as usize].token || e.spurious_left > 0
}
pub fn park() {
    let e = ex().expect("dam_mc: park outside an exploration");
    let me = e.cur;
    let o = park_obj(me);
    let mut op = Op::new(K::Park, o).w(key(o, 0)).enabled_if(park_ok, me as *const ());
    if e.cfg.spurious > 0 {
        op = op.w(key(3, 0));
    }
    visible(op);
    let e = ex().unwrap();
    if !e.th[me].token {
        e.spurious_left -= 1; // spurious wake-up, allowed by the documentation of park
        return;
    }
    e.th[me].token = false;
    let v = ::std::mem::take(&mut e.th[me].token_view);
    join_view(&mut e.th[me].view, &v);
}
unsafe fn always(_: *const ()) -> bool {
    true
}
pub fn park_timeout(_: Duration) {
    // Either the token is there, or the timeout may expire at any point.
    let Some(e) = ex() else { return };
    let me = e.cur;
    let o = park_obj(me);
    visible(Op::new(K::Park, o).w(key(o, 0)).enabled_if(always, ::std::ptr::null()).ro());
    let e = ex().unwrap();
    e.th[me].token = false;
}
pub fn yield_now() {
    visible(Op::new(K::Yield, 1));
}
pub fn sleep(_: Duration) {
    yield_now()
}
pub fn panicking() -> bool {
    match ex() {
        Some(e) => e.t().panicking,
        None => ::std::thread::panicking(),
    }
}

struct Packet<T> {
    result: UnsafeCell<Option<Result<T>>>,
    id: Cell<usize>,
}
unsafe impl<T> Sync for Packet<T> {}
unsafe impl<T> Send for Packet<T> {}

fn start<T>(name: Option<String>, f: impl FnOnce() -> T) -> Arc<Packet<T>> {
    let p = Arc::new(Packet { result: UnsafeCell::new(None), id: Cell::new(0) });
    let p2 = p.clone();
    let body = move || {
        let r = ::std::panic::catch_unwind(AssertUnwindSafe(f));
        if let Some(e) = ex() {
            e.t().panicking = false;
            e.t().result_panicked = r.is_err();
        }
        unsafe { *p2.result.get() = Some(r) };
    };
    let b: Box<dyn FnOnce() + '_> = Box::new(body);
    // The caller guarantees (scope: joined; spawn: 'static bounds) that what the body borrows lives long enough.
    let b: Box<dyn FnOnce() + 'static> = unsafe { ::std::mem::transmute(b) };
    let id = spawn_fiber(name, b);
    p.id.set(id);
    p
}

pub struct JoinHandle<T>(Arc<Packet<T>>);
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        join_thread(self.0.id.get());
        unsafe { (*self.0.result.get()).take().unwrap() }
    }
    pub fn thread(&self) -> Thread {
        Thread { id: self.0.id.get() }
    }
    pub fn is_finished(&self) -> bool {
        yield_now();
        ex().unwrap().th[self.0.id.get()].finished
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    JoinHandle(start(None, f))
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Builder { name: None }
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(JoinHandle(start(self.name, f)))
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        scope: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> ::std::io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Ok(scope.spawn_named(self.name, f))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    kids: RefCell<Vec<(usize, Rc<Cell<bool>>)>>,
    _s: PhantomData<&'scope mut &'scope ()>,
    _e: PhantomData<&'env mut &'env ()>,
}
unsafe impl Sync for Scope<'_, '_> {}

pub struct ScopedJoinHandle<'scope, T> {
    p: Arc<Packet<T>>,
    joined: Rc<Cell<bool>>,
    _s: PhantomData<&'scope ()>,
}
unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> {
        self.joined.set(true);
        join_thread(self.p.id.get());
        unsafe { (*self.p.result.get()).take().unwrap() }
    }
    pub fn thread(&self) -> Thread {
        Thread { id: self.p.id.get() }
    }
    pub fn is_finished(&self) -> bool {
        yield_now();
        ex().unwrap().th[self.p.id.get()].finished
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    #[doc(hidden)]
    pub fn spawn_named<F, T>(&'scope self, name: Option<String>, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T,
    {
        let p = start(name, f);
        let joined = Rc::new(Cell::new(false));
        self.kids.borrow_mut().push((p.id.get(), joined.clone()));
        ScopedJoinHandle { p, joined, _s: PhantomData }
    }
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.spawn_named(None, f)
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { kids: RefCell::new(vec![]), _s: PhantomData, _e: PhantomData };
    let r = ::std::panic::catch_unwind(AssertUnwindSafe(|| f(unsafe { &*(&s as *const Scope) })));
    if let Some(e) = ex() {
        e.t().panicking = false;
    }
    let mut bad = false;
    let mut i = 0;
    loop {
        // children may themselves add children to the scope
        let k = s.kids.borrow().get(i).map(|k| (k.0, k.1.get()));
        let Some((id, joined)) = k else { break };
        join_thread(id);
        if !joined && ex().unwrap().th[id].result_panicked {
            bad = true;
        }
        i += 1;
    }
    match r {
        Err(e) => crate::panic::resume_unwind(e),
        Ok(_) if bad => panic!("a scoped thread panicked"),
        Ok(v) => v,
    }
}

/// Per-fiber storage.
pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}
::std::thread_local! {
    static OUTSIDE: RefCell<Vec<(usize, Rc<dyn Any>)>> = const { RefCell::new(Vec::new()) };
}
impl<T: 'static> LocalKey<T> {
    #[doc(hidden)]
    pub const fn new(init: fn() -> T) -> Self {
        LocalKey { init }
    }
    fn get_rc(&'static self) -> Rc<T> {
        let k = self as *const _ as usize;
        if let Some(e) = ex() {
            if let Some(x) = e.t().tls.iter().find(|x| x.0 == k) {
                return x.1.clone().downcast::<T>().unwrap();
            }
            let v: Rc<T> = Rc::new((self.init)());
            ex().unwrap().t().tls.push((k, v.clone()));
            return v;
        }
        if let Some(x) = OUTSIDE.with(|o| o.borrow().iter().find(|x| x.0 == k).map(|x| x.1.clone())) {
            return x.downcast::<T>().unwrap();
        }
        let v: Rc<T> = Rc::new((self.init)());
        OUTSIDE.with(|o| o.borrow_mut().push((k, v.clone())));
        v
    }
    pub fn with<F, R>(&'static self, f: F) -> R
    where
        F: FnOnce(&T) -> R,
    {
        let v = self.get_rc();
        f(&v)
    }
    pub fn try_with<F, R>(&'static self, f: F) -> ::std::result::Result<R, AccessError>
    where
        F: FnOnce(&T) -> R,
    {
        Ok(self.with(f))
    }
}
impl<T: 'static> LocalKey<Cell<T>> {
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<F, R>(&'static self, f: F) -> R
    where
        F: FnOnce(&T) -> R,
    {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<F, R>(&'static self, f: F) -> R
    where
        F: FnOnce(&mut T) -> R,
    {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
