//! thread-priority, whose builder starts threads under the explorer (priorities do not exist there).
pub use real::*;
use dam_mc::thread::{JoinHandle, Scope, ScopedJoinHandle};
use std::io::Result as IoResult;

#[derive(Default, Debug)]
pub struct ThreadBuilder {
    name: Option<String>,
}
impl ThreadBuilder {
    pub fn name<V: Into<String>>(mut self, v: V) -> Self {
        self.name = Some(v.into());
        self
    }
    pub fn stack_size<V: Into<usize>>(self, _: V) -> Self {
        self
    }
    pub fn priority<V: Into<ThreadPriority>>(self, _: V) -> Self {
        self
    }
    pub fn policy<V: Into<unix::ThreadSchedulePolicy>>(self, _: V) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> IoResult<JoinHandle<T>>
    where
        F: FnOnce(std::result::Result<(), Error>) -> T + Send + 'static,
        T: Send + 'static,
    {
        self.spawn_careless(move || f(Ok(())))
    }
    pub fn spawn_careless<F, T>(self, f: F) -> IoResult<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let mut b = dam_mc::thread::Builder::new();
        if let Some(n) = self.name {
            b = b.name(n);
        }
        b.spawn(f)
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        scope: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> IoResult<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce(std::result::Result<(), Error>) -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.spawn_scoped_careless(scope, move || f(Ok(())))
    }
    pub fn spawn_scoped_careless<'scope, 'env, F, T>(
        self,
        scope: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> IoResult<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Ok(scope.spawn_named(self.name, f))
    }
}
