//! Drop-in `std::panic` that keeps the per-fiber panicking flag.
pub use ::std::panic::*;
use ::std::any::Any;
pub fn catch_unwind<F: FnOnce() -> R + ::std::panic::UnwindSafe, R>(f: F) -> ::std::thread::Result<R> {
    let r = ::std::panic::catch_unwind(f);
    if let Some(e) = crate::rt::ex() {
        e.t().panicking = false;
    }
    r
}
pub fn resume_unwind(p: Box<dyn Any + Send>) -> ! {
    if let Some(e) = crate::rt::ex() {
        e.t().panicking = true;
    }
    ::std::panic::resume_unwind(p)
}
/// Silences panics raised by the code under exploration and records them per fiber.
pub fn install_quiet_hook() {
    let old = ::std::panic::take_hook();
    ::std::panic::set_hook(Box::new(move |i| match crate::rt::ex() {
        Some(e) => {
            e.t().panicking = true;
            if e.cfg.trace {
                let cur = e.cur;
                e.trace.push(format!("  t{cur} PANIC {i}"));
            }
        }
        None => old(i),
    }));
}
