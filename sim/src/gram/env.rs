//! What user code given to the library shares: the per-task callback log and injected panics.

use crate::{cnt, ev};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(0) };
    static LOGS: RefCell<Vec<Vec<(u16, u64)>>> = const { RefCell::new(Vec::new()) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static ARM: Cell<u64> = const { Cell::new(0) };
    static PAUSE: Cell<u32> = const { Cell::new(0) };
}

pub fn reset() {
    CUR.with(|c| c.set(0));
    LOGS.with(|l| l.borrow_mut().clear());
    COUNT.with(|c| c.set(0));
    ARM.with(|c| c.set(0));
    PAUSE.with(|c| c.set(0));
    super::seq::set_lines(false);
}

/// User parsers pause with probability n/16 at each step.
pub fn set_pause(n: u32) {
    PAUSE.with(|c| c.set(n));
}
pub fn pause() -> u32 {
    PAUSE.with(|c| c.get())
}

/// Panics in the `n`-th callback from now on (1-based; 0 disarms).
pub fn arm(n: u64) {
    COUNT.with(|c| c.set(0));
    ARM.with(|c| c.set(n));
}

/// A place where user code runs silently (conversion, clone, comparison, I/O step).
pub fn silent() {
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if ARM.with(|a| a.get()) == n && !std::thread::panicking() {
        cnt!("fault.panic_injected");
        ev!(0x31, n, 0; "user code panics (callback {n})");
        crate::ctl::inject_panic();
    }
}

/// A user callback with an observable effect: `id` was called with a value of digest `d`.
pub fn call(id: u16, d: u64) {
    silent();
    LOGS.with(|l| {
        let mut l = l.borrow_mut();
        let c = CUR.with(|c| c.get());
        if l.len() <= c {
            l.resize_with(c + 1, Vec::new);
        }
        l[c].push((id, d));
    });
    crate::tr!("  callback {id} ({:x})", d & 0xffff);
    crate::ctl::note(0x30, id as u64, d);
}

pub fn log_of(task: usize) -> Vec<(u16, u64)> {
    LOGS.with(|l| l.borrow().get(task).cloned().unwrap_or_default())
}
pub fn clear_log(task: usize) {
    LOGS.with(|l| {
        if let Some(v) = l.borrow_mut().get_mut(task) {
            v.clear()
        }
    })
}

/// Attributes what the future does to a task's log.
pub struct TaskScope<F>(pub usize, pub Pin<Box<F>>);
impl<F: Future> Future for TaskScope<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let old = CUR.with(|c| c.replace(self.0));
        struct R(usize);
        impl Drop for R {
            fn drop(&mut self) {
                CUR.with(|c| c.set(self.0))
            }
        }
        let _r = R(old);
        self.1.as_mut().poll(cx)
    }
}
pub fn scope<F: Future>(task: usize, f: F) -> TaskScope<F> {
    TaskScope(task, Box::pin(f))
}

/// Yields to the executor as often as the schedule says.
pub struct Pausing {
    left: Option<u32>,
}
pub fn maybe_pause(s: u32, den: u32) -> Pausing {
    let mut left = None;
    if s > 0 && crate::ctl::chance(crate::ctl::St::Sched, s, den) {
        left = Some(1 + crate::ctl::sched(2));
    }
    Pausing { left }
}
impl Future for Pausing {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match self.left {
            None | Some(0) => Poll::Ready(()),
            Some(n) => {
                self.left = Some(n - 1);
                cnt!("fault.delay");
                let d = crate::ctl::sched(4);
                let w = cx.waker().clone();
                if d == 0 {
                    w.wake();
                } else if crate::k1::active() {
                    crate::k1::after(d as u64, move || w.wake());
                } else {
                    w.wake();
                }
                Poll::Pending
            }
        }
    }
}
