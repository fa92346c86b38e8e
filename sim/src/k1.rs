//! Kernel 1: a single-threaded discrete-event executor. Tasks are polled only when woken through the
//! waker of their latest poll (or by an injected spurious poll); simulated time advances only when
//! the scheduler lets a timer fire.

use crate::ctl::{fault, sched, Injected};
use crate::{check, cnt, ev, violate};
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Default, Clone, Debug)]
pub struct Cfg {
    /// spurious polls, in 1/64 per scheduling step
    pub spurious: u32,
    /// a fresh waker per poll, in 1/64
    pub churn: u32,
    /// duplicate wake-ups, in 1/64
    pub dup: u32,
    /// wakers of earlier polls still wake the task
    pub honour_old: bool,
}

impl Cfg {
    pub fn random() -> Cfg {
        let mut c = Cfg::default();
        if fault(1, 2) {
            c.spurious = [0, 2, 8, 24][crate::ctl::pick(crate::ctl::St::Fault, 4) as usize];
            c.churn = [0, 8, 32, 64][crate::ctl::pick(crate::ctl::St::Fault, 4) as usize];
            c.dup = [0, 4, 16][crate::ctl::pick(crate::ctl::St::Fault, 3) as usize];
            c.honour_old = fault(1, 4);
        }
        c
    }
}

struct T {
    woken: bool,
    latest: u64,
    waker: Option<Waker>,
    polls: u32,
    alive: bool,
}

type TimerFn = Box<dyn FnOnce()>;

struct K {
    tasks: Vec<T>,
    now: u64,
    seq: u64,
    timers: BinaryHeap<Reverse<(u64, u64)>>,
    fns: std::collections::HashMap<u64, TimerFn, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>,
    cfg: Cfg,
    wseq: u64,
}

thread_local! {
    static K: RefCell<Option<K>> = const { RefCell::new(None) };
    static WAKERS: Cell<i64> = const { Cell::new(0) };
    static TRASH: RefCell<Vec<Waker>> = const { RefCell::new(Vec::new()) };
}

struct W {
    task: usize,
    no: u64,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        K.with(|k| {
            if let Some(k) = k.borrow_mut().as_mut() {
                if let Some(t) = k.tasks.get_mut(self.task) {
                    if t.alive && (t.latest == self.no || k.cfg.honour_old) {
                        t.woken = true;
                    }
                }
            }
        })
    }
}
impl Drop for W {
    fn drop(&mut self) {
        WAKERS.with(|w| w.set(w.get() - 1));
    }
}

/// Number of distinct live wakers handed out by the executor.
pub fn live_wakers() -> i64 {
    WAKERS.with(|w| w.get())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Done,
    Panicked,
    Cancelled,
    Pending,
}

type Fut<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

pub struct Sim<'a> {
    futs: Vec<Option<Fut<'a>>>,
    ends: Vec<End>,
    cancel_at: Vec<Option<u32>>,
    pub max_polls: u64,
    pub polls: u64,
}

impl<'a> Sim<'a> {
    pub fn new(cfg: Cfg) -> Self {
        K.with(|k| {
            *k.borrow_mut() = Some(K {
                tasks: Vec::new(),
                now: 0,
                seq: 0,
                timers: BinaryHeap::new(),
                fns: Default::default(),
                cfg,
                wseq: 0,
            })
        });
        Sim {
            futs: Vec::new(),
            ends: Vec::new(),
            cancel_at: Vec::new(),
            max_polls: 4_000_000,
            polls: 0,
        }
    }

    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'a) -> usize {
        let id = self.futs.len();
        self.futs.push(Some(Box::pin(f)));
        self.ends.push(End::Pending);
        self.cancel_at.push(None);
        K.with(|k| {
            k.borrow_mut().as_mut().unwrap().tasks.push(T {
                woken: true,
                latest: 0,
                waker: None,
                polls: 0,
                alive: true,
            })
        });
        id
    }

    /// Drops the task right after its `n`-th poll, if it is still pending then (0: before any poll).
    pub fn cancel_after(&mut self, id: usize, n: u32) {
        self.cancel_at[id] = Some(n);
    }

    pub fn end(&self, id: usize) -> End {
        self.ends[id]
    }

    fn finish(&mut self, id: usize, end: End) {
        self.ends[id] = end;
        let w = K.with(|k| {
            let mut k = k.borrow_mut();
            let t = &mut k.as_mut().unwrap().tasks[id];
            t.alive = false;
            t.woken = false;
            t.waker.take()
        });
        drop(w);
        let f = self.futs[id].take();
        drop(f);
    }

    pub fn cancel(&mut self, id: usize) {
        if self.ends[id] == End::Pending {
            cnt!("fault.cancel");
            ev!(0x11, id, 0; "t={} task {id} is dropped", now());
            self.finish(id, End::Cancelled);
        }
    }

    fn poll(&mut self, id: usize) {
        let waker = K.with(|k| {
            let mut k = k.borrow_mut();
            let k = k.as_mut().unwrap();
            let churn = k.cfg.churn;
            k.wseq += 1;
            let no = k.wseq;
            let t = &mut k.tasks[id];
            t.woken = false;
            t.polls += 1;
            let fresh = t.waker.is_none() || {
                let c = churn > 0 && fault(churn, 64);
                if c {
                    cnt!("fault.new_waker");
                }
                c
            };
            if fresh {
                WAKERS.with(|w| w.set(w.get() + 1));
                let w = Waker::from(Arc::new(W { task: id, no }));
                t.latest = no;
                let old = t.waker.replace(w.clone());
                (w, old)
            } else {
                (t.waker.clone().unwrap(), None)
            }
        });
        let (waker, old) = waker;
        drop(old);
        self.polls += 1;
        if self.polls * 4 == self.max_polls {
            cnt!("limit.polls_above_a_quarter");
        }
        check!(
            self.polls < self.max_polls,
            "livelock",
            "no result after {} polls",
            self.polls
        );
        let mut cx = Context::from_waker(&waker);
        let fut = self.futs[id].as_mut().unwrap().as_mut();
        let r = catch_unwind(AssertUnwindSafe(|| fut.poll(&mut cx)));
        drop(waker);
        match r {
            Ok(Poll::Ready(())) => {
                ev!(0x12, id, 1; "t={} task {id} polled: done", now());
                self.finish(id, End::Done);
            }
            Ok(Poll::Pending) => {
                ev!(0x12, id, 0; "t={} task {id} polled: pending", now());
                let n = K.with(|k| k.borrow().as_ref().unwrap().tasks[id].polls);
                if self.cancel_at[id].is_some_and(|c| n >= c) {
                    self.cancel(id);
                } else {
                    let dup = K.with(|k| k.borrow().as_ref().unwrap().cfg.dup);
                    if dup > 0 && fault(dup, 64) {
                        let w = K.with(|k| k.borrow().as_ref().unwrap().tasks[id].waker.clone());
                        if let Some(w) = w {
                            cnt!("fault.duplicate_wake");
                            w.wake();
                        }
                    }
                }
            }
            Err(p) => {
                if !p.is::<Injected>() {
                    violate!("panic", "a task panicked outside an injected panic");
                }
                cnt!("fault.panic_unwound");
                ev!(0x13, id, 0; "t={} task {id} unwound", now());
                self.finish(id, End::Panicked);
            }
        }
    }

    /// Runs until nothing can happen any more. Returns true if every task has ended.
    pub fn run(&mut self) -> bool {
        for id in 0..self.futs.len() {
            if self.cancel_at[id] == Some(0) {
                self.cancel(id);
            }
        }
        loop {
            let (mut ready, pending, timer, spurious) = K.with(|k| {
                let k = k.borrow();
                let k = k.as_ref().unwrap();
                let mut ready = Vec::new();
                let mut pending = Vec::new();
                for (i, t) in k.tasks.iter().enumerate() {
                    if t.alive {
                        if t.woken {
                            ready.push(i)
                        } else {
                            pending.push(i)
                        }
                    }
                }
                (ready, pending, !k.timers.is_empty(), k.cfg.spurious)
            });
            if spurious > 0 && !pending.is_empty() && (timer || !ready.is_empty()) && fault(spurious, 64) {
                cnt!("fault.spurious_poll");
                let i = pending[crate::ctl::pick(crate::ctl::St::Fault, pending.len() as u32) as usize];
                self.poll(i);
                continue;
            }
            let n = ready.len() as u32 + timer as u32;
            if n == 0 {
                break;
            }
            let c = sched(n) as usize;
            if c < ready.len() {
                let id = ready.swap_remove(c);
                self.poll(id);
            } else {
                fire();
            }
        }
        cnt!("sim.time_units", now());
        self.ends.iter().all(|e| *e != End::Pending)
    }
}

impl Drop for Sim<'_> {
    fn drop(&mut self) {
        for f in self.futs.iter_mut() {
            drop(f.take());
        }
        let k = K.with(|k| k.borrow_mut().take());
        drop(k);
    }
}

pub fn now() -> u64 {
    K.with(|k| k.borrow().as_ref().map_or(0, |k| k.now))
}

fn fire() {
    let f = K.with(|k| {
        let mut k = k.borrow_mut();
        let k = k.as_mut().unwrap();
        let Reverse((t, s)) = k.timers.pop().unwrap();
        k.now = t;
        k.fns.remove(&s)
    });
    if let Some(f) = f {
        f();
    }
}

/// Schedules `f` to run `d` time units from now.
pub fn after(d: u64, f: impl FnOnce() + 'static) {
    K.with(|k| {
        let mut k = k.borrow_mut();
        let k = k.as_mut().expect("no simulation");
        k.seq += 1;
        let s = k.seq;
        k.timers.push(Reverse((k.now + d, s)));
        k.fns.insert(s, Box::new(f));
    })
}

pub fn active() -> bool {
    K.with(|k| k.borrow().is_some())
}
