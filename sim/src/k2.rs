//! Kernel 2: simulated threads. Every simulated thread is a stackful coroutine on one OS thread; the
//! instrumented `std` facade calls `point` before every atomic, lock and once-cell operation, and the
//! seeded scheduler decides there whether another thread runs.

use crate::ctl::{chance, fault, pick, sched, St};
use crate::{check, cnt, ev, violate, weak};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use parcom_sim_std::sim::{Hooks, Op};
use std::cell::{Cell, UnsafeCell};
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    Ready,
    Blocked(usize),
    Parked,
    Done,
}

struct V {
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    state: S,
    token: bool,
    latest: u64,
    name: &'static str,
    prio: u32,
    cancel: bool,
    /// the thread may legitimately still be waiting at the end
    lazy: bool,
}

#[derive(Clone, Copy, Debug)]
enum Strategy {
    /// switch with probability 1/n at every point
    Random(u32),
    /// run the highest priority, demote at random points
    Priority(u32),
    /// never run this thread while another can run, for the given number of steps
    Starve(usize, u64),
}

struct K {
    ts: Vec<V>,
    cur: Option<usize>,
    last: usize,
    yielder: Vec<*const Yielder<(), ()>>,
    strategy: Strategy,
    steps: u64,
    max_steps: u64,
    now: u64,
    seq: u64,
    timers: BinaryHeap<Reverse<(u64, u64)>>,
    fns: Vec<(u64, Box<dyn FnOnce()>)>,
    wseq: u64,
    spurious: u32,
    churn: u32,
    switches: u64,
    lowest: u32,
}

struct Cell0(UnsafeCell<Option<K>>);
unsafe impl Sync for Cell0 {}
static KK: Cell0 = Cell0(UnsafeCell::new(None));
fn k() -> Option<&'static mut K> {
    unsafe { (*KK.0.get()).as_mut() }
}
thread_local! {
    static STACKS: UnsafeCell<Vec<(usize, DefaultStack)>> = const { UnsafeCell::new(Vec::new()) };
    static LIVEW: Cell<i64> = const { Cell::new(0) };
}

static HOOKS: Hooks = Hooks {
    point,
    block,
    wake: wake_addr,
    spurious: weak_fail,
    panicking: std::thread::panicking,
    load: weak::load,
    store: weak::store,
    rmw: weak::rmw,
    fence: weak::fence,
    acquire: weak::acquire,
    release: weak::release,
};

pub fn install() {
    parcom_sim_std::sim::install(&HOOKS);
}

pub const STACK: usize = 256 << 10;

pub struct Sim<'a> {
    _p: std::marker::PhantomData<&'a ()>,
}

impl<'a> Sim<'a> {
    pub fn new() -> Self {
        assert!(k().is_none());
        let strategy = match sched(8) {
            0 => Strategy::Random(10),
            1 | 2 => Strategy::Random(4),
            3 | 4 => Strategy::Random(2),
            5 => Strategy::Random(1),
            6 => Strategy::Priority(1 + sched(16)),
            _ => Strategy::Starve(sched(4) as usize, 20 + sched(200) as u64),
        };
        let (spurious, churn) = if fault(1, 2) {
            ([0, 2, 8, 16][pick(St::Fault, 4) as usize], [0, 8, 32, 64][pick(St::Fault, 4) as usize])
        } else {
            (0, 0)
        };
        unsafe {
            *KK.0.get() = Some(K {
                ts: Vec::new(),
                cur: None,
                last: 0,
                yielder: Vec::new(),
                strategy,
                steps: 0,
                max_steps: 2_000_000,
                now: 0,
                seq: 0,
                timers: BinaryHeap::new(),
                fns: Vec::new(),
                wseq: 0,
                spurious,
                churn,
                switches: 0,
                lowest: 1000,
            });
        }
        if fault(1, 2) {
            weak::start();
        }
        Sim {
            _p: std::marker::PhantomData,
        }
    }

    pub fn max_steps(&self, n: u64) {
        k().unwrap().max_steps = n;
    }

    pub fn spawn(&self, name: &'static str, f: impl FnOnce() + 'a) -> usize {
        self.spawn_with(name, STACK, false, f)
    }
    pub fn spawn_lazy(&self, name: &'static str, f: impl FnOnce() + 'a) -> usize {
        self.spawn_with(name, STACK, true, f)
    }
    pub fn spawn_with(&self, name: &'static str, stack: usize, lazy: bool, f: impl FnOnce() + 'a) -> usize {
        let kk = k().unwrap();
        let id = kk.ts.len();
        // `Sim::finish`/`drop` never lets a coroutine outlive 'a: threads either end or the process does.
        let f: Box<dyn FnOnce() + 'a> = Box::new(f);
        let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
        let st = STACKS.with(|s| {
            let s = unsafe { &mut *s.get() };
            s.iter().position(|(n, _)| *n == stack).map(|i| s.swap_remove(i).1)
        });
        let st = st.unwrap_or_else(|| DefaultStack::new(stack).expect("stack"));
        let co = Coroutine::with_stack(st, move |y: &Yielder<(), ()>, ()| {
            k().unwrap().yielder[id] = y as *const _;
            let r = catch_unwind(AssertUnwindSafe(f));
            if r.is_err() {
                violate!("panic", "a simulated thread ended with a panic");
            }
        });
        kk.ts.push(V {
            co: Some(co),
            state: S::Ready,
            token: false,
            latest: 0,
            name,
            prio: 0,
            cancel: false,
            lazy,
        });
        kk.yielder.push(std::ptr::null());
        weak::spawned(id);
        id
    }

    /// Runs until nothing can happen any more; returns the names of threads that have not ended.
    pub fn run(&self) -> Vec<&'static str> {
        weak::sync();
        let kk = k().unwrap();
        if let Strategy::Priority(_) = kk.strategy {
            for t in kk.ts.iter_mut() {
                t.prio = 1 + sched(8);
            }
        }
        loop {
            let kk = k().unwrap();
            let mut ready: Vec<usize> = (0..kk.ts.len()).filter(|&i| kk.ts[i].state == S::Ready).collect();
            // the thread that ran last comes first, so that choice 0 means "no switch"
            if let Some(p) = ready.iter().position(|&i| i == kk.last) {
                ready.remove(p);
                ready.insert(0, kk.last);
            }
            let timer = !kk.timers.is_empty();
            match kk.strategy {
                Strategy::Priority(_) if ready.len() > 1 => {
                    let m = ready.iter().map(|&i| kk.ts[i].prio).max().unwrap();
                    ready.retain(|&i| kk.ts[i].prio == m);
                }
                Strategy::Starve(v, n) if ready.len() > 1 && kk.steps < n => ready.retain(|&i| i != v),
                _ => {}
            }
            let n = ready.len() as u32 + timer as u32;
            if n == 0 {
                break;
            }
            let c = sched(n) as usize;
            if c >= ready.len() {
                let Reverse((t, s)) = kk.timers.pop().unwrap();
                kk.now = t;
                let i = kk.fns.iter().position(|f| f.0 == s).unwrap();
                let f = kk.fns.swap_remove(i).1;
                f();
                continue;
            }
            let id = ready[c];
            if id != kk.last {
                kk.switches += 1;
                ev!(0x21, id, 0; "t={} switch to {}#{id}", kk.now, kk.ts[id].name);
            }
            kk.last = id;
            kk.cur = Some(id);
            let mut co = kk.ts[id].co.take().unwrap();
            let r = co.resume(());
            let kk = k().unwrap();
            kk.cur = None;
            match r {
                CoroutineResult::Yield(()) => kk.ts[id].co = Some(co),
                CoroutineResult::Return(()) => {
                    kk.ts[id].state = S::Done;
                    ev!(0x22, id, 0; "t={} {}#{id} ended", kk.now, kk.ts[id].name);
                    let st = co.into_stack();
                    let n = stack_size(&st);
                    STACKS.with(|s| unsafe { &mut *s.get() }.push((n, st)));
                }
            }
        }
        let kk = k().unwrap();
        cnt!("sim.time_units", kk.now);
        kk.ts.iter().filter(|t| t.state != S::Done && !t.lazy).map(|t| t.name).collect()
    }

    /// Asks every thread waiting in a cancellable wait to give it up.
    pub fn cancel_waits(&self) {
        let kk = k().unwrap();
        for t in kk.ts.iter_mut() {
            if t.state != S::Done {
                t.cancel = true;
                if t.state == S::Parked {
                    t.state = S::Ready;
                }
            }
        }
    }

    pub fn finish(self) {
        let kk = k().unwrap();
        check!(
            kk.ts.iter().all(|t| t.state == S::Done),
            "harness:unfinished-thread",
            "a simulated thread is still running at the end"
        );
        if kk.steps * 4 > kk.max_steps {
            cnt!("limit.steps_above_a_quarter");
        }
        cnt!("sim.switches", kk.switches);
        cnt!("sim.steps", kk.steps);
        weak::stop();
        unsafe { *KK.0.get() = None };
    }
}

fn stack_size(s: &DefaultStack) -> usize {
    use corosensei::stack::Stack;
    // base and limit include one guard page
    let n = s.base().get() - s.limit().get();
    n - 4096
}

fn suspend() {
    let kk = k().unwrap();
    let id = kk.cur.unwrap();
    let y = kk.yielder[id];
    unsafe { (*y).suspend(()) };
    k().unwrap().cur = Some(id);
}

pub fn current() -> Option<usize> {
    k().and_then(|k| k.cur)
}

pub fn active() -> bool {
    k().is_some()
}

pub fn now() -> u64 {
    k().map_or(0, |k| k.now)
}

fn point(op: Op, _addr: usize) {
    let Some(kk) = k() else { return };
    let Some(id) = kk.cur else { return };
    kk.steps += 1;
    if kk.steps >= kk.max_steps {
        violate!("livelock", "no end after {} synchronisation operations", kk.steps);
    }
    crate::ctl::note(0x20, op as u64, id as u64);
    crate::tr!("t={} {}#{id}: {op:?}", kk.now, kk.ts[id].name);
    if std::thread::panicking() {
        return;
    }
    if matches!(op, Op::Spin | Op::Yield) {
        kk.lowest = kk.lowest.saturating_sub(1);
        suspend();
        return;
    }
    let sw = match kk.strategy {
        Strategy::Random(n) => {
            if n == 1 {
                true
            } else {
                chance(St::Sched, 1, n)
            }
        }
        Strategy::Priority(n) => {
            if chance(St::Sched, 1, 4 + n) {
                kk.ts[id].prio = 0;
                true
            } else {
                false
            }
        }
        Strategy::Starve(..) => chance(St::Sched, 1, 3),
    };
    if sw {
        suspend();
    }
}

/// An explicit scheduling point of the harness.
pub fn yield_point() {
    point(Op::Fence, 0);
}

fn block(addr: usize) {
    let Some(kk) = k() else {
        violate!("deadlock", "a lock that is already held was acquired again")
    };
    let Some(id) = kk.cur else {
        violate!("deadlock", "a lock that is already held was acquired again")
    };
    kk.ts[id].state = S::Blocked(addr);
    ev!(0x23, id, 0; "t={} {}#{id} blocks", kk.now, kk.ts[id].name);
    cnt!("probe.lock_contention");
    suspend();
}

fn wake_addr(addr: usize, all: bool) {
    let Some(kk) = k() else { return };
    let mut w: Vec<usize> = (0..kk.ts.len()).filter(|&i| kk.ts[i].state == S::Blocked(addr)).collect();
    if w.is_empty() {
        return;
    }
    if !all {
        let i = w[sched(w.len() as u32) as usize];
        w = vec![i];
    }
    for i in w {
        kk.ts[i].state = S::Ready;
    }
}

fn weak_fail() -> bool {
    match k() {
        Some(kk) if kk.cur.is_some() => {
            let r = fault(1, 4);
            if r {
                cnt!("fault.spurious_cas_failure");
            }
            r
        }
        _ => false,
    }
}

/// Schedules `f` on the simulated clock.
pub fn after(d: u64, f: impl FnOnce() + 'static) {
    let kk = k().expect("no simulation");
    kk.seq += 1;
    kk.timers.push(Reverse((kk.now + d, kk.seq)));
    let s = kk.seq;
    kk.fns.push((s, Box::new(f)));
}

struct W {
    id: usize,
    no: u64,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        point(Op::Notify, 0);
        if let Some(kk) = k() {
            let t = &mut kk.ts[self.id];
            if t.latest == self.no && t.state != S::Done {
                ev!(0x24, self.id, 0; "t={} wake {}#{}", kk.now, t.name, self.id);
                t.token = true;
                if t.state == S::Parked {
                    t.state = S::Ready;
                }
                weak::woken(self.id);
            }
        }
    }
}
impl Drop for W {
    fn drop(&mut self) {
        LIVEW.with(|w| w.set(w.get() - 1));
    }
}

pub fn live_wakers() -> i64 {
    LIVEW.with(|w| w.get())
}

/// A waker of the current simulated thread; earlier wakers of it stop working.
pub fn fresh_waker() -> Waker {
    let kk = k().unwrap();
    let id = kk.cur.unwrap();
    kk.wseq += 1;
    kk.ts[id].latest = kk.wseq;
    LIVEW.with(|w| w.set(w.get() + 1));
    Waker::from(Arc::new(W { id, no: kk.wseq }))
}

/// Waits until the current thread is woken (or spuriously); false if the wait was cancelled.
pub fn park() -> bool {
    let kk = k().unwrap();
    let id = kk.cur.unwrap();
    loop {
        let kk = k().unwrap();
        let t = &mut kk.ts[id];
        if t.cancel {
            return false;
        }
        if t.token {
            t.token = false;
            weak::unparked();
            return true;
        }
        if kk.spurious > 0 && fault(kk.spurious, 64) {
            cnt!("fault.spurious_poll");
            return true;
        }
        t.state = S::Parked;
        ev!(0x25, id, 0; "t={} {}#{id} waits", kk.now, t.name);
        suspend();
    }
}

pub enum Out<T> {
    Ready(T),
    /// dropped after the requested number of polls
    Dropped,
    /// the simulation asked the thread to stop waiting
    Cancelled,
}

/// Polls `f` on the current simulated thread; drops it after `limit` pending polls if given.
pub fn drive<F: Future>(f: F, limit: Option<u32>) -> Out<F::Output> {
    let mut f = f;
    let mut f = unsafe { Pin::new_unchecked(&mut f) };
    let mut waker = fresh_waker();
    let mut polls = 0;
    if limit == Some(0) {
        return Out::Dropped;
    }
    loop {
        let mut cx = Context::from_waker(&waker);
        weak::sync();
        let r = f.as_mut().poll(&mut cx);
        weak::sync();
        match r {
            Poll::Ready(v) => return Out::Ready(v),
            Poll::Pending => {}
        }
        polls += 1;
        if limit.is_some_and(|l| polls >= l) {
            cnt!("fault.cancel");
            ev!(0x26, polls, 0; "t={} dropped after {polls} polls", now());
            return Out::Dropped;
        }
        check!(polls < 100_000, "livelock", "no result after {polls} polls");
        if !park() {
            return Out::Cancelled;
        }
        let kk = k().unwrap();
        if kk.churn > 0 && fault(kk.churn, 64) {
            cnt!("fault.new_waker");
            waker = fresh_waker();
        }
    }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    match drive(f, None) {
        Out::Ready(v) => v,
        _ => violate!("harness:cancelled", "an uncancellable wait was cancelled"),
    }
}

/// A wait of the code under simulation: pending until a timer of the simulated clock fires.
pub fn pause() -> Pause {
    Pause { st: None }
}
pub struct Pause {
    st: Option<std::rc::Rc<PauseState>>,
}
struct PauseState {
    fired: Cell<bool>,
    waker: std::cell::RefCell<Option<Waker>>,
}
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let st = match &self.st {
            Some(s) => s.clone(),
            None => {
                let s = std::rc::Rc::new(PauseState {
                    fired: Cell::new(false),
                    waker: Default::default(),
                });
                self.st = Some(s.clone());
                let t = s.clone();
                cnt!("fault.delay");
                after(1 + sched(6) as u64, move || {
                    t.fired.set(true);
                    let w = t.waker.borrow_mut().take();
                    if let Some(w) = w {
                        w.wake();
                    }
                });
                s
            }
        };
        if st.fired.get() {
            return Poll::Ready(());
        }
        let old = st.waker.borrow_mut().replace(cx.waker().clone());
        drop(old);
        Poll::Pending
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        if let Some(s) = &self.st {
            let w = s.waker.borrow_mut().take();
            drop(w);
        }
    }
}

/// Gives up the processor: some other thread that can run, runs.
pub fn spin() {
    point(Op::Yield, 0);
}
