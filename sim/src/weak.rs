//! Weak memory: with it on, an atomic load of a simulated thread may return an older value of the
//! location whenever the orderings the code asked for permit it. Timestamped messages with views, in
//! the style of the promising semantics without promises: stores take effect in execution order, loads
//! choose among the messages the loading thread's view does not rule out.
//!
//! Everything the harness itself does is over-synchronised (`sync`), so an oracle that has seen an
//! operation complete may rely on it being visible to the operations it starts afterwards.

use crate::cnt;
use crate::ctl::{chance, sched, St};
use parcom_sim_std::sim::Loc;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::atomic::Ordering;

#[derive(Clone, Default)]
struct View(Vec<u32>);
impl View {
    fn get(&self, x: usize) -> u32 {
        self.0.get(x).copied().unwrap_or(0)
    }
    fn raise(&mut self, x: usize, t: u32) {
        if self.0.len() <= x {
            self.0.resize(x + 1, 0);
        }
        self.0[x] = self.0[x].max(t);
    }
    fn join(&mut self, o: &View) {
        if self.0.len() < o.0.len() {
            self.0.resize(o.0.len(), 0);
        }
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a = (*a).max(*b);
        }
    }
}

struct Msg {
    ts: u32,
    val: u64,
    view: View,
}

#[derive(Default)]
struct LocE {
    ts: u32,
    msgs: VecDeque<Msg>,
    /// what the last critical section on it left behind
    lock: View,
}

#[derive(Default, Clone)]
struct T {
    v: View,
    acq: View,
    rel: View,
    token: View,
}

struct W {
    gen: u64,
    locs: Vec<LocE>,
    ts: Vec<T>,
    h: View,
    sc: View,
    streak: u32,
}

struct Cell0(UnsafeCell<Option<W>>);
unsafe impl Sync for Cell0 {}
static WW: Cell0 = Cell0(UnsafeCell::new(None));
static GEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
const MAX_LOCS: usize = 512;
const MAX_MSGS: usize = 16;

fn w() -> Option<&'static mut W> {
    unsafe { (*WW.0.get()).as_mut() }
}

pub fn start() {
    let _q = crate::alloc::quiet();
    let gen = GEN.fetch_add(1, Ordering::Relaxed);
    unsafe {
        *WW.0.get() = Some(W {
            gen,
            locs: Vec::new(),
            ts: Vec::new(),
            h: View::default(),
            sc: View::default(),
            streak: 0,
        });
    }
}

pub fn stop() {
    let _q = crate::alloc::quiet();
    unsafe { *WW.0.get() = None }
}

fn rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}
fn acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}

/// The view of whoever is acting: `None` is the main context, which sees everything.
fn me(w: &mut W) -> Option<usize> {
    let id = crate::k2::current()?;
    while w.ts.len() <= id {
        w.ts.push(T::default());
    }
    Some(id)
}

fn all(w: &W) -> View {
    View(w.locs.iter().map(|l| l.ts).collect())
}

fn index(w: &mut W, l: &Loc, val: u64) -> Option<usize> {
    let id = l.0.load(Ordering::Relaxed);
    if id >> 24 == w.gen {
        return Some((id & 0xff_ffff) as usize);
    }
    if w.locs.len() >= MAX_LOCS {
        stop();
        return None;
    }
    let i = w.locs.len();
    w.locs.push(LocE {
        ts: 0,
        msgs: VecDeque::from([Msg {
            ts: 0,
            val,
            view: View::default(),
        }]),
        lock: View::default(),
    });
    l.0.store(w.gen << 24 | i as u64, Ordering::Relaxed);
    Some(i)
}

fn push(w: &mut W, x: usize, val: u64, view: View) {
    let e = &mut w.locs[x];
    e.ts += 1;
    let ts = e.ts;
    let mut view = view;
    view.raise(x, ts);
    if e.msgs.len() >= MAX_MSGS {
        e.msgs.pop_front();
    }
    e.msgs.push_back(Msg { ts, val, view });
}

pub fn load(l: &Loc, latest: u64, o: Ordering) -> u64 {
    let Some(w) = w() else { return latest };
    let _q = crate::alloc::quiet();
    let Some(x) = index(w, l, latest) else { return latest };
    let Some(id) = me(w) else { return latest };
    let mut low = w.ts[id].v.get(x);
    if o == Ordering::SeqCst {
        low = low.max(w.sc.get(x));
    }
    let e = &w.locs[x];
    let from = e.msgs.iter().position(|m| m.ts >= low).unwrap();
    let n = e.msgs.len() - from;
    let mut at = e.msgs.len() - 1;
    if n > 1 {
        if w.streak < 4 && chance(St::Sched, 1, 3) {
            at -= 1 + sched(n as u32 - 1) as usize;
            w.streak += 1;
            cnt!("fault.stale_read");
            crate::tr!("an older value is read: {} of {} back", e.msgs.len() - 1 - at, n - 1);
        } else {
            w.streak = 0;
        }
    }
    let m = &e.msgs[at];
    debug_assert!(at + 1 < e.msgs.len() || m.val == latest);
    let t = &mut w.ts[id];
    t.v.raise(x, m.ts);
    if acq(o) {
        t.v.join(&m.view);
    } else {
        t.acq.join(&m.view);
    }
    m.val
}

pub fn store(l: &Loc, old: u64, new: u64, o: Ordering) {
    let Some(w) = w() else { return };
    let _q = crate::alloc::quiet();
    let Some(x) = index(w, l, old) else { return };
    write(w, x, new, o, None);
}

fn write(w: &mut W, x: usize, new: u64, o: Ordering, sequence: Option<View>) {
    let ts = w.locs[x].ts + 1;
    let mut view = match me(w) {
        None => all(w),
        Some(id) => {
            let t = &mut w.ts[id];
            t.v.raise(x, ts);
            if rel(o) {
                t.v.clone()
            } else {
                t.rel.clone()
            }
        }
    };
    if let Some(s) = sequence {
        view.join(&s);
    }
    if o == Ordering::SeqCst {
        w.sc.raise(x, ts);
    }
    push(w, x, new, view);
}

pub fn rmw(l: &Loc, old: u64, new: Option<u64>, o: Ordering) {
    let Some(w) = w() else { return };
    let _q = crate::alloc::quiet();
    let Some(x) = index(w, l, old) else { return };
    let m = w.locs[x].msgs.back().unwrap();
    let (ts, view) = (m.ts, m.view.clone());
    if let Some(id) = me(w) {
        let t = &mut w.ts[id];
        t.v.raise(x, ts);
        if acq(o) {
            t.v.join(&view);
        } else {
            t.acq.join(&view);
        }
    }
    if let Some(new) = new {
        write(w, x, new, o, Some(view));
    }
}

pub fn fence(o: Ordering) {
    let Some(w) = w() else { return };
    let _q = crate::alloc::quiet();
    let Some(id) = me(w) else { return };
    let t = &mut w.ts[id];
    if acq(o) {
        let a = t.acq.clone();
        t.v.join(&a);
    }
    if o == Ordering::SeqCst {
        t.v.join(&w.sc);
        w.sc.join(&t.v);
    }
    if rel(o) {
        t.rel = t.v.clone();
    }
}

pub fn acquire(l: &Loc) {
    let Some(w) = w() else { return };
    let _q = crate::alloc::quiet();
    let Some(x) = index(w, l, 0) else { return };
    if let Some(id) = me(w) {
        w.ts[id].v.join(&w.locs[x].lock);
    }
}

pub fn release(l: &Loc) {
    let Some(w) = w() else { return };
    let _q = crate::alloc::quiet();
    let Some(x) = index(w, l, 0) else { return };
    let v = match me(w) {
        None => all(w),
        Some(id) => w.ts[id].v.clone(),
    };
    w.locs[x].lock.join(&v);
}

/// The acting thread and the harness agree on everything either has seen.
pub fn sync() {
    let Some(w) = w() else { return };
    let _q = crate::alloc::quiet();
    match me(w) {
        None => w.h = all(w),
        Some(id) => {
            w.ts[id].v.join(&w.h);
            w.h.join(&w.ts[id].v);
        }
    }
}

/// A thread comes into being: it has seen what its creator has.
pub fn spawned(id: usize) {
    let Some(w) = w() else { return };
    let _q = crate::alloc::quiet();
    let v = match me(w) {
        None => all(w),
        Some(c) => w.ts[c].v.clone(),
    };
    while w.ts.len() <= id {
        w.ts.push(T::default());
    }
    w.ts[id].v = v;
}

pub fn woken(id: usize) {
    let Some(w) = w() else { return };
    let _q = crate::alloc::quiet();
    let v = match me(w) {
        None => w.h.clone(),
        Some(c) => w.ts[c].v.clone(),
    };
    w.ts[id].token.join(&v);
}

pub fn unparked() {
    let Some(w) = w() else { return };
    let _q = crate::alloc::quiet();
    if let Some(id) = me(w) {
        let v = w.ts[id].token.clone();
        w.ts[id].v.join(&v);
    }
}
