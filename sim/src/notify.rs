//! C14 and C15: the notifier, in kernel 2, with wakers the simulator owns.

use crate::ctl::{fault, pick, small, wchance, work, St};
use crate::{check, cnt, ctl, ev, k2, violate};
use parcom_internals::future::notify::{Notify, Wait};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Weak};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Last {
    Never,
    Pending(u64),
    Ready,
}

struct WaitInfo {
    c0: u64,
    c1: u64,
    polls: u32,
    in_poll: bool,
    last: Last,
    dropping: bool,
    gone: Option<u64>,
    /// number of the waker of the latest poll and how often it was woken since that poll began
    waker: u64,
    woken: u32,
    wakers: Vec<(u64, Weak<NW>)>,
    /// the harness itself holds this one
    held: u64,
}

struct SendInfo {
    s0: u64,
    s1: Option<u64>,
    woke: Vec<usize>,
    /// waits that were pending and idle when it began: (wait, polls)
    owes: Vec<(usize, u32)>,
}

struct State {
    notify: Notify,
    clock: Cell<u64>,
    inflight: Cell<u32>,
    wseq: Cell<u64>,
    waits: RefCell<Vec<WaitInfo>>,
    sends: RefCell<Vec<SendInfo>>,
    /// how many of them are going on
    open: Cell<u32>,
    /// per simulated thread: the sends it is executing
    stack: RefCell<Vec<Vec<usize>>>,
    reenter: Cell<u32>,
    strict: bool,
    depth: Cell<u32>,
}

thread_local! {
    static SCEN: RefCell<Option<Rc<State>>> = const { RefCell::new(None) };
}

struct NW {
    wait: usize,
    no: u64,
    inner: Option<Waker>,
}

/// A waker that also runs code of its own when it is cloned or released, as the waker of a task does when
/// it owns the task.
fn waker(a: Arc<NW>) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(a) as *const (), &VT)) }
}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake_by_ref, vt_drop);
unsafe fn vt_clone(p: *const ()) -> RawWaker {
    Arc::increment_strong_count(p as *const NW);
    touched("fault.reentrant_clone");
    RawWaker::new(p, &VT)
}
unsafe fn vt_wake(p: *const ()) {
    let a = Arc::from_raw(p as *const NW);
    a.woken();
}
unsafe fn vt_wake_by_ref(p: *const ()) {
    let a = std::mem::ManuallyDrop::new(Arc::from_raw(p as *const NW));
    a.woken();
}
unsafe fn vt_drop(p: *const ()) {
    drop(Arc::from_raw(p as *const NW));
    touched("fault.reentrant_release");
}
fn touched(what: &'static str) {
    let Some(st) = SCEN.with(|s| s.borrow().clone()) else { return };
    if st.reenter.get() > 0 && st.depth.get() < 3 && fault(1, 12) {
        if what == "fault.reentrant_clone" {
            cnt!("fault.reentrant_clone");
        } else {
            cnt!("fault.reentrant_release");
        }
        ev!(0x37, 0, 0; "releasing or cloning a waker runs code of its own");
        st.reentry();
    }
}
impl NW {
    fn woken(&self) {
        let Some(st) = SCEN.with(|s| s.borrow().clone()) else { return };
        st.woken(self.wait, self.no);
        if let Some(i) = &self.inner {
            let latest = st.waits.borrow()[self.wait].waker == self.no;
            if latest {
                i.wake_by_ref();
            }
        }
        st.reenter();
    }
}

impl State {
    fn tick(&self) -> u64 {
        crate::weak::sync();
        self.clock.set(self.clock.get() + 1);
        self.clock.get()
    }
    fn me(&self) -> usize {
        k2::current().map_or(0, |c| c + 1)
    }
    fn enter(&self) {
        self.inflight.set(self.inflight.get() + 1);
    }
    fn leave(&self) {
        self.inflight.set(self.inflight.get() - 1);
        if self.inflight.get() == 0 {
            self.quiet();
        }
    }

    fn woken(&self, w: usize, no: u64) {
        let me = self.me();
        let cur = self.stack.borrow().get(me).and_then(|s| s.last().copied());
        ev!(0x31, w, no; "waker {no} of wait {w} is woken");
        let mut ws = self.waits.borrow_mut();
        let i = &mut ws[w];
        if i.waker == no {
            i.woken += 1;
        }
        if let (Some(s), true) = (cur, self.strict) {
            let mut ss = self.sends.borrow_mut();
            let s = &mut ss[s];
            check!(
                !s.woke.contains(&w),
                "wake:twice",
                "one notification woke wait {w} twice"
            );
            s.woke.push(w);
            if let Some(g) = i.gone {
                check!(g > s.s0, "wake:finished", "wait {w} was woken by a notification sent after it was dropped");
            }
        }
    }

    /// While nothing is in flight, the notifier holds at most one waker per pending wait.
    fn quiet(&self) {
        if !self.strict {
            return;
        }
        for (w, i) in self.waits.borrow().iter().enumerate() {
            let n: usize = i
                .wakers
                .iter()
                .map(|(no, k)| k.strong_count() - (*no == i.held && k.strong_count() > 0) as usize)
                .sum();
            let most = (i.gone.is_none() && matches!(i.last, Last::Pending(_))) as usize;
            if n > most {
                let what = if i.gone.is_some() {
                    "dropped"
                } else if most == 1 {
                    "pending"
                } else {
                    "completed or unpolled"
                };
                violate!("registrations", "{n} waker(s) are kept for wait {w}, which is {what}");
            }
        }
        cnt!("probe.quiescent_check");
    }

    fn reenter(self: &Rc<Self>) {
        let r = self.reenter.get();
        if r == 0 || self.depth.get() >= 3 || !fault(r, 16) {
            return;
        }
        cnt!("fault.reentrant_waker");
        self.reentry();
    }

    fn reentry(self: &Rc<Self>) {
        self.depth.set(self.depth.get() + 1);
        match pick(St::Fault, 4) {
            0 => {
                let w = self.create();
                drop_wait(self, w);
            }
            1 => {
                let mut w = self.create();
                poll_wait(self, &mut w, true, None);
                drop_wait(self, w);
            }
            2 => self.send(),
            _ => {
                let mut w = self.create();
                poll_wait(self, &mut w, true, None);
                self.send();
                poll_wait(self, &mut w, true, None);
                drop_wait(self, w);
            }
        }
        self.depth.set(self.depth.get() - 1);
    }

    fn create(self: &Rc<Self>) -> Slot {
        self.enter();
        let c0 = self.tick();
        let w = self.notify.wait();
        // the state outlives every slot: it is dropped after all simulated threads ended
        let w: Wait<'static> = unsafe { std::mem::transmute(w) };
        let c1 = self.tick();
        let mut ws = self.waits.borrow_mut();
        ws.push(WaitInfo {
            c0,
            c1,
            polls: 0,
            in_poll: false,
            last: Last::Never,
            dropping: false,
            gone: None,
            waker: 0,
            woken: 0,
            wakers: Vec::new(),
            held: 0,
        });
        let id = ws.len() - 1;
        drop(ws);
        ev!(0x32, id, 0; "wait {id} created");
        self.leave();
        Slot {
            id,
            fut: Box::pin(w),
            cur: None,
        }
    }

    fn send(self: &Rc<Self>) {
        self.enter();
        let s0 = self.tick();
        let id = {
            let owes = self
                .waits
                .borrow()
                .iter()
                .enumerate()
                .filter(|(_, i)| !i.dropping && !i.in_poll && matches!(i.last, Last::Pending(_)) && i.woken == 0)
                .map(|(w, i)| (w, i.polls))
                .collect();
            let mut ss = self.sends.borrow_mut();
            ss.push(SendInfo {
                s0,
                s1: None,
                woke: Vec::new(),
                owes,
            });
            ss.len() - 1
        };
        let me = self.me();
        {
            let mut st = self.stack.borrow_mut();
            if st.len() <= me {
                st.resize_with(me + 1, Vec::new);
            }
            st[me].push(id);
        }
        ev!(0x33, id, 0; "notification {id} starts");
        self.open.set(self.open.get() + 1);
        self.notify.send();
        self.open.set(self.open.get() - 1);
        self.stack.borrow_mut()[me].pop();
        let s1 = self.tick();
        ev!(0x34, id, 0; "notification {id} done");
        {
            let mut ss = self.sends.borrow_mut();
            ss[id].s1 = Some(s1);
            if self.open.get() == 0 {
                let ws = self.waits.borrow();
                for (w, polls) in std::mem::take(&mut ss[id].owes) {
                    let i = &ws[w];
                    if !i.dropping && i.polls == polls {
                        check!(
                            i.woken > 0,
                            "wake:lost",
                            "notification {id} ended, but wait {w}, pending since before it, was not woken through the waker of its latest poll"
                        );
                    }
                }
            }
        }
        self.leave();
    }

    /// At the end: nothing is in flight and every notification has ended.
    fn settle(&self) {
        let ss = self.sends.borrow();
        for (w, i) in self.waits.borrow().iter().enumerate() {
            if i.gone.is_some() || !matches!(i.last, Last::Pending(_)) {
                continue;
            }
            if let Some(s) = ss.iter().position(|s| s.s0 > i.c1) {
                check!(
                    i.woken > 0,
                    "wake:lost",
                    "wait {w} is pending, notification {s} was sent after it was created, and nobody will wake it"
                );
            }
        }
    }
}

struct Slot {
    id: usize,
    fut: Pin<Box<Wait<'static>>>,
    cur: Option<(u64, Waker)>,
}

fn drop_wait(st: &Rc<State>, s: Slot) {
    st.enter();
    ev!(0x35, s.id, 0; "wait {} dropped", s.id);
    let Slot { id, fut, cur } = s;
    st.waits.borrow_mut()[id].dropping = true;
    drop(fut);
    {
        let t = st.tick();
        let mut ws = st.waits.borrow_mut();
        ws[id].gone = Some(t);
        ws[id].held = 0;
    }
    drop(cur);
    st.leave();
}

fn poll_wait(st: &Rc<State>, s: &mut Slot, fresh: bool, inner: Option<Waker>) -> bool {
    st.enter();
    let p0 = st.tick();
    if fresh || s.cur.is_none() {
        let no = st.wseq.get() + 1;
        st.wseq.set(no);
        let a = Arc::new(NW { wait: s.id, no, inner });
        let weak = Arc::downgrade(&a);
        let old = s.cur.replace((no, waker(a)));
        {
            let mut ws = st.waits.borrow_mut();
            ws[s.id].wakers.push((no, weak));
            ws[s.id].held = no;
        }
        drop(old);
    }
    {
        let mut ws = st.waits.borrow_mut();
        let i = &mut ws[s.id];
        i.polls += 1;
        i.in_poll = true;
        i.waker = s.cur.as_ref().unwrap().0;
        i.woken = 0;
    }
    let wk = s.cur.as_ref().unwrap().1.clone();
    let mut cx = Context::from_waker(&wk);
    let r = s.fut.as_mut().poll(&mut cx);
    drop(wk);
    let p1 = st.tick();
    let ready = r.is_ready();
    ev!(0x36, s.id, ready; "wait {} polled: {}", s.id, if ready { "ready" } else { "pending" });
    {
        let ss = st.sends.borrow();
        let mut ws = st.waits.borrow_mut();
        let i = &mut ws[s.id];
        i.in_poll = false;
        match r {
            Poll::Ready(()) => {
                check!(
                    ss.iter().any(|x| x.s0 < p1 && x.s1.map_or(true, |e| e > i.c0)),
                    "invented",
                    "wait {} completed, but no notification was sent since it was created",
                    s.id
                );
                i.last = Last::Ready;
                i.woken = 0;
            }
            Poll::Pending => {
                if let Some(k) = ss.iter().position(|x| x.s0 > i.c1 && x.s1.is_some_and(|e| e < p0)) {
                    violate!(
                        "lost",
                        "wait {} is pending, but notification {k} was sent after it was created and before this poll",
                        s.id
                    );
                }
                check!(
                    i.last != Last::Ready,
                    "lost",
                    "wait {} is pending after it had completed",
                    s.id
                );
                i.last = Last::Pending(p1);
            }
        }
    }
    st.leave();
    ready
}

const CROWD: [u32; 6] = [9, 17, 33, 65, 130, 270];
const BURST: [u32; 10] = [255, 256, 257, 512, 768, 1 << 12, 65535, 65536, 65537, 131072];

fn script(st: Rc<State>, name: usize, ops: Vec<(u8, u8, bool)>) {
    let base = k2::fresh_waker();
    let mut slots: Vec<Slot> = Vec::new();
    for (op, k, fresh) in ops {
        let at = if slots.is_empty() { 0 } else { k as usize % slots.len() };
        match op {
            0 | 1 if slots.len() < 4 => slots.push(st.create()),
            2 | 3 if !slots.is_empty() => {
                poll_wait(&st, &mut slots[at], fresh, Some(base.clone()));
            }
            4 if !slots.is_empty() => {
                let s = slots.swap_remove(at);
                drop_wait(&st, s);
            }
            5 | 6 if !slots.is_empty() => {
                // wait for it; a slot that is ready already may not be polled again
                let mut s = slots.swap_remove(at);
                if st.waits.borrow()[s.id].last != Last::Ready {
                    let mut n = 0;
                    let mut fr = fresh;
                    while !poll_wait(&st, &mut s, fr, Some(base.clone())) {
                        if !k2::park() {
                            break;
                        }
                        n += 1;
                        check!(n < 2000, "livelock", "wait {} was woken {n} times without completing", s.id);
                        fr = fault(1, 4);
                        if fault(1, 16) {
                            cnt!("fault.cancel");
                            break;
                        }
                    }
                }
                drop_wait(&st, s);
            }
            7 | 8 => st.send(),
            // many waits at once
            40.. => {
                for _ in 0..CROWD[op as usize - 40] {
                    let mut s = st.create();
                    poll_wait(&st, &mut s, true, Some(base.clone()));
                    slots.push(s);
                }
                cnt!("probe.crowd");
            }
            30.. => {
                // in each group of eight of them: drop, poll again or leave alone
                for i in (0..slots.len()).rev() {
                    match (k >> (i % 4)) & 3 {
                        0 => drop_wait(&st, slots.swap_remove(i)),
                        1 if st.waits.borrow()[slots[i].id].last != Last::Ready => {
                            poll_wait(&st, &mut slots[i], fresh, Some(base.clone()));
                        }
                        _ => {}
                    }
                }
            }
            // so many that a counter of 8 or 16 bits comes round
            20.. => {
                cnt!("fault.notification_burst");
                for _ in 0..BURST[op as usize - 20] {
                    st.send();
                }
            }
            _ => k2::yield_point(),
        }
    }
    let _ = name;
    for s in slots {
        drop_wait(&st, s);
    }
    drop(base);
}

fn scenario(strict: bool) {
    let st = Rc::new(State {
        notify: Notify::new(),
        clock: Cell::new(0),
        inflight: Cell::new(0),
        wseq: Cell::new(0),
        waits: RefCell::new(Vec::new()),
        sends: RefCell::new(Vec::new()),
        open: Cell::new(0),
        stack: RefCell::new(Vec::new()),
        reenter: Cell::new(0),
        strict,
        depth: Cell::new(0),
    });
    if strict && fault(1, 2) {
        st.reenter.set(1 + pick(St::Fault, 12));
    }
    SCEN.with(|s| *s.borrow_mut() = Some(st.clone()));
    let n = 1 + work(4) as usize;
    let mut plans = Vec::new();
    for _ in 0..n {
        let len = 2 + small(St::Work, 14) as usize + work(4) as usize;
        let bias = work(3);
        let v: Vec<(u8, u8, bool)> = (0..len)
            .map(|_| {
                let op = match bias {
                    1 => [0, 2, 4, 5, 5, 0, 2, 3, 6][work(9) as usize],
                    2 => [7, 8, 7, 9, 7, 0, 5][work(7) as usize],
                    _ => work(10) as u8,
                };
                (op, work(4) as u8, wchance(1, 2))
            })
            .collect();
        plans.push(v);
    }
    let burst = !strict && wchance(1, 1500);
    if burst {
        // a burst of notifications somewhere, in particular between creating and polling a wait
        let b = 20 + if wchance(1, 12) { work(10) } else { work(6) } as u8;
        let p = &mut plans[0];
        let k = work(p.len() as u32 + 1) as usize;
        p.insert(k, (b, 0, false));
        if wchance(1, 2) {
            p.truncate(k + 1);
            p.push((2, work(4) as u8, wchance(1, 2)));
            if wchance(1, 2) {
                plans.truncate(1);
            }
        }
    }
    let crowd = !burst && wchance(1, 150);
    if crowd {
        let i = work(n as u32) as usize;
        let p = &mut plans[i];
        let k = work(p.len() as u32 + 1) as usize;
        let c = 40 + ctl::small(St::Work, 5) as u8;
        p.insert(k, (c, 0, true));
        for _ in 0..work(4) {
            let at = k + 1 + work((p.len() - k) as u32) as usize;
            let op = [30, 30, 7, 40 + ctl::small(St::Work, 3) as u8][work(4) as usize];
            p.insert(at, (op, work(255) as u8, wchance(1, 2)));
        }
    }
    ctl::set_context(|| format!("one notifier; threads run {plans:?} as (operation, slot, new waker); 0-1 create, 2-3 poll, 4 drop, 5-6 await, 7-8 notify, 20.. notify very often, 30 drop or poll all, 40.. create and poll many"));
    {
        let sim = k2::Sim::new();
        if burst {
            sim.max_steps(20_000_000);
        }
        for (i, p) in plans.into_iter().enumerate() {
            let st = st.clone();
            sim.spawn("task", move || script(st, i, p));
        }
        let mut rounds = 0;
        loop {
            let left = sim.run();
            check!(
                st.inflight.get() == 0,
                "deadlock",
                "a call on the notifier never returned ({} in flight)",
                st.inflight.get()
            );
            st.settle();
            if left.is_empty() {
                break;
            }
            rounds += 1;
            check!(rounds < 60, "stuck", "tasks keep waiting although a notification is sent again and again");
            let s2 = st.clone();
            sim.spawn("closer", move || s2.send());
        }
        sim.finish();
    }
    SCEN.with(|s| *s.borrow_mut() = None);
    let (w, s) = (st.waits.borrow().len(), st.sends.borrow().len());
    cnt!("notify.waits", w);
    cnt!("notify.sends", s);
    let live: Vec<Weak<NW>> = st.waits.borrow().iter().flat_map(|i| i.wakers.iter().map(|w| w.1.clone())).collect();
    drop(st);
    let n = live.iter().filter(|w| w.strong_count() > 0).count();
    check!(n == 0, "value:leak", "{n} waker(s) outlive the notifier");
}

pub fn c14() {
    scenario(false);
}
pub fn c15() {
    scenario(true);
}
