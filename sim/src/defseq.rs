//! C12, C13: the runner's sequence while another thread loads its buffer.

use crate::ctl::{fault, pick, sched, small, wchance, work, St};
use crate::load::{gen_plan, load_once, Big, Item, Plan, Policy, Prof, Res, SimSource, Tk, Unit, World};
use crate::{check, cnt, ctl, ev, k2, violate};
use parcom_core::{SegmentStream, Sequence};
use parcom_internals::future::notify::Notify;
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{SequenceBuilder, SequenceLoader};
use parcom_sequences::generic::{GenericSequenceBuilder, GenericSequenceLoader};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

type Seq<T> = DefaultSequence<SimSource<T>, GenericSequenceBuilder<Policy>>;
type Loader<T> = GenericSequenceLoader<T, SimSource<T>, Policy>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Waiting {
    No,
    Segment { at: usize },
    Advance { to: usize },
}

#[derive(Clone, Copy)]
struct Weights {
    /// chance in 16 that a new operation is an advance
    advance: u32,
    /// advances may ask for more than is there
    beyond: bool,
    drop_advance: bool,
}

struct St8 {
    w: Rc<World>,
    /// sizes of the segments appended, in order
    segs: RefCell<Vec<usize>>,
    committed: Cell<usize>,
    signalled: Cell<usize>,
    /// set right before the end is marked; nothing is appended after that
    ended: Cell<bool>,
    end_signalled: Cell<bool>,
    waiting: Cell<Waiting>,
}

fn make<T: Item>(w: &Rc<World>, policy: Policy) -> (Seq<T>, Loader<T>) {
    let src = || SimSource::<T> {
        w: w.clone(),
        _p: std::marker::PhantomData,
    };
    let (buf, loader) = GenericSequenceBuilder::sim_new(policy).build(src());
    // The sequence owns a loader of its own that nobody drives: the runner is not implemented.
    let (_, idle) = GenericSequenceBuilder::sim_new(Policy::Exact).build(src());
    (DefaultSequence::new(buf, idle), loader)
}

/// Appends, signals and marks the end, on its own thread.
fn load_all<T: Item>(st: &St8, mut l: Loader<T>, signal: &Notify, done: &parcom_sim_std::sync::atomic::AtomicBool, never_ends: bool, p: Prof) {
    let loads = 1 + small(St::Work, 12);
    let mut errs = 0;
    let send = |why: &str| {
        st.signalled.set(st.committed.get());
        let e = st.ended.get();
        if e {
            st.end_signalled.set(true);
        }
        ev!(0x90, st.committed.get(), e as u64; "loader: signals ({why}); {} item(s) appended", st.committed.get());
        signal.send();
    };
    let commit = |n: usize| {
        st.segs.borrow_mut().push(n);
        st.committed.set(st.committed.get() + n);
    };
    let mut unsignalled = false;
    let mut left = loads;
    loop {
        let finish = left == 0;
        if finish && never_ends {
            break;
        }
        let plan = if finish {
            Plan::Finish { pre: sched(3) as u8 / 2, post: 0 }
        } else {
            gen_plan(&p, &mut errs)
        };
        *st.w.plan.borrow_mut() = Some(plan);
        st.w.acted.set(None);
        let had = st.w.accepted.borrow().len();
        match load_once(&mut l, p.interrupt) {
            Res::Info(i) => {
                if i.commited() > 0 || i.is_done() {
                    commit(i.commited());
                    unsignalled = true;
                }
                if i.is_done() {
                    break;
                }
            }
            Res::Err(_) => {}
            Res::Abandoned | Res::Panicked => {
                st.w.accepted.borrow_mut().truncate(had);
                st.w.finished.set(false);
                continue;
            }
        }
        left = left.saturating_sub(1);
        if wchance(1, 2) {
            let n = st.w.accepted.borrow().len() - st.committed.get();
            l.force_commit();
            commit(n);
            unsignalled = true;
        }
        match sched(4) {
            0 | 1 if unsignalled => {
                send("appended");
                unsignalled = false;
            }
            2 if fault(1, 2) => {
                cnt!("fault.spurious_signal");
                send("nothing");
                unsignalled = false;
            }
            _ => {}
        }
        if sched(4) == 1 {
            k2::block_on(k2::pause());
        }
    }
    if never_ends {
        if unsignalled {
            send("appended");
        }
        return;
    }
    if unsignalled && sched(2) == 1 {
        send("appended");
    }
    if sched(4) == 1 {
        k2::block_on(k2::pause());
    }
    st.ended.set(true);
    ev!(0x91, 0, 0; "loader: marks the end");
    done.store(true, parcom_sim_std::sync::atomic::Ordering::SeqCst);
    send("end");
    if fault(1, 8) {
        cnt!("fault.spurious_signal");
        send("nothing");
    }
}

enum Step8<T> {
    /// the operation finished
    Go(T),
    /// the simulation ends
    Stop,
}

struct Reader8<'a> {
    st: &'a St8,
    pos: usize,
    /// segments read from one position on, for the comparison at the end
    log: Vec<(usize, usize)>,
}

impl Reader8<'_> {
    fn compare<T: Item>(&self, seg: &[T], at: usize) {
        let a = self.st.w.accepted.borrow();
        check!(
            at + seg.len() <= a.len(),
            "segment:extra",
            "a segment reaches item {}, {} were handed over",
            at + seg.len(),
            a.len()
        );
        for (k, i) in seg.iter().enumerate() {
            check!(
                i.is(a[at + k]),
                "segment:content",
                "item {} of the sequence is not the one appended there (read with {} item(s) already consumed)",
                at + k,
                self.pos
            );
        }
    }

    /// Reads segments until `stop` says so, the end is told, or the simulation ends; true at the end.
    fn read<T: Item>(&mut self, seq: &mut Seq<T>, mut stop: impl FnMut(usize) -> bool) -> Step8<(usize, bool)> {
        let mut segs = seq.segments();
        let mut at = self.pos;
        let mut again = 0;
        loop {
            if again == 0 && stop(at) {
                return Step8::Go((at, false));
            }
            let limit = fault(1, 5).then(|| pick(St::Fault, 4));
            self.st.waiting.set(Waiting::Segment { at });
            let out = k2::drive(segs.next(work(3) as usize), limit);
            self.st.waiting.set(Waiting::No);
            match out {
                k2::Out::Ready(Some(s)) => {
                    ev!(0x92, at, s.len(); "reader: {} item(s) from {at}", s.len());
                    check!(again == 0 || s.is_empty(), "end:early", "a segment of {} item(s) follows the end", s.len());
                    self.compare(s, at);
                    self.log.push((at, s.len()));
                    at += s.len();
                }
                k2::Out::Ready(None) => {
                    let total = self.st.w.accepted.borrow().len();
                    ev!(0x93, at, total; "reader: told the end at {at}");
                    check!(self.st.ended.get(), "end:early", "the end is told at {at}, but it has not been marked");
                    check!(at == total, "end:early", "the end is told at {at}, but {total} item(s) were appended");
                    if again == 0 && wchance(1, 4) {
                        again = 1;
                        continue;
                    }
                    return Step8::Go((at, true));
                }
                k2::Out::Dropped => cnt!("fault.request_dropped"),
                k2::Out::Cancelled => return Step8::Stop,
            }
        }
    }

    fn advance<T: Item>(&mut self, seq: Seq<T>, n: usize, may_drop: bool) -> Step8<Option<Seq<T>>> {
        let to = self.pos.saturating_add(n);
        ev!(0x94, self.pos, n; "reader: advances by {n} from {}", self.pos);
        let mut f = std::pin::pin!(seq.advance(n));
        self.st.waiting.set(Waiting::Advance { to });
        let seq = loop {
            let limit = fault(1, 5).then(|| pick(St::Fault, 4));
            match k2::drive(f.as_mut(), limit) {
                k2::Out::Ready(s) => break s,
                k2::Out::Dropped => {
                    // suspended; given up, or taken up again with another waker
                    if may_drop && fault(1, 3) {
                        cnt!("fault.advance_dropped");
                        ev!(0x95, 0, 0; "reader: gives the waiting advance up");
                        self.st.waiting.set(Waiting::No);
                        return Step8::Go(None);
                    }
                    cnt!("fault.resumed_elsewhere");
                    for _ in 0..sched(3) {
                        k2::spin();
                    }
                }
                k2::Out::Cancelled => return Step8::Stop,
            }
        };
        self.st.waiting.set(Waiting::No);
        let total = self.st.w.accepted.borrow().len();
        ev!(0x96, to, total; "reader: advanced, {total} item(s) there");
        if to <= total {
            self.pos = to;
        } else {
            check!(
                self.st.ended.get(),
                "advance:early",
                "advancing by {n} from {} completed with {total} item(s) appended and the end not marked",
                self.pos
            );
            cnt!("probe.advanced_to_end");
            self.pos = total;
        }
        self.log.clear();
        Step8::Go(Some(seq))
    }

    fn run<T: Item>(&mut self, mut seq: Seq<T>, wt: Weights) {
        let ops = 1 + small(St::Work, 16);
        for _ in 0..ops {
            if work(16) < wt.advance {
                let there = self.st.w.accepted.borrow().len().saturating_sub(self.pos) as u32;
                let n = if wt.beyond {
                    match work(10) {
                        0..=4 => work(6) as usize,
                        5 | 6 => small(St::Work, 60) as usize,
                        7 => (there + work(6)) as usize,
                        8 => work(4) as usize * 13,
                        _ => {
                            if work(6) == 0 {
                                usize::MAX
                            } else {
                                there as usize
                            }
                        }
                    }
                } else {
                    work(self.st.committed.get().saturating_sub(self.pos) as u32 + 1) as usize
                };
                match self.advance(seq, n, wt.drop_advance) {
                    Step8::Go(Some(s)) => seq = s,
                    Step8::Go(None) | Step8::Stop => return,
                }
                if wchance(1, 3) {
                    continue;
                }
            }
            let upto = self.pos + if wchance(1, 2) { small(St::Work, 40) as usize } else { 1 };
            let mut n = 0;
            match self.read(&mut seq, |at| {
                n += 1;
                at >= upto && n > 1
            }) {
                Step8::Go((_, end)) => {
                    if end && wchance(1, 2) {
                        break;
                    }
                }
                Step8::Stop => return,
            }
        }
        // to the end
        self.log.clear();
        match self.read(&mut seq, |_| false) {
            Step8::Go((at, end)) => {
                check!(end, "harness:end", "reading stopped early");
                self.boundaries(at);
            }
            Step8::Stop => {}
        }
    }

    /// The segments read are those appended, except that a part of the first may have been consumed.
    fn boundaries(&self, end: usize) {
        let mut want: Vec<(usize, usize)> = Vec::new();
        let mut at = 0;
        for n in self.st.segs.borrow().iter() {
            let (from, to) = (at.max(self.pos), at + n);
            if to > from {
                want.push((from, to - from));
            }
            at += n;
        }
        check!(at == end, "harness:segments", "{at} item(s) recorded, {end} read");
        let got: Vec<_> = self.log.iter().filter(|s| s.1 > 0).cloned().collect();
        check!(
            got == want,
            "segment:boundaries",
            "segments (start, length) {got:?} were read, {want:?} were appended"
        );
    }
}

fn body<T: Item>(wt: Weights) {
    let w = World::new();
    let policy = Policy::random();
    let never_ends = wchance(1, 4);
    let interrupt = fault(1, 4);
    let extra = wchance(1, 4);
    ctl::set_context(|| {
        format!(
            "{}; policy {policy:?}; {}{}",
            T::NAME,
            if never_ends { "the end is never marked" } else { "the end is marked" },
            if extra { "; another waiting thread" } else { "" }
        )
    });
    let (seq, loader) = make::<T>(&w, policy);
    let (signal, done) = seq.sim_signals();
    let st = St8 {
        w,
        segs: Default::default(),
        committed: Cell::new(0),
        signalled: Cell::new(0),
        ended: Cell::new(false),
        end_signalled: Cell::new(false),
        waiting: Cell::new(Waiting::No),
    };
    let sim = k2::Sim::new();
    {
        let (st, signal) = (&st, Arc::clone(&signal));
        sim.spawn("loader", move || {
            load_all(
                st,
                loader,
                &signal,
                &done,
                never_ends,
                Prof {
                    interrupt,
                    info: false,
                    threads: 0,
                },
            );
            if sched(2) == 1 {
                k2::spin();
            }
        });
    }
    {
        let st = &st;
        sim.spawn("reader", move || Reader8 { st, pos: 0, log: Vec::new() }.run(seq, wt));
    }
    if extra {
        let signal = Arc::clone(&signal);
        sim.spawn_lazy("bystander", move || {
            for _ in 0..1 + work(4) {
                let limit = fault(1, 3).then(|| 1 + pick(St::Fault, 3));
                match k2::drive(signal.wait(), limit) {
                    k2::Out::Cancelled => break,
                    _ => {}
                }
                if fault(1, 6) {
                    cnt!("fault.spurious_signal");
                    signal.send();
                }
            }
        });
    }
    drop(signal);
    let left = sim.run();
    let stuck = || match st.waiting.get() {
        Waiting::Segment { at } => format!(
            "the reader waits for a segment at {at}; {} item(s) are appended and signalled; end signalled: {}",
            st.signalled.get(),
            st.end_signalled.get()
        ),
        Waiting::Advance { to } => format!(
            "the reader waits to advance to {to}; {} item(s) are appended and signalled; end signalled: {}",
            st.signalled.get(),
            st.end_signalled.get()
        ),
        Waiting::No => "no operation of the reader is waiting".to_string(),
    };
    match left.as_slice() {
        [] => {}
        ["reader"] if !st.end_signalled.get() => {
            let ok = match st.waiting.get() {
                Waiting::Segment { at } => at >= st.signalled.get(),
                Waiting::Advance { to } => to > st.signalled.get(),
                Waiting::No => false,
            };
            check!(ok, "stuck", "{}", stuck());
            cnt!("probe.waits_for_more");
        }
        _ => violate!("stuck", "{left:?} never ended; {}", stuck()),
    }
    sim.cancel_waits();
    sim.run();
    sim.finish();
    check!(
        k2::live_wakers() == 0,
        "waker:leak",
        "{} waker(s) are still kept after everything is released",
        k2::live_wakers()
    );
}

fn by_item(wt: Weights) {
    match work(8) {
        0..=4 => body::<Tk>(wt),
        5 => body::<u8>(wt),
        6 => body::<Big>(wt),
        _ => body::<Unit>(wt),
    }
}

pub fn c12() {
    by_item(Weights {
        advance: if wchance(1, 3) { 3 } else { 0 },
        beyond: false,
        drop_advance: false,
    })
}
pub fn c13() {
    by_item(Weights {
        advance: 12,
        beyond: true,
        drop_advance: wchance(1, 3),
    })
}
