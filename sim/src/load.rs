//! C08, C09, C11: the loader and the buffer it fills, in kernel 2.

use crate::ctl::{fault, inject_panic, mix, pick, sched, small, wchance, work, Injected, St};
use crate::tok::{Tok, Zst};
use crate::{check, cnt, ctl, ev, k2, violate, weak};
use parcom_sequence_core::{BufferWriter, LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder};
use parcom_sequences::BufferStrategy;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------- items

pub trait Item: Sized + Clone + 'static {
    const NAME: &'static str;
    const ZST: bool;
    fn make(id: u64) -> Self;
    fn is(&self, id: u64) -> bool;
}
#[derive(Clone)]
pub struct Tk {
    id: u64,
    tok: Tok,
}
impl Item for Tk {
    const NAME: &'static str = "tracked items";
    const ZST: bool = false;
    fn make(id: u64) -> Self {
        Tk { id, tok: Tok::new() }
    }
    fn is(&self, id: u64) -> bool {
        self.tok.verify("reading");
        self.id == id
    }
}
impl Item for u8 {
    const NAME: &'static str = "bytes";
    const ZST: bool = false;
    fn make(id: u64) -> Self {
        (mix(id) >> 13) as u8
    }
    fn is(&self, id: u64) -> bool {
        *self == Self::make(id)
    }
}
thread_local! {
    static FUSE: Cell<u64> = const { Cell::new(0) };
}
/// Panics when released, if armed.
impl Drop for Tk {
    fn drop(&mut self) {
        if FUSE.with(|f| f.get()) == self.id && !std::thread::panicking() {
            FUSE.with(|f| f.set(0));
            cnt!("fault.panic_release");
            inject_panic();
        }
    }
}
#[derive(Clone)]
#[repr(align(32))]
pub struct Big([u64; 5]);
impl Item for Big {
    const NAME: &'static str = "large aligned items";
    const ZST: bool = false;
    fn make(id: u64) -> Self {
        Big([id, !id, mix(id), id, 7])
    }
    fn is(&self, id: u64) -> bool {
        self.0 == Self::make(id).0
    }
}
pub struct Unit(#[allow(dead_code)] Zst);
impl Clone for Unit {
    fn clone(&self) -> Self {
        Unit(Zst::new())
    }
}
impl Item for Unit {
    const NAME: &'static str = "zero-sized items";
    const ZST: bool = true;
    fn make(_: u64) -> Self {
        Unit(Zst::new())
    }
    fn is(&self, _: u64) -> bool {
        true
    }
}

// ------------------------------------------------------------------------------------- strategy

#[derive(Clone, Copy, Debug)]
pub enum Policy {
    Exact,
    AtLeast(usize),
    Pow2,
    Plus(usize),
    /// ignores the request
    Fixed(usize),
}
impl Policy {
    pub fn random() -> Policy {
        match work(8) {
            0 | 1 => Policy::Exact,
            2 | 3 => Policy::AtLeast([1, 3, 8, 16, 64][work(5) as usize]),
            4 => Policy::Pow2,
            5 => Policy::Plus(1 + work(8) as usize),
            6 => Policy::Fixed([0, 1, 2, 5, 16][work(5) as usize]),
            _ => Policy::AtLeast(1 + work(12) as usize),
        }
    }
}
impl BufferStrategy for Policy {
    fn calc_capacity(&self, min: usize) -> usize {
        match self {
            Policy::Exact => min,
            Policy::AtLeast(n) => min.max(*n),
            Policy::Pow2 => min.max(1).next_power_of_two(),
            Policy::Plus(n) => min + n,
            Policy::Fixed(n) => {
                if *n < min {
                    cnt!("fault.undersized_buffer");
                }
                *n
            }
        }
    }
}

/// A strategy behind a pointer answers like the strategy itself.
pub fn forwards(p: Policy) {
    let n = work(70) as usize;
    let want = p.calc_capacity(n);
    let (rc, arc) = (std::rc::Rc::new(p), std::sync::Arc::new(p));
    let got = [
        <&Policy as BufferStrategy>::calc_capacity(&&p, n),
        BufferStrategy::calc_capacity(&rc, n),
        BufferStrategy::calc_capacity(&arc, n),
    ];
    check!(got == [want; 3], "strategy", "behind pointers a strategy answers {got:?} for {n}, by itself {want}");
}

// --------------------------------------------------------------------------------------- source

#[derive(Clone, Copy, Debug)]
pub enum Step {
    /// push items one by one
    Push(u32),
    /// write into the spare room and set the length
    Raw(u32),
    /// give back written items
    Shrink(u8),
    /// fill the room, then one more
    Overfill,
    /// rewrite written items in place
    Swap,
    Pause(u8),
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EndK {
    Advance,
    Cancel(u32),
    Panic,
}
#[derive(Clone, Debug)]
pub enum Plan {
    /// `post`: waits between handing over and returning; more than 100: panics then
    Write { pre: u8, req: u32, steps: Vec<Step>, end: EndK, post: u8 },
    CancelNow { pre: u8, err: u32 },
    Finish { pre: u8, post: u8 },
    PanicNow { pre: u8 },
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct SrcErr(pub u32);

pub struct World {
    pub plan: RefCell<Option<Plan>>,
    pub accepted: RefCell<Vec<u64>>,
    pub written: RefCell<Vec<u64>>,
    pub next_id: Cell<u64>,
    /// a bound below which everything must be visible
    pub lower: Cell<usize>,
    /// what the source did last: None while it has not reached its last act
    pub acted: Cell<Option<EndK>>,
    pub finished: Cell<bool>,
}

impl World {
    pub fn new() -> Rc<World> {
        FUSE.with(|f| f.set(0));
        Rc::new(World {
            plan: RefCell::new(None),
            accepted: RefCell::new(Vec::new()),
            written: RefCell::new(Vec::new()),
            next_id: Cell::new(1),
            lower: Cell::new(0),
            acted: Cell::new(None),
            finished: Cell::new(false),
        })
    }
    fn fresh(&self) -> u64 {
        let n = self.next_id.get();
        self.next_id.set(n + 1);
        n
    }
}

pub struct SimSource<T> {
    pub w: Rc<World>,
    pub _p: std::marker::PhantomData<fn() -> T>,
}

/// A source that has handed over, but is slow to return or fails to.
async fn linger(post: u8) {
    for _ in 0..post % 100 {
        k2::pause().await;
    }
    if post > 100 {
        cnt!("fault.panic_source");
        ev!(0x67, 0, 0; "source: panics after handing over");
        inject_panic()
    }
}

fn same_written<T: Item, W: BufferWriter<Item = T>>(wr: &W, ids: &[u64], what: &str) {
    check!(
        wr.len() == ids.len(),
        "writer",
        "{what}: the writer holds {} item(s), {} were written",
        wr.len(),
        ids.len()
    );
    for (k, (i, id)) in wr.as_slice().iter().zip(ids).enumerate() {
        check!(i.is(*id), "writer", "{what}: written item {k} is not the one that was written");
    }
}

impl<T: Item> SequenceSource for SimSource<T> {
    type Item = T;
    type Error = SrcErr;
    type Next<'a, C>
        = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        C: 'a + SequenceControl<Item = T, Error = SrcErr>;

    fn next<'a, C>(&'a mut self, control: C, _hint: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = SrcErr>,
    {
        let w = self.w.clone();
        Box::pin(async move {
            let plan = w.plan.borrow_mut().take().expect("harness: a load without a plan");
            w.written.borrow_mut().clear();
            w.acted.set(None);
            match plan {
                Plan::Finish { pre, post } => {
                    for _ in 0..pre {
                        k2::pause().await;
                    }
                    w.finished.set(true);
                    ev!(0x60, 0, 0; "source: end");
                    let r = control.finish();
                    linger(post).await;
                    r
                }
                Plan::CancelNow { pre, err } => {
                    for _ in 0..pre {
                        k2::pause().await;
                    }
                    w.acted.set(Some(EndK::Cancel(err)));
                    cnt!("fault.source_error");
                    ev!(0x61, err, 0; "source: error {err} before writing");
                    control.cancel(SrcErr(err))
                }
                Plan::PanicNow { pre } => {
                    for _ in 0..pre {
                        k2::pause().await;
                    }
                    cnt!("fault.panic_source");
                    ev!(0x62, 0, 0; "source: panics before writing");
                    inject_panic()
                }
                Plan::Write { pre, req, steps, end, post } => {
                    for _ in 0..pre {
                        k2::pause().await;
                    }
                    let mut wr = control.request_writer(req as usize);
                    ev!(0x63, req, 0; "source: asks for room for {req}");
                    check!(wr.len() == 0, "writer", "a new writer already holds {} item(s)", wr.len());
                    check!(
                        wr.capacity() >= req as usize,
                        "room",
                        "room for {req} item(s) was asked for, {} was offered",
                        wr.capacity()
                    );
                    for s in steps {
                        let mut ids = w.written.borrow().clone();
                        let room = wr.capacity() - wr.len();
                        match s {
                            Step::Push(n) => {
                                for _ in 0..n {
                                    let room = wr.capacity() - wr.len();
                                    let id = w.fresh();
                                    match wr.push_item(T::make(id)) {
                                        Ok(()) => {
                                            check!(room > 0, "room", "a write beyond the offered room was accepted");
                                            ids.push(id)
                                        }
                                        Err(i) => {
                                            check!(room == 0, "room", "a write was refused with room for {room} more");
                                            check!(i.is(id), "writer", "a refused write handed back another item");
                                            cnt!("probe.write_refused");
                                        }
                                    }
                                }
                            }
                            Step::Raw(n) => {
                                let n = (n as usize).min(room);
                                let have = wr.len();
                                let sp = wr.spare_capacity();
                                check!(
                                    sp.len() == room,
                                    "room",
                                    "{} spare slot(s) are offered next to a room of {room}",
                                    sp.len()
                                );
                                for s in sp.iter_mut().take(n) {
                                    let id = w.fresh();
                                    s.write(T::make(id));
                                    ids.push(id);
                                }
                                unsafe { wr.set_len(have + n) };
                            }
                            Step::Shrink(n) => {
                                let to = ids.len().saturating_sub(n as usize);
                                wr.shrink_to(to);
                                ids.truncate(to);
                            }
                            Step::Overfill => {
                                if !T::ZST && room < 4096 {
                                    for _ in 0..=room {
                                        let id = w.fresh();
                                        match wr.push_item(T::make(id)) {
                                            Ok(()) => ids.push(id),
                                            Err(i) => check!(i.is(id), "writer", "a refused write handed back another item"),
                                        }
                                    }
                                    check!(
                                        wr.len() == wr.capacity(),
                                        "room",
                                        "{} of {} item(s) fit",
                                        wr.len(),
                                        wr.capacity()
                                    );
                                    cnt!("probe.write_refused");
                                }
                            }
                            Step::Swap => {
                                for (k, s) in wr.as_mut_slice().iter_mut().enumerate() {
                                    let id = w.fresh();
                                    *s = T::make(id);
                                    ids[k] = id;
                                }
                            }
                            Step::Pause(n) => {
                                for _ in 0..n {
                                    k2::pause().await;
                                }
                            }
                            Step::Panic => {
                                cnt!("fault.panic_source");
                                ev!(0x64, 0, 0; "source: panics after writing {}", ids.len());
                                inject_panic()
                            }
                        }
                        same_written(&wr, &ids, &format!("after {s:?}"));
                        *w.written.borrow_mut() = ids;
                    }
                    let n = w.written.borrow().len();
                    w.acted.set(Some(end));
                    match end {
                        EndK::Advance => {
                            ev!(0x65, n, 0; "source: hands over {n} item(s)");
                            let ids = std::mem::take(&mut *w.written.borrow_mut());
                            w.accepted.borrow_mut().extend(ids);
                            let r = wr.advance();
                            linger(post).await;
                            r
                        }
                        EndK::Cancel(err) => {
                            cnt!("fault.source_error");
                            ev!(0x66, err, n; "source: error {err} after writing {n}");
                            wr.cancel(SrcErr(err))
                        }
                        EndK::Panic => {
                            cnt!("fault.panic_source");
                            ev!(0x64, n, 1; "source: panics after writing {n}");
                            inject_panic()
                        }
                    }
                }
            }
        })
    }
}

// ---------------------------------------------------------------------------------------- plans

#[derive(Clone, Copy)]
pub struct Prof {
    pub interrupt: bool,
    pub info: bool,
    /// 0: one thread, otherwise chance in 4 of a concurrent reader
    pub threads: u32,
}

pub fn gen_plan(p: &Prof, errs: &mut u32) -> Plan {
    let pre = if sched(3) == 1 { 1 + sched(2) as u8 } else { 0 };
    if p.interrupt && fault(1, 12) {
        *errs += 1;
        return match pick(St::Fault, 2) {
            0 => Plan::CancelNow { pre, err: *errs },
            _ => Plan::PanicNow { pre },
        };
    }
    let req = match work(8) {
        0 => 0,
        1..=4 => work(6),
        5 | 6 => work(20),
        _ if wchance(1, 1500) => {
            // far beyond any small buffer or counter
            cnt!("probe.big_chunk");
            match work(8) {
                0..=3 => 250 + work(20),
                4..=6 => 1000 + work(4000),
                _ => 65_530 + work(12),
            }
        }
        _ => work(120),
    };
    let mut steps = Vec::new();
    for _ in 0..1 + small(St::Work, 5) {
        let n = match work(4) {
            0 => req,
            1 => work(req + 1),
            _ => work(8),
        };
        steps.push(match work(10) {
            0..=3 => Step::Push(n),
            4 | 5 => Step::Raw(n),
            6 => Step::Push(n),
            7 => Step::Shrink(work(4) as u8),
            8 => {
                if wchance(1, 2) {
                    Step::Overfill
                } else {
                    Step::Swap
                }
            }
            _ => Step::Push(1),
        });
        if sched(4) == 1 {
            steps.push(Step::Pause(1 + sched(2) as u8));
        }
        if p.interrupt && fault(1, 40) {
            steps.push(Step::Panic);
        }
    }
    let end = if p.interrupt && fault(1, 6) {
        *errs += 1;
        EndK::Cancel(*errs)
    } else if p.interrupt && fault(1, 20) {
        EndK::Panic
    } else {
        EndK::Advance
    };
    let post = gen_post(p);
    Plan::Write { pre, req, steps, end, post }
}
fn gen_post(p: &Prof) -> u8 {
    let n = if sched(6) == 1 { 1 + sched(2) as u8 } else { 0 };
    if p.interrupt && fault(1, 20) {
        101 + n
    } else {
        n
    }
}

// --------------------------------------------------------------------------------------- reader

pub struct Reader<T> {
    pub buf: GenericSequenceBuffer<T>,
    pub pos: usize,
    pub seen: usize,
    /// where the segments seen so far end
    pub ends: Vec<usize>,
}

impl<T: Item> Reader<T> {
    fn compare(&self, w: &World, seg: &[T], at: usize) {
        let a = w.accepted.borrow();
        check!(
            at + seg.len() <= a.len(),
            "visible:extra",
            "{} item(s) are visible, {} were handed over",
            at + seg.len(),
            a.len()
        );
        for (k, i) in seg.iter().enumerate() {
            check!(
                i.is(a[at + k]),
                "visible:content",
                "item {} of the sequence is not the one handed over as number {}",
                at + k,
                at + k
            );
        }
    }
    /// Reads up to `limit` segments; returns how far it saw.
    fn read(&mut self, w: &World, limit: usize, again: u32) -> usize {
        weak::sync();
        let low = w.lower.get().max(self.seen);
        let mut at = self.pos;
        let mut it = self.buf.segments();
        let mut n = 0;
        let mut retry = again;
        let mut complete = false;
        let mut ends = Vec::new();
        let mut held: Vec<(&[T], usize)> = Vec::new();
        while n < limit {
            match it.next() {
                Some(s) => {
                    self.compare(w, s, at);
                    if again > 0 && held.len() < 64 {
                        held.push((s, at));
                    }
                    at += s.len();
                    ends.push(at);
                    n += 1;
                }
                None => {
                    complete = true;
                    if retry == 0 {
                        break;
                    }
                    retry -= 1;
                    cnt!("probe.iterator_resumed");
                    k2::yield_point();
                    // what was handed out stays as it was while it is borrowed
                    for (s, at) in &held {
                        self.compare(w, s, *at);
                    }
                }
            }
        }
        drop(held);
        for e in ends {
            if self.ends.last().is_none_or(|l| *l < e) {
                self.ends.push(e);
            }
        }
        ev!(0x70, at, n; "reader: sees {at} item(s) in {n} segment(s) from {}", self.pos);
        if complete {
            check!(
                at >= low,
                "visible:missing",
                "only {at} item(s) are visible, {low} were before"
            );
            self.seen = self.seen.max(at);
        }
        at
    }
    /// Everything visible now.
    pub fn visible(&mut self, w: &World) -> usize {
        self.read(w, usize::MAX, 0)
    }
    fn advance(&mut self, w: &World, n: usize) {
        weak::sync();
        let low = w.lower.get().max(self.seen);
        let short = self.buf.advance(n);
        let high = w.accepted.borrow().len();
        check!(short <= n, "advance", "advancing by {n} reports a shortfall of {short}");
        let to = self.pos + (n - short);
        ev!(0x71, n, short; "reader: advances by {n} from {}, short by {short}", self.pos);
        check!(
            short == 0 || to >= low,
            "advance",
            "advancing by {n} from {} stopped at {to}, but {low} item(s) were there",
            self.pos
        );
        check!(to <= high, "advance", "advancing by {n} from {} passed the {high} item(s) handed over", self.pos);
        if short > 0 {
            cnt!("probe.advance_shortfall");
            self.seen = self.seen.max(to);
        }
        self.pos = to;
    }
    fn act(&mut self, w: &World) {
        match work(8) {
            0 | 1 => {
                self.visible(w);
            }
            2 => {
                let k = work(4) as usize;
                self.read(w, k, 0);
            }
            3 | 4 => self.advance(w, work(6) as usize),
            5 => self.advance(w, small(St::Work, 200) as usize),
            6 => {
                let n = 1 + work(4);
                self.read(w, usize::MAX, n);
            }
            _ => k2::yield_point(),
        }
    }
}

pub enum Res {
    Info(LoadInfo),
    Err(SrcErr),
    Abandoned,
    Panicked,
}

/// One load, possibly abandoned or unwinding.
pub fn load_once<L>(l: &mut L, interrupt: bool) -> Res
where
    L: SequenceLoader<Error = SrcErr>,
{
    let limit = (interrupt && fault(1, 6)).then(|| pick(St::Fault, 4));
    if limit == Some(0) {
        cnt!("fault.load_never_polled");
    }
    match catch_unwind(AssertUnwindSafe(|| k2::drive(l.load(), limit))) {
        Ok(k2::Out::Ready(Ok(i))) => Res::Info(i),
        Ok(k2::Out::Ready(Err(e))) => Res::Err(e),
        Ok(k2::Out::Dropped) => {
            cnt!("fault.load_abandoned");
            Res::Abandoned
        }
        Ok(k2::Out::Cancelled) => violate!("harness:cancelled", "a load was cancelled"),
        Err(p) => {
            check!(p.is::<Injected>(), "panic", "a load panicked outside an injected panic");
            cnt!("fault.panic_unwound");
            Res::Panicked
        }
    }
}

fn body<T: Item>(p: Prof) {
    let w = World::new();
    let policy = Policy::random();
    forwards(policy);
    let builder = GenericSequenceBuilder::sim_new(policy);
    let (buf, mut loader) = builder.build(SimSource::<T> {
        w: w.clone(),
        _p: std::marker::PhantomData,
    });
    let loads = 1 + if wchance(1, 3000) { 200 + work(400) } else { small(St::Work, 24) };
    let concurrent = p.threads > 0 && sched(4) >= 4 - p.threads;
    let never_ends = wchance(1, 8);
    ctl::set_context(|| format!("{}; policy {policy:?}; {loads} loads; {}", T::NAME, if concurrent { "concurrent reader" } else { "one thread" }));
    let reader = RefCell::new(Reader {
        buf,
        pos: 0,
        seen: 0,
        ends: Vec::new(),
    });
    let done = Cell::new(false);
    let sim = k2::Sim::new();
    {
        let (w, reader, done) = (w.clone(), &reader, &done);
        sim.spawn("loader", move || {
            let mut errs = 0;
            let mut left = loads;
            let mut again = work(3) / 2;
            loop {
                let before = if concurrent { 0 } else { reader.borrow_mut().visible(&w) };
                let finish = left == 0;
                if finish && never_ends {
                    break;
                }
                let plan = if finish { Plan::Finish { pre: sched(3) as u8 / 2, post: gen_post(&p) } } else { gen_plan(&p, &mut errs) };
                crate::tr!("load: {plan:?}");
                *w.plan.borrow_mut() = Some(plan);
                w.acted.set(None);
                let had = w.accepted.borrow().len();
                let r = load_once(&mut loader, p.interrupt);
                cnt!("load.loads");
                if matches!(r, Res::Abandoned | Res::Panicked) {
                    // nothing of this load counts, even if the source had handed it over
                    if w.accepted.borrow().len() > had {
                        cnt!("fault.interrupted_after_handing_over");
                    }
                    w.accepted.borrow_mut().truncate(had);
                    w.finished.set(false);
                }
                let after = if concurrent { 0 } else { reader.borrow_mut().visible(&w) };
                let acc = w.accepted.borrow().len();
                match r {
                    Res::Info(i) => {
                        ev!(0x72, i.commited(), i.uncommited(); "load: committed {}, uncommitted {}, capacity {}, done {}", i.commited(), i.uncommited(), i.buffer_capacity(), i.is_done());
                        check!(
                            !matches!(w.acted.get(), Some(EndK::Cancel(_))),
                            "error:lost",
                            "the source failed, but the load reports success"
                        );
                        if p.info {
                            check!(
                                i.is_done() == w.finished.get(),
                                "info:done",
                                "the load reports done = {}, the source ended: {}",
                                i.is_done(),
                                w.finished.get()
                            );
                            if !concurrent {
                                check!(
                                    i.commited() == after - before,
                                    "info:committed",
                                    "{} item(s) are reported as committed, the sequence grew by {}",
                                    i.commited(),
                                    after - before
                                );
                                check!(
                                    i.uncommited() == acc - after,
                                    "info:uncommitted",
                                    "{} item(s) are reported as uncommitted, {} are accepted and not readable",
                                    i.uncommited(),
                                    acc - after
                                );
                            }
                            check!(
                                i.buffer_capacity() >= i.uncommited(),
                                "info:capacity",
                                "a capacity of {} is reported for {} uncommitted item(s)",
                                i.buffer_capacity(),
                                i.uncommited()
                            );
                            if i.is_done() {
                                check!(
                                    i.uncommited() == 0 && i.buffer_capacity() == 0,
                                    "info:done",
                                    "the last load reports {} uncommitted item(s) and a capacity of {}",
                                    i.uncommited(),
                                    i.buffer_capacity()
                                );
                            }
                            if concurrent {
                                w.lower.set(w.lower.get() + i.commited());
                                weak::sync();
                            }
                        }
                        if finish {
                            check!(
                                i.is_done(),
                                "info:done",
                                "the source ended, but the load does not report it"
                            );
                            w.lower.set(acc);
                    weak::sync();
                            if !concurrent {
                                check!(
                                    after == acc,
                                    "visible:missing",
                                    "the source has ended; {after} of {acc} item(s) are visible"
                                );
                            }
                        }
                    }
                    Res::Err(e) => {
                        ev!(0x73, e.0, 0; "load: error {}", e.0);
                        check!(
                            w.acted.get() == Some(EndK::Cancel(e.0)),
                            "error:other",
                            "the load reports error {}, the source did {:?}",
                            e.0,
                            w.acted.get()
                        );
                    }
                    Res::Abandoned => {
                        ev!(0x74, 0, 0; "load: abandoned");
                        w.finished.set(false);
                    }
                    Res::Panicked => ev!(0x75, 0, 0; "load: unwound"),
                }
                if !concurrent {
                    check!(after >= before, "visible:missing", "{before} item(s) were visible before the load, {after} after");
                    // single-threaded: the reader acts between loads
                    for _ in 0..small(St::Work, 3) {
                        reader.borrow_mut().act(&w);
                    }
                }
                if w.finished.get() {
                    if again == 0 {
                        break;
                    }
                    again -= 1;
                    w.finished.set(false);
                    continue;
                }
                left = left.saturating_sub(1);
                if wchance(1, 8) {
                    loader.force_commit();
                    cnt!("fault.forced_commit");
                    let acc = w.accepted.borrow().len();
                    ev!(0x76, acc, 0; "forced commit; {acc} item(s) accepted so far");
                    w.lower.set(acc);
                    weak::sync();
                    if !concurrent {
                        let v = reader.borrow_mut().visible(&w);
                        check!(v == acc, "visible:missing", "after a forced commit {v} of {acc} item(s) are visible");
                    }
                }
                if sched(4) == 1 {
                    k2::yield_point();
                }
            }
            if sched(2) == 1 {
                drop(loader);
            } else {
                // the loader goes first or last
                k2::yield_point();
                drop(loader);
            }
            done.set(true);
        });
    }
    if concurrent {
        let (w, reader, done) = (w.clone(), &reader, &done);
        sim.spawn("reader", move || {
            let mut n = 0;
            while !done.get() && n < 400 {
                n += 1;
                // nobody else touches the reader in this mode
                let mut r = reader.borrow_mut();
                r.act(&w);
                drop(r);
                k2::spin();
            }
        });
    }
    let left = sim.run();
    check!(left.is_empty(), "stuck", "{left:?} never ended");
    sim.finish();
    let mut r = reader.into_inner();
    let v = r.visible(&w);
    let acc = w.accepted.borrow().len();
    if w.finished.get() {
        check!(v == acc, "visible:missing", "the source has ended; {v} of {acc} item(s) are visible");
    }
    r.advance(&w, acc + 3);
    check!(r.pos == v, "advance", "advancing past the end of {v} item(s) stopped at {}", r.pos);
    check!(r.buf.segments().all(|s| s.is_empty()), "advance", "items follow the end of the sequence");
    cnt!("load.items", acc);
}

fn by_item(p: Prof) {
    match work(8) {
        0..=3 => body::<Tk>(p),
        4 | 5 => body::<u8>(p),
        6 => body::<Big>(p),
        _ => body::<Unit>(p),
    }
}

/// The library's own source over prepared chunks.
fn iterator_source<T: Item>() {
    let policy = Policy::random();
    let mut id = 0;
    let chunks: Vec<Vec<T>> = (0..small(St::Work, 12))
        .map(|_| {
            let n = if wchance(1, 400) {
                // far beyond any small buffer or counter
                cnt!("probe.big_chunk");
                [255, 256, 257, 1000, 4095, 4096, 4097, 8193, 65535, 65537][work(10) as usize]
            } else {
                small(St::Work, 20)
            };
            (0..n)
                .map(|_| {
                    id += 1;
                    T::make(id)
                })
                .collect()
        })
        .collect();
    ctl::set_context(|| format!("IteratorSource of {}; policy {policy:?}; chunks of {:?}", T::NAME, chunks.iter().map(|c| c.len()).collect::<Vec<_>>()));
    let builder = GenericSequenceBuilder::sim_new(policy);
    let sim = k2::Sim::new();
    sim.spawn("loader", move || {
        let (buf, mut l) = builder.build(IteratorSource::<_, T>::new(chunks));
        loop {
            let Ok(i) = k2::block_on(l.load()) else { violate!("error:other", "a source without errors failed") };
            ev!(0x77, i.commited(), i.uncommited(); "load: committed {}", i.commited());
            if i.is_done() {
                break;
            }
            if wchance(1, 8) {
                l.force_commit();
            }
        }
        let mut n = 0;
        for s in buf.segments() {
            for i in s {
                n += 1;
                check!(i.is(n), "visible:content", "item {} of the sequence is not the source's", n - 1);
            }
        }
        check!(n == id, "visible:missing", "the source held {id} item(s), {n} are visible");
    });
    let left = sim.run();
    check!(left.is_empty(), "stuck", "{left:?} never ended");
    sim.finish();
}

/// C20: what is alive after each step of a loader and a reader, either of which may go at any time.
fn held<T: Item>(interrupt: bool) {
    let w = World::new();
    let policy = Policy::random();
    let steps = 4 + small(St::Work, 50);
    ctl::set_context(|| format!("{}; policy {policy:?}; {steps} steps; what is alive", T::NAME));
    let builder = GenericSequenceBuilder::sim_new(policy);
    let sim = k2::Sim::new();
    sim.spawn("both", move || {
        let (buf, loader) = builder.build(SimSource::<T> {
            w: w.clone(),
            _p: std::marker::PhantomData,
        });
        let base = crate::tok::live();
        let mut loader = Some(loader);
        let mut reader = Some(Reader::<T> { buf, pos: 0, seen: 0, ends: Vec::new() });
        let p = Prof { interrupt, info: false, threads: 0 };
        let (mut errs, mut uncommitted, mut last, mut committed) = (0, 0usize, 0usize, 0usize);
        let mut vague = false;
        for k in 0..=steps {
            let what;
            if interrupt && fault(1, 10) {
                // an item that does not release quietly
                let n = w.next_id.get();
                let k = n.saturating_sub(4) + pick(St::Fault, 12) as u64;
                let k = if pick(St::Fault, 2) == 0 { 1 + pick(St::Fault, n as u32 + 8) as u64 } else { k };
                FUSE.with(|f| f.set(k));
            } else {
                FUSE.with(|f| f.set(0));
            }
            match work(16) {
                0..=7 => {
                    let Some(l) = &mut loader else { continue };
                    let plan = if k == steps || wchance(1, 30) {
                        Plan::Finish { pre: 0, post: gen_post(&p) }
                    } else {
                        gen_plan(&p, &mut errs)
                    };
                    crate::tr!("load: {plan:?}");
                    *w.plan.borrow_mut() = Some(plan);
                    w.acted.set(None);
                    let had = w.accepted.borrow().len();
                    cnt!("load.loads");
                    match load_once(l, interrupt) {
                        Res::Info(i) => {
                            let acc = w.accepted.borrow().len();
                            if i.commited() > 0 {
                                last = i.commited();
                            }
                            uncommitted = i.uncommited();
                            committed = acc.saturating_sub(uncommitted);
                            vague = false;
                            what = "a load";
                        }
                        Res::Err(_) => what = "a failed load",
                        Res::Abandoned | Res::Panicked => {
                            w.accepted.borrow_mut().truncate(had);
                            w.finished.set(false);
                            // without a reader, the load may have been kept before an item released by it panicked
                            vague |= reader.is_none();
                            what = "an interrupted load";
                        }
                    }
                }
                8 => {
                    let Some(l) = &mut loader else { continue };
                    // without a reader this releases what was committed before
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| l.force_commit())) {
                        check!(p.is::<Injected>(), "panic", "a forced commit panicked");
                    }
                    cnt!("fault.forced_commit");
                    if uncommitted > 0 {
                        last = uncommitted;
                    }
                    committed += uncommitted;
                    uncommitted = 0;
                    what = "a forced commit";
                }
                9..=13 => {
                    let Some(r) = &mut reader else { continue };
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| r.act(&w))) {
                        check!(p.is::<Injected>(), "panic", "reading panicked");
                        // where the reader stands now is not promised
                        reader = None;
                    }
                    what = "reading";
                }
                14 if wchance(1, 6) => {
                    let Some(r) = reader.take() else { continue };
                    let _ = catch_unwind(AssertUnwindSafe(|| drop(r)));
                    cnt!("fault.reader_dropped");
                    what = "dropping the reader";
                }
                15 if wchance(1, 6) => {
                    let Some(l) = loader.take() else { continue };
                    let _ = catch_unwind(AssertUnwindSafe(|| drop(l)));
                    cnt!("fault.loader_dropped");
                    uncommitted = 0;
                    w.accepted.borrow_mut().truncate(committed);
                    what = "dropping the loader";
                }
                _ => continue,
            }
            let (low, high) = match &mut reader {
                Some(r) => {
                    let v = r.visible(&w);
                    check!(v == committed, "visible:missing", "after {what} {v} item(s) are visible, {committed} were committed");
                    // the segment the reader stands in or has just finished may be kept whole
                    let start = r.ends.iter().rev().find(|e| **e < r.pos).copied().unwrap_or(0);
                    (v - r.pos + uncommitted, v - start + uncommitted)
                }
                None => (uncommitted, uncommitted + last),
            };
            if vague {
                continue;
            }
            let n = (crate::tok::live() - base) as usize;
            ev!(0x79, n, low; "after {what}: {n} item(s) alive, between {low} and {high} expected");
            cnt!("load.census");
            check!(n >= low, "value:early", "after {what}: {n} item(s) are alive, {low} can still be read");
            check!(
                n <= high,
                "value:kept",
                "after {what}: {n} item(s) are alive; {low} are unread, with the segment being read at most {high}"
            );
        }
        let first = sched(2) == 1;
        let _ = catch_unwind(AssertUnwindSafe(|| if first { drop(loader.take()) } else { drop(reader.take()) }));
        let _ = catch_unwind(AssertUnwindSafe(|| if first { drop(reader) } else { drop(loader) }));
        FUSE.with(|f| f.set(0));
        let n = crate::tok::live() - base;
        check!(n == 0, "value:leak", "{n} item(s) outlive the loader and the reader");
    });
    let left = sim.run();
    check!(left.is_empty(), "stuck", "{left:?} never ended");
    sim.finish();
}

/// C20: a long stream read to its end (but for a few segments) all along needs no more memory than a short one.
fn streaming() {
    let policy = Policy::random();
    let n = 400 + work(1200) as usize;
    let len = work(9) as usize;
    let lag = work(4) as usize * 2;
    let validated = wchance(1, 2);
    ctl::set_context(|| format!("a stream of {n} chunks of {len} bytes; policy {policy:?}; the reader lags {lag} chunks behind{}", if validated { "; validated" } else { "" }));
    cnt!("probe.streaming");
    let builder = GenericSequenceBuilder::sim_new(policy);
    let sim = k2::Sim::new();
    sim.max_steps(60_000_000);
    sim.spawn("both", move || {
        let src = IteratorSource::<_, u8>::new((0..n).map(move |_| vec![b'x'; len]));
        if validated {
            let (buf, l) = builder.build(parcom_sequence_sources::utf8_validator::Utf8Validator::new(src));
            stream_on(buf, l, n * len, lag * len);
        } else {
            let (buf, l) = builder.build(src);
            stream_on(buf, l, n * len, lag * len);
        }
    });
    let left = sim.run();
    check!(left.is_empty(), "stuck", "{left:?} never ended");
    sim.finish();
}
fn stream_on<L: SequenceLoader>(mut buf: GenericSequenceBuffer<u8>, mut l: L, total: usize, lag: usize) {
    let (mut pos, mut have, mut peak, mut round) = (0, 0, 0, 0);
    loop {
        let Ok(i) = k2::block_on(l.load()) else { violate!("error:other", "a source without errors failed") };
        round += 1;
        have += i.commited();
        let want = have.saturating_sub(lag);
        if want > pos {
            let short = buf.advance(want - pos);
            check!(short == 0, "advance", "advancing by {} of {} item(s) is short by {short}", want - pos, have - pos);
            pos = want;
        }
        let bytes = crate::alloc::live().0;
        if round <= 40 {
            peak = peak.max(bytes);
        } else {
            check!(
                bytes <= peak + 24_000,
                "memory:grows",
                "after {round} loads {bytes} bytes are allocated with {} item(s) unread; the first 40 loads needed {peak}",
                have - pos
            );
        }
        if i.is_done() {
            break;
        }
    }
    check!(have == total, "visible:missing", "the source held {total} item(s), {have} were committed");
    ev!(0x7a, round, peak / 4096; "streamed {have} bytes in {round} loads");
}

/// Long sequences: building, advancing over and dropping many segments on an ordinary stack.
fn long_chain() {
    let n = 2_000 + work(60_000);
    let mode = work(4);
    ctl::set_context(|| format!("a sequence of {n} segments, mode {mode}"));
    cnt!("probe.long_sequence");
    let builder = GenericSequenceBuilder::sim_new(Policy::Exact);
    let sim = k2::Sim::new();
    sim.max_steps(60_000_000);
    sim.spawn("loader", move || {
        let (mut buf, mut l) = builder.build(IteratorSource::<_, u8>::new((0..n).map(|_| [b'x'])));
        for _ in 0..n {
            let Ok(_) = k2::block_on(l.load()) else { violate!("error:other", "a source without errors failed") };
            // each item is a segment of its own
            l.force_commit();
        }
        let n = n as usize;
        match mode {
            0 => {
                check!(buf.advance(n + 1) == 1, "advance", "advancing over {n} segments of one item stopped short of the end");
                drop(buf);
            }
            1 => {
                drop(l);
                drop(buf);
            }
            2 => {
                drop(buf);
                l.force_commit();
            }
            _ => {
                let have: usize = buf.segments().map(<[u8]>::len).sum();
                check!(have == n, "visible:missing", "{have} of {n} items are visible");
            }
        }
        ev!(0x78, n, mode; "released {n} segments");
    });
    let left = sim.run();
    check!(left.is_empty(), "stuck", "{left:?} never ended");
    sim.finish();
}

pub fn c08() {
    match work(600) {
        599 => long_chain(),
        500..=598 => match work(3) {
            0 => iterator_source::<Tk>(),
            1 => iterator_source::<u8>(),
            _ => iterator_source::<Unit>(),
        },
        430..=499 => crate::utf8::loaded_text(false),
        _ => by_item(Prof {
            interrupt: false,
            info: false,
            threads: 3,
        }),
    }
}
pub fn c09() {
    if work(6) == 5 {
        return crate::utf8::loaded_text(true);
    }
    by_item(Prof {
        interrupt: true,
        info: false,
        threads: 2,
    })
}
pub fn c11() {
    by_item(Prof {
        interrupt: work(3) > 0,
        info: true,
        threads: 1,
    })
}

pub fn c20() {
    match work(40) {
        39 => streaming(),
        38 if wchance(1, 20) => long_chain(),
        k => {
            let interrupt = work(2) == 1;
            match k % 8 {
                0..=1 => by_item(Prof { interrupt, info: false, threads: 2 }),
                2..=3 => held::<Unit>(interrupt),
                _ => held::<Tk>(interrupt),
            }
        }
    }
}
