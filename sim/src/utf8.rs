//! C10: the UTF-8 validating source, alone and inside the loader. Also the byte source of C17.

use crate::ctl::{fault, inject_panic, pick, sched, small, wchance, work, Injected, St};
use crate::load::{Policy, SrcErr};
use crate::{check, cnt, ctl, ev, k2, violate};
use parcom_sequence_core::{BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use parcom_sequences::generic::GenericSequenceBuilder;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;

// --------------------------------------------------------------------------------- byte streams

const CHARS: &[char] = &[
    'a', 'b', '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{cfff}', '\u{d000}', '\u{d7ff}', '\u{e000}',
    '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}', '\u{10ffff}', 'é', 'あ', '😀',
    // characters that somebody may find special: line ends, blanks, a byte order mark, joiners, combining marks, delimiters
    '\r', '\n', '\t', ' ', '\u{85}', '\u{2028}', '\u{feff}', '\u{fffe}', '\u{200d}', '\u{301}', '\u{a0}', '\u{1a}', '\u{1b}', '"', '\\',
];

pub fn gen_valid(max: u32) -> String {
    let n = small(St::Work, max);
    let mode = work(6);
    let any = || CHARS[work(CHARS.len() as u32) as usize];
    let few = [any(), any()];
    (0..n)
        .map(|_| match mode {
            0 => CHARS[work(2) as usize],
            1 => CHARS[21 + work(3) as usize],
            2 => few[work(2) as usize],
            3 => char::from_u32(work(0x11_0000)).unwrap_or('\u{e000}'),
            _ => any(),
        })
        .collect()
}

/// Overlong forms, surrogates, lone continuations, impossible lead bytes, values past U+10FFFF.
const BAD: &[&[u8]] = &[
    &[0x80],
    &[0xbf],
    &[0xc0, 0x80],
    &[0xc1, 0xbf],
    &[0xe0, 0x80, 0x80],
    &[0xe0, 0x9f, 0xbf],
    &[0xed, 0xa0, 0x80],
    &[0xed, 0xbf, 0xbf],
    &[0xf0, 0x80, 0x80, 0x80],
    &[0xf0, 0x8f, 0xbf, 0xbf],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xf5, 0x80, 0x80, 0x80],
    &[0xff],
    &[0xfe],
    &[0xc3, 0x28],
    &[0xe2, 0x28, 0xa1],
    &[0xe2, 0x82, 0x28],
    &[0xf0, 0x9f, 0x28, 0x80],
    &[0xf0, 0x9f, 0x98, 0x28],
];

pub fn gen_bytes(max: u32) -> Vec<u8> {
    let mut b = gen_valid(max).into_bytes();
    if wchance(1, 400) && !b.is_empty() {
        // far beyond any small buffer or counter
        cnt!("probe.long_input");
        let n = [255, 256, 4096, 65535, 65536][work(5) as usize] + work(8) as usize;
        b = b.iter().copied().cycle().take(n).collect();
        // the cut may fall inside a character; that is one of the inputs
        if wchance(3, 4) {
            b.truncate(valid(&b).0);
        }
    }
    match work(8) {
        0..=2 => {}
        3 => {
            // ends inside a character
            let c = CHARS[4 + work(CHARS.len() as u32 - 4) as usize];
            let mut t = [0; 4];
            let s = c.encode_utf8(&mut t).as_bytes();
            b.extend(&s[..1 + work(s.len() as u32 - 1) as usize]);
        }
        4 => {
            let k = work(b.len() as u32 + 1) as usize;
            b.truncate(k);
        }
        5 => {
            let k = work(b.len() as u32 + 1) as usize;
            let bad = BAD[work(BAD.len() as u32) as usize];
            b.splice(k..k, bad.iter().copied());
        }
        6 => {
            let bad = BAD[work(BAD.len() as u32) as usize];
            b.extend(bad);
        }
        _ => {
            if !b.is_empty() {
                let k = work(b.len() as u32) as usize;
                if wchance(1, 2) {
                    b[k] = work(256) as u8;
                } else {
                    b.remove(k);
                }
            }
        }
    }
    b
}

// --------------------------------------------------------------------------------------- source

#[derive(Clone, Copy, Debug)]
pub enum BStep {
    Push(u32),
    Raw(u32),
    /// writes other bytes and takes them back
    Junk(u32),
    /// writes other bytes and corrects them in place
    Fix(u32),
    Pause(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BEnd {
    Advance,
    Cancel(u32),
    Panic,
}
#[derive(Clone, Debug)]
pub enum BPlan {
    Write { pre: u8, req: u32, steps: Vec<BStep>, end: BEnd, post: u8 },
    CancelNow { pre: u8, err: u32 },
    PanicNow { pre: u8 },
    Finish { pre: u8, post: u8 },
}

/// The stream: loads that do not complete leave the position where it was.
pub struct Bytes {
    pub data: Vec<u8>,
    pub plan: RefCell<Option<BPlan>>,
    /// bytes taken by completed loads
    pub pos: Cell<usize>,
    /// bytes written by the current load
    pub wrote: Cell<usize>,
    pub acted: Cell<Option<BEnd>>,
    pub finished: Cell<bool>,
}
impl Bytes {
    pub fn new(data: Vec<u8>) -> Rc<Bytes> {
        Rc::new(Bytes {
            data,
            plan: RefCell::new(None),
            pos: Cell::new(0),
            wrote: Cell::new(0),
            acted: Cell::new(None),
            finished: Cell::new(false),
        })
    }
    fn at(&self) -> usize {
        self.pos.get() + self.wrote.get()
    }
}

pub struct ByteSource(pub Rc<Bytes>);

async fn pauses(n: u8) {
    for _ in 0..n {
        k2::pause().await;
    }
}
async fn linger(post: u8) {
    pauses(post % 100).await;
    if post > 100 {
        cnt!("fault.panic_source");
        ev!(0x83, 0, 0; "source: panics after handing over");
        inject_panic()
    }
}

fn holds<W: BufferWriter<Item = u8>>(wr: &W, b: &Bytes, what: &str) {
    let want = &b.data[b.pos.get()..b.at()];
    check!(
        wr.as_slice() == want && wr.len() == want.len(),
        "writer",
        "{what}: the writer holds {:02x?}, {want:02x?} was written",
        wr.as_slice()
    );
}

impl SequenceSource for ByteSource {
    type Item = u8;
    type Error = SrcErr;
    type Next<'a, C>
        = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        C: 'a + SequenceControl<Item = u8, Error = SrcErr>;

    fn next<'a, C>(&'a mut self, control: C, _hint: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = SrcErr>,
    {
        let b = self.0.clone();
        Box::pin(async move {
            let plan = b.plan.borrow_mut().take().expect("harness: a load without a plan");
            b.wrote.set(0);
            b.acted.set(None);
            match plan {
                BPlan::Finish { pre, post } => {
                    pauses(pre).await;
                    b.finished.set(true);
                    ev!(0x80, 0, 0; "source: end");
                    let r = control.finish();
                    linger(post).await;
                    r
                }
                BPlan::CancelNow { pre, err } => {
                    pauses(pre).await;
                    b.acted.set(Some(BEnd::Cancel(err)));
                    cnt!("fault.source_error");
                    ev!(0x81, err, 0; "source: error {err} before writing");
                    control.cancel(SrcErr(err))
                }
                BPlan::PanicNow { pre } => {
                    pauses(pre).await;
                    cnt!("fault.panic_source");
                    ev!(0x82, 0, 0; "source: panics before writing");
                    inject_panic()
                }
                BPlan::Write { pre, req, steps, end, post } => {
                    pauses(pre).await;
                    let mut wr = control.request_writer(req as usize);
                    ev!(0x84, req, b.pos.get(); "source: asks for room for {req} at {}", b.pos.get());
                    check!(wr.len() == 0, "writer", "a new writer already holds {} byte(s)", wr.len());
                    check!(
                        wr.capacity() >= req as usize,
                        "room",
                        "room for {req} byte(s) was asked for, {} was offered",
                        wr.capacity()
                    );
                    for s in steps {
                        let room = wr.capacity() - wr.len();
                        let left = b.data.len() - b.at();
                        match s {
                            BStep::Push(n) => {
                                for _ in 0..(n as usize).min(left) {
                                    let room = wr.capacity() - wr.len();
                                    let x = b.data[b.at()];
                                    match wr.push_item(x) {
                                        Ok(()) => {
                                            check!(room > 0, "room", "a write beyond the offered room was accepted");
                                            b.wrote.set(b.wrote.get() + 1)
                                        }
                                        Err(y) => {
                                            check!(room == 0, "room", "a write was refused with room for {room} more");
                                            check!(x == y, "writer", "a refused write handed back another byte");
                                            cnt!("probe.write_refused");
                                            break;
                                        }
                                    }
                                }
                            }
                            BStep::Raw(n) => {
                                let n = (n as usize).min(room).min(left);
                                let have = wr.len();
                                let sp = wr.spare_capacity();
                                check!(sp.len() == room, "room", "{} spare slot(s) next to a room of {room}", sp.len());
                                for (k, s) in sp.iter_mut().take(n).enumerate() {
                                    s.write(b.data[b.at() + k]);
                                }
                                unsafe { wr.set_len(have + n) };
                                b.wrote.set(b.wrote.get() + n);
                            }
                            BStep::Junk(n) => {
                                let have = wr.len();
                                for k in 0..(n as usize).min(room) {
                                    let _ = wr.push_item(0xC3 ^ k as u8);
                                }
                                wr.shrink_to(have);
                            }
                            BStep::Fix(n) => {
                                let n = (n as usize).min(room).min(left);
                                let have = wr.len();
                                for k in 0..n {
                                    let _ = wr.push_item(0x80 ^ k as u8);
                                }
                                for (k, s) in wr.as_mut_slice()[have..].iter_mut().enumerate() {
                                    *s = b.data[b.at() + k];
                                }
                                b.wrote.set(b.wrote.get() + n);
                            }
                            BStep::Pause(n) => pauses(n).await,
                        }
                        holds(&wr, &b, &format!("after {s:?}"));
                    }
                    let n = b.wrote.get();
                    b.acted.set(Some(end));
                    match end {
                        BEnd::Advance => {
                            ev!(0x85, n, 0; "source: hands over {n} byte(s): {:02x?}", &b.data[b.pos.get()..b.at()]);
                            let r = wr.advance();
                            linger(post).await;
                            r
                        }
                        BEnd::Cancel(err) => {
                            cnt!("fault.source_error");
                            ev!(0x86, err, n; "source: error {err} after writing {n}");
                            wr.cancel(SrcErr(err))
                        }
                        BEnd::Panic => {
                            cnt!("fault.panic_source");
                            ev!(0x87, n, 0; "source: panics after writing {n}");
                            inject_panic()
                        }
                    }
                }
            }
        })
    }
}

/// The plan of the next load. `chunky`: 0 for single bytes, larger for larger chunks.
pub fn gen_plan(b: &Bytes, chunky: u32, interrupt: bool, errs: &mut u32) -> BPlan {
    let pre = if sched(4) == 1 { 1 + sched(2) as u8 } else { 0 };
    let mut post = if sched(8) == 1 { 1 } else { 0 };
    if interrupt && fault(1, 20) {
        post += 100;
    }
    if post == 100 {
        post = 101;
    }
    if interrupt && fault(1, 12) {
        *errs += 1;
        return match pick(St::Fault, 2) {
            0 => BPlan::CancelNow { pre, err: *errs },
            _ => BPlan::PanicNow { pre },
        };
    }
    let left = b.data.len() - b.pos.get();
    if left == 0 && work(3) > 0 {
        return BPlan::Finish { pre, post };
    }
    let n = match chunky {
        0 => 1,
        1 => work(4),
        2 => work(9),
        3 | 4 => work(60),
        _ => work(b.data.len() as u32 / 2 + 60),
    };
    let req = match work(6) {
        0 => work(n + 1),
        1 => n + work(8),
        _ => n,
    };
    let mut steps = Vec::new();
    let mut todo = n;
    while todo > 0 {
        let k = if wchance(1, 2) { todo } else { 1 + work(todo) };
        todo -= k;
        let s = match work(6) {
            0..=2 => BStep::Push(k),
            3 => BStep::Raw(k),
            4 => BStep::Fix(k),
            _ => {
                steps.push(BStep::Junk(k));
                BStep::Push(k)
            }
        };
        steps.push(s);
        if sched(6) == 1 {
            steps.push(BStep::Pause(1));
        }
    }
    let end = if interrupt && fault(1, 8) {
        *errs += 1;
        BEnd::Cancel(*errs)
    } else if interrupt && fault(1, 24) {
        BEnd::Panic
    } else {
        BEnd::Advance
    };
    BPlan::Write { pre, req, steps, end, post }
}

// ---------------------------------------------------------------------------------------- oracle

/// Length of the longest valid prefix, and whether what follows can no longer become valid.
pub fn valid(a: &[u8]) -> (usize, bool) {
    // independent of std: a table of the well-formed byte sequences of the Unicode standard
    let mut i = 0;
    while i < a.len() {
        let c = a[i];
        let (n, lo, hi) = match c {
            0x00..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return (i, true),
        };
        for k in 1..=n {
            let Some(&x) = a.get(i + k) else { return (i, false) };
            let ok = if k == 1 { (lo..=hi).contains(&x) } else { (0x80..=0xbf).contains(&x) };
            if !ok {
                return (i, true);
            }
        }
        i += 1 + n;
    }
    (i, false)
}

pub enum BRes {
    Done(bool),
    Err(Utf8ValidationError<SrcErr>),
    Abandoned,
    Panicked,
}

fn limit(interrupt: bool) -> Option<u32> {
    let l = (interrupt && fault(1, 6)).then(|| pick(St::Fault, 4));
    if l == Some(0) {
        cnt!("fault.load_never_polled");
    }
    l
}
fn interrupted<T>(f: impl FnOnce() -> k2::Out<T>) -> Result<T, BRes> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(k2::Out::Ready(r)) => Ok(r),
        Ok(k2::Out::Dropped) => {
            cnt!("fault.load_abandoned");
            Err(BRes::Abandoned)
        }
        Ok(k2::Out::Cancelled) => violate!("harness:cancelled", "a load was cancelled"),
        Err(p) => {
            check!(p.is::<Injected>(), "panic", "a load panicked outside an injected panic");
            cnt!("fault.panic_unwound");
            Err(BRes::Panicked)
        }
    }
}

/// What receives the validator's output: the real loader, or a plain vector.
pub trait Sink {
    fn load(&mut self, interrupt: bool) -> BRes;
    /// everything passed on so far; with `all`, nothing may be held back
    fn passed(&mut self, all: bool) -> Vec<u8>;
}

struct Real<L, B> {
    l: L,
    b: B,
}
impl<L, B> Sink for Real<L, B>
where
    L: SequenceLoader<Error = Utf8ValidationError<SrcErr>>,
    B: SequenceBuffer<Segment = [u8]>,
{
    fn load(&mut self, interrupt: bool) -> BRes {
        let lim = limit(interrupt);
        match interrupted(|| k2::drive(self.l.load(), lim)) {
            Ok(Ok(i)) => {
                ev!(0x88, i.commited(), i.uncommited(); "load: committed {}, uncommitted {}, done {}", i.commited(), i.uncommited(), i.is_done());
                BRes::Done(i.is_done())
            }
            Ok(Err(e)) => BRes::Err(e),
            Err(r) => r,
        }
    }
    fn passed(&mut self, all: bool) -> Vec<u8> {
        if all {
            self.l.force_commit();
        }
        self.b.segments().flatten().copied().collect()
    }
}

/// A control over a plain vector.
pub enum VRes {
    Advance,
    Finish,
    Cancel(Utf8ValidationError<SrcErr>),
}
pub struct VControl {
    out: Rc<RefCell<Vec<u8>>>,
    slack: usize,
}
pub struct VWriter {
    out: Rc<RefCell<Vec<u8>>>,
    tmp: Vec<u8>,
    cap: usize,
}
impl SequenceControl for VControl {
    type Item = u8;
    type Result = VRes;
    type Error = Utf8ValidationError<SrcErr>;
    type Writer = VWriter;
    fn request_writer(self, n: usize) -> VWriter {
        VWriter {
            out: self.out,
            tmp: Vec::with_capacity(n + self.slack),
            cap: n + self.slack,
        }
    }
    fn cancel(self, e: Self::Error) -> VRes {
        VRes::Cancel(e)
    }
    fn finish(self) -> VRes {
        VRes::Finish
    }
}
impl BufferWriter for VWriter {
    type Segment = [u8];
    type Item = u8;
    type Result = VRes;
    type Error = Utf8ValidationError<SrcErr>;
    fn capacity(&self) -> usize {
        self.cap
    }
    fn len(&self) -> usize {
        self.tmp.len()
    }
    fn as_ptr(&self) -> *const u8 {
        self.tmp.as_ptr()
    }
    fn as_mut_ptr(&mut self) -> *mut u8 {
        self.tmp.as_mut_ptr()
    }
    unsafe fn set_len(&mut self, n: usize) {
        check!(n <= self.cap, "room", "a length of {n} was set on a writer of {}", self.cap);
        self.tmp.set_len(n)
    }
    fn advance(self) -> VRes {
        self.out.borrow_mut().extend(&self.tmp);
        VRes::Advance
    }
    fn cancel(self, e: Self::Error) -> VRes {
        VRes::Cancel(e)
    }
}
struct Plain {
    v: Utf8Validator<ByteSource>,
    out: Rc<RefCell<Vec<u8>>>,
}
impl Sink for Plain {
    fn load(&mut self, interrupt: bool) -> BRes {
        let lim = limit(interrupt);
        let had = self.out.borrow().len();
        let c = VControl {
            out: self.out.clone(),
            slack: [0, 0, 1, 4][work(4) as usize],
        };
        let v = &mut self.v;
        let r = interrupted(|| k2::drive(v.next(c, 0), lim));
        match r {
            Ok(VRes::Advance) => BRes::Done(false),
            Ok(VRes::Finish) => BRes::Done(true),
            Ok(VRes::Cancel(e)) => BRes::Err(e),
            Err(r) => {
                // this vector has no undo of its own
                self.out.borrow_mut().truncate(had);
                r
            }
        }
    }
    fn passed(&mut self, _: bool) -> Vec<u8> {
        self.out.borrow().clone()
    }
}

fn drive<K: Sink>(b: &Bytes, k: &mut K, chunky: u32, interrupt: bool, force: u32) {
    let mut errs = 0;
    let mut before = 0;
    let mut retried = 0;
    let mut ended = 0;
    loop {
        let plan = if ended > 0 { BPlan::Finish { pre: 0, post: 0 } } else { gen_plan(b, chunky, interrupt, &mut errs) };
        crate::tr!("load: {plan:?}");
        let fin = matches!(plan, BPlan::Finish { .. });
        *b.plan.borrow_mut() = Some(plan);
        b.wrote.set(0);
        b.acted.set(None);
        let r = k.load(interrupt);
        cnt!("load.loads");
        let mut complete = false;
        let mut stop = false;
        match r {
            BRes::Done(d) => {
                check!(d == fin, "end", "the load reports done = {d}, the source ended: {fin}");
                check!(
                    !matches!(b.acted.get(), Some(BEnd::Cancel(_))),
                    "error:lost",
                    "the source failed, but the load reports success"
                );
                b.pos.set(b.at());
                let a = &b.data[..b.pos.get()];
                let (v, _) = valid(a);
                complete = true;
                if fin {
                    check!(
                        v == a.len(),
                        "invalid:missed",
                        "the stream {a:02x?} is not valid UTF-8 from {v} on, but its end was reached without a report"
                    );
                    stop = true;
                }
            }
            BRes::Err(Utf8ValidationError::InvalidSequence) => {
                let a = &b.data[..b.at()];
                let (v, definite) = valid(a);
                ev!(0x89, v, 0; "load: invalid sequence, valid up to {v}");
                check!(
                    definite || (fin && v < a.len()),
                    "invalid:false",
                    "an invalid sequence is reported for {a:02x?}, which is valid{}",
                    if v < a.len() { " so far" } else { "" }
                );
                cnt!("probe.invalid_reported");
                retried += 1;
                stop = retried > 2 || work(2) == 0;
            }
            BRes::Err(Utf8ValidationError::Inner(e)) => {
                check!(
                    b.acted.get() == Some(BEnd::Cancel(e.0)),
                    "error:other",
                    "the load reports error {}, the source did {:?}",
                    e.0,
                    b.acted.get()
                );
            }
            BRes::Abandoned => ev!(0x8a, 0, 0; "load: abandoned"),
            BRes::Panicked => ev!(0x8b, 0, 0; "load: unwound"),
        }
        let all = stop || force == 0 || work(force + 1) == 0;
        let p = k.passed(all);
        let a = &b.data[..b.pos.get()];
        let (v, _) = valid(&b.data);
        check!(
            p.len() <= a.len() && p[..] == a[..p.len()],
            "passed:content",
            "passed on {p:02x?}, received {a:02x?}"
        );
        check!(p.len() <= v && valid(&p).0 == p.len(), "passed:invalid", "passed on {p:02x?}, which is not valid UTF-8");
        check!(p.len() >= before, "passed:lost", "{before} byte(s) had been passed on, now {}", p.len());
        before = p.len();
        if all || (fin && complete) {
            let va = valid(a).0;
            check!(
                p.len() == va,
                "passed:missing",
                "{} byte(s) passed on of {a:02x?}, which holds complete characters up to {va}",
                p.len()
            );
        }
        if stop {
            if fin && complete && ended == 0 && wchance(1, 4) {
                ended = 1;
                continue;
            }
            break;
        }
    }
}

/// C08 and C09 with the validator between source and loader: valid text, so that it has nothing to report.
pub fn loaded_text(interrupt: bool) {
    let n = small(St::Work, if wchance(1, 30) { 200 } else { 16 });
    let text: String = (0..n).map(|_| ['a', 'b', 'é', 'あ', '😀'][work(5) as usize]).collect();
    let b = Bytes::new(text.into_bytes());
    let chunky = if b.data.len() > 250 { 3 + work(2) } else { work(5) };
    let policy = Policy::random();
    let force = work(4);
    {
        let b = b.clone();
        ctl::set_context(move || format!("validated text {:02x?}; chunking {chunky}; policy {policy:?}", b.data));
    }
    cnt!("probe.validated_text");
    let sim = k2::Sim::new();
    sim.max_steps(20_000_000);
    sim.spawn("loader", move || {
        let v = Utf8Validator::new(ByteSource(b.clone()));
        let (buf, l) = GenericSequenceBuilder::sim_new(policy).build(v);
        drive(&b, &mut Real { l, b: buf }, chunky, interrupt, force);
    });
    let left = sim.run();
    check!(left.is_empty(), "stuck", "{left:?} never ended");
    sim.finish();
}

pub fn c10() {
    let b = Bytes::new(gen_bytes(if wchance(1, 30) { 300 } else { 24 }));
    // each load reads everything again: tiny pieces of a long stream would cost too much
    let chunky = match b.data.len() {
        2001.. => 5,
        251.. => 3 + work(3),
        _ => work(6),
    };
    let policy = Policy::random();
    let real = wchance(1, 2);
    let force = work(4);
    {
        let b = b.clone();
        ctl::set_context(move || {
            format!(
                "stream {:02x?} ({}); chunking {chunky}; {}",
                b.data,
                match valid(&b.data) {
                    (v, _) if v == b.data.len() => "valid".to_string(),
                    (v, true) => format!("invalid at {v}"),
                    (v, false) => format!("incomplete from {v}"),
                },
                if real { format!("loader, policy {policy:?}") } else { "plain vector".into() }
            )
        });
    }
    let sim = k2::Sim::new();
    sim.max_steps(20_000_000);
    sim.spawn("loader", move || {
        let v = Utf8Validator::new(ByteSource(b.clone()));
        if real {
            let (buf, l) = GenericSequenceBuilder::sim_new(policy).build(v);
            drive(&b, &mut Real { l, b: buf }, chunky, true, force);
        } else {
            drive(
                &b,
                &mut Plain {
                    v,
                    out: Default::default(),
                },
                chunky,
                true,
                0,
            );
        }
    });
    let left = sim.run();
    check!(left.is_empty(), "stuck", "{left:?} never ended");
    sim.finish();
}
