//! C17: byte source, validator, loader, buffer, notifier, sequence and parsers together.

use crate::ctl::{fault, pick, sched, small, wchance, work, Injected, St};
use crate::gram::ast::{Gen, Prof, N};
use crate::gram::env;
use crate::gram::run::{self, Case, Outcome};
use crate::gram::seq::{Item, Items, Seq};
use crate::load::{Policy, SrcErr};
use crate::utf8::{gen_plan, valid, BEnd, BPlan, ByteSource, Bytes};
use crate::{check, cnt, ctl, ev, k2, violate};
use parcom_core::{Parser, RewindSequence, SegmentStream, Sequence};
use parcom_internals::future::notify::Notify;
use parcom_parsers::primitive::{any_item, atom, the_item};
use parcom_parsers::ParserExtension;
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{SequenceBuilder, SequenceLoader};
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use parcom_sequences::generic::{GenericSequenceBuilder, GenericSequenceLoader};
use std::cell::{Cell, RefCell};
use std::future::{Future, IntoFuture};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

type Src = Utf8Validator<ByteSource>;
type Ds = DefaultSequence<Src, GenericSequenceBuilder<Policy>>;
type Ld = GenericSequenceLoader<u8, Src, Policy>;

/// The letters of byte grammars: two ASCII letters, the bytes of two longer characters, a line end.
const LETTERS: [u8; 8] = [b'a', b'b', 0xC3, 0xA9, 0xE6, 0xBC, 0xA2, b'\n'];
const WHOLE: [&[u8]; 5] = [&[0], &[1], &[2, 3], &[4, 5, 6], &[7]];

impl Item for u8 {
    fn make(c: u8) -> u8 {
        LETTERS[c as usize % 8]
    }
    fn value(&self) -> u8 {
        LETTERS.iter().position(|l| l == self).expect("harness: unknown byte") as u8
    }
}

// ---------------------------------------------------------------------------------------- loading

struct Pipe {
    b: Rc<Bytes>,
    /// what ended the loading
    end: Cell<&'static str>,
    /// bytes of completed loads when it ended
    got: Cell<usize>,
    over: Cell<bool>,
}

fn load_all(p: &Pipe, mut l: Ld, signal: &Notify, done: &parcom_sim_std::sync::atomic::AtomicBool, chunky: u32, interrupt: bool, give_up: u32) {
    let b = &p.b;
    let mut errs = 0;
    let mut unsignalled = false;
    let mut seen = 0;
    let mut loads = 0;
    loop {
        let plan = gen_plan(b, chunky, interrupt && loads < 200, &mut errs);
        loads += 1;
        crate::tr!("load: {plan:?}");
        let fin = matches!(plan, BPlan::Finish { .. });
        *b.plan.borrow_mut() = Some(plan);
        b.wrote.set(0);
        b.acted.set(None);
        let limit = (interrupt && fault(1, 12)).then(|| pick(St::Fault, 4));
        cnt!("load.loads");
        match catch_unwind(AssertUnwindSafe(|| k2::drive(l.load(), limit))) {
            Ok(k2::Out::Ready(Ok(i))) => {
                ev!(0xb0, i.commited(), i.uncommited(); "load: committed {}, uncommitted {}, done {}", i.commited(), i.uncommited(), i.is_done());
                b.pos.set(b.pos.get() + b.wrote.get());
                check!(i.is_done() == fin, "end", "the load reports done = {}, the source ended: {fin}", i.is_done());
                unsignalled |= i.commited() > 0;
                if i.is_done() {
                    p.end.set("end of the source");
                    break;
                }
            }
            Ok(k2::Out::Ready(Err(Utf8ValidationError::InvalidSequence))) => {
                let (v, definite) = valid(&b.data[..b.pos.get() + b.wrote.get()]);
                check!(
                    definite || (fin && v < b.data.len()),
                    "invalid:false",
                    "an invalid sequence is reported, but the stream is valid so far"
                );
                cnt!("fault.invalid_stream");
                p.end.set("invalid UTF-8");
                break;
            }
            Ok(k2::Out::Ready(Err(Utf8ValidationError::Inner(SrcErr(e))))) => {
                check!(b.acted.get() == Some(BEnd::Cancel(e)), "error:other", "an error of the source is reported that it did not raise");
                seen += 1;
                if seen >= give_up {
                    cnt!("fault.source_failed_for_good");
                    p.end.set("a permanent error of the source");
                    break;
                }
            }
            Ok(k2::Out::Dropped) => cnt!("fault.load_abandoned"),
            Ok(k2::Out::Cancelled) => violate!("harness:cancelled", "a load was cancelled"),
            Err(e) => {
                check!(e.is::<Injected>(), "panic", "a load panicked outside an injected panic");
                cnt!("fault.panic_unwound");
            }
        }
        if wchance(1, 4) {
            l.force_commit();
            unsignalled = true;
        }
        if (unsignalled && sched(3) > 0) || fault(1, 24) {
            ev!(0xb1, 0, 0; "loader: signals");
            signal.send();
            unsignalled = false;
        }
        match sched(6) {
            1 => k2::block_on(k2::pause()),
            2 => k2::spin(),
            _ => {}
        }
    }
    l.force_commit();
    p.got.set(b.pos.get());
    p.over.set(true);
    if sched(3) == 1 {
        ev!(0xb1, 0, 0; "loader: signals");
        signal.send();
        k2::block_on(k2::pause());
    }
    ev!(0xb2, b.pos.get(), 0; "loader: marks the end ({}) after {} byte(s)", p.end.get(), b.pos.get());
    done.store(true, parcom_sim_std::sync::atomic::Ordering::SeqCst);
    signal.send();
}

// ------------------------------------------------------------------------------ rewindable reading

const BASE: usize = usize::MAX / 2;

/// Keeps what was read from the sequence, so that parsers can back out.
pub struct Replay {
    seq: Option<Ds>,
    kept: Vec<(usize, Vec<u8>)>,
    total: usize,
    pos: usize,
    ended: bool,
}
impl Replay {
    async fn fetch(&mut self) {
        if self.ended {
            return;
        }
        let mut seq = self.seq.take().expect("harness: the sequence is busy");
        let mut got = None;
        {
            let mut segs = seq.segments();
            while let Some(s) = segs.next(0).await {
                if !s.is_empty() {
                    // sometimes only a part is taken over
                    let n = if sched(4) == 1 { 1 + sched(s.len() as u32) as usize } else { s.len() };
                    got = Some(s[..n].to_vec());
                    break;
                }
            }
        }
        match got {
            None => {
                self.ended = true;
                self.seq = Some(seq);
            }
            Some(v) => {
                self.seq = Some(seq.advance(v.len()).await);
                self.total += v.len();
                self.kept.push((self.total - v.len(), v));
            }
        }
    }
}
pub struct RSegs<'a> {
    r: &'a mut Replay,
    at: usize,
}
impl SegmentStream for RSegs<'_> {
    type Length = usize;
    type Segment = [u8];
    type Next<'b>
        = Pin<Box<dyn Future<Output = Option<&'b [u8]>> + 'b>>
    where
        Self: 'b;
    fn next<'b>(&'b mut self, _: usize) -> Self::Next<'b> {
        Box::pin(async move {
            if self.at >= self.r.total {
                self.r.fetch().await;
            }
            let at = self.at;
            let k = self.r.kept.partition_point(|(s, v)| s + v.len() <= at);
            let (s, v) = self.r.kept.get(k)?;
            self.at = s + v.len();
            Some(&v[at - s..])
        })
    }
}
impl Sequence for Replay {
    type Length = usize;
    type Segment = [u8];
    type Segments<'a> = RSegs<'a>;
    type Advance = std::future::Ready<Self>;
    fn segments(&mut self) -> RSegs<'_> {
        let at = self.pos;
        RSegs { r: self, at }
    }
    fn advance(mut self, n: usize) -> Self::Advance {
        check!(self.pos + n <= self.total, "contract:bad-advance", "a parser advanced past what it had seen");
        self.pos += n;
        std::future::ready(self)
    }
}
impl RewindSequence for Replay {
    type Anchor = usize;
    type Rewind = std::future::Ready<Self>;
    fn anchor(&self) -> usize {
        self.pos
    }
    fn rewind(mut self, a: usize) -> Self::Rewind {
        check!(a <= self.pos, "contract:forward-rewind", "a parser rewound forward");
        if a < self.pos {
            cnt!("probe.rewind");
        }
        self.pos = a;
        std::future::ready(self)
    }
}
impl Seq for Replay {
    type Seg = [u8];
    fn left(&self) -> usize {
        BASE - self.pos
    }
}

// ----------------------------------------------------------------------------------- direct parsing

#[derive(Clone, Debug)]
enum Op {
    Any,
    The(u8),
    Atom(Vec<u8>),
    /// any, then one of the others
    Join(u8),
    /// any, refused for one letter
    Not(u8),
    Skip(usize),
    Peek(usize),
}
#[derive(PartialEq, Eq, Debug)]
enum Seen {
    Byte(u8),
    Pair(u8),
    Unit,
    Skipped,
    Peeked(Vec<u8>),
    Failed,
    Rest(Vec<u8>),
}

/// The script on the runner's sequence, without any rewinding: it ends at the first failure.
async fn script<S>(ops: &[Op], mut s: S, skip: bool) -> Vec<Seen>
where
    S: Sequence<Segment = [u8], Length = usize> + 'static,
{
    let mut out = Vec::new();
    for op in ops {
        let r = match op {
            Op::Any => any_item::<u8, S>().parse(s).await.map(|(b, s)| (Seen::Byte(b), s)).map_err(drop),
            Op::The(x) => the_item(*x).parse(s).await.map(|(_, s)| (Seen::Unit, s)).map_err(drop),
            Op::Atom(p) => atom(p.clone()).parse(s).await.map(|(_, s)| (Seen::Unit, s)).map_err(drop),
            Op::Join(x) => match any_item::<u8, S>().parse(s).await {
                Ok((b, s)) => the_item(*x).parse(s).await.map(|(_, s)| (Seen::Pair(b), s)).map_err(drop),
                Err(_) => Err(()),
            },
            Op::Not(x) => {
                let x = *x;
                ParserExtension::<S>::map(any_item::<u8, S>(), move |b| b ^ x)
                    .parse(s)
                    .await
                    .map(|(b, s)| (Seen::Byte(b), s))
                    .map_err(drop)
            }
            Op::Skip(n) if skip => Ok((Seen::Skipped, s.advance(*n).await)),
            Op::Skip(_) => continue,
            Op::Peek(n) => {
                let mut v = Vec::new();
                let mut segs = s.segments();
                while v.len() < *n {
                    match segs.next(*n).await {
                        Some(x) => v.extend(x),
                        None => break,
                    }
                }
                drop(segs);
                v.truncate(*n);
                Ok((Seen::Peeked(v), s))
            }
        };
        match r {
            Ok((v, r)) => {
                ev!(0xb3, out.len(), 0; "parser: {op:?} gives {v:?}");
                out.push(v);
                s = r;
            }
            Err(()) => {
                ev!(0xb4, out.len(), 0; "parser: {op:?} fails");
                out.push(Seen::Failed);
                return out;
            }
        }
    }
    let mut rest = Vec::new();
    let mut segs = s.segments();
    while let Some(x) = segs.next(0).await {
        rest.extend(x);
    }
    drop(segs);
    out.push(Seen::Rest(rest));
    out
}

/// The same script on the bytes themselves.
fn script_model(ops: &[Op], d: &[u8]) -> Vec<Seen> {
    let mut out = Vec::new();
    let mut at = 0;
    for op in ops {
        let left = &d[at..];
        let r = match op {
            Op::Any => left.first().map(|b| (Seen::Byte(*b), 1)),
            Op::The(x) => (left.first() == Some(x)).then_some((Seen::Unit, 1)),
            Op::Atom(p) => left.starts_with(p).then_some((Seen::Unit, p.len())),
            Op::Join(x) => (left.get(1) == Some(x)).then(|| (Seen::Pair(left[0]), 2)),
            Op::Not(x) => left.first().map(|b| (Seen::Byte(*b ^ x), 1)),
            Op::Skip(n) => Some((Seen::Skipped, (*n).min(left.len()))),
            Op::Peek(n) => Some((Seen::Peeked(left[..(*n).min(left.len())].to_vec()), 0)),
        };
        match r {
            Some((v, n)) => {
                out.push(v);
                at += n;
            }
            None => {
                out.push(Seen::Failed);
                return out;
            }
        }
    }
    out.push(Seen::Rest(d[at..].to_vec()));
    out
}

// ---------------------------------------------------------------------------------------- scenario

fn gen_codes(root: Option<&N>, alpha: u8) -> Vec<u8> {
    crate::gram::seq::choose_letters();
    if let (Some(r), true) = (root, wchance(1, 2)) {
        return run::gen_input(r, 0, alpha, 100);
    }
    let mut v = Vec::new();
    if wchance(1, 300) {
        // long, of a short period
        cnt!("probe.long_input");
        // the values grammars make nest as deep as their input is long
        let n = [255, 256, 1000, 4096, 9000, 65536, 70000][work(if root.is_some() { 3 } else { 7 }) as usize];
        let mut period = Vec::new();
        for _ in 0..1 + work(6) {
            period.extend(WHOLE[work(if alpha == 2 { 2 } else { 5 }) as usize]);
        }
        while v.len() < n {
            v.extend(&period);
        }
        return v;
    }
    for _ in 0..small(St::Work, if wchance(1, 20) { 300 } else { 30 }) {
        v.extend(WHOLE[work(if alpha == 2 { 2 } else { 5 }) as usize]);
    }
    if alpha > 2 && work(4) == 0 {
        crate::gram::ast::mutate(&mut v, alpha);
    }
    v
}

fn with_pipe<R>(data: Vec<u8>, policy: Policy, chunky: u32, interrupt: bool, parse: impl FnOnce(Ds) -> Option<R>) -> Option<(R, Vec<u8>)> {
    let chunky = if data.len() > 1000 { 5 } else { chunky };
    let b = Bytes::new(data);
    let src = || Utf8Validator::new(ByteSource(b.clone()));
    let (buf, loader) = GenericSequenceBuilder::sim_new(policy).build(src());
    let (_, idle) = GenericSequenceBuilder::sim_new(Policy::Exact).build(src());
    let seq: Ds = DefaultSequence::new(buf, idle);
    let (signal, done) = seq.sim_signals();
    let give_up = if fault(1, 3) { 1 + pick(St::Fault, 3) } else { u32::MAX };
    let pipe = Pipe {
        b: b.clone(),
        end: Cell::new("nothing"),
        got: Cell::new(0),
        over: Cell::new(false),
    };
    let out = RefCell::new(None);
    let waiting = Cell::new(true);
    let sim = k2::Sim::new();
    sim.max_steps(2_000_000);
    {
        let (pipe, signal) = (&pipe, Arc::clone(&signal));
        sim.spawn("loader", move || load_all(pipe, loader, &signal, &done, chunky, interrupt, give_up));
    }
    drop(signal);
    {
        let (out, waiting) = (&out, &waiting);
        sim.spawn_with("parser", 1 << 20, false, move || {
            *out.borrow_mut() = parse(seq);
            waiting.set(false);
        });
    }
    let left = sim.run();
    check!(
        left.is_empty(),
        "stuck",
        "{left:?} never ended; loading ended with {}, {} byte(s)",
        pipe.end.get(),
        pipe.got.get()
    );
    sim.finish();
    check!(k2::live_wakers() == 0, "waker:leak", "{} waker(s) are still kept after everything is released", k2::live_wakers());
    let a = &b.data[..pipe.got.get()];
    let d = a[..valid(a).0].to_vec();
    if pipe.end.get() == "end of the source" {
        check!(d.len() == b.data.len(), "invalid:missed", "the source ended, but only {} of {} byte(s) are valid", d.len(), b.data.len());
    }
    out.into_inner().map(|r| (r, d))
}

fn drive<F: Future>(f: F) -> Option<F::Output> {
    // now and then the whole parse is given up
    let limit = fault(1, 16).then(|| 1 + pick(St::Fault, 6));
    match k2::drive(f, limit) {
        k2::Out::Ready(r) => Some(r),
        k2::Out::Dropped => {
            cnt!("fault.parse_dropped");
            None
        }
        k2::Out::Cancelled => violate!("harness:cancelled", "a parse was cancelled"),
    }
}

fn grammars(policy: Policy, chunky: u32, interrupt: bool) {
    let alpha = [2, 2, 8][work(3) as usize];
    let mut p = Prof {
        fatal: 1,
        bin: 1,
        iter: 2,
        size: 20,
        alpha,
        calls: true,
    };
    let budget = 2 + work(p.size) as i32;
    let root = Gen {
        p: &mut p,
        next_id: 0,
        budget,
    }
    .node(false, false);
    let codes = gen_codes(Some(&root), alpha);
    let data: Vec<u8> = codes.iter().map(|c| u8::make(*c)).collect();
    ctl::set_context(|| format!("grammar {root:?}; bytes {data:02x?}; policy {policy:?}; chunking {chunky}; faults {interrupt}"));
    let c = Case {
        kind: 1,
        root,
        input: codes,
        start: 0,
        alpha,
    };
    // the model decides whether the case is small enough; on the whole input
    if run::expect(&c).is_none() {
        return;
    }
    let g = run::build::<Replay>(&c.root);
    env::clear_log(0);
    let r = with_pipe(data, policy, chunky, interrupt, |seq| {
        let s = Replay {
            seq: Some(seq),
            kept: Vec::new(),
            total: 0,
            pos: 0,
            ended: false,
        };
        drive(env::scope(0, run::parse_ref(&g.root, s, 0)))
    });
    let log = env::log_of(0);
    env::clear_log(0);
    let Some((out, d)) = r else { return };
    let n = d.len();
    let c = Case {
        input: d.iter().map(|b| b.value()).collect(),
        ..c
    };
    let out = match out {
        Outcome::Ok(v, l) => Outcome::Ok(v, n.wrapping_sub(BASE - l)),
        Outcome::Err(e, l) => Outcome::Err(e, n.wrapping_sub(BASE - l)),
    };
    let (o, l) = run::in_memory::<Items<u8>>(&c, false);
    run::same("parse of the loaded sequence, against memory", &out, &log, &o, &l);
    if let Some(e) = run::expect(&c) {
        run::same("parse of the loaded sequence, against the model", &out, &log, &e.out, &e.log);
    }
}

fn scripts(policy: Policy, chunky: u32, interrupt: bool) {
    let data: Vec<u8> = gen_codes(None, 8).iter().map(|c| u8::make(*c)).collect();
    let mut ops = Vec::new();
    let mut at = 0usize;
    let peek = |at: usize| data.get(at).copied().unwrap_or(b'a');
    for _ in 0..small(St::Work, 16) {
        let right = work(12) > 0;
        let x = if right { peek(at) } else { LETTERS[work(8) as usize] };
        let op = match work(8) {
            0 | 1 => Op::Any,
            2 => Op::The(x),
            3 => {
                let n = if data.len() > 200 && wchance(1, 4) { work(5000) } else { work(5) } as usize;
                let mut p: Vec<u8> = data.iter().skip(at).take(n).copied().collect();
                if !right {
                    p.push(x);
                }
                Op::Atom(p)
            }
            4 => Op::Join(if right { peek(at + 1) } else { x }),
            5 => Op::Not(x),
            6 => Op::Skip(if data.len() > 200 && wchance(1, 2) { work(data.len() as u32) } else { work(8) } as usize),
            _ => Op::Peek(if data.len() > 200 && wchance(1, 4) { work(data.len() as u32) } else { work(12) } as usize),
        };
        at += match &op {
            Op::Any | Op::The(_) | Op::Not(_) => 1,
            Op::Join(_) => 2,
            Op::Atom(p) => p.len(),
            Op::Skip(n) => *n,
            Op::Peek(_) => 0,
        };
        ops.push(op);
    }
    ctl::set_context(|| format!("script {ops:?}; bytes {data:02x?}; policy {policy:?}; chunking {chunky}; faults {interrupt}"));
    let r = with_pipe(data.clone(), policy, chunky, interrupt, |seq| drive(script(&ops, seq, true)));
    let Some((got, d)) = r else { return };
    let want = script_model(&ops, &d);
    check!(got == want, "result", "the script on the loaded sequence gave {got:02x?}; on {d:02x?} it gives {want:02x?}");
}

pub fn c17() {
    let policy = Policy::random();
    let chunky = work(5);
    let interrupt = fault(1, 2);
    if wchance(1, 2) {
        grammars(policy, chunky, interrupt)
    } else {
        scripts(policy, chunky, interrupt)
    }
}
