//! Input streams under simulator control. The content is fixed by the workload; how it is cut into
//! segments, how long each step takes and how much has arrived is decided by the schedule.

use super::env;
use crate::ctl::{chance, sched, work, St};
use crate::tok::Tok;
use crate::{check, cnt, ev};
use parcom_core::primitive::BytesDelta;
use parcom_core::{PeekableSequence, RewindSequence, SegmentStream, Sequence, SequenceSegment};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

type Letters = [char; 8];
pub const CHARS: Letters = ['a', 'b', 'é', 'ß', '漢', '😀', '\n', '\r'];

/// The same characters in an order that makes texts of few letters consist of line ends.
const LINES: Letters = ['\n', '\r', 'a', 'é', '漢', '😀', 'b', 'ß'];
/// Letters that differ in case only.
const CASES: Letters = ['a', 'A', 'é', 'É', 's', 'ſ', 'K', '\u{212a}'];
/// What a parser of text may be tempted to treat specially.
const SPECIAL: Letters = ['\u{feff}', 'a', ' ', '\0', '\u{301}', '\t', 'e', '\u{200d}'];
/// The ends of the encoded lengths.
const ENDS: Letters = ['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}'];
/// Encodings that share bytes with each other.
const ALIKE: Letters = ['é', 'è', '©', 'Ã', 'Ω', '\u{9a9}', '\u{1f4a9}', '\u{1f4a8}'];

thread_local!(static LETTERS: Cell<Letters> = const { Cell::new(CHARS) });
pub fn set_lines(b: bool) {
    LETTERS.with(|l| l.set(if b { LINES } else { CHARS }))
}
/// Another set of characters for this run, unless lines are in use.
pub fn choose_letters() {
    if LETTERS.with(|l| l.get()) != CHARS {
        return;
    }
    let l = match work(12) {
        0 => CASES,
        1 => SPECIAL,
        2 => ENDS,
        3 => ALIKE,
        4 => {
            let mut l = CHARS;
            for i in 0..8 {
                let c = char::from_u32(work(0x11_0000)).unwrap_or('a');
                if !l.contains(&c) {
                    l[i] = c;
                }
            }
            l
        }
        _ => CHARS,
    };
    LETTERS.with(|x| x.set(l))
}
fn chars() -> Letters {
    LETTERS.with(|l| l.get())
}
pub fn char_of(c: u8) -> char {
    chars()[c as usize % 8]
}
pub fn el_of(c: char) -> u8 {
    chars().iter().position(|d| *d == c).expect("unknown char") as u8
}
pub fn string_of(v: &[u8]) -> String {
    v.iter().map(|c| char_of(*c)).collect()
}

/// A stream element with observable clone and comparison.
#[derive(Debug)]
pub struct Sym {
    pub v: u8,
    tok: Tok,
}
impl Sym {
    pub fn new(v: u8) -> Sym {
        Sym { v, tok: Tok::new() }
    }
}
impl Clone for Sym {
    fn clone(&self) -> Sym {
        env::silent();
        self.tok.verify("element");
        Sym::new(self.v)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        env::silent();
        self.tok.verify("element");
        o.tok.verify("element");
        self.v == o.v
    }
}

pub trait Item: 'static + Clone + PartialEq + std::fmt::Debug {
    fn make(c: u8) -> Self;
    fn value(&self) -> u8;
}
impl Item for Sym {
    fn make(c: u8) -> Self {
        Sym::new(c)
    }
    fn value(&self) -> u8 {
        self.v
    }
}
impl Item for () {
    fn make(_: u8) -> Self {}
    fn value(&self) -> u8 {
        0
    }
}

/// How a stream's elements are stored and addressed.
pub trait Content: 'static {
    type Seg: ?Sized + super::build::Elem;
    fn make(v: &[u8]) -> Self;
    fn slice(&self, a: usize, b: usize) -> &Self::Seg;
    /// The element index `delta` past element `pos`; None if that is not on an element boundary.
    fn add(&self, pos: usize, delta: &<Self::Seg as SequenceSegment>::Length) -> Option<usize>;
    /// The library's peek at a whole in-memory input.
    fn peek(s: &mut &'static Self::Seg) -> &'static Self::Seg;
}

pub struct Text {
    s: String,
    starts: Vec<usize>,
}
impl Content for Text {
    type Seg = str;
    fn make(v: &[u8]) -> Self {
        let s = string_of(v);
        let mut starts: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
        starts.push(s.len());
        Text { s, starts }
    }
    fn slice(&self, a: usize, b: usize) -> &str {
        let s = &self.s[self.starts[a]..self.starts[b]];
        // the way a segment is divided belongs to the segment
        let all = self.s.as_str();
        let (front, _) = SequenceSegment::split_at(all, BytesDelta::from_bytes(self.starts[b]));
        let (_, back) = SequenceSegment::split_at(front, BytesDelta::from_bytes(self.starts[a]));
        check!(back == s, "segment", "split_at gives {back:?} for {s:?}");
        back
    }
    fn add(&self, pos: usize, d: &BytesDelta) -> Option<usize> {
        self.starts.binary_search(&(self.starts[pos].checked_add(d.to_bytes())?)).ok()
    }
    fn peek(s: &mut &'static str) -> &'static str {
        PeekableSequence::peek(s)
    }
}
pub struct Items<T>(Vec<T>);
impl<T: Item> Content for Items<T> {
    type Seg = [T];
    fn make(v: &[u8]) -> Self {
        Items(v.iter().map(|c| T::make(*c)).collect())
    }
    fn slice(&self, a: usize, b: usize) -> &[T] {
        let (front, _) = SequenceSegment::split_at(&self.0[..], b);
        let (_, back) = SequenceSegment::split_at(front, a);
        check!(back.len() == b - a, "segment", "split_at gives {} items for {}", back.len(), b - a);
        back
    }
    fn add(&self, pos: usize, d: &usize) -> Option<usize> {
        let p = pos.checked_add(*d)?;
        (p <= self.0.len()).then_some(p)
    }
    fn peek(s: &mut &'static [T]) -> &'static [T] {
        PeekableSequence::peek(s)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Cut {
    /// everything that has arrived at once
    Whole,
    /// one element per segment
    Single,
    /// random lengths, chosen anew at every call
    Random,
    /// fixed boundaries every n elements
    Every(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct Delivery {
    pub cut: Cut,
    /// empty segments, in 1/16
    pub empty: u32,
    /// delays, in 1/16
    pub delay: u32,
}

impl Delivery {
    pub fn random() -> Delivery {
        Delivery {
            cut: match sched(6) {
                0 => Cut::Whole,
                1 => Cut::Single,
                2 => Cut::Every(2 + sched(4)),
                _ => Cut::Random,
            },
            empty: [0, 0, 3, 8][sched(4) as usize],
            delay: [0, 1, 4, 10][sched(4) as usize],
        }
    }
    pub fn plain() -> Delivery {
        Delivery {
            cut: Cut::Whole,
            empty: 0,
            delay: 0,
        }
    }
}

pub struct Stream<C> {
    content: C,
    total: usize,
    avail: Cell<usize>,
    ended: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
    delivery: Cell<Delivery>,
    handles: Cell<i64>,
    anchors: Cell<i64>,
    pub ops: Cell<u64>,
    /// steps that waited for data
    pub waits: Cell<u64>,
    id: u64,
}

thread_local! {
    static IDS: Cell<u64> = const { Cell::new(0) };
}

impl<C: Content> Stream<C> {
    pub fn new(v: &[u8], delivery: Delivery) -> Rc<Self> {
        let id = IDS.with(|i| {
            i.set(i.get() + 1);
            i.get()
        });
        Rc::new(Stream {
            content: C::make(v),
            total: v.len(),
            avail: Cell::new(v.len()),
            ended: Cell::new(true),
            wakers: RefCell::new(Vec::new()),
            delivery: Cell::new(delivery),
            handles: Cell::new(0),
            anchors: Cell::new(0),
            ops: Cell::new(0),
            waits: Cell::new(0),
            id,
        })
    }
    pub fn open(self: &Rc<Self>) -> SimSeq<C> {
        self.handles.set(self.handles.get() + 1);
        SimSeq {
            pos: 0,
            h: Handle(self.clone()),
        }
    }
    pub fn limit(&self, avail: usize, ended: bool) {
        self.avail.set(avail.min(self.total));
        self.ended.set(ended && avail >= self.total);
    }
    pub fn arrive(&self, avail: usize, ended: bool) {
        let avail = avail.min(self.total).max(self.avail.get());
        self.avail.set(avail);
        if ended && avail == self.total {
            self.ended.set(true);
        }
        ev!(0x40, avail, self.ended.get(); "t={} stream: {avail}/{} arrived{}", crate::k1::now(), self.total, if self.ended.get() { ", ended" } else { "" });
        let w = std::mem::take(&mut *self.wakers.borrow_mut());
        for w in w {
            w.wake();
        }
    }
    pub fn avail(&self) -> usize {
        self.avail.get()
    }
    pub fn ended(&self) -> bool {
        self.ended.get()
    }
    pub fn live(&self) -> (i64, i64) {
        (self.handles.get(), self.anchors.get())
    }
    fn op(&self) {
        env::silent();
        self.ops.set(self.ops.get() + 1);
        check!(
            self.ops.get() < 2_000_000,
            "livelock",
            "the parser made {} operations on a stream of {} elements",
            self.ops.get(),
            self.total
        );
    }
    fn pause(&self) -> env::Pausing {
        env::maybe_pause(self.delivery.get().delay, 16)
    }
}

struct Handle<C: Content>(Rc<Stream<C>>);
impl<C: Content> Drop for Handle<C> {
    fn drop(&mut self) {
        self.0.handles.set(self.0.handles.get() - 1);
    }
}

pub struct SimSeq<C: Content> {
    h: Handle<C>,
    pos: usize,
}

impl<C: Content> SimSeq<C> {
    pub fn position(&self) -> usize {
        self.pos
    }
    pub fn content(&self) -> &C {
        &self.h.0.content
    }
}

pub struct SimAnchor<C: Content> {
    st: Rc<Stream<C>>,
    pos: usize,
}
impl<C: Content> Drop for SimAnchor<C> {
    fn drop(&mut self) {
        self.st.anchors.set(self.st.anchors.get() - 1);
    }
}

pub struct Segs<'a, C: Content> {
    st: &'a Stream<C>,
    cur: usize,
    done: bool,
}

pub struct Next<'b, C: Content> {
    st: &'b Stream<C>,
    cur: &'b mut usize,
    done: &'b mut bool,
    pause: Option<env::Pausing>,
    finished: bool,
}

impl<C: Content> SegmentStream for Segs<'_, C> {
    type Length = <C::Seg as SequenceSegment>::Length;
    type Segment = C::Seg;
    type Next<'b>
        = Next<'b, C>
    where
        Self: 'b;
    fn next<'b>(&'b mut self, _hint: Self::Length) -> Next<'b, C> {
        self.st.op();
        Next {
            st: self.st,
            cur: &mut self.cur,
            done: &mut self.done,
            pause: None,
            finished: false,
        }
    }
}

impl<'b, C: Content> Future for Next<'b, C> {
    type Output = Option<&'b C::Seg>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = &mut *self;
        env::silent();
        check!(!me.finished, "contract:poll-after-ready", "a finished `next` was polled again");
        if me.pause.is_none() {
            me.pause = Some(me.st.pause());
        }
        if Pin::new(me.pause.as_mut().unwrap()).poll(cx).is_pending() {
            return Poll::Pending;
        }
        let st = me.st;
        let cur = *me.cur;
        let d = st.delivery.get();
        let have = st.avail.get() - cur.min(st.avail.get());
        if have == 0 {
            if !st.ended.get() {
                st.waits.set(st.waits.get() + 1);
                cnt!("fault.stall");
                ev!(0x41, cur, 0; "  stream: nothing after {cur} yet");
                st.wakers.borrow_mut().push(cx.waker().clone());
                return Poll::Pending;
            }
            me.finished = true;
            if !*me.done && d.empty > 0 && chance(St::Sched, d.empty, 16) {
                cnt!("fault.empty_segment");
                return Poll::Ready(Some(st.content.slice(cur, cur)));
            }
            *me.done = true;
            ev!(0x42, cur, 0; "  stream: end at {cur}");
            return Poll::Ready(None);
        }
        me.finished = true;
        if d.empty > 0 && chance(St::Sched, d.empty, 16) {
            cnt!("fault.empty_segment");
            return Poll::Ready(Some(st.content.slice(cur, cur)));
        }
        let n = match d.cut {
            Cut::Whole => have,
            Cut::Single => 1,
            Cut::Random => {
                let m = match sched(4) {
                    0 => have,
                    1 => have.min(2),
                    2 => have.min(4),
                    _ => have,
                };
                1 + sched(m as u32) as usize
            }
            Cut::Every(k) => {
                let k = k as usize;
                (k - cur % k).min(have)
            }
        };
        if n < have {
            cnt!("fault.split_delivery");
        }
        ev!(0x43, cur, n; "  stream: segment {cur}..{}", cur + n);
        *me.cur = cur + n;
        Poll::Ready(Some(st.content.slice(cur, cur + n)))
    }
}

pub struct Step<C: Content> {
    seq: Option<SimSeq<C>>,
    to: usize,
    pause: Option<env::Pausing>,
}
impl<C: Content> Unpin for Step<C> {}
impl<C: Content> Future for Step<C> {
    type Output = SimSeq<C>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<SimSeq<C>> {
        let me = &mut *self;
        env::silent();
        let Some(seq) = me.seq.as_ref() else {
            crate::violate!("contract:poll-after-ready", "a finished step of the stream was polled again")
        };
        if me.pause.is_none() {
            me.pause = Some(seq.h.0.pause());
        }
        if Pin::new(me.pause.as_mut().unwrap()).poll(cx).is_pending() {
            return Poll::Pending;
        }
        let mut s = me.seq.take().unwrap();
        s.pos = me.to;
        Poll::Ready(s)
    }
}

impl<C: Content> Sequence for SimSeq<C> {
    type Length = <C::Seg as SequenceSegment>::Length;
    type Segment = C::Seg;
    type Segments<'a>
        = Segs<'a, C>
    where
        Self: 'a;
    type Advance = Step<C>;
    fn segments(&mut self) -> Segs<'_, C> {
        self.h.0.op();
        Segs {
            st: &self.h.0,
            cur: self.pos,
            done: false,
        }
    }
    fn advance(self, delta: Self::Length) -> Step<C> {
        self.h.0.op();
        let Some(to) = self.h.0.content.add(self.pos, &delta) else {
            crate::violate!(
                "contract:bad-advance",
                "the stream at element {} of {} was advanced past its end or into the middle of an element",
                self.pos,
                self.h.0.total
            )
        };
        check!(
            to <= self.h.0.avail.get(),
            "contract:bad-advance",
            "the stream was advanced to element {to}, but only {} have arrived",
            self.h.0.avail.get()
        );
        ev!(0x44, self.pos, to; "  stream: advance {} -> {to}", self.pos);
        Step {
            seq: Some(self),
            to,
            pause: None,
        }
    }
}

impl<C: Content> RewindSequence for SimSeq<C> {
    type Anchor = SimAnchor<C>;
    type Rewind = Step<C>;
    fn anchor(&self) -> SimAnchor<C> {
        self.h.0.op();
        let st = self.h.0.clone();
        st.anchors.set(st.anchors.get() + 1);
        SimAnchor { st, pos: self.pos }
    }
    fn rewind(self, a: SimAnchor<C>) -> Step<C> {
        self.h.0.op();
        check!(
            a.st.id == self.h.0.id,
            "contract:foreign-anchor",
            "a stream was rewound to an anchor of another stream"
        );
        check!(
            a.pos <= self.pos,
            "contract:forward-rewind",
            "a stream at element {} was rewound to the later element {}",
            self.pos,
            a.pos
        );
        if a.pos < self.pos {
            cnt!("probe.rewind");
        }
        ev!(0x45, self.pos, a.pos; "  stream: rewind {} -> {}", self.pos, a.pos);
        Step {
            seq: Some(self),
            to: a.pos,
            pause: None,
        }
    }
}

/// The streams grammars can be built over.
pub trait Seq: RewindSequence<Segment = Self::Seg, Length = <Self::Seg as SequenceSegment>::Length> + 'static {
    type Seg: ?Sized + super::build::Elem;
    /// number of elements after the current position
    fn left(&self) -> usize;
}

impl<C: Content> Seq for SimSeq<C> {
    type Seg = C::Seg;
    fn left(&self) -> usize {
        self.h.0.total - self.pos
    }
}
impl Seq for &'static str {
    type Seg = str;
    fn left(&self) -> usize {
        self.chars().count()
    }
}
impl<T: Item> Seq for &'static [T] {
    type Seg = [T];
    fn left(&self) -> usize {
        self.len()
    }
}

/// An in-memory input of the library itself. The content must outlive the returned sequence.
pub struct Memory<C>(Rc<C>, usize);
impl<C: Content> Memory<C> {
    pub fn new(v: &[u8]) -> Self {
        Memory(Rc::new(C::make(v)), v.len())
    }
    pub fn seq(&self) -> &'static C::Seg {
        unsafe { &*(self.0.slice(0, self.1) as *const C::Seg) }
    }
}
