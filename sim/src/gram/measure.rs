//! C16: positions. Meters fed piece by piece, measured sequences under random histories of advances
//! and rewinds, and whole grammars over measured sequences, observed at every stream operation.

use super::ast::*;
use super::env;
use super::run::{build, context, expect, gen_case, parse_own, parse_ref, same, Case, Expect};
use super::seq::{char_of, set_lines, string_of, Content, Delivery, Item, Items, Memory, Seq, SimAnchor, SimSeq, Step, Stream, Sym, Text};
use crate::ctl::{sched, small, wchance, work, St};
use crate::{check, cnt, ctl, ev, k1};
use parcom_core::measured::{IntoMeasured, MeasuredSequence, Meter, Metrics};
use parcom_core::primitive::{slice, str, BytesDelta};
use parcom_core::{RewindSequence, SegmentStream, Sequence, SequenceSegment};
use parcom_metrics::end_of_line::{CR, CRLF, LF};
use parcom_metrics::{EndOfLine, LineColumn, LineColumnMeter};
use std::cell::RefCell;
use std::future::{Future, IntoFuture};
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

// -------------------------------------------------------------------------------------- reference

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Place {
    total: usize,
    line: usize,
    column: usize,
}

/// Line, column and count of a prefix by looking at all of it: a line starts with the first
/// character and with every character that follows an end-of-line marker.
fn place(prefix: &str, eol: &str) -> Place {
    let total = prefix.chars().count();
    if total == 0 {
        return Place { total, line: 0, column: 0 };
    }
    let mut line = 1;
    let mut start = 0;
    for (i, m) in prefix.match_indices(eol) {
        let end = i + m.len();
        if end < prefix.len() {
            line += 1;
            start = end;
        }
    }
    Place {
        total,
        line,
        column: prefix[start..].chars().count(),
    }
}

pub trait Eol: EndOfLine + 'static {
    const MARK: &'static str;
}
impl Eol for LF {
    const MARK: &'static str = "\n";
}
impl Eol for CR {
    const MARK: &'static str = "\r";
}
impl Eol for CRLF {
    const MARK: &'static str = "\r\n";
}

fn of<E: EndOfLine>(m: &LineColumn<E>) -> Place {
    Place {
        total: m.total_count,
        line: m.line,
        column: m.column,
    }
}

// ------------------------------------------------------------------------------- cloneable meters

/// The library's meter is not cloneable, so it cannot be kept in an anchor. This one remembers the
/// pieces it was fed and feeds them to a fresh meter of the library when asked for its metrics.
pub struct Lm<E: Eol> {
    pieces: Option<Rc<Piece>>,
    _p: PhantomData<fn() -> E>,
}
struct Piece {
    text: String,
    before: Option<Rc<Piece>>,
}
impl<E: Eol> Clone for Lm<E> {
    fn clone(&self) -> Self {
        Lm {
            pieces: self.pieces.clone(),
            _p: PhantomData,
        }
    }
}
impl<E: Eol> Default for Lm<E> {
    fn default() -> Self {
        Lm {
            pieces: None,
            _p: PhantomData,
        }
    }
}
pub struct Lc<E: Eol>(LineColumn<E>);
impl<E: Eol> PartialEq for Lc<E> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<E: Eol> Eq for Lc<E> {}
impl<E: Eol> PartialOrd for Lc<E> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl<E: Eol> Ord for Lc<E> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<E: Eol> Meter<str> for Lm<E> {
    type Metrics = Lc<E>;
    fn advance(self, s: &str) -> Self {
        Lm {
            pieces: Some(Rc::new(Piece {
                text: s.to_string(),
                before: self.pieces,
            })),
            _p: PhantomData,
        }
    }
    fn metrics(&self) -> Lc<E> {
        let mut v = Vec::new();
        let mut p = &self.pieces;
        while let Some(x) = p {
            v.push(x);
            p = &x.before;
        }
        let mut m = LineColumnMeter::<E>::default();
        for x in v.iter().rev() {
            m = m.advance(&x.text);
        }
        Lc(m.metrics())
    }
}
impl<E: Eol> Metrics<str> for Lc<E> {
    type Meter = Lm<E>;
}

/// What is compared with the reference.
pub trait Shown {
    fn judge(&self, text: &Whole, at: usize) -> Result<(), String>;
}
pub struct Whole {
    text: String,
    starts: Vec<usize>,
    items: Vec<u8>,
    n: usize,
}
impl Whole {
    fn new(kind: u8, v: &[u8]) -> Whole {
        let text = if kind == 0 { string_of(v) } else { String::new() };
        let mut starts: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
        starts.push(text.len());
        Whole {
            text,
            starts,
            items: if kind == 2 { vec![0; v.len()] } else { v.to_vec() },
            n: v.len(),
        }
    }
    fn prefix(&self, at: usize) -> &str {
        &self.text[..self.starts[at]]
    }
}
impl<E: Eol> Shown for Lc<E> {
    fn judge(&self, text: &Whole, at: usize) -> Result<(), String> {
        let (got, want) = (of(&self.0), place(text.prefix(at), E::MARK));
        if got == want {
            Ok(())
        } else {
            Err(format!("{got:?} is reported after {:?}, it is {want:?} (lines end with {:?})", text.prefix(at), E::MARK))
        }
    }
}
impl Shown for usize {
    fn judge(&self, _: &Whole, at: usize) -> Result<(), String> {
        if *self == at {
            Ok(())
        } else {
            Err(format!("a count of {self} is reported after {at} item(s)"))
        }
    }
}

/// An order-sensitive metric of slices: what exactly was measured, in which order.
pub struct Roll<T> {
    n: usize,
    h: u64,
    _p: PhantomData<fn() -> T>,
}
impl<T> Clone for Roll<T> {
    fn clone(&self) -> Self {
        Roll { ..*self }
    }
}
impl<T> Default for Roll<T> {
    fn default() -> Self {
        Roll {
            n: 0,
            h: 1,
            _p: PhantomData,
        }
    }
}
impl<T> PartialEq for Roll<T> {
    fn eq(&self, o: &Self) -> bool {
        (self.n, self.h) == (o.n, o.h)
    }
}
impl<T> Eq for Roll<T> {}
impl<T> PartialOrd for Roll<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for Roll<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.n, self.h).cmp(&(o.n, o.h))
    }
}
fn roll(h: u64, c: u8) -> u64 {
    ctl::mix(h.wrapping_mul(31).wrapping_add(c as u64 + 1))
}
impl<T: Item> Meter<[T]> for Roll<T> {
    type Metrics = Roll<T>;
    fn advance(mut self, s: &[T]) -> Self {
        for x in s {
            self.n += 1;
            self.h = roll(self.h, x.value());
        }
        self
    }
    fn metrics(&self) -> Self {
        self.clone()
    }
}
impl<T: Item> Metrics<[T]> for Roll<T> {
    type Meter = Roll<T>;
}
impl<T> Shown for Roll<T> {
    fn judge(&self, w: &Whole, at: usize) -> Result<(), String> {
        let h = w.items[..at].iter().fold(1, |h, c| roll(h, *c));
        if (self.n, self.h) == (at, h) {
            Ok(())
        } else {
            Err(format!("the {} item(s) measured are not the {at} consumed", self.n))
        }
    }
}

// ------------------------------------------------------------------------------ observed sequences

/// A sequence whose metrics are checked at every operation.
pub struct Obs<S: Seq> {
    s: S,
    w: Rc<Whole>,
}
pub struct ObsAnchor<A> {
    a: A,
    at: usize,
}

fn observe<S>(s: &S, w: &Whole, when: &str) -> usize
where
    S: Seq + MeasuredSequence,
    S::Metrics: Shown,
{
    let at = w.n - s.left();
    if let Err(m) = s.metrics().judge(w, at) {
        crate::violate!("position", "{when}: {m}");
    }
    at
}

impl<S> Sequence for Obs<S>
where
    S: Seq + MeasuredSequence,
    S::Metrics: Shown,
{
    type Length = <S::Seg as SequenceSegment>::Length;
    type Segment = S::Seg;
    type Segments<'a> = S::Segments<'a>;
    type Advance = Pin<Box<dyn Future<Output = Self>>>;
    fn segments(&mut self) -> Self::Segments<'_> {
        observe(&self.s, &self.w, "before reading");
        self.s.segments()
    }
    fn advance(self, d: Self::Length) -> Self::Advance {
        let Obs { s, w } = self;
        Box::pin(async move {
            let from = observe(&s, &w, "before advancing");
            let before = s.metrics();
            let s = s.advance(d).await;
            let to = observe(&s, &w, "after advancing");
            let after = s.metrics();
            let ok = if to > from { before < after && before != after } else { before == after };
            check!(
                ok && !(after < before),
                "order",
                "the positions after {from} and {to} element(s) do not compare in that order"
            );
            ev!(0xa0, from, to; "  position checked at {from} and {to}");
            Obs { s, w }
        })
    }
}
impl<S> RewindSequence for Obs<S>
where
    S: Seq + MeasuredSequence,
    S::Metrics: Shown,
{
    type Anchor = ObsAnchor<S::Anchor>;
    type Rewind = Pin<Box<dyn Future<Output = Self>>>;
    fn anchor(&self) -> Self::Anchor {
        ObsAnchor {
            at: observe(&self.s, &self.w, "at an anchor"),
            a: self.s.anchor(),
        }
    }
    fn rewind(self, a: Self::Anchor) -> Self::Rewind {
        let Obs { s, w } = self;
        Box::pin(async move {
            let s = s.rewind(a.a).await;
            let at = observe(&s, &w, "after a rewind");
            check!(at == a.at, "rewind", "a rewind to element {} ended at {at}", a.at);
            cnt!("probe.rewind");
            Obs { s, w }
        })
    }
}
impl<S> Seq for Obs<S>
where
    S: Seq + MeasuredSequence,
    S::Metrics: Shown,
{
    type Seg = S::Seg;
    fn left(&self) -> usize {
        self.s.left()
    }
}

impl<E: Eol> Seq for str::Measured<'static, Lc<E>> {
    type Seg = str;
    fn left(&self) -> usize {
        let mut c = self.clone();
        let mut s = c.segments();
        now(s.next(Default::default())).map_or(0, |s| s.chars().count())
    }
}
impl<T: Item, M: Metrics<[T]> + 'static> Seq for slice::Measured<'static, T, M>
where
    M::Meter: Clone,
{
    type Seg = [T];
    fn left(&self) -> usize {
        let mut c = self.clone();
        let mut s = c.segments();
        now(s.next(0)).map_or(0, |s| s.len())
    }
}

/// A streamed sequence that feeds a meter in pieces of its own choosing.
pub struct Metered<C: Content, M: Metrics<C::Seg>>
where
    M::Meter: Clone,
{
    s: SimSeq<C>,
    m: M::Meter,
}
pub struct MStep<C: Content, M: Metrics<C::Seg>>
where
    M::Meter: Clone,
{
    s: Step<C>,
    m: Option<M::Meter>,
}
impl<C: Content, M: Metrics<C::Seg>> Unpin for MStep<C, M> where M::Meter: Clone {}
impl<C: Content, M: Metrics<C::Seg>> Future for MStep<C, M>
where
    M::Meter: Clone,
{
    type Output = Metered<C, M>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Metered<C, M>> {
        match Pin::new(&mut self.s).poll(cx) {
            Poll::Ready(s) => Poll::Ready(Metered {
                s,
                m: self.m.take().unwrap(),
            }),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl<C: Content, M: Metrics<C::Seg> + 'static> Sequence for Metered<C, M>
where
    M::Meter: Clone,
{
    type Length = <C::Seg as SequenceSegment>::Length;
    type Segment = C::Seg;
    type Segments<'a> = <SimSeq<C> as Sequence>::Segments<'a>;
    type Advance = MStep<C, M>;
    fn segments(&mut self) -> Self::Segments<'_> {
        self.s.segments()
    }
    fn advance(self, d: Self::Length) -> MStep<C, M> {
        let (c, mut at) = (self.s.content(), self.s.position());
        let to = c.add(at, &d);
        let mut m = self.m;
        if let Some(to) = to {
            while at < to {
                let n = if sched(2) == 1 { 1 + sched((to - at) as u32) as usize } else { to - at };
                if sched(8) == 1 {
                    m = m.advance(c.slice(at, at));
                }
                if n < to - at {
                    cnt!("fault.split_measure");
                }
                m = m.advance(c.slice(at, at + n));
                at += n;
            }
        }
        MStep {
            s: self.s.advance(d),
            m: Some(m),
        }
    }
}
impl<C: Content, M: Metrics<C::Seg> + 'static> RewindSequence for Metered<C, M>
where
    M::Meter: Clone,
{
    type Anchor = (SimAnchor<C>, M::Meter);
    type Rewind = MStep<C, M>;
    fn anchor(&self) -> Self::Anchor {
        (self.s.anchor(), self.m.clone())
    }
    fn rewind(self, a: Self::Anchor) -> MStep<C, M> {
        MStep {
            s: self.s.rewind(a.0),
            m: Some(a.1),
        }
    }
}
impl<C: Content, M: Metrics<C::Seg> + 'static> MeasuredSequence for Metered<C, M>
where
    M::Meter: Clone,
{
    type Metrics = M;
    fn metrics(&self) -> M {
        self.m.metrics()
    }
}
impl<C: Content, M: Metrics<C::Seg> + 'static> Seq for Metered<C, M>
where
    M::Meter: Clone,
{
    type Seg = C::Seg;
    fn left(&self) -> usize {
        self.s.left()
    }
}

// -------------------------------------------------------------------------------------- scenarios

/// The result of a future of an in-memory sequence.
fn now<F: IntoFuture>(f: F) -> F::Output {
    let mut f = Box::pin(f.into_future());
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..64 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    crate::violate!("stuck:memory", "an operation of an in-memory sequence waits")
}

fn grammar<S>(c: &Case, e: &Expect, what: &str, mk: impl Fn() -> S)
where
    S: Seq + MeasuredSequence,
    S::Metrics: Shown,
{
    let w = Rc::new(Whole::new(c.kind, &c.input));
    let g = build::<Obs<S>>(&c.root);
    let own = (sched(4) == 1).then(|| build::<Obs<S>>(&c.root));
    let out = RefCell::new(None);
    env::clear_log(0);
    {
        let mut sim = k1::Sim::new(k1::Cfg::random());
        let (g, out) = (&g, &out);
        let s = Obs { s: mk(), w };
        sim.spawn(env::scope(0, async move {
            let r = match own {
                Some(o) => parse_own(o, s, c.start).await,
                None => parse_ref(&g.root, s, c.start).await,
            };
            *out.borrow_mut() = Some(r);
        }));
        check!(sim.run(), "stuck", "everything was delivered, but the parse never ended");
    }
    let log = env::log_of(0);
    env::clear_log(0);
    same(what, &out.into_inner().unwrap(), &log, &e.out, &e.log);
}

fn streamed<C: Content, M>(c: &Case, e: &Expect)
where
    M: Metrics<C::Seg> + Shown + 'static,
    M::Meter: Clone + Default,
{
    let st = Stream::<C>::new(&c.input, Delivery::random());
    grammar(c, e, "parse of a measured stream", || Metered::<C, M> {
        s: st.open(),
        m: Default::default(),
    });
}

fn grammars() {
    let mut p = Prof {
        fatal: 1,
        bin: 1,
        iter: 2,
        size: 20,
        alpha: 2,
        calls: true,
    };
    let c = gen_case(&mut p, |g| g.node(false, false));
    context(&c);
    let Some(e) = expect(&c) else { return };
    let style = work(3);
    let stream = wchance(1, 2);
    match (c.kind, stream) {
        (0, true) => match style {
            0 => streamed::<Text, Lc<LF>>(&c, &e),
            1 => streamed::<Text, Lc<CR>>(&c, &e),
            _ => streamed::<Text, Lc<CRLF>>(&c, &e),
        },
        (0, false) => {
            let m = Memory::<Text>::new(&c.input);
            let what = "parse of a measured string";
            match style {
                0 => grammar(&c, &e, what, || m.seq().into_measured::<Lc<LF>>()),
                1 => grammar(&c, &e, what, || m.seq().into_measured::<Lc<CR>>()),
                _ => grammar(&c, &e, what, || m.seq().into_measured::<Lc<CRLF>>()),
            }
        }
        (1, true) if style == 0 => streamed::<Items<Sym>, usize>(&c, &e),
        (1, true) => streamed::<Items<Sym>, Roll<Sym>>(&c, &e),
        (1, false) => {
            let m = Memory::<Items<Sym>>::new(&c.input);
            match style {
                0 => grammar(&c, &e, "parse of a measured slice", || m.seq().into_measured::<usize>()),
                _ => grammar(&c, &e, "parse of a measured slice", || m.seq().into_measured::<Roll<Sym>>()),
            }
        }
        (_, true) => streamed::<Items<()>, usize>(&c, &e),
        (_, false) => {
            let m = Memory::<Items<()>>::new(&c.input);
            grammar(&c, &e, "parse of a measured slice", || m.seq().into_measured::<usize>());
        }
    }
}

fn gen_text(max: u32) -> Vec<u8> {
    let a = [2, 3, 4, 8][work(4) as usize];
    if wchance(1, 80) {
        // long, made of a short period and two odd places
        cnt!("probe.long_input");
        let n = [255, 256, 257, 300, 4096, 65535, 65536, 65537, 70000][work(9) as usize];
        let period: Vec<u8> = (0..1 + work(6)).map(|_| work(a) as u8).collect();
        let mut v: Vec<u8> = period.iter().copied().cycle().take(n).collect();
        for _ in 0..work(3) {
            let k = work(n as u32) as usize;
            v[k] = work(a) as u8;
        }
        return v;
    }
    (0..small(St::Work, max)).map(|_| work(a) as u8).collect()
}

/// A meter of the library fed piece by piece.
fn pieces<E: Eol>() {
    let v = gen_text(if wchance(1, 20) { 400 } else { 24 });
    let text = string_of(&v);
    ctl::set_context(|| format!("text {text:?} measured in pieces, lines end with {:?}", E::MARK));
    let mut at = 0;
    let mut m = LineColumnMeter::<E>::default();
    let mut last = m.metrics();
    check!(of(&last) == place("", E::MARK), "position", "{:?} is reported before anything is consumed", of(&last));
    let mut chars = 0;
    loop {
        let left = v.len() - chars;
        let n = match sched(4) {
            0 => left,
            1 => 0,
            2 => left.min(1),
            _ => sched(left as u32 + 1) as usize,
        };
        let piece: String = text[at..].chars().take(n).collect();
        m = m.advance(&piece);
        at += piece.len();
        chars += n;
        let now = m.metrics();
        ev!(0xa1, n, chars; "piece {piece:?}: {:?}", of(&now));
        let want = place(&text[..at], E::MARK);
        check!(of(&now) == want, "position", "{:?} is reported after {:?}, it is {want:?}", of(&now), &text[..at]);
        let again = now.clone();
        check!(again == now && again.cmp(&now).is_eq() && of(&again) == want, "order", "a copy of a position differs from it");
        check!(
            if n > 0 { last < now && last != now } else { last == now },
            "order",
            "the positions before and after a piece of {n} character(s) do not compare in that order"
        );
        last = now;
        if chars == v.len() && sched(3) > 0 {
            break;
        }
    }
    // the whole at once
    let all = LineColumnMeter::<E>::default().advance(&text).metrics();
    check!(all == last, "position", "{:?} is reported for {text:?} in one piece, {:?} in several", of(&all), of(&last));
}

/// A meter that starts at a given position. Whether the first character opens a line of its own is
/// not specified, so both readings are accepted; everything else follows from the text.
fn started<E: Eol>() {
    let v = gen_text(24);
    let text = string_of(&v);
    let mut start = LineColumn::<E>::default();
    start.total_count = [0, 1, 7, 1000, u32::MAX as usize][work(5) as usize];
    start.line = [0, 1, 2, 255, 65536][work(5) as usize];
    start.column = work(5) as usize;
    let from = of(&start);
    ctl::set_context(|| format!("text {text:?} measured from {from:?}, lines end with {:?}", E::MARK));
    let mut m = LineColumnMeter::<E>::new(start);
    check!(of(&m.metrics()) == from, "position", "{:?} is reported before anything is consumed, the start is {from:?}", of(&m.metrics()));
    let (mut at, mut chars) = (0, 0);
    let mut gap = None;
    while chars < v.len() {
        let n = 1 + sched((v.len() - chars) as u32) as usize;
        let piece: String = text[at..].chars().take(n).collect();
        m = m.advance(&piece);
        at += piece.len();
        chars += n;
        let (got, want) = (of(&m.metrics()), place(&text[..at], E::MARK));
        ev!(0xa3, n, chars; "piece {piece:?}: {got:?}");
        let d = got.line.wrapping_sub(want.line);
        check!(
            got.total == from.total + want.total
                && (d == from.line || d == from.line.wrapping_sub(1))
                && *gap.get_or_insert(d) == d
                && (want.line == 1 || got.column == want.column),
            "position",
            "{got:?} is reported {want:?} after the start {from:?}"
        );
    }
}

/// A measured string of the library without rewinding: its own metrics.
fn plain<E: Eol>() {
    let v = gen_text(24);
    let text = string_of(&v);
    ctl::set_context(|| format!("measured string {text:?}, lines end with {:?}", E::MARK));
    let mut s = text.as_str().into_measured::<LineColumn<E>>();
    let mut at = 0;
    for _ in 0..1 + small(St::Work, 10) {
        let left = text[at..].chars().count();
        let n = match sched(5) {
            0 => left + 1 + sched(3) as usize,
            1 => 0,
            _ => sched(left as u32 + 1) as usize,
        };
        let bytes: usize = if n > left {
            text.len() - at + n
        } else {
            text[at..].chars().take(n).map(char::len_utf8).sum()
        };
        let before = s.metrics();
        s = now(s.advance(BytesDelta::from_bytes(bytes)));
        at = text.len().min(at + bytes);
        let after = s.metrics();
        ev!(0xa2, n, at; "advance by {bytes} bytes: {:?}", of(&after));
        let want = place(&text[..at], E::MARK);
        check!(of(&after) == want, "position", "{:?} is reported after {:?}, it is {want:?}", of(&after), &text[..at]);
        check!(before <= after, "order", "a position decreased while consuming");
        let mut segs = s.segments();
        let seen = now(segs.next(Default::default())).unwrap_or("");
        check!(seen == &text[at..], "content", "a measured string at {:?} offers {seen:?}", &text[at..]);
    }
}

/// A random history of advances, rewinds, reads and copies.
fn history<S>(kind: u8, v: &[u8], s: S, len: impl Fn(usize, usize) -> <S::Seg as SequenceSegment>::Length)
where
    S: Seq + MeasuredSequence + Clone,
    S::Metrics: Shown,
{
    let w = Rc::new(Whole::new(kind, v));
    let mut s = Obs { s, w: w.clone() };
    let mut at = 0;
    let mut anchors: Vec<(usize, ObsAnchor<S::Anchor>)> = Vec::new();
    for _ in 0..1 + small(St::Work, 24) {
        match work(6) {
            0 => anchors.push((at, s.anchor())),
            1 if !anchors.is_empty() => {
                // anchors taken after the one returned to are given up
                let k = work(anchors.len() as u32) as usize;
                anchors.truncate(k + 1);
                let (p, a) = anchors.pop().unwrap();
                s = now(s.rewind(a));
                at = p;
            }
            2 => {
                let c = Obs {
                    s: s.s.clone(),
                    w: w.clone(),
                };
                let n = work((v.len() - at) as u32 + 1) as usize;
                let c = now(c.advance(len(at, at + n)));
                check!(c.left() == v.len() - at - n, "content", "a copy advanced to the wrong place");
                observe(&s.s, &w, "after advancing a copy");
            }
            3 => {
                let _ = s.segments();
                check!(s.left() == v.len() - at, "content", "{} element(s) are left, not {}", s.left(), v.len() - at);
            }
            _ => {
                let n = if sched(2) == 1 { (v.len() - at).min(1) } else { work((v.len() - at) as u32 + 1) as usize };
                s = now(s.advance(len(at, at + n)));
                at += n;
            }
        }
    }
}

fn histories() {
    let v = gen_text(24);
    if v.len() > 300 {
        // `left` and the reference look at everything for every operation
        cnt!("probe.long_history");
    }
    match work(5) {
        4 => {
            ctl::set_context(|| format!("measured slice of {} items", v.len()));
            if wchance(1, 2) {
                let m = Memory::<Items<Sym>>::new(&v);
                if wchance(1, 2) {
                    history(1, &v, m.seq().into_measured::<Roll<Sym>>(), |a, b| b - a)
                } else {
                    history(1, &v, m.seq().into_measured::<usize>(), |a, b| b - a)
                }
            } else {
                let m = Memory::<Items<()>>::new(&v);
                history(2, &v, m.seq().into_measured::<usize>(), |a, b| b - a)
            }
        }
        k => {
            let text = string_of(&v);
            ctl::set_context(|| format!("measured string {text:?}, style {}", k % 3));
            let m = Memory::<Text>::new(&v);
            // every way to make a length is used
            let len = |a: usize, b: usize| match b - a {
                0 => BytesDelta::ZERO,
                1 => BytesDelta::from_char(char_of(v[a])),
                2 => BytesDelta::from_str(&string_of(&v[a..b])),
                _ => BytesDelta::from_bytes(v[a..b].iter().map(|c| char_of(*c).len_utf8()).sum()),
            };
            match k % 3 {
                0 => history(0, &v, m.seq().into_measured::<Lc<LF>>(), len),
                1 => history(0, &v, m.seq().into_measured::<Lc<CR>>(), len),
                _ => history(0, &v, m.seq().into_measured::<Lc<CRLF>>(), len),
            }
        }
    }
}

pub fn c16() {
    set_lines(true);
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            set_lines(false)
        }
    }
    let _r = Reset;
    match work(8) {
        0 if wchance(1, 5) => match work(3) {
            0 => started::<LF>(),
            1 => started::<CR>(),
            _ => started::<CRLF>(),
        },
        0 => match work(3) {
            0 => pieces::<LF>(),
            1 => pieces::<CR>(),
            _ => pieces::<CRLF>(),
        },
        1 => match work(3) {
            0 => plain::<LF>(),
            1 => plain::<CR>(),
            _ => plain::<CRLF>(),
        },
        2 | 3 => histories(),
        _ => grammars(),
    }
}
