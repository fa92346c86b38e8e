PP="crates/parcom-parsers/src/"
plant("the-item-empty-segment","C01",
 "an item stream whose next segment is empty, with the item behind it",
 "the_item gives up at an empty segment, so the result depends on how the input is cut",
 [(PP+"primitive/the.rs","""            let Some(item) = segment.iter().next() else {
                continue;
            };

            if item == &self.item {
                drop(segments);
                return done((), input.advance(1).await);
            }
""","""            if segment.first() == Some(&self.item) {
                drop(segments);
                return done((), input.advance(1).await);
            }
""")],
 r'''
use parcom_core::Parser;
use parcom_parsers::primitive::the_item;
use util::*;
fn main() {
    let p = the_item(7u8);
    let (_, r) = run(p.parse(bytes(&[&[], &[7, 8]]))).unwrap().ok().expect("7 is next");
    assert_eq!(r.rest(), [8]);
}
''')
plant("or-once-no-rewind","C02",
 "a choice consumed by parse_once whose first alternative fails after consuming input",
 "the consuming form of a choice runs its second alternative where the failed first one stopped",
 [(PP+"combinator/or.rs","""            Err((e, r)) => return fail(EitherBoth::First(e), r),
        };
        let input = rest.rewind(anchor).await;

        let (err1, rest) = match self.parser1.parse_once(input).await {
            Ok((v, r)) => return done(Either::Last(v), r),
            Err((e, r)) if !e.should_terminate() => (e, r),
            Err((e, r)) => return fail(EitherBoth::Last(e), r),
        };
""","""            Err((e, r)) => return fail(EitherBoth::First(e), r),
        };
        // `parser0` consumes nothing when it fails, so the anchor is only needed for its side effects.
        let _ = anchor;
        let input = unsafe { rest.unwrap() };

        let (err1, rest) = match self.parser1.parse_once(input).await {
            Ok((v, r)) => return done(Either::Last(v), r),
            Err((e, r)) if !e.should_terminate() => (e, r),
            Err((e, r)) => return fail(EitherBoth::Last(e), r),
        };
""")],
 r'''
use parcom_core::ParserOnce;
use parcom_parsers::{primitive::*, ParserExtension};
use util::*;
fn main() {
    let p = ParserExtension::<&'static str>::join(the_char('a'), the_char('b')).or(the_char('a'));
    let (_, rest) = run(p.parse_once("ac")).unwrap().ok().expect("the second alternative matches");
    assert_eq!(rest, "c");
}
''')
plant("repeat-iteration-swallows-fatal","C03",
 "a repetition pulled item by item whose parser raises a terminating error",
 "iterating a repetition turns a terminating error into an ordinary end",
 [(PP+"combinator/repeat.rs","""            Ok((v, r)) => done(Some(v), r),
            Err((e, r)) => {
                if e.should_terminate() {
                    fail(e, r)
                } else {
                    done(None, r.rewind(anchor).await)
                }
            }
""","""            Ok((v, r)) => done(Some(v), r),
            Err((_, r)) => done(None, r.rewind(anchor).await),
""")],
 r'''
use parcom_core::{IterativeParser, IterativeParserState, Parser};
use parcom_parsers::{primitive::*, ParserExtension};
use parcom_util::error::Fatal;
use util::*;
fn main() {
    let p = ParserExtension::<&'static str>::map_err(the_char('a'), |_| Fatal(())).repeat();
    let mut s = p.parse_iterative();
    let (v, rest) = run(s.parse_next("ab")).unwrap().ok().unwrap();
    assert!(v.is_some());
    assert!(run(s.parse_next(rest)).unwrap().is_err(), "the terminating error was swallowed");
}
''')
plant("either-first-never-terminates","C03",
 "a terminating error of the first part of a sequence, inside a choice, option or repetition",
 "a terminating error wrapped by the first side of a combined error no longer terminates, so the enclosing choice recovers",
 [("crates/parcom-util/src/either.rs","""        match self {
            Either::First(e) => e.should_terminate(),
            Either::Last(e) => e.should_terminate(),
        }
""","""        matches!(self, Either::Last(e) if e.should_terminate())
""")],
 r'''
use parcom_core::Parser;
use parcom_parsers::{primitive::*, ParserExtension};
use parcom_util::error::Fatal;
use util::*;
fn main() {
    let fatal = ParserExtension::<&'static str>::map_err(the_char('a'), |_| Fatal(()));
    let p = fatal.join(the_char('b')).or(the_char('x'));
    assert!(run(p.parse("x")).unwrap().is_err(), "the terminating error was recovered from");
}
''')
plant("optional-iterates-forever","C04",
 "an option iterated by shared reference over input on which it matches more than once",
 "the borrowed iteration of an option yields more than one item",
 [(PP+"combinator/optional.rs","""impl<'a, S: RewindSequence, P: Parser<S>> IterativeParserState<S> for IterationState<'a, S, P> {
    type Output = P::Output;
    type Error = P::Error;

    async fn parse_next(
        &mut self,
        input: S,
    ) -> parcom_core::ParseResult<S, Option<Self::Output>, Self::Error> {
        let Some(me) = self.me.take() else {
            return done(None, input);
        };
""","""impl<'a, S: RewindSequence, P: Parser<S>> IterativeParserState<S> for IterationState<'a, S, P> {
    type Output = P::Output;
    type Error = P::Error;

    async fn parse_next(
        &mut self,
        input: S,
    ) -> parcom_core::ParseResult<S, Option<Self::Output>, Self::Error> {
        let Some(me) = self.me else {
            return done(None, input);
        };
""")],
 r'''
use parcom_core::{IterativeParser, IterativeParserState};
use parcom_parsers::{primitive::*, ParserExtension};
use util::*;
fn main() {
    let p = ParserExtension::<&'static str>::optional(the_char('a'));
    let mut s = p.parse_iterative();
    let (v, rest) = run(s.parse_next("aab")).unwrap().ok().unwrap();
    assert!(v.is_some());
    let (v, rest) = run(s.parse_next(rest)).unwrap().ok().unwrap();
    assert!(v.is_none(), "an option yields at most one item");
    assert_eq!(rest, "ab");
}
''')
plant("collect-keeps-refused-item","C04",
 "a collection over a pipeline that stops because a mapping refused an item (the repetition itself went on)",
 "collect leaves the input behind the refused item instead of right after the last collected one",
 [(PP+"iterative/collect.rs","""                return done((collection, None), r.rewind(anchor).await);
            }
            Ok((Some(v), r)) => {""","""                // nothing was consumed by the pull that ended the iteration
                drop(anchor);
                return done((collection, None), r);
            }
            Ok((Some(v), r)) => {""")],
 r'''
use parcom_core::Parser;
use parcom_parsers::extension::*;
use parcom_parsers::{primitive::*, ParserExtension};
use util::*;
fn main() {
    let p = ParserExtension::<&'static str>::repeat(any_char())
        .map_while(|c: char| if c == 'b' { None } else { Some(c) })
        .collect::<String>();
    let ((v, _), rest) = run(p.parse("aab!")).unwrap().ok().unwrap();
    assert_eq!(v, "aa");
    assert_eq!(rest, "b!");
}
''')
plant("binexpr-reduces-once","C05",
 "an operator that binds weaker than two or more pending operators (three precedence levels in ascending then descending order)",
 "only the topmost pending operator is grouped before a weaker one, so precedence is violated",
 [(PP+"combinator/bin_expr.rs","""                // ひとつ前の演算子より優先度が低い．
                rhs = Expr::from((lhs, last_op, rhs));
            }
        };
""","""                // ひとつ前の演算子より優先度が低い．
                stack.push((Expr::from((lhs, last_op, rhs)), op));
                rhs = term;
                break;
            }
        };
""")],
 "BINEXPR"+r'''
fn main() {
    assert_eq!(parse("1*2+3").0, "((1*2)+3)");
    assert_eq!(parse("1-2+3*4-5").0, "((1-(2+(3*4)))-5)");
}
''')
plant("shortvec-realloc-layout","C06",
 "a small vector on the heap that is not full and is asked for more room",
 "the heap block is reallocated with the layout of its length instead of its capacity",
 [("crates/parcom-internals/src/shortvec.rs","""            let old_layout = Layout::array::<T>(self.cap).unwrap();""",
   """            let old_layout = Layout::array::<T>(self.len).unwrap();""")],
 r'''
use parcom_internals::ShortVec;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    let mut v = ShortVec::<u64, 2>::new();
    for i in 0..5 {
        v.push(i);
    }
    v.pop();
    v.reserve_exact(40);
    assert_eq!(v.as_slice(), [0, 1, 2, 3]);
    drop(v);
    assert!(!alloc::BAD.load(SeqCst), "a block was released with the wrong layout");
}
''',alloc=True)
plant("shortvec-pop-to-stack-leak","C06",
 "a small vector that spilled to the heap and is dropped empty",
 "the heap block of an empty vector is leaked (an abandoned parse leaks its operator stack)",
 [("crates/parcom-internals/src/shortvec.rs","""        if self.is_heap() {
            let layout = Layout::array::<T>(self.cap).unwrap();""","""        if self.is_heap() && !self.is_empty() {
            let layout = Layout::array::<T>(self.cap).unwrap();""")],
 r'''
use parcom_internals::ShortVec;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    let before = alloc::LIVE.load(SeqCst);
    let mut v = ShortVec::<u64, 2>::new();
    for i in 0..5 {
        v.push(i);
    }
    while v.pop().is_some() {}
    drop(v);
    assert_eq!(alloc::LIVE.load(SeqCst), before, "a block was leaked");
}
''',alloc=True)
plant("atom-waits-for-whole-length","C07",
 "a pattern that the first piece already contradicts, with the rest not delivered yet",
 "atom reports a mismatch only when as much input as the pattern is long has arrived",
 [(PP+"primitive/atom.rs","""        let mut segments = input.segments();

        while let Some(segment) = segments.next(remain.len()).await {
            if segment.len() >= remain.len() {
                let matched = segment
                    .split_at_checked(remain.len())
                    .is_some_and(|(s, _)| s == remain);
                drop(segments);
                return if matched {""","""        let mut segments = input.segments();
        let mut same = true;

        while let Some(segment) = segments.next(remain.len()).await {
            if segment.len() >= remain.len() {
                let matched = segment
                    .split_at_checked(remain.len())
                    .is_some_and(|(s, _)| s == remain);
                drop(segments);
                return if matched && same {"""),
  (PP+"primitive/atom.rs","""                Some((p, r)) if segment == p => remain = r,
""","""                Some((p, r)) => {
                    same &= segment == p;
                    remain = r;
                }
""")],
 r'''
use parcom_core::Parser;
use parcom_parsers::primitive::atom;
use util::*;
fn main() {
    assert!(run(atom("abc").parse(text(&["xb"]))).unwrap().is_err());
    let r = run(atom("abc").parse(open_text(&["xb"])));
    assert!(r.expect("decided: the input starts with x").is_err());
}
''')
plant("buffer-advance-keeps-offset","C08",
 "an advance that ends exactly at the end of the last segment present, whose beginning was skipped by an earlier advance, and a segment appended later",
 "the position inside the finished segment is applied to the next one",
 [("crates/parcom-sequences/src/generic/buffer.rs","""            if remain < len {
                offset += remain;
                remain = 0;
                break;
            }

            remain -= len;
            offset = 0;
            node = &n.next;
        }

        self.head_offset = offset;
""","""            if remain < len {
                self.head_offset = offset + remain;
                remain = 0;
                break;
            }

            remain -= len;
            offset = 0;
            node = &n.next;
        }

""")],
 r'''
use parcom_sequence_core::*;
use util::*;
fn main() {
    let (mut b, mut l) = build(Exact, script(&[Step::Put(vec![1, 2, 3]), Step::Put(vec![4, 5, 6]), Step::End]));
    for _ in 0..2 {
        run(l.load()).unwrap().unwrap();
    }
    assert_eq!(b.advance(2), 0);
    assert_eq!(b.advance(1), 0);
    run(l.load()).unwrap().unwrap();
    assert_eq!(visible(&b), [4, 5, 6]);
}
''')
plant("writer-reuses-full-buffer","C08",
 "a load that asks for more than the spare room of a partly filled buffer, but not more than its whole size",
 "the source is offered less room than it asked for, and what does not fit is lost",
 [("crates/parcom-sequences/src/generic/control.rs","""        let spare_capacity = buf.capacity() - offset;

        if spare_capacity >= min_size {""","""        let spare_capacity = buf.capacity() - offset;

        if spare_capacity > 0 && buf.capacity() >= min_size {""")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::iterator_source::IteratorSource;
use util::*;
fn main() {
    let (b, mut l) = build(AtLeast(4), IteratorSource::<_, u8>::new(vec![vec![1, 2, 3], vec![4, 5]]));
    for _ in 0..3 {
        run(l.load()).unwrap().unwrap();
    }
    assert_eq!(visible(&b), [1, 2, 3, 4, 5]);
}
''')
plant("iterator-source-room","C08",
 "a buffer policy that gives exactly what is asked, and items longer than one",
 "the iterator source asks for too little room, and what does not fit is lost",
 [("crates/parcom-sequence-sources/src/iterator_source.rs","""        let mut req = control.request_writer(seg.len());
""","""        let mut req = control.request_writer(_size_hint.max(1));
""")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::iterator_source::IteratorSource;
use util::*;
fn main() {
    let (b, mut l) = build(Exact, IteratorSource::<_, u8>::new(vec![vec![1, 2, 3], vec![4, 5]]));
    for _ in 0..3 {
        run(l.load()).unwrap().unwrap();
    }
    assert_eq!(visible(&b), [1, 2, 3, 4, 5]);
}
''')
plant("validator-moves-carry-out","C09",
 "a load abandoned while waiting, after one that ended inside a character",
 "the bytes accepted by an earlier load but not yet passed on are lost when the next load is dropped or fails",
 [("crates/parcom-sequence-sources/src/utf8_validator.rs","""            buffered: self.buffered,
            rest: self.rest,
            control,""","""            buffered: std::mem::take(&mut self.buffered),
            rest: self.rest,
            control,""")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::utf8_validator::*;
use util::*;
fn main() {
    let s = script(&[Step::Put(vec![0x61, 0xC3]), Step::Stall, Step::Put(vec![0xA9]), Step::End]);
    let (b, mut l) = build(AtLeast(8), Utf8Validator::new(s));
    assert!(run(l.load()).unwrap().is_ok());
    assert!(run(l.load()).is_none(), "the source stalls");
    assert!(run(l.load()).unwrap().is_ok());
    assert!(run(l.load()).unwrap().is_ok());
    assert_eq!(visible(&b), [0x61, 0xC3, 0xA9]);
}
''')
plant("validator-forgets-carry-on-error","C10",
 "a source error in the load after one that ended inside a character",
 "the bytes carried over are forgotten when a load fails, so the stream loses bytes or becomes invalid",
 [("crates/parcom-sequence-sources/src/utf8_validator.rs","""                InnerResponse::Err { res } => Poll::Ready(res),
""","""                InnerResponse::Err { res } => {
                    *this.buffered = 0;
                    Poll::Ready(res)
                }
""")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::utf8_validator::*;
use util::*;
fn main() {
    let s = script(&[Step::Put(vec![0x61, 0xC3]), Step::Fail, Step::Put(vec![0xA9]), Step::End]);
    let (b, mut l) = build(AtLeast(8), Utf8Validator::new(s));
    assert!(run(l.load()).unwrap().is_ok());
    assert!(run(l.load()).unwrap().is_err());
    assert!(run(l.load()).unwrap().is_ok());
    assert!(run(l.load()).unwrap().is_ok());
    assert_eq!(visible(&b), [0x61, 0xC3, 0xA9]);
}
''')
plant("validator-asks-for-too-little","C10",
 "a chunk that follows an unfinished character, and a buffer policy without slack",
 "the room asked for does not include the carried bytes, so the end of the chunk does not fit and is lost",
 [("crates/parcom-sequence-sources/src/utf8_validator.rs","""self.control.request_writer(self.buffered + min_capacity);""","""self.control.request_writer(min_capacity.max(self.buffered));""")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequence_sources::utf8_validator::*;
use util::*;
fn main() {
    let s = IteratorSource::<_, u8>::new(vec![vec![0x61, 0xE6], vec![0xBC, 0xA2, 0x62]]);
    let (b, mut l) = build(Exact, Utf8Validator::new(s));
    for _ in 0..3 {
        assert!(run(l.load()).unwrap().is_ok());
    }
    assert_eq!(visible(&b), [0x61, 0xE6, 0xBC, 0xA2, 0x62]);
}
''')
plant("load-report-subtracts-commit","C11",
 "a load that both commits an older buffer and leaves new data uncommitted",
 "the uncommitted amount is reported too small whenever the load also committed something",
 [("crates/parcom-sequence-core/src/load_info.rs","""    pub fn new(commited: usize, uncommited: usize, buffer_capacity: usize) -> Self {
        Self {
            commited,
            uncommited,
            buffer_capacity,
            is_done: false,
        }
    }""","""    pub fn new(commited: usize, uncommited: usize, buffer_capacity: usize) -> Self {
        Self {
            commited,
            uncommited: uncommited.saturating_sub(commited),
            buffer_capacity,
            is_done: false,
        }
    }""")],
 r'''
use parcom_sequence_core::*;
use util::*;
fn main() {
    let (_b, mut l) = build(Exact, script(&[Step::Put(vec![1, 2, 3]), Step::Put(vec![4, 5]), Step::End]));
    let i = run(l.load()).unwrap().unwrap();
    assert_eq!((i.commited(), i.uncommited()), (0, 3));
    let i = run(l.load()).unwrap().unwrap();
    assert_eq!((i.commited(), i.uncommited()), (3, 2));
}
''')
SEQ=r'''
use parcom_core::{SegmentStream, Sequence};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::*;
use std::cell::{Cell, RefCell};
use util::*;

/// A buffer that lets "another thread" act at chosen calls.
thread_local! {
    static SEGS: RefCell<Vec<&'static [u8]>> = RefCell::new(Vec::new());
    static CALLS: Cell<usize> = Cell::new(0);
    static HOOK: RefCell<Option<(usize, Box<dyn FnOnce()>)>> = RefCell::new(None);
}
/// Runs the hook right after the chosen look at the buffer.
fn looked() {
    let n = CALLS.with(|c| c.replace(c.get() + 1));
    let f = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        if matches!(&*h, Some((k, _)) if *k == n) { h.take() } else { None }
    });
    if let Some((_, f)) = f {
        f()
    }
}
fn append(s: &'static [u8]) {
    SEGS.with(|v| v.borrow_mut().push(s))
}
struct Buf(usize, usize);
struct It<'a>(usize, usize, std::marker::PhantomData<&'a ()>);
impl<'a> Iterator for It<'a> {
    type Item = &'a [u8];
    fn next(&mut self) -> Option<&'a [u8]> {
        let r = SEGS.with(|v| v.borrow().get(self.0).copied());
        looked();
        let r = r?;
        self.0 += 1;
        Some(&r[std::mem::take(&mut self.1)..])
    }
}
impl SequenceBuffer for Buf {
    type Length = usize;
    type Segment = [u8];
    type Iter<'a> = It<'a>;
    fn advance(&mut self, mut n: usize) -> usize {
        SEGS.with(|v| {
            for s in &v.borrow()[self.0..] {
                let len = s.len() - self.1;
                if n < len {
                    self.1 += n;
                    n = 0;
                    break;
                }
                n -= len;
                self.0 += 1;
                self.1 = 0;
            }
        });
        looked();
        n
    }
    fn segments(&self) -> It<'_> {
        It(self.0, self.1, std::marker::PhantomData)
    }
}
struct Ld;
impl SequenceLoader for Ld {
    type Length = usize;
    type Segment = [u8];
    type Error = ();
    type Load<'a> = std::future::Ready<Result<LoadInfo, ()>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        unimplemented!()
    }
}
struct B;
impl SequenceBuilder<Script> for B {
    type Length = usize;
    type Segment = [u8];
    type Buffer = Buf;
    type Loader = Ld;
    fn build(&self, _: Script) -> (Buf, Ld) {
        (Buf(0, 0), Ld)
    }
}
type Ds = DefaultSequence<Script, B>;
fn seq() -> Ds {
    DefaultSequence::new(Buf(0, 0), Ld)
}
fn hook(n: usize, f: impl FnOnce() + 'static) {
    CALLS.with(|c| c.set(0));
    HOOK.with(|h| *h.borrow_mut() = Some((n, Box::new(f))));
}
'''
plant("segments-waits-too-late","C12",
 "a segment appended and signalled between the reader's last look at the buffer and its wait",
 "the reader takes its wait handle after the last look, so a notification in between is lost and the reader sleeps for ever",
 [("crates/parcom-runners/src/default_runner/sequence/segments.rs","""        let fut = this.host.append_signal.wait();
        // `this""","""        // `this"""),
  ("crates/parcom-runners/src/default_runner/sequence/segments.rs","""            return Poll::Ready(None);
        }

        this.fut.set(OptionFuture::some(fut));
        cx""","""            return Poll::Ready(None);
        }

        this.fut
            .set(OptionFuture::some(this.host.append_signal.wait()));
        cx""")],
 SEQ+r'''
fn main() {
    for look in 0..3 {
        SEGS.with(|v| v.borrow_mut().clear());
        let mut s = seq();
        let (signal, _) = s.sim_signals();
        hook(look, move || {
            append(b"x");
            signal.send();
        });
        let mut segs = s.segments();
        let r = run(segs.next(0));
        if look < 2 {
            assert_eq!(r.expect("a segment was appended and signalled"), Some(&b"x"[..]));
        }
    }
}
''')
plant("advance-waits-too-late","C13",
 "items appended and signalled between an advance's look at the buffer and its wait",
 "advance takes its wait handle after looking, so a notification in between is lost and it waits for ever",
 [("crates/parcom-runners/src/default_runner/sequence/advance.rs","""        // SAFETY: `DefaultSequenceInner`のインスタンスは`self`と同じ期間生存し、フィールド順により`fut`のほうが先にdropされるため、dangling参照が発生することはない。
        let fut: Wait<'static> = unsafe {
            let ptr = &raw const sequence.append_signal;
            (&*ptr).wait()
        };
        this.fut.set(OptionFuture::some(fut));

""",""),
 ("crates/parcom-runners/src/default_runner/sequence/advance.rs","""        *this.remain = remain;
        cx""","""        *this.remain = remain;

        // SAFETY: `DefaultSequenceInner`のインスタンスは`self`と同じ期間生存し、フィールド順により`fut`のほうが先にdropされるため、dangling参照が発生することはない。
        let fut: Wait<'static> = unsafe {
            let ptr = &raw const sequence.append_signal;
            (&*ptr).wait()
        };
        this.fut.set(OptionFuture::some(fut));
        cx""")],
 SEQ+r'''
fn main() {
    let s = seq();
    let (signal, _) = s.sim_signals();
    hook(0, move || {
        append(b"xyz");
        signal.send();
    });
    let mut s = run(s.advance(2)).expect("the items were appended and signalled");
    assert_eq!(run(s.segments().next(0)).unwrap(), Some(&b"z"[..]));
}
''')
plant("advance-drop-order","C13",
 "a waiting advance that is dropped",
 "the sequence is released before the wait that points into it, so dropping a waiting advance reads released memory",
 [("crates/parcom-runners/src/default_runner/sequence/advance.rs","""    // DO NOT CHANGE THE FIELD ORDER
    // `fut` must be dropped before `sequence` be dropped.
    #[pin]
    fut: OptionFuture<Wait<'static>>,

    sequence: Option<Box<DefaultSequenceInner<S, B>>>,
    remain""","""    sequence: Option<Box<DefaultSequenceInner<S, B>>>,
    #[pin]
    fut: OptionFuture<Wait<'static>>,

    remain""")],
 SEQ+r'''
fn main() {
    let s = seq();
    let mut a = Box::pin(s.advance(2));
    assert!(run_mut(a.as_mut()).is_none());
    drop(a);
    append(b"ok");
}
''',alloc=True)
plant("segments-snapshots-end","C17",
 "the end marked after the parser asked for the segment stream",
 "the end flag is read once when the segment stream is made, so a parser that reads on while the end is marked waits for ever",
 [("crates/parcom-runners/src/default_runner/sequence/segments.rs","""    done_flag: &'a AtomicBool,
    iter""","""    is_done: bool,
    iter"""),
  ("crates/parcom-runners/src/default_runner/sequence/segments.rs","""            done_flag: &sequence.inner.done_flag,
""","""            is_done: sequence.inner.done_flag.load(Ordering::SeqCst),
"""),
  ("crates/parcom-runners/src/default_runner/sequence/segments.rs","""        let is_done = this.host.done_flag.load(Ordering::SeqCst);
""","""        let is_done = this.host.is_done;
"""),
  ("crates/parcom-runners/src/default_runner/sequence/segments.rs","""    sync::atomic::{AtomicBool, Ordering},
""","""    sync::atomic::Ordering,
""")],
 SEQ+r'''
fn main() {
    let mut s = seq();
    let (signal, done) = s.sim_signals();
    let mut segs = s.segments();
    let mut n = std::pin::pin!(segs.next(0));
    assert!(run_mut(n.as_mut()).is_none());
    done.store(true, std::sync::atomic::Ordering::SeqCst);
    signal.send();
    assert_eq!(run_mut(n.as_mut()).expect("the end was marked and signalled"), None);
}
''')
plant("notify-byte-version","C14",
 "exactly 256 notifications between the creation of a wait and its poll",
 "the version counter wraps after 256 notifications, so a wait created before them sees none",
 [("crates/parcom-internals/src/future/notify.rs","""        atomic::{AtomicUsize, Ordering},
        Mutex,
    },
    task::{Poll, Waker},
};
""","""        atomic::{AtomicU8, Ordering},
        Mutex,
    },
    task::{Poll, Waker},
};
"""),
 ("crates/parcom-internals/src/future/notify.rs","""    version: AtomicUsize,
""","""    version: AtomicU8,
"""),
 ("crates/parcom-internals/src/future/notify.rs","""            version: AtomicUsize::new(0),
""","""            version: AtomicU8::new(0),
"""),
 ("crates/parcom-internals/src/future/notify.rs","""    version: usize,
""","""    version: u8,
""")],
 r'''
use parcom_internals::future::notify::Notify;
use util::*;
fn main() {
    let n = Notify::new();
    let w = n.wait();
    for _ in 0..256 {
        n.send();
    }
    run(w).expect("256 notifications were sent since");
}
''')
plant("notify-no-recheck","C14",
 "a notification between a wait's check of the version and its registration",
 "the check under the lock is gone, so a notification in that window is lost",
 [("crates/parcom-internals/src/future/notify.rs","""        if self.version != signal.version.load(Ordering::SeqCst) {
            drop(wakers);
            return Poll::Ready(());
        }

        let replaced""","""        let replaced""")],
 r'''
use parcom_internals::future::notify::Notify;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::future::Future;
static N: std::sync::OnceLock<Notify> = std::sync::OnceLock::new();
static WOKEN: AtomicUsize = AtomicUsize::new(0);
static SENT: AtomicUsize = AtomicUsize::new(0);
// cloning this waker is the moment at which "another thread" notifies
fn clone(_: *const ()) -> RawWaker {
    if SENT.fetch_add(1, SeqCst) == 0 {
        N.get().unwrap().send();
    }
    RawWaker::new(std::ptr::null(), &V)
}
fn wake(_: *const ()) {
    WOKEN.fetch_add(1, SeqCst);
}
fn drop_(_: *const ()) {}
static V: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, drop_);
fn main() {
    let n = N.get_or_init(Notify::new);
    let mut w = std::pin::pin!(n.wait());
    let waker = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) };
    let r = w.as_mut().poll(&mut Context::from_waker(&waker));
    assert!(r == Poll::Ready(()) || WOKEN.load(SeqCst) > 0, "the notification was lost");
}
''')
plant("notify-keeps-first-waker","C14",
 "a pending wait polled again with another waker",
 "a wait that is already registered keeps its first waker, so the task of its latest poll is not woken",
 [("crates/parcom-internals/src/future/notify.rs","""            return Poll::Ready(());
        }

        let signal = self.signal;
        let waker""","""            return Poll::Ready(());
        }
        if self.key.is_some() {
            // registered already
            return Poll::Pending;
        }

        let signal: &'a Notify = self.signal;
        let waker""")],
 r'''
use parcom_internals::future::notify::Notify;
use std::sync::Arc;
use std::task::Waker;
use util::*;
fn main() {
    let n = Notify::new();
    let mut w = std::pin::pin!(n.wait());
    let (a, b) = (Arc::new(Count::default()), Arc::new(Count::default()));
    assert!(poll_once(w.as_mut(), &Waker::from(a.clone())).is_none());
    assert!(poll_once(w.as_mut(), &Waker::from(b.clone())).is_none());
    n.send();
    assert_eq!(b.get(), 1, "the task of the latest poll was not woken");
}
''')
plant("notify-drop-removes-other","C15",
 "a wait dropped after a notification, when another wait has registered since",
 "dropping a finished wait removes the waker of another wait that got its slot",
 [("crates/parcom-internals/src/future/notify.rs","""        // After a `send`, `key` may belong to another wait.
        let unused = if self.version == self.signal.version.load(Ordering::SeqCst) {
            wakers.try_remove(key)
        } else {
            None
        };
""","""        let unused = wakers.try_remove(key);
"""),
 ("crates/parcom-internals/src/future/notify.rs","""        let version = self.version.load(Ordering::SeqCst);
        Wait {""","""        let version: usize = self.version.load(Ordering::SeqCst);
        Wait {""")],
 r'''
use parcom_internals::future::notify::Notify;
use std::sync::Arc;
use std::task::Waker;
use util::*;
fn main() {
    let n = Notify::new();
    let c = Arc::new(Count::default());
    let mut a = Box::pin(n.wait());
    assert!(poll_once(a.as_mut(), &Waker::from(Arc::new(Count::default()))).is_none());
    n.send();
    let mut b = Box::pin(n.wait());
    assert!(poll_once(b.as_mut(), &Waker::from(c.clone())).is_none());
    drop(a);
    n.send();
    assert_eq!(c.get(), 1, "the other wait was not woken");
}
''')
plant("line-meter-forgets-cr","C16",
 "a CR and its LF consumed in two different steps, with CRLF line ends",
 "the state of the end-of-line marker starts anew in every step, so a marker split between two steps is not counted",
 [("crates/parcom-metrics/src/line_colmn.rs","""        for c in segment.chars() {""","""        let mut state = EOL::default();
        for c in segment.chars() {"""),
  ("crates/parcom-metrics/src/line_colmn.rs","""self.state.next(c)""","""state.next(c)"""),
  ],
 r'''
use parcom_core::measured::*;
use parcom_core::*;
use parcom_metrics::{end_of_line::CRLF, *};
fn at(steps: &[&str]) -> (usize, usize) {
    let mut m = LineColumnMeter::<CRLF>::default();
    for s in steps {
        m = Meter::<str>::advance(m, s);
    }
    let l = Meter::<str>::metrics(&m);
    (l.line, l.column)
}
fn main() {
    assert_eq!(at(&["a\r\nb"]), at(&["a\r", "\nb"]));
}
''')
plant("measured-rewind-keeps-meter","C16",
 "a measured text that is rewound after consuming",
 "rewinding restores the text but not the position",
 [("crates/parcom-core/src/primitive/str.rs","""    fn anchor(&self) -> Self::Anchor {
        Anchor { me: self.clone() }
    }

    fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
        std::future::ready(anchor.me)
    }""","""    fn anchor(&self) -> Self::Anchor {
        Anchor { me: self.clone() }
    }

    fn rewind(mut self, anchor: Self::Anchor) -> Self::Rewind {
        self.base = anchor.me.base;
        std::future::ready(self)
    }""")],
 r'''
use parcom_core::measured::*;
use parcom_core::primitive::BytesDelta;
use parcom_core::*;
use parcom_core::measured::Metrics;
// a meter that can be cloned
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct N(usize);
impl Meter<str> for N {
    type Metrics = N;
    fn advance(self, s: &str) -> N { N(self.0 + s.len()) }
    fn metrics(&self) -> N { self.clone() }
}
impl Metrics<str> for N { type Meter = N; }
fn main() {
    let s = "abc".into_measured::<N>();
    let a = s.anchor();
    let s = util::run(s.advance(BytesDelta::from_bytes(2))).unwrap();
    assert_eq!(s.metrics(), N(2));
    let s = util::run(s.rewind(a)).unwrap();
    assert_eq!(s.metrics(), N(0));
}
''')
plant("filter-busy-after-panic","C18",
 "a predicate that panics once, with items published afterwards",
 "a flag against re-entrance is not reset when a predicate panics, so the subscription receives nothing any more",
 [("crates/parcom-internals/src/reactive/extension/filter.rs","""    observer: O,
    predicate: Arc<P>,
    _phantom: PhantomData<T>,
}

impl<T, O: IObserver<T>""","""    observer: O,
    predicate: Arc<P>,
    busy: bool,
    _phantom: PhantomData<T>,
}

impl<T, O: IObserver<T>"""),
 ("crates/parcom-internals/src/reactive/extension/filter.rs","""        if self.predicate.test(&item) {
            self.observer.next(item);
        }
""","""        // not re-entrant: an item published by the predicate itself is not delivered
        if std::mem::replace(&mut self.busy, true) {
            return;
        }
        let passed = self.predicate.test(&item);
        self.busy = false;
        if passed {
            self.observer.next(item);
        }
"""),
 ("crates/parcom-internals/src/reactive/extension/filter.rs","""            observer,
            predicate: Arc::clone(&self.predicate),
""","""            observer,
            busy: false,
            predicate: Arc::clone(&self.predicate),
""")],
 r'''
use parcom_internals::reactive::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
type Obs = Rc<RefCell<Vec<Box<dyn IObserver<u32>>>>>;
#[derive(Clone)]
struct Subject(Obs);
impl IObservable<u32> for Subject {
    type Subscription<U: IObserver<u32>> = ();
    fn subscribe<U: IObserver<u32>>(&self, o: U) {
        // the demonstration keeps every observer until the end
        let b: Box<dyn IObserver<u32> + '_> = Box::new(o);
        self.0.borrow_mut().push(unsafe { std::mem::transmute(b) });
    }
}
struct Log(Rc<RefCell<Vec<u32>>>);
impl IObserver<u32> for Log {
    fn next(&mut self, i: u32) { self.0.borrow_mut().push(i) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let s = Subject(Default::default());
    let f = s.clone().filter(|i: &u32| { if *i == 2 { panic!() } i % 2 == 1 });
    let log = Rc::new(RefCell::new(Vec::new()));
    f.subscribe(Log(log.clone()));
    for i in [1, 2, 3, 4, 5] {
        let _ = catch_unwind(AssertUnwindSafe(|| s.0.borrow_mut()[0].next(i)));
    }
    assert_eq!(*log.borrow(), [1, 3, 5]);
    let _ = std::panic::take_hook();
}
''')
plant("buffer-keeps-resume-node","C20",
 "a stream whose reader never stops exactly between two segments, for long enough to notice that nothing is released",
 "the buffer remembers the last segment boundary its reader stopped at, and with it every segment since",
 [("crates/parcom-sequences/src/generic/buffer.rs","""    head_node: Arc<OnceLock<Node<T>>>,
}

impl<T> GenericSequenceBuffer<T> {""","""    head_node: Arc<OnceLock<Node<T>>>,
    boundary: Arc<OnceLock<Node<T>>>,
}

impl<T> GenericSequenceBuffer<T> {"""),
  ("crates/parcom-sequences/src/generic/buffer.rs","""            head_offset: 0,
            head_node,
""","""            head_offset: 0,
            boundary: Arc::clone(&head_node),
            head_node,
"""),
  ("crates/parcom-sequences/src/generic/buffer.rs","""        self.head_node = Arc::clone(&node);
""","""        let node = Arc::clone(&node);
        if offset == 0 {
            self.boundary = Arc::clone(&node);
        }
        self.head_node = node;
""")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::iterator_source::IteratorSource;
use std::rc::Rc;
use util::*;
fn main() {
    let r = Rc::new(());
    let items: Vec<Vec<Rc<()>>> = (0..100).map(|_| vec![r.clone(); 3]).collect();
    let (mut b, mut l) = build(Exact, IteratorSource::<_, Rc<()>>::new(items));
    while !run(l.load()).unwrap().unwrap().is_done() {}
    drop(l);
    assert_eq!(Rc::strong_count(&r), 301);
    // always in the middle of a segment
    assert_eq!(b.advance(1), 0);
    for _ in 0..99 {
        assert_eq!(b.advance(3), 0);
    }
    assert!(Rc::strong_count(&r) <= 1 + 6, "{}", Rc::strong_count(&r));
}
''')
plant("buffer-advance-in-order","C20",
 "one advance across several segments, the loader still alive",
 "the buffer keeps the segments that one advance skipped until the next advance, unless it skipped only one",
 [("crates/parcom-sequences/src/generic/buffer.rs","""    head_node: Arc<OnceLock<Node<T>>>,
}

impl<T> GenericSequenceBuffer<T> {""","""    head_node: Arc<OnceLock<Node<T>>>,
    last_node: Option<Arc<OnceLock<Node<T>>>>,
}

impl<T> GenericSequenceBuffer<T> {"""),
  ("crates/parcom-sequences/src/generic/buffer.rs","""            head_offset: 0,
            head_node,
""","""            head_offset: 0,
            last_node: None,
            head_node,
"""),
  ("crates/parcom-sequences/src/generic/buffer.rs","""        self.head_offset = offset;
        self.head_node = Arc::clone(&node);
""","""        self.head_offset = offset;
        let node = Arc::clone(&node);
        if !Arc::ptr_eq(&node, &self.head_node) {
            let last = std::mem::replace(&mut self.head_node, node);
            self.last_node = Some(last);
        }
""")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::iterator_source::IteratorSource;
use std::rc::Rc;
use util::*;
fn main() {
    let r = Rc::new(());
    let items: Vec<Vec<Rc<()>>> = (0..100).map(|_| vec![r.clone(); 3]).collect();
    let (mut b, mut l) = build(Exact, IteratorSource::<_, Rc<()>>::new(items));
    while !run(l.load()).unwrap().unwrap().is_done() {}
    assert_eq!(b.advance(290), 0);
    assert!(Rc::strong_count(&r) <= 1 + 12, "{}", Rc::strong_count(&r));
}
''')
plant("writer-shrink-forgets","C20",
 "a source that gives back several items it wrote, of a type that owns something",
 "of the items cut off by shrinking a writer only the last is released",
 [("crates/parcom-sequence-core/src/buffer_writer.rs","""            let slice = std::ptr::slice_from_raw_parts_mut(ptr.add(new_len), len - new_len);
""","""            let slice = std::ptr::slice_from_raw_parts_mut(ptr.add(len - 1), 1);
""")],
 r'''
use parcom_sequence_core::*;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use util::*;
struct Src(Rc<()>);
impl SequenceSource for Src {
    type Item = Rc<()>;
    type Error = ();
    type Next<'a, C> = Pin<Box<dyn Future<Output = C::Result> + 'a>> where C: 'a + SequenceControl<Item = Rc<()>, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where C: 'a + SequenceControl<Item = Rc<()>, Error = ()> {
        Box::pin(async move {
            let mut w = control.request_writer(4);
            for _ in 0..4 {
                let _ = w.push_item(self.0.clone());
            }
            w.shrink_to(1);
            w.advance()
        })
    }
}
fn main() {
    let r = Rc::new(());
    let (b, mut l) = build(Exact, Src(r.clone()));
    run(l.load()).unwrap().unwrap();
    assert_eq!(Rc::strong_count(&r), 3);
    drop(l);
    drop(b);
    assert_eq!(Rc::strong_count(&r), 1);
}
''')
BIN=r'''
use parcom_core::*;
use parcom_parsers::combinator::bin_expr::{Associativity, BinExprParser, Operator};
use parcom_util::{done, error::Miss, fail};
struct Op(char);
impl Operator for Op {
    fn precedence(&self) -> usize {
        match self.0 { '*' => 2, '+' => 1, _ => 0 }
    }
    fn associativity(&self) -> Associativity { Associativity::Left }
}
struct E(String);
impl From<char> for E { fn from(c: char) -> E { E(c.to_string()) } }
impl From<(E, Op, E)> for E { fn from((a, o, b): (E, Op, E)) -> E { E(format!("({}{}{})", a.0, o.0, b.0)) } }
async fn pick(s: &'static str, f: fn(char) -> bool) -> ParseResult<&'static str, char, Miss<()>> {
    match s.chars().next() {
        Some(c) if f(c) => done(c, &s[1..]),
        _ => fail((), s),
    }
}
async fn term(s: &'static str) -> ParseResult<&'static str, char, Miss<()>> {
    pick(s, |c| c.is_ascii_digit()).await
}
async fn op(s: &'static str) -> ParseResult<&'static str, Op, Miss<()>> {
    pick(s, |c| "*+-".contains(c)).await.map(|(c, r)| (Op(c), r))
}
fn parse(s: &'static str) -> (String, String) {
    let p: BinExprParser<&'static str, _, _, E> = BinExprParser::new(term, op);
    let ((e, _), r) = util::run(p.parse(s)).unwrap().ok().unwrap();
    (e.0, r.to_string())
}
'''
for _p in PLANTS.values(): _p["main"]=_p["main"].replace("BINEXPR",BIN)
FILTER=r'''
use parcom_internals::reactive::*;
use std::cell::RefCell;
use std::rc::Rc;
type One = Rc<RefCell<Box<dyn IObserver<u32>>>>;
#[derive(Clone, Default)]
struct Subject(Rc<RefCell<Vec<One>>>);
impl IObservable<u32> for Subject {
    type Subscription<U: IObserver<u32>> = ();
    fn subscribe<U: IObserver<u32>>(&self, o: U) {
        // the demonstration keeps every observer until the end
        let b: Box<dyn IObserver<u32> + '_> = Box::new(o);
        self.0.borrow_mut().push(Rc::new(RefCell::new(unsafe { std::mem::transmute(b) })));
    }
}
impl Subject {
    fn deliver(&self, to: usize, item: u32) {
        let o = self.0.borrow()[to].clone();
        let mut o = o.borrow_mut();
        o.next(item);
    }
}
#[derive(Clone, Default)]
struct Log(Rc<RefCell<Vec<u32>>>);
impl IObserver<u32> for Log {
    fn next(&mut self, i: u32) { self.0.borrow_mut().push(i) }
}
'''
plant("filter-weak-predicate","C18",
 "a subscription that outlives the filter it was made through",
 "subscriptions hold their predicate weakly, so nothing is delivered any more once the filter is dropped",
 [("crates/parcom-internals/src/reactive/extension/filter.rs","use std::{marker::PhantomData, sync::Arc};","use std::{\n    marker::PhantomData,\n    sync::{Arc, Weak},\n};"),
  ("crates/parcom-internals/src/reactive/extension/filter.rs","""    observer: O,
    predicate: Arc<P>,""","""    observer: O,
    predicate: Weak<P>,"""),
  ("crates/parcom-internals/src/reactive/extension/filter.rs","        if self.predicate.test(&item) {","        if self.predicate.upgrade().is_some_and(|p| p.test(&item)) {"),
  ("crates/parcom-internals/src/reactive/extension/filter.rs","            predicate: Arc::clone(&self.predicate),","            predicate: Arc::downgrade(&self.predicate),")],
 FILTER+r'''
fn main() {
    let s = Subject::default();
    let log = Log::default();
    let f = s.clone().filter(|i: &u32| i % 2 == 1);
    f.subscribe(log.clone());
    s.deliver(0, 1);
    drop(f);
    s.deliver(0, 2);
    s.deliver(0, 3);
    assert_eq!(*log.0.borrow(), [1, 3]);
}
''')
plant("filter-one-at-a-time","C18",
 "an item published from inside the delivery of another one through the same filter",
 "a guard shared by all subscriptions of a filter drops what is delivered while another delivery is in progress",
 [("crates/parcom-internals/src/reactive/extension/filter.rs","""    observable: O,
    predicate: Arc<P>,""","""    observable: O,
    delivering: Arc<AtomicBool>,
    predicate: Arc<P>,"""),
  ("crates/parcom-internals/src/reactive/extension/filter.rs","""            observable,
            predicate: Arc::new""","""            observable,
            delivering: Arc::new(AtomicBool::new(false)),
            predicate: Arc::new"""),
  ("crates/parcom-internals/src/reactive/extension/filter.rs","""    observer: O,
    predicate: Arc<P>,""","""    observer: O,
    delivering: Arc<AtomicBool>,
    predicate: Arc<P>,"""),
  ("crates/parcom-internals/src/reactive/extension/filter.rs","""            observer,
            predicate""","""            observer,
            delivering: Arc::clone(&self.delivering),
            predicate"""),
  ("crates/parcom-internals/src/reactive/extension/filter.rs","use std::{marker::PhantomData, sync::Arc};","""use std::{
    marker::PhantomData,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
};

/// Marks the end of a delivery, also when an observer panics.
struct Delivered<'a>(&'a AtomicBool);

impl Drop for Delivered<'_> {
    fn drop(&mut self) {
        self.0.store(false, Ordering::SeqCst);
    }
}
"""),
  ("crates/parcom-internals/src/reactive/extension/filter.rs","""        if self.predicate.test(&item) {
            self.observer.next(item);
        }""","""        // guards against endless recursion through the observers
        if self.delivering.swap(true, Ordering::SeqCst) {
            return;
        }
        let _delivered = Delivered(&self.delivering);
        if self.predicate.test(&item) {
            self.observer.next(item);
        }""")],
 FILTER+r'''
struct Forward(Log, Subject);
impl IObserver<u32> for Forward {
    fn next(&mut self, i: u32) {
        self.0.next(i);
        self.1.deliver(1, i + 2);
    }
}
fn main() {
    let s = Subject::default();
    let (a, b) = (Log::default(), Log::default());
    let f = s.clone().filter(|i: &u32| i % 2 == 1);
    f.subscribe(Forward(a.clone(), s.clone()));
    f.subscribe(b.clone());
    for i in [1, 2, 5] {
        s.deliver(0, i);
    }
    assert_eq!(*a.0.borrow(), [1, 5]);
    assert_eq!(*b.0.borrow(), [3, 7]);
}
''')
plant("both-asks-first-only","C03",
 "a combined error whose second half is terminating",
 "an error of both alternatives is taken as recoverable although its second half terminates",
 [("crates/parcom-util/src/either_both.rs","EitherBoth::Both(e0, e1) => e0.should_terminate() || e1.should_terminate(),","// a terminating first error would have prevented the second\n            EitherBoth::Both(e0, _) => e0.should_terminate(),")],
 r'''
use parcom_core::{ParseError, ParserOnce};
use parcom_parsers::{primitive::*, ParserExtension};
use parcom_util::{error::*, EitherBoth};
use util::*;
type E = EitherBoth<Miss<()>, Fatal<()>>;
fn main() {
    let both: E = EitherBoth::Both(Miss(()), Fatal(()));
    assert!(both.should_terminate());
    // a user's parser that fails for good with an error composed of the library's
    let p = ParserExtension::<&'static str>::map_err(the_char('a'), |_| -> E { EitherBoth::Both(Miss(()), Fatal(())) });
    assert!(run(p.optional().parse_once("b")).unwrap().is_err());
}
''')
plant("repeat-keeps-partial-on-fatal","C03",
 "a terminating error after at least one successful repetition",
 "a repetition that has matched something returns it instead of the terminating error",
 [(PP+"combinator/repeat.rs","""                    if e.should_terminate() {
                        return fail(e, r);
                    }
""","""                    // what was parsed so far is worth keeping
                    if e.should_terminate() && buf.is_empty() {
                        return fail(e, r);
                    }
""")],
 r'''
use parcom_core::{primitive::BytesDelta, *};
use parcom_parsers::{primitive::*, ParserExtension};
use parcom_util::{done, fail};
use util::*;
#[derive(Debug)]
struct E(bool);
impl ParseError for E {
    fn should_terminate(&self) -> bool { self.0 }
}
async fn item<S: RewindSequence<Segment = str, Length = BytesDelta>>(input: S) -> ParseResult<S, char, E> {
    match any_char().parse(input).await {
        Ok(('!', r)) => fail(E(true), r),
        Ok((c, r)) => done(c, r),
        Err((_, r)) => Err((E(false), r)),
    }
}
fn main() {
    let p = ParserExtension::<&'static str>::repeat(item);
    assert!(run(p.parse("!")).unwrap().is_err());
    assert_eq!(run(p.parse("ab")).unwrap().ok().unwrap().0.0, ['a', 'b']);
    assert!(run(p.parse("ab!c")).unwrap().is_err(), "the terminating error was recovered from");
}
''')
plant("binexpr-recovers-operator","C03",
 "an operator parser that fails for good after at least one complete operation",
 "a terminating error of a later operator ends the expression as if nothing followed",
 [(PP+"combinator/bin_expr.rs","                Err((e, r)) if e.should_terminate() => return fail(Either::First(e), r),","                Err((e, r)) if e.should_terminate() && stack.is_empty() => {\n                    return fail(Either::First(e), r)\n                }")],
 r'''
use parcom_core::{primitive::BytesDelta, *};
use parcom_parsers::{primitive::*, *};
use parcom_parsers::bin_expr::*;
use parcom_util::{done, fail};
use util::*;
#[derive(Debug)]
struct E(bool);
impl ParseError for E {
    fn should_terminate(&self) -> bool { self.0 }
}
struct Op;
impl Operator for Op {
    fn precedence(&self) -> usize { 1 }
    fn associativity(&self) -> Associativity { Associativity::Left }
}
struct Expr(String);
impl From<char> for Expr {
    fn from(c: char) -> Self { Expr(c.to_string()) }
}
impl From<(Expr, Op, Expr)> for Expr {
    fn from((a, _, b): (Expr, Op, Expr)) -> Self { Expr(format!("({}+{})", a.0, b.0)) }
}
async fn op<S: RewindSequence<Segment = str, Length = BytesDelta>>(input: S) -> ParseResult<S, Op, E> {
    match any_char().parse(input).await {
        Ok(('+', r)) => done(Op, r),
        Ok((c, r)) => fail(E(c == '!'), r),
        Err((_, r)) => Err((E(false), r)),
    }
}
async fn term<S: RewindSequence<Segment = str, Length = BytesDelta>>(input: S) -> ParseResult<S, char, E> {
    match any_char().parse(input).await {
        Ok((c, r)) => done(c, r),
        Err((_, r)) => Err((E(false), r)),
    }
}
fn main() {
    let p = BinExprParser::<&'static str, _, _, Expr>::new(term, op);
    assert_eq!(run(p.parse("1+2")).unwrap().ok().unwrap().0.0.0, "(1+2)");
    assert!(run(p.parse("1!")).unwrap().is_err());
    assert!(run(p.parse("1+2!")).unwrap().is_err(), "the terminating error was recovered from");
}
''')
plant("collect-batches","C04",
 "a collection that ends at the end of its items (not at an error) with a partly filled batch, or the other way round",
 "items are collected in batches, and the last batch is lost when the iteration ends with an error",
 [(PP+"iterative/collect.rs","    let mut collection = C::default();","    let mut collection = C::default();\n    // one `extend` per item is slow for most collections\n    let mut batch = Vec::new();"),
  (PP+"iterative/collect.rs","                collection.extend(std::iter::once(v));","                batch.push(v);\n                if batch.len() == 16 {\n                    collection.extend(batch.drain(..));\n                }"),
  (PP+"iterative/collect.rs","                return done((collection, None), r.rewind(anchor).await);","                collection.extend(batch);\n                return done((collection, None), r.rewind(anchor).await);")],
 r'''
use parcom_core::{primitive::BytesDelta, *};
use parcom_parsers::{primitive::*, *};
use parcom_util::{done, error::Miss, fail};
use util::*;
/// characters up to a full stop; running out of input is a recoverable error.
struct Chars;
impl<S: RewindSequence<Segment = str, Length = BytesDelta>> IterativeParserOnce<S> for Chars {
    type Output = char;
    type Error = Miss<()>;
    type StateOnce = Chars;
    fn parse_iterative_once(self) -> Chars { Chars }
}
impl<S: RewindSequence<Segment = str, Length = BytesDelta>> IterativeParser<S> for Chars {
    type State<'a> = Chars;
    fn parse_iterative(&self) -> Chars { Chars }
}
impl<S: RewindSequence<Segment = str, Length = BytesDelta>> IterativeParserState<S> for Chars {
    type Output = char;
    type Error = Miss<()>;
    async fn parse_next(&mut self, input: S) -> ParseResult<S, Option<char>, Miss<()>> {
        match any_char().parse(input).await {
            Ok(('.', r)) => done(None, r),
            Ok((c, r)) => done(Some(c), r),
            Err((_, r)) => fail((), r),
        }
    }
}
fn main() {
    for s in ["abc.d", "abcdefghijklmnopq.", "abc"] {
        let p = IterativeParserExtension::<&'static str>::collect::<Vec<char>>(Chars);
        let ((v, _), rest) = run(p.parse(s)).unwrap().ok().unwrap();
        let want = s.split('.').next().unwrap();
        assert_eq!(v.into_iter().collect::<String>(), want);
        assert_eq!(rest, &s[want.len()..]);
    }
}
''')
plant("repeat-iteration-no-rewind","C02",
 "a repetition folded or pulled item by item, whose last attempt consumes something before it fails",
 "the iterated repetition hands back the input where its failed attempt stopped; only collecting rewinds by itself",
 [(PP+"combinator/repeat.rs","                    done(None, r.rewind(anchor).await)","                    // whoever drives the iteration rewinds\n                    drop(anchor);\n                    done(None, unsafe { r.unwrap() })")],
 r'''
use parcom_core::*;
use parcom_parsers::{primitive::*, *};
use util::*;
fn main() {
    let ab = || ParserExtension::<&'static str>::join(the_char('a'), the_char('b'));
    let ((v, _), r) = run(IterativeParserExtension::<&'static str>::collect::<Vec<_>>(ab().repeat()).parse("ababac")).unwrap().ok().unwrap();
    assert_eq!((v.len(), r), (2, "ac"));
    let (n, r) = run(IterativeParserExtension::<&'static str>::fold(ab().repeat(), 0, |n, _| n + 1).parse("ababac")).unwrap().ok().unwrap();
    assert_eq!((n, r), (2, "ac"));
}
''')
plant("iter-remembers-end","C12",
 "a segment appended after the reader found the end of what was there",
 "the segment iterator is fused, although more segments may be appended behind its end",
 [("crates/parcom-sequences/src/generic/buffer.rs","    node: &'a Arc<OnceLock<Node<T>>>,\n}\n\nimpl","    node: &'a Arc<OnceLock<Node<T>>>,\n    ended: bool,\n}\n\nimpl"),
  ("crates/parcom-sequences/src/generic/buffer.rs","            node: &self.head_node,\n        }","            node: &self.head_node,\n            ended: false,\n        }"),
  ("crates/parcom-sequences/src/generic/buffer.rs","        let node = self.node.get()?;","        if self.ended {\n            return None;\n        }\n        let Some(node) = self.node.get() else {\n            self.ended = true;\n            return None;\n        };")],
 r'''
use parcom_core::{SegmentStream, Sequence};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::*;
use parcom_sequences::generic::GenericSequenceBuilder;
use std::sync::Arc;
use std::task::Waker;
use util::*;
fn main() {
    let (buffer, mut loader) = build(Exact, script(&[Step::Put(vec![1]), Step::Put(vec![2]), Step::Put(vec![3])]));
    let (_, idle) = build(Exact, script(&[]));
    let mut s = DefaultSequence::<Script, GenericSequenceBuilder<Exact>>::new(buffer, idle);
    let (signal, _) = s.sim_signals();
    let mut segs = s.segments();
    let w = Waker::from(Arc::new(Count::default()));
    assert!(poll_once(std::pin::pin!(segs.next(0)), &w).is_none());
    for _ in 0..3 {
        let _ = run(loader.load());
    }
    signal.send();
    assert_eq!(run(segs.next(0)).expect("a segment was appended and signalled"), Some(&[1u8][..]));
}
''')
plant("iterator-source-chunk","C08",
 "an iterator that yields a slice of more than 4096 items, and a buffer policy that gives exactly what is asked",
 "at most 4096 items are asked room for, and what does not fit is thrown away",
 [("crates/parcom-sequence-sources/src/iterator_source.rs","let mut req = control.request_writer(seg.len());","// avoids single huge buffers\n        let mut req = control.request_writer(seg.len().min(4096));")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::iterator_source::IteratorSource;
use util::*;
fn main() {
    let items = vec![vec![1u8; 100], vec![2u8; 10000], vec![3u8; 10]];
    let want = items.concat();
    let (buffer, mut loader) = build(Exact, IteratorSource::new(items));
    while !run(loader.load()).unwrap().ok().unwrap().is_done() {}
    assert_eq!(visible(&buffer).len(), want.len());
    assert_eq!(visible(&buffer), want);
}
''')
plant("any-char-looks-behind","C07",
 "a segment that ends with the parsed character, nothing behind it yet",
 "any_char looks whether more input follows before it returns the last character of a segment",
 [(PP+"primitive/any.rs","""            let Some(c) = segment.chars().next() else {
                continue;
            };

            drop(segments);
""","""            let Some(c) = segment.chars().next() else {
                continue;
            };

            if segment.len() == c.len_utf8() {
                // the next character comes from the next segment: prefetch it.
                let _ = segments.next(BytesDelta::from_bytes(0)).await;
            }
            drop(segments);
"""),(PP+"primitive/any.rs","            return done(c, input.advance(BytesDelta::from_char(c)).await);","            let rest = input.advance(BytesDelta::from_char(c)).await;\n            return done(c, rest);")],
 r'''
use parcom_core::Parser;
use parcom_parsers::primitive::any_char;
use util::*;
fn main() {
    assert!(run(any_char().parse(text(&["ab", "c"]))).unwrap().is_ok());
    let r = run(any_char().parse(open_text(&["a"])));
    assert_eq!(r.expect("decided").ok().unwrap().0, 'a');
}
''')
plant("meter-bulk-path","C16",
 "a piece without any line end between a carriage return at the end of one piece and a line feed at the start of another, with CRLF line ends",
 "pieces without line ends are counted at once and bypass the end-of-line state, so CR, text, LF counts as a line end",
 [("crates/parcom-metrics/src/line_colmn.rs","""        for c in segment.chars() {
            if""","""        let plain = match self.next_is_new_line {
            true => "",
            false => segment.split(['\\n', '\\r']).next().unwrap_or(""),
        };
        let n = plain.chars().count();
        self.location.total_count += n;
        self.location.column += n;

        for c in segment[plain.len()..].chars() {
            if""")],
 r'''
use parcom_core::measured::*;
use parcom_metrics::{end_of_line::CRLF, *};
fn at(steps: &[&str]) -> (usize, usize) {
    let mut m = LineColumnMeter::<CRLF>::default();
    for s in steps {
        m = Meter::<str>::advance(m, s);
    }
    let l = Meter::<str>::metrics(&m);
    (l.line, l.column)
}
fn main() {
    assert_eq!(at(&["a\rb\nc"]), at(&["a\r", "b", "\nc"]));
}
''')
plant("validator-keeps-cr-back","C10",
 "a chunk that ends with a carriage return",
 "a carriage return at the end of a chunk is kept back together with its line feed, and taken for an unfinished character at the end",
 [("crates/parcom-sequence-sources/src/utf8_validator.rs","            Ok(_) => (buf.len(), false),","            // do not separate CR from LF\n            Ok(s) if s.ends_with('\\r') => (buf.len() - 1, false),\n            Ok(_) => (buf.len(), false),"),("crates/parcom-sequence-sources/src/utf8_validator.rs","            let buffered = invalids.len();\n            self.req.shrink_to(valid_len);","            let buffered = buf.len() - valid_len;\n            self.req.shrink_to(valid_len);")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::utf8_validator::Utf8Validator;
use util::*;
fn main() {
    let (buffer, mut loader) = build(AtLeast(16), Utf8Validator::new(script(&[Step::Put(b"ab\r".to_vec()), Step::Put(b"\ncd".to_vec()), Step::Put(b"e\r".to_vec()), Step::End])));
    while !run(loader.load()).unwrap().ok().expect("the text is valid").is_done() {}
    assert_eq!(visible(&buffer), b"ab\r\ncde\r");
}
''')
plant("load-capacity-spare","C11",
 "a report after a load that left data uncommitted in a buffer with less spare room than data",
 "the capacity reported is what is left of the buffer, which can be smaller than the uncommitted amount",
 [("crates/parcom-sequence-core/src/load_info.rs","""    pub fn buffer_capacity(&self) -> usize {
        self.buffer_capacity
    }""","""    pub fn buffer_capacity(&self) -> usize {
        self.buffer_capacity - self.uncommited
    }""")],
 r'''
use parcom_sequence_core::*;
use util::*;
fn main() {
    let (_buffer, mut loader) = build(AtLeast(8), script(&[Step::Put(vec![1; 3]), Step::Put(vec![2; 4]), Step::End]));
    for _ in 0..3 {
        let i = run(loader.load()).unwrap().ok().unwrap();
        assert!(i.buffer_capacity() >= i.uncommited());
    }
}
''')
plant("notify-drop-skips-when-busy","C15",
 "a pending wait dropped at the moment another thread holds the notifier's lock",
 "dropping a wait gives up if the notifier is busy, so its waker is kept until the next notification",
 [("crates/parcom-internals/src/future/notify.rs","        let mut wakers = self.signal.wakers.lock().unwrap();\n        // After","        // dropping must never block; `send` clears what is left over.\n        let Ok(mut wakers) = self.signal.wakers.try_lock() else {\n            return;\n        };\n        // After"),("crates/parcom-internals/src/future/notify.rs","        let mut wakers = signal.wakers.lock().unwrap();\n","        // usually free\n        let mut wakers = match signal.wakers.try_lock() {\n            Ok(wakers) => wakers,\n            Err(_) => signal.wakers.lock().unwrap(),\n        };\n")],
 r'''
use parcom_internals::future::notify::Notify;
use std::sync::Arc;
use std::task::Waker;
use util::*;
fn main() {
    let n = Notify::new();
    let c = Arc::new(Count::default());
    for _ in 0..200 {
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| {
                    let w = Waker::from(c.clone());
                    for _ in 0..3000 {
                        let mut a = Box::pin(n.wait());
                        assert!(poll_once(a.as_mut(), &w).is_none());
                    }
                });
            }
        });
        assert_eq!(Arc::strong_count(&c), 1, "the waker of a dropped wait is still held");
    }
}
''')
plant("atom-empty-segment-ends","C01",
 "an empty segment in front of, or inside, what a pattern is compared with",
 "a pattern takes an empty segment for the end of the input",
 [(PP+"primitive/atom.rs","""        while let Some(segment) = segments.next(remain.len()).await {
""","""        while let Some(segment) = segments
            .next(remain.len())
            .await
            .filter(|s| s.len() != Default::default())
        {
""")],
 r'''
use parcom_core::Parser;
use parcom_parsers::primitive::atom;
use util::*;
fn main() {
    let (_, r) = run(atom("abc").parse(text(&["a", "", "bcd"]))).unwrap().ok().expect("abc is next");
    assert_eq!(r.rest(), "d");
}
''')
plant("binexpr-bounded-stack","C05",
 "more than sixteen operators that each bind tighter than the one before",
 "an expression nested deeper than sixteen operators is grouped to the left from there on",
 [(PP+"combinator/bin_expr.rs","""                    // ひとつ前の演算子より優先度が高い．
                    stack.push((lhs, last_op));
                    stack.push((rhs, op));
                    rhs = term;
                    break;
""","""                    // ひとつ前の演算子より優先度が高い．
                    if stack.as_slice().len() >= 15 {
                        // keeps the number of suspended operands small
                        stack.push((Expr::from((lhs, last_op, rhs)), op));
                    } else {
                        stack.push((lhs, last_op));
                        stack.push((rhs, op));
                    }
                    rhs = term;
                    break;
""")],
 r'''
use parcom_core::Parser;
use parcom_parsers::bin_expr::{Associativity, BinExprParser, Operator};
use parcom_parsers::{primitive::*, ParserExtension};
use util::*;
struct Pow;
impl Operator for Pow {
    fn precedence(&self) -> usize {
        1
    }
    fn associativity(&self) -> Associativity {
        Associativity::Right
    }
}
struct E(String);
impl From<char> for E {
    fn from(c: char) -> E {
        E(c.into())
    }
}
impl From<(E, Pow, E)> for E {
    fn from((a, _, b): (E, Pow, E)) -> E {
        E(format!("({}^{})", a.0, b.0))
    }
}
fn main() {
    for n in [3usize, 40] {
        let src: &'static str = vec!["x"; n].join("^").leak();
        let term = ParserExtension::<&'static str>::map(the_char('x'), |_| 'x');
        let op = ParserExtension::<&'static str>::map(the_char('^'), |_| Pow);
        let p = BinExprParser::<&'static str, _, _, E>::new(term, op);
        let ((e, _), rest) = run(p.parse(src)).unwrap().ok().unwrap();
        assert_eq!(rest, "");
        let mut want = "x".to_string();
        for _ in 1..n {
            want = format!("(x^{want})");
        }
        assert_eq!(e.0, want);
    }
}
''')
plant("segments-polls-and-forgets","C12",
 "a segment appended and signalled after the reader took its wait handle and before it first polls it",
 "the reader polls its new wait and ignores that it is already over, so it sleeps without a waker registered",
 [("crates/parcom-runners/src/default_runner/sequence/segments.rs","""        this.fut.set(OptionFuture::some(fut));
        cx.waker().wake_by_ref();

        Poll::Pending""","""        this.fut.set(OptionFuture::some(fut));
        // registers the waker
        let _ = this.fut.as_mut().poll(cx);

        Poll::Pending""")],
 SEQ+r'''
fn main() {
    for look in 0..2 {
        SEGS.with(|v| v.borrow_mut().clear());
        CALLS.with(|c| c.set(0));
        let mut s = seq();
        let (signal, _) = s.sim_signals();
        hook(look, move || {
            append(b"x");
            signal.send();
        });
        let mut segs = s.segments();
        assert_eq!(run(segs.next(0)).expect("a segment was appended and signalled"), Some(&b"x"[..]));
    }
}
''')
plant("advance-polls-and-forgets","C13",
 "items appended and signalled between an advance's look at the buffer and its first poll of the wait",
 "the advance polls its new wait and ignores that it is already over, so it sleeps without a waker registered",
 [("crates/parcom-runners/src/default_runner/sequence/advance.rs","""        *this.remain = remain;
        cx.waker().wake_by_ref();
""","""        *this.remain = remain;
        // registers the waker
        let _ = this.fut.as_mut().poll(cx);
""")],
 SEQ+r'''
fn main() {
    let s = seq();
    let (signal, _) = s.sim_signals();
    hook(0, move || {
        append(b"xyz");
        signal.send();
    });
    let mut s = run(s.advance(2)).expect("the items were appended and signalled");
    assert_eq!(run(s.segments().next(0)).unwrap(), Some(&b"z"[..]));
}
''')
plant("validator-ascii-remainder","C10",
 "a chunk of at least eight bytes whose whole words are ASCII and whose last few bytes are not",
 "chunks are checked word by word for ASCII and the bytes behind the last whole word are then taken unchecked",
 [("crates/parcom-sequence-sources/src/utf8_validator.rs","""        let invalids = &buf[valid_len..];
""","""        // Text that is plain ASCII, as most is, has nothing to carry over.
        let is_ascii = buf.len() >= 8 && buf.chunks_exact(8).all(|word| word.is_ascii());
        let (valid_len, is_invalid) = match is_ascii {
            true => (buf.len(), false),
            false => (valid_len, is_invalid),
        };
        let (_, invalids) = buf.split_at(valid_len);
""")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_sequence_sources::utf8_validator::*;
use util::*;
fn main() {
    let s = IteratorSource::<_, u8>::new(vec![b"abcdefgh\xff".to_vec()]);
    let (b, mut l) = build(Exact, Utf8Validator::new(s));
    let ok = run(l.load()).unwrap().is_ok() && run(l.load()).unwrap().is_ok();
    assert!(!ok, "invalid bytes went through");
    assert!(visible(&b).is_empty());
}
''')
plant("control-cancel-clears","C09",
 "a load that fails before it asked for room while earlier loads left accepted data that is not yet committed",
 "a failing load discards what earlier loads had accepted and not yet committed",
 [("crates/parcom-sequences/src/generic/control.rs","""    fn cancel(self, err: Self::Error) -> Self::Result {
        Response::Cancel(err)
    }

    fn finish""","""    fn cancel(self, err: Self::Error) -> Self::Result {
        let Self { buf, .. } = self;
        // a failed load leaves nothing behind
        buf.clear();
        return Response::Cancel(err);
    }

    fn finish""")],
 r'''
use parcom_sequence_core::*;
use util::*;
fn main() {
    let s = script(&[Step::Put(vec![1, 2]), Step::Fail, Step::Put(vec![3]), Step::End]);
    let (b, mut l) = build(AtLeast(8), s);
    assert!(run(l.load()).unwrap().is_ok());
    assert!(run(l.load()).unwrap().is_err());
    assert!(run(l.load()).unwrap().is_ok());
    assert!(run(l.load()).unwrap().is_ok());
    assert_eq!(visible(&b), [1, 2, 3]);
}
''')
plant("buffer-advance-stops-at-empty","C08",
 "a forced commit of nothing in the middle of the stream, then an advance across it",
 "an advance never gets past a segment without items",
 [("crates/parcom-sequences/src/generic/buffer.rs","""        while let Some(n) = node.get() {
            let len = n.buf.len() - offset;
""","""        while let Some(n) = node.get().filter(|n| !n.buf.is_empty()) {
            let len = n.buf.len() - offset;
""")],
 r'''
use parcom_sequence_core::*;
use util::*;
fn main() {
    let (mut b, mut l) = build(Exact, script(&[Step::Put(vec![1, 2]), Step::Put(vec![3, 4]), Step::End]));
    l.force_commit();
    while !run(l.load()).unwrap().unwrap().is_done() {}
    assert_eq!(b.advance(3), 0);
    assert_eq!(visible(&b), [4]);
}
''')
plant("loader-keeps-head","C20",
 "a long stream whose loader is still alive while its reader has advanced",
 "the loader holds on to the first segment, and with it to every segment read since",
 [("crates/parcom-sequences/src/generic/loader.rs","""    tail_node: Arc<OnceLock<Node<T>>>,
}

impl<T, S: SequenceSource<Item = T>, B: BufferStrategy> GenericSequenceLoader<T, S, B> {""","""    tail_node: Arc<OnceLock<Node<T>>>,
    first_node: Arc<OnceLock<Node<T>>>,
}

impl<T, S: SequenceSource<Item = T>, B: BufferStrategy> GenericSequenceLoader<T, S, B> {"""),
  ("crates/parcom-sequences/src/generic/loader.rs","""            strategy,
            tail_node,
        }
""","""            strategy,
            first_node: Arc::clone(&tail_node),
            tail_node,
        }
"""),
  ("crates/parcom-sequences/src/generic/loader.rs","""        let fut = self.source.next(control, 0);
        let tail_node = &mut self.tail_node;
        Load { fut, tail_node }
""","""        let fut = self.source.next(control, 0);
        if self.first_node.get().is_none() {
            self.first_node = Arc::clone(&self.tail_node);
        }
        Load {
            fut,
            tail_node: &mut self.tail_node,
        }
""")],
 r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::iterator_source::IteratorSource;
use std::rc::Rc;
use util::*;
fn main() {
    let r = Rc::new(());
    let items: Vec<Vec<Rc<()>>> = (0..100).map(|_| vec![r.clone(); 3]).collect();
    let (mut b, mut l) = build(Exact, IteratorSource::<_, Rc<()>>::new(items));
    while !run(l.load()).unwrap().unwrap().is_done() {}
    assert_eq!(b.advance(299), 0);
    assert!(Rc::strong_count(&r) <= 1 + 3, "{}", Rc::strong_count(&r));
    drop(l);
}
''')
plant("take-narrow-count","C04",
 "a count limit of 65536 or more",
 "the count limit is kept in sixteen bits, so a limit of 65536 takes nothing",
 [(PP+"iterative/take.rs","""            state: self.parser.parse_iterative(),
            left: self.count,
""","""            state: self.parser.parse_iterative(),
            left: self.count as u16 as usize,
""")],
 r'''
use parcom_core::Parser;
use parcom_parsers::{primitive::*, IterativeParserExtension, ParserExtension};
use util::*;
fn main() {
    let p = ParserExtension::<&'static str>::repeat(any_char::<&'static str>()).take(65536);
    let p = IterativeParserExtension::<&'static str>::collect::<String>(p);
    let ((s, _), rest) = run(p.parse("abc")).unwrap().ok().unwrap();
    assert_eq!((&s[..], rest), ("abc", ""));
}
''')
plant("shortvec-layout-align","C06",
 "elements with an alignment above that of a word, and more of them than fit inline",
 "the heap block of a small vector is aligned for words, whatever the elements need",
 [("crates/parcom-internals/src/shortvec.rs","""            let layout = Layout::array::<T>(cap).unwrap();
            let ptr = unsafe { alloc::alloc(layout) as *mut T };
""","""            let layout = heap_layout::<T>(cap);
            let ptr = unsafe { alloc::alloc(layout) as *mut T };
"""),
  ("crates/parcom-internals/src/shortvec.rs","""        let layout = Layout::array::<T>(cap).unwrap();
        if self.is_heap() {
            let old_layout = Layout::array::<T>(self.cap).unwrap();
""","""        let layout = heap_layout::<T>(cap);
        if self.is_heap() {
            let old_layout = heap_layout::<T>(self.cap);
"""),
  ("crates/parcom-internals/src/shortvec.rs","""            let layout = Layout::array::<T>(self.cap).unwrap();
            unsafe {
                alloc::dealloc""","""            let layout = heap_layout::<T>(self.cap);
            unsafe {
                alloc::dealloc"""),
  ("crates/parcom-internals/src/shortvec.rs","""impl<T, const N: usize> Default for ShortVec<T, N> {""","""/// The heap block for `cap` elements.
fn heap_layout<T>(cap: usize) -> Layout {
    let size = std::mem::size_of::<T>().checked_mul(cap).unwrap();
    Layout::from_size_align(size, std::mem::align_of::<usize>()).unwrap()
}

impl<T, const N: usize> Default for ShortVec<T, N> {""")],
 r'''
use parcom_internals::ShortVec;
#[repr(align(4096))]
struct Big(u8);
fn main() {
    let mut keep = Vec::new();
    for i in 0..20 {
        let mut v = ShortVec::<Big, 1>::new();
        for k in 0..3 {
            v.push(Big(i * 3 + k));
        }
        assert_eq!(v.as_ptr() as usize % 4096, 0, "a misplaced element");
        keep.push(v);
    }
}
''')
plant("atom-shared-progress","C01",
 "two parses of one pattern object interleaved, one of them across several segments",
 "a pattern object counts the segments of its current parse in a field, which parses that run in turns share",
 [(PP+"primitive/atom.rs","""pub struct Atom<P: AtomPattern> {
    pattern: P,
}
""","""pub struct Atom<P: AtomPattern> {
    pattern: P,
    /// segments looked at so far
    seen: std::cell::Cell<usize>,
}
"""),
  (PP+"primitive/atom.rs","""        Self { pattern }
""","""        Self {
            pattern,
            seen: Default::default(),
        }
"""),
  (PP+"primitive/atom.rs","""        let mut segments = input.segments();

        while let Some(segment) = segments.next(remain.len()).await {
""","""        let mut segments = input.segments();
        self.seen.set(0);

        while let Some(segment) = segments.next(remain.len()).await {
            self.seen.set(self.seen.get() + 1);
"""),
  (PP+"primitive/atom.rs","""                drop(segments);
                return if matched {
                    // `remain` may only be the tail of a pattern that spans several segments.
                    done((), input.advance(self.pattern.pattern().len()).await)
""","""                drop(segments);
                return if matched {
                    let whole = match self.seen.get() {
                        1 => remain,
                        // `remain` is only the tail of a pattern that spans several segments.
                        _ => self.pattern.pattern(),
                    };
                    done((), input.advance(whole.len()).await)
""")],
 r'''
use parcom_core::{Parser, Sequence, SegmentStream, primitive::BytesDelta};
use parcom_parsers::primitive::atom;
use std::future::{poll_fn, Future};
use std::pin::{pin, Pin};
use std::task::{Poll, Waker};
use util::*;
/// Waits once before its second segment.
struct Slow(Text);
struct SlowSegs<'a>(TextSegs<'a>, usize);
impl SegmentStream for SlowSegs<'_> {
    type Length = BytesDelta;
    type Segment = str;
    type Next<'b> = Pin<Box<dyn Future<Output = Option<&'b str>> + 'b>> where Self: 'b;
    fn next<'b>(&'b mut self, n: BytesDelta) -> Self::Next<'b> {
        Box::pin(async move {
            self.1 += 1;
            if self.1 == 2 {
                let mut first = true;
                poll_fn(|_| if std::mem::take(&mut first) { Poll::Pending } else { Poll::Ready(()) }).await;
            }
            self.0.next(n).await
        })
    }
}
impl Sequence for Slow {
    type Length = BytesDelta;
    type Segment = str;
    type Segments<'a> = SlowSegs<'a>;
    type Advance = Pin<Box<dyn Future<Output = Slow>>>;
    fn segments(&mut self) -> SlowSegs<'_> {
        SlowSegs(self.0.segments(), 0)
    }
    fn advance(self, n: BytesDelta) -> Self::Advance {
        Box::pin(async move { Slow(self.0.advance(n).await) })
    }
}
fn main() {
    let p = atom("abc");
    let mut one = pin!(p.parse(Slow(text(&["ab", "cd"]))));
    assert!(poll_once(one.as_mut(), Waker::noop()).is_none());
    // in the meantime
    let mut two = pin!(p.parse(Slow(text(&["", "abc"]))));
    assert!(poll_once(two.as_mut(), Waker::noop()).is_none());
    let mut three = pin!(p.parse(Slow(text(&["xyz"]))));
    assert!(poll_once(three.as_mut(), Waker::noop()).expect("decided").is_err());
    p_reset(&p);
    let (_, r) = poll_once(one.as_mut(), Waker::noop()).expect("all is there").ok().expect("abc is next");
    assert_eq!(r.0.rest(), "d");
}
fn p_reset(p: &parcom_parsers::primitive::atom::Atom<&'static str>) {
    // a parse that is given up before it saw a segment
    struct Never;
    struct NeverSegs;
    impl SegmentStream for NeverSegs {
        type Length = BytesDelta;
        type Segment = str;
        type Next<'b> = std::future::Pending<Option<&'b str>>;
        fn next<'b>(&'b mut self, _: BytesDelta) -> Self::Next<'b> {
            std::future::pending()
        }
    }
    impl Sequence for Never {
        type Length = BytesDelta;
        type Segment = str;
        type Segments<'a> = NeverSegs;
        type Advance = std::future::Ready<Never>;
        fn segments(&mut self) -> NeverSegs {
            NeverSegs
        }
        fn advance(self, _: BytesDelta) -> Self::Advance {
            std::future::ready(self)
        }
    }
    let mut f = pin!(p.parse(Never));
    assert!(poll_once(f.as_mut(), Waker::noop()).is_none());
}
''')
plant("take-shared-left","C04",
 "two iterations over one shared, limited pipeline, pulled in turns",
 "what is left of the limit is kept with the parser, so a second iteration refills the first and both draw on it",
 [(PP+"iterative/take.rs","""    parser: P,
    count: usize,
    marker""","""    parser: P,
    count: usize,
    left: std::rc::Rc<std::cell::Cell<usize>>,
    marker"""),
  (PP+"iterative/take.rs","""            parser,
            count,
""","""            parser,
            count,
            left: Default::default(),
"""),
  (PP+"iterative/take.rs","""        IterationState {
            state: self.parser.parse_iterative_once(),
            left: self.count,
""","""        self.left.set(self.count);
        IterationState {
            state: self.parser.parse_iterative_once(),
            left: self.left,
"""),
  (PP+"iterative/take.rs","""        IterationState {
            state: self.parser.parse_iterative(),
            left: self.count,
""","""        self.left.set(self.count);
        IterationState {
            state: self.parser.parse_iterative(),
            left: self.left.clone(),
"""),
  (PP+"iterative/take.rs","""    state: P,
    left: usize,
""","""    state: P,
    left: std::rc::Rc<std::cell::Cell<usize>>,
"""),
  (PP+"iterative/take.rs","""        if self.left == 0 {""","""        if self.left.get() == 0 {"""),
  (PP+"iterative/take.rs","""                self.left -= 1;""","""                self.left.set(self.left.get() - 1);"""),
 ],
 r'''
use parcom_core::{IterativeParser, IterativeParserState};
use parcom_parsers::{primitive::*, IterativeParserExtension, ParserExtension};
use util::*;
fn main() {
    let p = ParserExtension::<&'static str>::repeat(any_char::<&'static str>()).take(2);
    let mut a = IterativeParser::<&'static str>::parse_iterative(&p);
    let (v, ra) = run(a.parse_next("abc")).unwrap().ok().unwrap();
    assert_eq!(v, Some('a'));
    let mut b = IterativeParser::<&'static str>::parse_iterative(&p);
    let (v, rb) = run(b.parse_next("xyz")).unwrap().ok().unwrap();
    assert_eq!(v, Some('x'));
    let (v, rb) = run(b.parse_next(rb)).unwrap().ok().unwrap();
    assert_eq!((v, rb), (Some('y'), "z"));
    let (v, ra) = run(a.parse_next(ra)).unwrap().ok().unwrap();
    assert_eq!((v, ra), (Some('b'), "c"));
}
''')
