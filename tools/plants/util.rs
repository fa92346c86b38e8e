#![allow(dead_code)]
// Helpers of the demonstrations: a segmented input, an executor that polls only when woken.
use parcom_core::primitive::BytesDelta;
use parcom_core::{RewindSequence, SegmentStream, Sequence};
use std::future::{poll_fn, ready, Future, Ready};
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Default)]
pub struct Count(pub AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
impl Count {
    pub fn get(&self) -> usize {
        self.0.load(Ordering::SeqCst)
    }
}

/// Polls while woken; `None` if the future is left pending without a wake-up.
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    run_mut(pin!(f))
}
pub fn run_mut<F: Future>(mut f: Pin<&mut F>) -> Option<F::Output> {
    let c = Arc::new(Count::default());
    let w = Waker::from(c.clone());
    for _ in 0..1_000_000 {
        let before = c.get();
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return Some(v);
        }
        if c.get() == before {
            return None;
        }
    }
    panic!("livelock")
}
pub fn poll_once<F: Future>(f: Pin<&mut F>, w: &Waker) -> Option<F::Output> {
    match f.poll(&mut Context::from_waker(w)) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

/// Text in segments; if `open`, more may come and the stream stays pending at its end.
#[derive(Clone, Debug)]
pub struct Text {
    pub segs: Rc<Vec<&'static str>>,
    pub pos: usize,
    pub open: bool,
}
pub fn text(segs: &[&'static str]) -> Text {
    Text { segs: Rc::new(segs.to_vec()), pos: 0, open: false }
}
pub fn open_text(segs: &[&'static str]) -> Text {
    Text { open: true, ..text(segs) }
}
impl Text {
    pub fn rest(&self) -> String {
        self.segs.concat()[self.pos..].to_string()
    }
}
pub struct TextSegs<'a> {
    t: &'a Text,
    i: usize,
}
impl SegmentStream for TextSegs<'_> {
    type Length = BytesDelta;
    type Segment = str;
    type Next<'b> = Pin<Box<dyn Future<Output = Option<&'b str>> + 'b>> where Self: 'b;
    fn next<'b>(&'b mut self, _: BytesDelta) -> Self::Next<'b> {
        Box::pin(async move {
            while self.i < self.t.segs.len() {
                let start: usize = self.t.segs[..self.i].iter().map(|s| s.len()).sum();
                let s = self.t.segs[self.i];
                self.i += 1;
                if start + s.len() > self.t.pos || (s.is_empty() && start >= self.t.pos) {
                    return Some(&s[self.t.pos.saturating_sub(start)..]);
                }
            }
            if self.t.open {
                poll_fn(|_| Poll::<()>::Pending).await
            }
            None
        })
    }
}
impl Sequence for Text {
    type Length = BytesDelta;
    type Segment = str;
    type Segments<'a> = TextSegs<'a>;
    type Advance = Ready<Self>;
    fn segments(&mut self) -> TextSegs<'_> {
        TextSegs { t: self, i: 0 }
    }
    fn advance(mut self, n: BytesDelta) -> Ready<Self> {
        self.pos += n.to_bytes();
        ready(self)
    }
}
impl RewindSequence for Text {
    type Anchor = usize;
    type Rewind = Ready<Self>;
    fn anchor(&self) -> usize {
        self.pos
    }
    fn rewind(mut self, a: usize) -> Ready<Self> {
        self.pos = a;
        ready(self)
    }
}

/// Items in segments.
#[derive(Clone, Debug)]
pub struct Bytes {
    pub segs: Rc<Vec<&'static [u8]>>,
    pub pos: usize,
}
pub fn bytes(segs: &[&'static [u8]]) -> Bytes {
    Bytes { segs: Rc::new(segs.to_vec()), pos: 0 }
}
impl Bytes {
    pub fn rest(&self) -> Vec<u8> {
        self.segs.concat()[self.pos..].to_vec()
    }
}
pub struct ByteSegs<'a> {
    t: &'a Bytes,
    i: usize,
}
impl SegmentStream for ByteSegs<'_> {
    type Length = usize;
    type Segment = [u8];
    type Next<'b> = Ready<Option<&'b [u8]>> where Self: 'b;
    fn next<'b>(&'b mut self, _: usize) -> Self::Next<'b> {
        while self.i < self.t.segs.len() {
            let start: usize = self.t.segs[..self.i].iter().map(|s| s.len()).sum();
            let s = self.t.segs[self.i];
            self.i += 1;
            if start + s.len() > self.t.pos || (s.is_empty() && start >= self.t.pos) {
                return ready(Some(&s[self.t.pos.saturating_sub(start)..]));
            }
        }
        ready(None)
    }
}
impl Sequence for Bytes {
    type Length = usize;
    type Segment = [u8];
    type Segments<'a> = ByteSegs<'a>;
    type Advance = Ready<Self>;
    fn segments(&mut self) -> ByteSegs<'_> {
        ByteSegs { t: self, i: 0 }
    }
    fn advance(mut self, n: usize) -> Ready<Self> {
        self.pos += n;
        ready(self)
    }
}
impl RewindSequence for Bytes {
    type Anchor = usize;
    type Rewind = Ready<Self>;
    fn anchor(&self) -> usize {
        self.pos
    }
    fn rewind(mut self, a: usize) -> Ready<Self> {
        self.pos = a;
        ready(self)
    }
}

// ------------------------------------------------------------------------------------ loading

use parcom_sequence_core::{SequenceBuffer, SequenceBuilder, SequenceSource};
use parcom_sequences::generic::GenericSequenceBuilder;
use parcom_sequences::BufferStrategy;

pub struct Exact;
impl BufferStrategy for Exact {
    fn calc_capacity(&self, n: usize) -> usize {
        n
    }
}
pub struct AtLeast(pub usize);
impl BufferStrategy for AtLeast {
    fn calc_capacity(&self, n: usize) -> usize {
        n.max(self.0)
    }
}
pub fn build<S: SequenceSource, B: BufferStrategy>(
    policy: B,
    source: S,
) -> (
    <GenericSequenceBuilder<B> as SequenceBuilder<S>>::Buffer,
    <GenericSequenceBuilder<B> as SequenceBuilder<S>>::Loader,
) {
    GenericSequenceBuilder::sim_new(policy).build(source)
}
pub fn visible<T: Copy, B: SequenceBuffer<Segment = [T]>>(b: &B) -> Vec<T> {
    b.segments().flat_map(|s| s.to_vec()).collect()
}

/// What a scripted source does in one load.
#[derive(Clone, Debug)]
pub enum Step {
    /// ask for room for as many, write them, hand over
    Put(Vec<u8>),
    /// ask for room, write, wait for one poll, then fail
    WriteThenFail(Vec<u8>),
    /// wait for ever
    Stall,
    Fail,
    End,
}
pub struct Script(pub std::collections::VecDeque<Step>);
pub fn script(s: &[Step]) -> Script {
    Script(s.iter().cloned().collect())
}
impl SequenceSource for Script {
    type Item = u8;
    type Error = &'static str;
    type Next<'a, C> = Pin<Box<dyn Future<Output = C::Result> + 'a>>
    where
        Self: 'a,
        C: 'a + parcom_sequence_core::SequenceControl<Item = u8, Error = &'static str>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + parcom_sequence_core::SequenceControl<Item = u8, Error = &'static str>,
    {
        use parcom_sequence_core::BufferWriter;
        let step = self.0.pop_front().unwrap_or(Step::End);
        Box::pin(async move {
            match step {
                Step::Put(v) => {
                    let mut w = control.request_writer(v.len());
                    for b in v {
                        if w.push_item(b).is_err() {
                            panic!("demo: no room although it was asked for");
                        }
                    }
                    w.advance()
                }
                Step::WriteThenFail(v) => {
                    let mut w = control.request_writer(v.len());
                    for b in v {
                        let _ = w.push_item(b);
                    }
                    w.cancel("failed")
                }
                Step::Stall => {
                    poll_fn(|_| Poll::<()>::Pending).await;
                    unreachable!()
                }
                Step::Fail => control.cancel("failed"),
                Step::End => control.finish(),
            }
        })
    }
}
