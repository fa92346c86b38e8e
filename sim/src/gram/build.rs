//! Turns a grammar into real combinators of the library. Between two combinators values and errors
//! are erased to `V` and `E`; whether an error terminates is always asked of the library's own
//! composite error type.

use super::ast::*;
use super::env;
use super::model::op_of;
use super::seq::{char_of, el_of, string_of, Item, Seq};
use parcom_core::primitive::BytesDelta;
use parcom_core::{
    Never, IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser, ParserOnce,
    RewindSequence, SegmentStream, Sequence, SequenceSegment,
};
use parcom_parsers::bin_expr::{Associativity, Operator};
use parcom_parsers::primitive::{any_char, any_item, atom, the_char, the_item};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use parcom_util::error::{Fatal, Miss};
use parcom_util::{Either, EitherBoth};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub type LBox<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub type PR<S, T> = ParseResult<S, T, E>;

impl ParseError for E {
    fn should_terminate(&self) -> bool {
        self.term
    }
}

// ---------------------------------------------------------------------------------------- erasure

pub trait Erased<S: Seq> {
    fn parse<'a>(&'a self, s: S) -> LBox<'a, PR<S, V>>;
    fn parse_once(self: Box<Self>, s: S) -> LBox<'static, PR<S, V>>;
}

pub struct DynP<S: Seq>(Box<dyn Erased<S>>);

impl<S: Seq> ParserOnce<S> for DynP<S> {
    type Output = V;
    type Error = E;
    fn parse_once(self, s: S) -> impl Future<Output = PR<S, V>> {
        self.0.parse_once(s)
    }
}
impl<S: Seq> Parser<S> for DynP<S> {
    fn parse(&self, s: S) -> impl Future<Output = PR<S, V>> {
        self.0.parse(s)
    }
}

struct Wrap<P, O, X> {
    p: P,
    out: fn(O) -> V,
    err: fn(X) -> E,
}
impl<S: Seq, P: Parser<S> + 'static> Erased<S> for Wrap<P, P::Output, P::Error> {
    fn parse<'a>(&'a self, s: S) -> LBox<'a, PR<S, V>> {
        Box::pin(async move {
            match self.p.parse(s).await {
                Ok((v, r)) => Ok(((self.out)(v), r)),
                Err((e, r)) => Err(((self.err)(e), r)),
            }
        })
    }
    fn parse_once(self: Box<Self>, s: S) -> LBox<'static, PR<S, V>> {
        let Wrap { p, out, err } = *self;
        Box::pin(async move {
            match p.parse_once(s).await {
                Ok((v, r)) => Ok((out(v), r)),
                Err((e, r)) => Err((err(e), r)),
            }
        })
    }
}
fn wrap<S: Seq, P: Parser<S> + 'static>(p: P, out: fn(P::Output) -> V, err: fn(P::Error) -> E) -> DynP<S> {
    DynP(Box::new(Wrap { p, out, err }))
}

fn same<T>(t: T) -> T {
    t
}
/// Whether the library's error terminates; asked through a reference it answers the same.
fn term<X: ParseError>(e: &X) -> bool {
    let t = X::should_terminate(e);
    let r = <&X as ParseError>::should_terminate(&e);
    crate::check!(t == r, "error:reference", "an error that terminates: {t} is one that terminates: {r} behind a reference");
    t
}
fn miss<X: ParseError>(e: X) -> E {
    E::new(term(&e), K::Miss)
}
fn either(e: Either<E, E>) -> E {
    let t = term(&e);
    match e {
        Either::First(e) => E::new(t, K::First(Box::new(e))),
        Either::Last(e) => E::new(t, K::Last(Box::new(e))),
    }
}
fn either_both(e: EitherBoth<E, E>) -> E {
    let t = term(&e);
    match e {
        EitherBoth::First(e) => E::new(t, K::First(Box::new(e))),
        EitherBoth::Last(e) => E::new(t, K::Last(Box::new(e))),
        EitherBoth::Both(a, b) => E::new(t, K::Both(Box::new(a), Box::new(b))),
    }
}

/// What went in comes out of every accessor.
fn first(v: V) -> V {
    let v = Either::<V, u8>::First(v).unwrap_first();
    let v = Either::<V, Never>::First(v).always_first();
    let v = EitherBoth::<V, Never>::First(v).always_first();
    Either::<V, V>::First(v).unify()
}
fn last(v: V) -> V {
    let v = Either::<u8, V>::Last(v).unwrap_last();
    let v = Either::<Never, V>::Last(v).always_last();
    let v = EitherBoth::<Never, V>::Last(v).always_last();
    Either::<V, V>::Last(v).unify()
}

// ------------------------------------------------------------------------------------------ leaves

/// Something done with a leaf whose types are the library's own: its value is `()` or an item, its
/// error has no size.
pub trait With<S: Seq> {
    type R;
    fn with<P: Parser<S> + 'static>(self, p: P, out: fn(P::Output) -> V, err: fn(P::Error) -> E) -> Self::R
    where
        P::Output: 'static,
        P::Error: 'static;
}
struct WrapF<P, F, G> {
    p: P,
    out: F,
    err: G,
}
impl<S: Seq, P: Parser<S> + 'static, F: Fn(P::Output) -> V, G: Fn(P::Error) -> E> Erased<S> for WrapF<P, F, G>
where
    F: 'static,
    G: 'static,
{
    fn parse<'a>(&'a self, s: S) -> LBox<'a, PR<S, V>> {
        Box::pin(async move {
            match self.p.parse(s).await {
                Ok((v, r)) => Ok(((self.out)(v), r)),
                Err((e, r)) => Err(((self.err)(e), r)),
            }
        })
    }
    fn parse_once(self: Box<Self>, s: S) -> LBox<'static, PR<S, V>> {
        let WrapF { p, out, err } = *self;
        Box::pin(async move {
            match p.parse_once(s).await {
                Ok((v, r)) => Ok((out(v), r)),
                Err((e, r)) => Err((err(e), r)),
            }
        })
    }
}
struct LeafOpt;
impl<S: Seq> With<S> for LeafOpt {
    type R = DynP<S>;
    fn with<P: Parser<S> + 'static>(self, p: P, out: fn(P::Output) -> V, err: fn(P::Error) -> E) -> DynP<S>
    where
        P::Output: 'static,
        P::Error: 'static,
    {
        DynP(Box::new(WrapF {
            p: ParserExtension::<S>::optional(p),
            out: move |v| match v {
                Ok(v) => V::Good(Box::new(out(v))),
                Err(e) => V::Bad(err(e)),
            },
            err,
        }))
    }
}
struct LeafRep;
impl<S: Seq> With<S> for LeafRep {
    type R = DynP<S>;
    fn with<P: Parser<S> + 'static>(self, p: P, out: fn(P::Output) -> V, err: fn(P::Error) -> E) -> DynP<S>
    where
        P::Output: 'static,
        P::Error: 'static,
    {
        DynP(Box::new(WrapF {
            p: ParserExtension::<S>::repeat(p),
            out: move |(l, e): (Vec<P::Output>, P::Error)| V::List(l.into_iter().map(out).collect(), err(e)),
            err,
        }))
    }
}
struct LeafOptIt;
impl<S: Seq> With<S> for LeafOptIt {
    type R = DynIter<S>;
    fn with<P: Parser<S> + 'static>(self, p: P, out: fn(P::Output) -> V, err: fn(P::Error) -> E) -> DynIter<S>
    where
        P::Output: 'static,
        P::Error: 'static,
    {
        let p = ParserExtension::<S>::optional(p);
        DynIter(Box::new(WrapIt { p, out, err }))
    }
}
struct LeafRepIt;
impl<S: Seq> With<S> for LeafRepIt {
    type R = DynIter<S>;
    fn with<P: Parser<S> + 'static>(self, p: P, out: fn(P::Output) -> V, err: fn(P::Error) -> E) -> DynIter<S>
    where
        P::Output: 'static,
        P::Error: 'static,
    {
        let p = ParserExtension::<S>::repeat(p);
        DynIter(Box::new(WrapIt { p, out, err }))
    }
}
struct LeafCollect;
impl<S: Seq> With<S> for LeafCollect {
    type R = DynP<S>;
    fn with<P: Parser<S> + 'static>(self, p: P, out: fn(P::Output) -> V, err: fn(P::Error) -> E) -> DynP<S>
    where
        P::Output: 'static,
        P::Error: 'static,
    {
        let p = IterativeParserExtension::<S>::collect::<Vec<P::Output>>(ParserExtension::<S>::repeat(p));
        DynP(Box::new(WrapF {
            p,
            out: move |(l, e): (Vec<P::Output>, Option<P::Error>)| V::Coll(l.into_iter().map(out).collect(), e.map(err)),
            err,
        }))
    }
}
/// Whether a combinator is put around a leaf directly, its types as they are.
fn bare(n: &N) -> bool {
    match n {
        N::Any => true,
        N::The(c) => c % 2 == 0,
        N::Atom(p, f) => (p.len() + *f as usize) % 2 == 0,
        _ => false,
    }
}
fn unit(_: V) {}

/// The primitives of the library for one kind of segment.
pub trait Elem: SequenceSegment {
    fn leaf<S: Seq<Seg = Self>, W: With<S>>(n: &N, w: W) -> W::R;
    fn any<S: Seq<Seg = Self>>() -> DynP<S>;
    fn the<S: Seq<Seg = Self>>(c: u8) -> DynP<S>;
    fn atom<S: Seq<Seg = Self>>(p: &[u8], form: u8) -> DynP<S>;
    fn head(&self) -> Option<(u8, <Self as SequenceSegment>::Length)>;
}

/// A pattern that borrows what it owns.
struct Owner<P, T: ?Sized> {
    p: P,
    _own: Box<T>,
}
impl<S: RewindSequence, P: ParserOnce<S>, T: ?Sized> ParserOnce<S> for Owner<P, T> {
    type Output = P::Output;
    type Error = P::Error;
    fn parse_once(self, s: S) -> impl Future<Output = ParseResult<S, P::Output, P::Error>> {
        async move {
            let Owner { p, _own } = self;
            let r = p.parse_once(s).await;
            drop(_own);
            r
        }
    }
}
impl<S: RewindSequence, P: Parser<S>, T: ?Sized> Parser<S> for Owner<P, T> {
    fn parse(&self, s: S) -> impl Future<Output = ParseResult<S, P::Output, P::Error>> {
        self.p.parse(s)
    }
}
unsafe fn extend<T: ?Sized>(t: &T) -> &'static T {
    unsafe { &*(t as *const T) }
}

impl Elem for str {
    fn leaf<S: Seq<Seg = str>, W: With<S>>(n: &N, w: W) -> W::R {
        match n {
            N::Any => w.with(any_char::<S>(), |c| V::El(el_of(c)), miss),
            N::The(c) => w.with(the_char(char_of(*c)), |_| V::Unit, miss),
            N::Atom(p, _) => w.with(atom(string_of(p)), |_| V::Unit, miss),
            _ => unreachable!(),
        }
    }
    fn any<S: Seq<Seg = str>>() -> DynP<S> {
        wrap(any_char::<S>(), |c| V::El(el_of(c)), miss)
    }
    fn the<S: Seq<Seg = str>>(c: u8) -> DynP<S> {
        wrap(the_char(char_of(c)), |_| V::Unit, miss)
    }
    fn atom<S: Seq<Seg = str>>(p: &[u8], form: u8) -> DynP<S> {
        let s = string_of(p);
        if form % 2 == 0 {
            wrap(atom(s), |_| V::Unit, miss)
        } else {
            let own = s.into_boxed_str();
            let p = atom(unsafe { extend(&*own) });
            wrap(Owner { p, _own: own }, |_| V::Unit, miss)
        }
    }
    fn head(&self) -> Option<(u8, BytesDelta)> {
        self.chars().next().map(|c| (el_of(c), BytesDelta::from_char(c)))
    }
}

impl<T: Item> Elem for [T] {
    fn leaf<S: Seq<Seg = [T]>, W: With<S>>(n: &N, w: W) -> W::R {
        match n {
            N::Any => w.with(any_item::<T, S>(), |c| V::El(c.value()), miss),
            N::The(c) => w.with(the_item(T::make(*c)), |_| V::Unit, miss),
            N::Atom(p, _) => {
                let v: Vec<T> = p.iter().map(|c| T::make(*c)).collect();
                w.with(atom(v), |_| V::Unit, miss)
            }
            _ => unreachable!(),
        }
    }
    fn any<S: Seq<Seg = [T]>>() -> DynP<S> {
        wrap(any_item::<T, S>(), |c| V::El(c.value()), miss)
    }
    fn the<S: Seq<Seg = [T]>>(c: u8) -> DynP<S> {
        wrap(the_item(T::make(c)), |_| V::Unit, miss)
    }
    fn atom<S: Seq<Seg = [T]>>(p: &[u8], form: u8) -> DynP<S> {
        let v: Vec<T> = p.iter().map(|c| T::make(*c)).collect();
        match (form % 3, p.len()) {
            (1, 1) => wrap(atom([T::make(p[0])]), |_| V::Unit, miss),
            (1, 2) => wrap(atom([T::make(p[0]), T::make(p[1])]), |_| V::Unit, miss),
            (1, 3) => wrap(atom([T::make(p[0]), T::make(p[1]), T::make(p[2])]), |_| V::Unit, miss),
            (2, _) => {
                let own = v.into_boxed_slice();
                let p = atom(unsafe { extend(&*own) });
                wrap(Owner { p, _own: own }, |_| V::Unit, miss)
            }
            _ => wrap(atom(v), |_| V::Unit, miss),
        }
    }
    fn head(&self) -> Option<(u8, usize)> {
        self.first().map(|c| (c.value(), 1))
    }
}

struct Always;
impl ParseError for Always {
    fn should_terminate(&self) -> bool {
        true
    }
}
struct Flag(bool);
impl ParseError for Flag {
    fn should_terminate(&self) -> bool {
        self.0
    }
}
/// A user's own parser may report errors put together from the library's types, too: such an error
/// terminates if a part of it does.
fn composed(t: bool, d: u64) -> bool {
    let (a, b) = if t { [(true, true), (true, false), (false, true)][(d / 8 % 3) as usize] } else { (false, false) };
    match d % 12 {
        0 => EitherBoth::<Flag, Flag>::Both(Flag(a), Flag(b)).should_terminate(),
        1 => EitherBoth::<Flag, Flag>::First(Flag(t)).should_terminate(),
        2 => EitherBoth::<Flag, Flag>::Last(Flag(t)).should_terminate(),
        3 => Either::<Flag, Option<Flag>>::Last(Some(Flag(t))).should_terminate(),
        4 if !t => None::<Flag>.should_terminate(),
        5 => (&&Either::<Flag, Flag>::First(Flag(t))).should_terminate(),
        8 if t => Either::<Flag, Always>::Last(Always).should_terminate(),
        9 if t => EitherBoth::<Always, Flag>::Both(Always, Flag(d % 2 == 0)).should_terminate(),
        10 if t => Either::<Always, Flag>::First(Always).should_terminate(),
        11 if t => Some(&Always).should_terminate(),
        6 if t => Fatal::from(d).should_terminate(),
        6 => Miss::from(d).should_terminate(),
        _ => t,
    }
}

/// What a user's own parser does: read one element through the public interface of a stream.
pub async fn read_one<S: Seq>(mut s: S) -> (Option<u8>, S) {
    let mut segs = s.segments();
    while let Some(seg) = segs.next(Default::default()).await {
        if let Some((c, n)) = seg.head() {
            drop(segs);
            return (Some(c), s.advance(n).await);
        }
    }
    drop(segs);
    (None, s)
}

async fn user_parser<S: Seq>(id: u16, k: u8, rule: Rule, s: S) -> PR<S, V> {
    env::call(id, 0);
    let mut got = Vec::new();
    let mut s = s;
    for _ in 0..k {
        env::maybe_pause(env::pause(), 16).await;
        let (c, r) = read_one(s).await;
        s = r;
        match c {
            Some(c) => got.push(c),
            None => return Err((E::new(false, K::User(id, Pay::real())), s.into())),
        }
    }
    env::maybe_pause(env::pause(), 16).await;
    let v = V::User(id, got, Pay::real());
    let d = v.digest();
    env::call(id, d);
    match rule.ask(d) {
        Ans::Ok => Ok((v, s)),
        Ans::Miss => Err((E::new(composed(false, d), K::User(id, Pay::real())), s.into())),
        Ans::Fatal => Err((E::new(composed(true, d), K::User(id, Pay::real())), s.into())),
    }
}

// ----------------------------------------------------------------------------------------- wrappers

/// Presents the value of a parser as another type.
struct As<S: Seq, T, X> {
    p: DynP<S>,
    out: fn(V) -> T,
    err: fn(E) -> X,
}
impl<S: Seq, T, X: ParseError> ParserOnce<S> for As<S, T, X> {
    type Output = T;
    type Error = X;
    fn parse_once(self, s: S) -> impl Future<Output = ParseResult<S, T, X>> {
        async move {
            let As { p, out, err } = self;
            match p.parse_once(s).await {
                Ok((v, r)) => Ok((out(v), r)),
                Err((e, r)) => Err((err(e), r)),
            }
        }
    }
}
impl<S: Seq, T, X: ParseError> Parser<S> for As<S, T, X> {
    fn parse(&self, s: S) -> impl Future<Output = ParseResult<S, T, X>> {
        async move {
            match self.p.parse(s).await {
                Ok((v, r)) => Ok(((self.out)(v), r)),
                Err((e, r)) => Err(((self.err)(e), r)),
            }
        }
    }
}

struct W0(V);
struct W1(V);
impl From<W0> for V {
    fn from(w: W0) -> V {
        env::silent();
        V::Uni(0, Box::new(w.0))
    }
}
impl From<W1> for V {
    fn from(w: W1) -> V {
        env::silent();
        V::Uni(1, Box::new(w.0))
    }
}
struct F0(E);
struct F1(E);
impl ParseError for F0 {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}
impl ParseError for F1 {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}
impl From<F0> for E {
    fn from(w: F0) -> E {
        env::silent();
        E::new(w.0.term, K::Uni(0, Box::new(w.0)))
    }
}
impl From<F1> for E {
    fn from(w: F1) -> E {
        env::silent();
        E::new(w.0.term, K::Uni(1, Box::new(w.0)))
    }
}

/// The error of `and_then` and `try_map_each`.
enum Ae {
    Conv(E),
    User(E),
}
impl ParseError for Ae {
    fn should_terminate(&self) -> bool {
        match self {
            Ae::Conv(e) | Ae::User(e) => e.term,
        }
    }
}
impl From<E> for Ae {
    fn from(e: E) -> Ae {
        env::silent();
        Ae::Conv(e)
    }
}
fn ae(e: Ae) -> E {
    let t = term(&e);
    match e {
        Ae::Conv(e) => E::new(t, K::Conv(Box::new(e))),
        Ae::User(e) => e,
    }
}
fn judge(id: u16, rule: Rule, v: V) -> Result<V, Ae> {
    let d = v.digest();
    env::call(id, d);
    match rule.ask(d) {
        Ans::Ok => Ok(V::Tag(id, Box::new(v), Pay::real())),
        Ans::Miss => Err(Ae::User(E::new(composed(false, d), K::User(id, Pay::real())))),
        Ans::Fatal => Err(Ae::User(E::new(composed(true, d), K::User(id, Pay::real())))),
    }
}
fn tag(id: u16, v: V) -> V {
    env::call(id, v.digest());
    V::Tag(id, Box::new(v), Pay::real())
}

struct Mapped(u16, E);
impl ParseError for Mapped {
    fn should_terminate(&self) -> bool {
        self.1.term
    }
}

struct OpV {
    v: V,
    prec: usize,
    right: bool,
}
impl Operator for OpV {
    fn precedence(&self) -> usize {
        env::silent();
        self.prec
    }
    fn associativity(&self) -> Associativity {
        env::silent();
        if self.right {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
}
struct OpP<S: Seq> {
    p: DynP<S>,
    table: Rc<Vec<(usize, bool)>>,
}
impl<S: Seq> ParserOnce<S> for OpP<S> {
    type Output = OpV;
    type Error = E;
    fn parse_once(self, s: S) -> impl Future<Output = ParseResult<S, OpV, E>> {
        async move { self.parse(s).await }
    }
}
impl<S: Seq> Parser<S> for OpP<S> {
    fn parse(&self, s: S) -> impl Future<Output = ParseResult<S, OpV, E>> {
        async move {
            self.p.parse(s).await.map(|(v, r)| {
                let (prec, right) = op_of(&v, &self.table);
                (OpV { v, prec, right }, r)
            })
        }
    }
}
struct Ex(V);
impl From<V> for Ex {
    fn from(v: V) -> Ex {
        env::silent();
        Ex(v)
    }
}
impl From<(Ex, OpV, Ex)> for Ex {
    fn from((a, o, b): (Ex, OpV, Ex)) -> Ex {
        env::silent();
        Ex(V::Bin(Box::new(a.0), Box::new(o.v), Box::new(b.0)))
    }
}

/// A call of the grammar's root (recursion).
struct CallP<S: Seq>(Rc<Cell<*const DynP<S>>>);
impl<S: Seq> Erased<S> for CallP<S> {
    fn parse<'a>(&'a self, s: S) -> LBox<'a, PR<S, V>> {
        let p: &'a DynP<S> = unsafe { &*self.0.get() };
        Box::pin(p.parse(s))
    }
    fn parse_once(self: Box<Self>, s: S) -> LBox<'static, PR<S, V>> {
        let p: &'static DynP<S> = unsafe { &*self.0.get() };
        Box::pin(p.parse(s))
    }
}

// ---------------------------------------------------------------------------------------- iteration

pub trait ErasedState<S: Seq> {
    fn next<'a>(&'a mut self, s: S) -> LBox<'a, PR<S, Option<V>>>;
}
pub struct DynState<'a, S: Seq>(Box<dyn ErasedState<S> + 'a>);
impl<S: Seq> IterativeParserState<S> for DynState<'_, S> {
    type Output = V;
    type Error = E;
    fn parse_next(&mut self, s: S) -> impl Future<Output = PR<S, Option<V>>> {
        self.0.next(s)
    }
}
pub trait ErasedIter<S: Seq> {
    fn state<'a>(&'a self) -> DynState<'a, S>;
    fn state_once(self: Box<Self>) -> DynState<'static, S>;
}
pub struct DynIter<S: Seq>(Box<dyn ErasedIter<S>>);
impl<S: Seq> IterativeParserOnce<S> for DynIter<S> {
    type Output = V;
    type Error = E;
    type StateOnce = DynState<'static, S>;
    fn parse_iterative_once(self) -> DynState<'static, S> {
        self.0.state_once()
    }
}
impl<S: Seq> IterativeParser<S> for DynIter<S> {
    type State<'a>
        = DynState<'a, S>
    where
        Self: 'a;
    fn parse_iterative(&self) -> DynState<'_, S> {
        self.0.state()
    }
}

struct WrapSt<St, O, X> {
    st: St,
    out: fn(O) -> V,
    err: fn(X) -> E,
}
impl<S: Seq, St: IterativeParserState<S>> ErasedState<S> for WrapSt<St, St::Output, St::Error> {
    fn next<'a>(&'a mut self, s: S) -> LBox<'a, PR<S, Option<V>>> {
        Box::pin(async move {
            match self.st.parse_next(s).await {
                Ok((v, r)) => Ok((v.map(self.out), r)),
                Err((e, r)) => Err(((self.err)(e), r)),
            }
        })
    }
}
struct WrapIt<P, O, X> {
    p: P,
    out: fn(O) -> V,
    err: fn(X) -> E,
}
impl<S: Seq, P: IterativeParser<S> + 'static> ErasedIter<S> for WrapIt<P, P::Output, P::Error>
where
    P::StateOnce: 'static,
    P::Output: 'static,
    P::Error: 'static,
{
    fn state<'a>(&'a self) -> DynState<'a, S> {
        DynState(Box::new(WrapSt {
            st: self.p.parse_iterative(),
            out: self.out,
            err: self.err,
        }))
    }
    fn state_once(self: Box<Self>) -> DynState<'static, S> {
        let WrapIt { p, out, err } = *self;
        DynState(Box::new(WrapSt {
            st: p.parse_iterative_once(),
            out,
            err,
        }))
    }
}
fn wrap_it<S: Seq, P: IterativeParser<S> + 'static>(p: P, err: fn(P::Error) -> E) -> DynIter<S>
where
    P: IterativeParserOnce<S, Output = V>,
    P::StateOnce: 'static,
    P::Error: 'static,
{
    DynIter(Box::new(WrapIt { p, out: same, err }))
}

/// The iterator behind a reference (`&P`).
struct ByRef<S: Seq> {
    r: &'static DynIter<S>,
    _own: Box<DynIter<S>>,
}
struct KeepState<S: Seq> {
    st: DynState<'static, S>,
    _own: Box<DynIter<S>>,
}
impl<S: Seq> ErasedState<S> for KeepState<S> {
    fn next<'a>(&'a mut self, s: S) -> LBox<'a, PR<S, Option<V>>> {
        Box::pin(self.st.parse_next(s))
    }
}
impl<S: Seq> ErasedIter<S> for ByRef<S> {
    fn state<'a>(&'a self) -> DynState<'a, S> {
        <&'static DynIter<S> as IterativeParser<S>>::parse_iterative(&self.r)
    }
    fn state_once(self: Box<Self>) -> DynState<'static, S> {
        let ByRef { r, _own } = *self;
        let st = <&'static DynIter<S> as IterativeParserOnce<S>>::parse_iterative_once(r);
        DynState(Box::new(KeepState { st, _own }))
    }
}

/// An iterative parser of the user's own.
struct OwnIt<S: Seq> {
    id: u16,
    rule: Rule,
    p: DynP<S>,
}
enum OwnP<'a, S: Seq> {
    Of(DynP<S>),
    At(&'a DynP<S>),
}
struct OwnSt<'a, S: Seq> {
    id: u16,
    rule: Rule,
    p: OwnP<'a, S>,
    n: u32,
}
impl<S: Seq> ErasedState<S> for OwnSt<'_, S> {
    fn next<'a>(&'a mut self, s: S) -> LBox<'a, PR<S, Option<V>>> {
        Box::pin(async move {
            let p = match &self.p {
                OwnP::Of(p) => p,
                OwnP::At(p) => *p,
            };
            let (v, s) = p.parse(s).await?;
            self.n += 1;
            let v = V::Nth(self.id, self.n, Box::new(v));
            let d = v.digest();
            env::call(self.id, d);
            match self.rule.ask(d) {
                Ans::Ok => Ok((Some(v), s)),
                Ans::Miss => Err((E::new(false, K::User(self.id, Pay::real())), s.into())),
                Ans::Fatal => Err((E::new(true, K::User(self.id, Pay::real())), s.into())),
            }
        })
    }
}
impl<S: Seq> ErasedIter<S> for OwnIt<S> {
    fn state<'a>(&'a self) -> DynState<'a, S> {
        DynState(Box::new(OwnSt {
            id: self.id,
            rule: self.rule,
            p: OwnP::At(&self.p),
            n: 0,
        }))
    }
    fn state_once(self: Box<Self>) -> DynState<'static, S> {
        DynState(Box::new(OwnSt {
            id: self.id,
            rule: self.rule,
            p: OwnP::Of(self.p),
            n: 0,
        }))
    }
}

// ------------------------------------------------------------------------------------------ builder

pub struct Grammar<S: Seq> {
    pub root: DynP<S>,
    pub _calls: Option<Box<DynP<S>>>,
}

#[derive(Clone)]
struct Acc(Vec<V>);

pub struct Builder<S: Seq> {
    cell: Rc<Cell<*const DynP<S>>>,
}

impl<S: Seq> Builder<S> {
    pub fn new() -> Self {
        Builder {
            cell: Rc::new(Cell::new(std::ptr::null())),
        }
    }

    pub fn node(&self, n: &N) -> DynP<S> {
        match n {
            N::Any => S::Seg::any::<S>(),
            N::The(c) => S::Seg::the::<S>(*c),
            N::Atom(p, f) => S::Seg::atom::<S>(p, *f),
            N::User(id, k, rule) => {
                let (id, k, rule) = (*id, *k, *rule);
                let f = move |s: S| -> LBox<'static, PR<S, V>> { Box::pin(user_parser(id, k, rule, s)) };
                wrap(f, same, same)
            }
            N::Join(a, b) if bare(b) && !matches!(**b, N::Any) => {
                let (l, r) = (self.node(a), As { p: self.node(b), out: unit, err: same });
                wrap(l.join(r), |(x, ())| V::Pair(Box::new(x), Box::new(V::Unit)), either)
            }
            N::Or(a, b) if bare(a) && bare(b) && !matches!(**a, N::Any) && !matches!(**b, N::Any) => {
                let (l, r) = (
                    As { p: self.node(a), out: unit, err: same },
                    As { p: self.node(b), out: unit, err: same },
                );
                wrap(
                    l.or(r),
                    |v| match v {
                        Either::First(()) => V::First(Box::new(V::Unit)),
                        Either::Last(()) => V::Last(Box::new(V::Unit)),
                    },
                    either_both,
                )
            }
            N::Join(a, b) => wrap(
                self.node(a).join(self.node(b)),
                |(x, y)| V::Pair(Box::new(x), Box::new(y)),
                either,
            ),
            N::Or(a, b) => wrap(
                self.node(a).or(self.node(b)),
                |v| match v {
                    Either::First(v) => V::First(Box::new(first(v))),
                    Either::Last(v) => V::Last(Box::new(last(v))),
                },
                either_both,
            ),
            N::Opt(a) if bare(a) => S::Seg::leaf::<S, _>(a, LeafOpt),
            N::Rep(a) if bare(a) => S::Seg::leaf::<S, _>(a, LeafRep),
            N::Opt(a) => wrap(
                self.node(a).optional(),
                |v| match v {
                    Ok(v) => V::Good(Box::new(v)),
                    Err(e) => V::Bad(e),
                },
                same,
            ),
            N::Rep(a) => wrap(self.node(a).repeat(), |(l, e)| V::List(l, e), same),
            N::Map(id, a) => {
                let id = *id;
                wrap(self.node(a).map(move |v| tag(id, v)), same, same)
            }
            N::AndThen(id, a, rule) => {
                let (id, rule) = (*id, *rule);
                wrap(self.node(a).and_then(move |v| judge(id, rule, v)), same, ae)
            }
            N::MapErr(id, a, r) => {
                let id = *id;
                let a = self.node(a);
                match r {
                    Remap::Keep => wrap(
                        a.map_err(move |e: E| {
                            env::call(id, e.digest());
                            Mapped(id, e)
                        }),
                        same,
                        |m| E::new(m.should_terminate(), K::Map(m.0, Some(Box::new(m.1)))),
                    ),
                    Remap::ToFatal => wrap(
                        a.map_err(move |e: E| {
                            env::call(id, e.digest());
                            Fatal((id, e))
                        }),
                        same,
                        |m| {
                            let t = m.should_terminate();
                            E::new(t, K::Map(m.0 .0, Some(Box::new(m.0 .1))))
                        },
                    ),
                    Remap::ToMiss => wrap(
                        a.map_err(move |e: E| {
                            env::call(id, e.digest());
                            Miss((id, e))
                        }),
                        same,
                        |m| {
                            let t = m.should_terminate();
                            E::new(t, K::Map(m.0 .0, Some(Box::new(m.0 .1))))
                        },
                    ),
                    Remap::Some => wrap(
                        a.map_err(move |e: E| {
                            env::call(id, e.digest());
                            Some(Mapped(id, e))
                        }),
                        same,
                        |m| {
                            let t = m.should_terminate();
                            let m = m.unwrap();
                            E::new(t, K::Map(m.0, Some(Box::new(m.1))))
                        },
                    ),
                    Remap::None => {
                        // the id of this node has to reach the erased error by another way
                        let p = a.map_err(move |e: E| {
                            env::call(id, e.digest());
                            drop(e);
                            None::<Mapped>
                        });
                        let p = wrap(p, same, |m| E::new(m.should_terminate(), K::Map(0, None)));
                        DynP(Box::new(SetId { p, id }))
                    }
                }
            }
            N::Unify(a, b) => {
                let l = As {
                    p: self.node(a),
                    out: W0,
                    err: same,
                };
                let r = As {
                    p: self.node(b),
                    out: W1,
                    err: same,
                };
                wrap(l.or(r).unify::<W0, W1, V>(), same, either_both)
            }
            N::UnifyErr(a, b) => {
                let l = As {
                    p: self.node(a),
                    out: same,
                    err: F0,
                };
                let r = As {
                    p: self.node(b),
                    out: same,
                    err: F1,
                };
                wrap(
                    l.join(r).unify_err::<F0, F1, E>(),
                    |(x, y)| V::Pair(Box::new(x), Box::new(y)),
                    same,
                )
            }
            N::Ref(a) => {
                let own = Box::new(self.node(a));
                let r: &'static DynP<S> = unsafe { extend(&*own) };
                wrap(Owner { p: r.as_ref(), _own: own }, same, same)
            }
            N::Boxed(a) => wrap(self.node(a).boxed(), same, same),
            N::Call(_) => DynP(Box::new(CallP(self.cell.clone()))),
            N::Bin(_, t, o, table) => {
                let op = OpP {
                    p: self.node(o),
                    table: Rc::new(table.clone()),
                };
                let p = parcom_parsers::BinExprParser::<S, DynP<S>, OpP<S>, Ex>::new(self.node(t), op);
                wrap(p, |(e, stop)| V::BinOut(Box::new(e.0), either(stop)), either)
            }
            N::Collect(it) if it.stages.is_empty() && matches!(&it.base, Base::Rep(n) if bare(n)) => match &it.base {
                Base::Rep(n) => S::Seg::leaf::<S, _>(n, LeafCollect),
                _ => unreachable!(),
            },
            N::Collect(it) => wrap(
                self.iter(it, it.stages.len()).collect::<Vec<V>>(),
                |(l, e)| V::Coll(l, e),
                same,
            ),
            N::Fold(id, it) => {
                let id = *id;
                wrap(
                    self.iter(it, it.stages.len()).fold(Acc(Vec::new()), move |mut a: Acc, v| {
                        env::call(id, v.digest());
                        a.0.push(v);
                        a
                    }),
                    |a| V::Acc(a.0),
                    same,
                )
            }
        }
    }

    pub fn iter(&self, it: &It, level: usize) -> DynIter<S> {
        if level == 0 {
            return match &it.base {
                Base::Rep(n) if bare(n) => S::Seg::leaf::<S, _>(n, LeafRepIt),
                Base::Opt(n) if bare(n) => S::Seg::leaf::<S, _>(n, LeafOptIt),
                Base::Rep(n) => wrap_it(self.node(n).repeat(), same),
                Base::Opt(n) => wrap_it(self.node(n).optional(), same),
                Base::Own(id, n, rule) => DynIter(Box::new(OwnIt {
                    id: *id,
                    rule: *rule,
                    p: self.node(n),
                })),
            };
        }
        let p = self.iter(it, level - 1);
        match &it.stages[level - 1] {
            Stg::Each(id) => {
                let id = *id;
                wrap_it(p.map_each(move |v| tag(id, v)), same)
            }
            Stg::TryEach(id, rule) => {
                let (id, rule) = (*id, *rule);
                wrap_it(p.try_map_each(move |v| judge(id, rule, v)), ae)
            }
            Stg::While(id, rule) => {
                let (id, rule) = (*id, *rule);
                wrap_it(p.map_while(move |v| judge(id, rule, v).ok()), same)
            }
            Stg::Scan(id) => {
                let id = *id;
                wrap_it(
                    p.scan(0u32, move |n: &mut u32, v| {
                        env::call(id, v.digest());
                        *n += 1;
                        V::Nth(id, *n, Box::new(v))
                    }),
                    same,
                )
            }
            Stg::Take(n) => wrap_it(p.take(*n), same),
            Stg::ByRef => {
                let own = Box::new(p);
                let r: &'static DynIter<S> = unsafe { extend(&*own) };
                DynIter(Box::new(ByRef { r, _own: own }))
            }
        }
    }

    pub fn grammar(&self, root: &N, calls: bool) -> Grammar<S> {
        let shared = calls.then(|| Box::new(self.node(root)));
        if let Some(s) = &shared {
            self.cell.set(&**s as *const _);
        }
        Grammar {
            root: self.node(root),
            _calls: shared,
        }
    }
    pub fn iter_grammar(&self, it: &It) -> DynIter<S> {
        self.iter(it, it.stages.len())
    }
}

struct SetId<S: Seq> {
    p: DynP<S>,
    id: u16,
}
fn set_id(id: u16, mut e: E) -> E {
    e.k = K::Map(id, None);
    e
}
impl<S: Seq> Erased<S> for SetId<S> {
    fn parse<'a>(&'a self, s: S) -> LBox<'a, PR<S, V>> {
        Box::pin(async move { self.p.parse(s).await.map_err(|(e, r)| (set_id(self.id, e), r)) })
    }
    fn parse_once(self: Box<Self>, s: S) -> LBox<'static, PR<S, V>> {
        let SetId { p, id } = *self;
        Box::pin(async move { p.parse_once(s).await.map_err(|(e, r)| (set_id(id, e), r)) })
    }
}
