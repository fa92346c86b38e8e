//! The parser workloads: one simulated run of properties C01 to C07.

use super::ast::*;
use super::build::*;
use super::env;
use super::model::{ItSt, Model, MAX_STEPS, P, R};
use super::seq::*;
use crate::ctl::{self, chance, fault, sched, small, wchance, work, St};
use crate::k1;
use crate::{check, cnt, ev, tok, violate};
use parcom_core::{IterativeParser, IterativeParserOnce, IterativeParserState, Parser, ParserOnce};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(PartialEq)]
pub enum Outcome {
    /// value and elements left
    Ok(V, usize),
    /// error and elements left after rewinding to where the parse began
    Err(E, usize),
}
impl std::fmt::Debug for Outcome {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Outcome::Ok(v, n) => write!(f, "value {v:?}, {n} element(s) left"),
            Outcome::Err(e, n) => write!(f, "error {e:?}, {n} element(s) left after rewinding"),
        }
    }
}
impl Outcome {
    fn left(&self) -> usize {
        match self {
            Outcome::Ok(_, n) | Outcome::Err(_, n) => *n,
        }
    }
    fn digest(&self) -> u64 {
        match self {
            Outcome::Ok(v, n) => v.digest() ^ ctl::mix(*n as u64),
            Outcome::Err(e, n) => e.digest() ^ ctl::mix(*n as u64 + 1000),
        }
    }
}

pub struct Case {
    pub kind: u8,
    pub root: N,
    pub input: Vec<u8>,
    /// elements consumed before the parse under test starts
    pub start: usize,
    pub alpha: u8,
}

fn show(kind: u8, v: &[u8]) -> String {
    match kind {
        0 => format!("{:?}", string_of(v)),
        1 => format!("items {v:?}"),
        _ => format!("{} unit items", v.len()),
    }
}

fn gen_kind() -> (u8, u8) {
    match work(8) {
        0..=4 => {
            super::seq::choose_letters();
            (0, [2, 3, 4, 6, 8, 2, 3, 3][work(8) as usize])
        }
        5 | 6 => (1, 2 + work(3) as u8),
        _ => (2, 1),
    }
}

pub fn gen_input(root: &N, start: usize, alpha: u8, cap: usize) -> Vec<u8> {
    let mut v = Vec::new();
    match work(4) {
        3 => {
            for _ in 0..small(St::Work, 12) {
                v.push(work(alpha as u32) as u8)
            }
        }
        m => {
            sample(root, root, &mut v, alpha, 3, cap);
            if m > 0 {
                mutate(&mut v, alpha);
            }
            if wchance(1, 3) {
                for _ in 0..small(St::Work, 4) {
                    v.push(work(alpha as u32) as u8)
                }
            }
        }
    }
    let mut input: Vec<u8> = (0..start).map(|_| work(alpha as u32) as u8).collect();
    input.extend(v);
    input
}

pub fn gen_case(p: &mut Prof, root: impl FnOnce(&mut Gen) -> N) -> Case {
    let (kind, alpha) = gen_kind();
    p.alpha = alpha;
    let budget = 2 + work(p.size) as i32;
    let mut g = Gen {
        p,
        next_id: 0,
        budget,
    };
    let root = root(&mut g);
    let start = if wchance(1, 3) { work(4) as usize } else { 0 };
    let input = gen_input(&root, start, alpha, 120);
    Case {
        kind,
        root,
        input,
        start,
        alpha,
    }
}

/// Rarely: an input so long that small counters, buffers and limits are passed.
fn long_len() -> usize {
    match work(12) {
        0..=6 => 250 + work(20) as usize,
        7..=9 => 500 + work(1500) as usize,
        10 => 4090 + work(12) as usize,
        _ => 65_530 + work(12) as usize,
    }
}
pub const LONG: u32 = 300;

fn fill(n: &N, len: usize, alpha: u8) -> Vec<u8> {
    // a short period, so that few decisions make a long input
    let mut period = Vec::new();
    for _ in 0..1 + work(3) {
        sample(n, n, &mut period, alpha, 0, 40);
    }
    if period.is_empty() {
        period.push(work(alpha as u32) as u8);
    }
    let mut v: Vec<u8> = period.iter().copied().cycle().take(len).collect();
    mutate(&mut v, alpha);
    v
}

fn long_it(g: &mut Gen) -> It {
    let leaf = g.leaf(true);
    let mut it = It {
        base: Base::Rep(leaf),
        stages: vec![],
    };
    for _ in 0..work(3) {
        let s = match work(4) {
            0 => Stg::Each(g.id()),
            1 => Stg::Scan(g.id()),
            2 => Stg::Take([255, 256, 257, 1000, 4096, 65535, 65536, usize::MAX][work(8) as usize]),
            _ => Stg::TryEach(g.id(), Rule { modulus: 1, miss: 0, fatal: 0 }),
        };
        it.stages.push(s);
    }
    it
}

fn gen_long(p: &mut Prof) -> Case {
    cnt!("probe.long_input");
    let (kind, alpha) = gen_kind();
    p.alpha = alpha;
    let len = long_len();
    let mut g = Gen {
        p,
        next_id: 0,
        budget: 3,
    };
    let b = Box::new;
    let (root, v) = match work(6) {
        0 => {
            let l = g.node(true, false);
            let v = fill(&l, len, alpha);
            (N::Rep(b(l)), v)
        }
        1 => {
            // a literal nearly as long as the input
            let l = N::Any;
            let v = fill(&l, len, alpha);
            let mut lit = v.clone();
            lit.truncate(len - work(3) as usize);
            if wchance(1, 4) {
                let k = lit.len() - 1;
                lit[k] = work(alpha as u32) as u8;
            }
            let a = N::Atom(lit, work(5) as u8);
            (N::Or(b(N::Join(b(a.clone()), b(g.leaf(false)))), b(N::Opt(b(a)))), v)
        }
        2 => {
            // gives up at the far end and starts over
            let l = g.leaf(true);
            let v = fill(&l, len, alpha);
            (N::Or(b(N::Join(b(N::Rep(b(l.clone()))), b(g.leaf(true)))), b(N::Opt(b(N::Rep(b(l)))))), v)
        }
        3 => {
            let it = long_it(&mut g);
            let Base::Rep(l) = &it.base else { unreachable!() };
            let v = fill(l, len, alpha);
            (N::Fold(g.id(), Box::new(it)), v)
        }
        _ => {
            let it = long_it(&mut g);
            let Base::Rep(l) = &it.base else { unreachable!() };
            let v = fill(l, len, alpha);
            (N::Collect(Box::new(it)), v)
        }
    };
    Case {
        kind,
        root,
        input: v,
        start: 0,
        alpha,
    }
}
fn maybe_long(p: &mut Prof, root: impl FnOnce(&mut Gen) -> N) -> Case {
    if wchance(1, LONG) {
        gen_long(p)
    } else {
        gen_case(p, root)
    }
}
/// Delivery in pieces and waits, as long as the decisions of a run can be recorded.
fn delivery(n: usize) -> Delivery {
    if n > 2500 {
        return Delivery::plain();
    }
    Delivery::random()
}
fn tasks(n: usize, max: u32) -> usize {
    if n > 2500 {
        return 1;
    }
    1 + small(St::Sched, max) as usize
}
fn k1cfg(n: usize) -> k1::Cfg {
    if n > 2500 {
        return k1::Cfg::default();
    }
    k1::Cfg::random()
}

pub fn context(c: &Case) {
    ctl::set_context(|| format!("grammar {:?}; input {}; parse starts at element {}", c.root, show(c.kind, &c.input), c.start));
}

pub type Log = Vec<(u16, u64)>;

pub struct Expect {
    pub out: Outcome,
    pub log: Log,
}

/// None if the case is too big for the model.
pub fn expect(c: &Case) -> Option<Expect> {
    let rules = [c.root.clone()];
    let mut m = Model::new(&rules, &c.input, c.input.len(), true);
    let r = m.eval(&c.root, c.start);
    cnt!("model.steps", m.steps);
    if m.overrun {
        cnt!("skip.too_big");
        ctl::skip();
        return None;
    }
    let n = c.input.len();
    let out = match r {
        R::Ok(v, p) => Outcome::Ok(v, n - p),
        R::Err(e) => Outcome::Err(e, n - c.start),
        R::Blocked => violate!("harness:model", "the model is undecided on a complete input"),
    };
    match &out {
        Outcome::Ok(..) => cnt!("outcome.value"),
        Outcome::Err(e, _) if e.term => cnt!("outcome.terminating_error"),
        Outcome::Err(..) => cnt!("outcome.recoverable_error"),
    }
    let log = m.log;
    Some(Expect { out, log })
}

async fn skip<S: Seq>(mut s: S, n: usize) -> S {
    for _ in 0..n {
        let (c, r) = read_one(s).await;
        check!(c.is_some(), "contract:prefix", "the stream ended in the skipped prefix");
        s = r;
    }
    s
}

pub async fn parse_ref<S: Seq>(p: &DynP<S>, s: S, start: usize) -> Outcome {
    let s = skip(s, start).await;
    let a = s.anchor();
    match p.parse(s).await {
        Ok((v, s)) => Outcome::Ok(v, s.left()),
        Err((e, u)) => Outcome::Err(e, u.rewind(a).await.left()),
    }
}
pub async fn parse_own<S: Seq>(g: Grammar<S>, s: S, start: usize) -> Outcome {
    let s = skip(s, start).await;
    let a = s.anchor();
    let Grammar { root, _calls } = g;
    let r = match root.parse_once(s).await {
        Ok((v, s)) => Outcome::Ok(v, s.left()),
        Err((e, u)) => Outcome::Err(e, u.rewind(a).await.left()),
    };
    drop(_calls);
    r
}

fn has_calls(n: &N) -> bool {
    fn it(i: &It) -> bool {
        match &i.base {
            Base::Rep(n) | Base::Opt(n) | Base::Own(_, n, _) => has_calls(n),
        }
    }
    match n {
        N::Call(_) => true,
        N::Join(a, b) | N::Or(a, b) | N::Unify(a, b) | N::UnifyErr(a, b) | N::Bin(_, a, b, _) => has_calls(a) || has_calls(b),
        N::Opt(a) | N::Rep(a) | N::Map(_, a) | N::AndThen(_, a, _) | N::MapErr(_, a, _) | N::Ref(a) | N::Boxed(a) => has_calls(a),
        N::Collect(i) | N::Fold(_, i) => it(i),
        _ => false,
    }
}

pub fn build<S: Seq>(root: &N) -> Grammar<S> {
    Builder::<S>::new().grammar(root, has_calls(root))
}

fn dispatch(kind: u8, t: impl FnOnce(), i: impl FnOnce(), u: impl FnOnce()) {
    match kind {
        0 => t(),
        1 => i(),
        _ => u(),
    }
}
macro_rules! dispatch {
    ($f:ident, $c:expr $(, $a:expr)*) => {
        dispatch($c.kind, || $f::<Text>($c $(, $a)*), || $f::<Items<Sym>>($c $(, $a)*), || $f::<Items<()>>($c $(, $a)*))
    };
}

fn diff_log(a: &Log, b: &Log) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!(
        "{} and {} callbacks; they differ from number {n} on ({:?} / {:?})",
        a.len(),
        b.len(),
        a.get(n).map(|x| x.0),
        b.get(n).map(|x| x.0)
    )
}

pub fn same(what: &str, got: &Outcome, log: &Log, want: &Outcome, wlog: &Log) {
    if got != want {
        let class = match (got, want) {
            (Outcome::Ok(a, _), Outcome::Ok(b, _)) if a == b => "result:rest",
            (Outcome::Ok(..), Outcome::Ok(..)) => "result:value",
            (Outcome::Err(a, _), Outcome::Err(b, _)) if a == b => "result:rewind",
            (Outcome::Err(a, _), Outcome::Err(b, _)) if a.term != b.term => "result:severity",
            (Outcome::Err(..), Outcome::Err(..)) => "result:error",
            (Outcome::Ok(..), Outcome::Err(..)) => "result:accepted",
            (Outcome::Err(..), Outcome::Ok(..)) => "result:rejected",
        };
        violate!(class, "{what}: got {got:?}; expected {want:?}");
    }
    if log != wlog {
        violate!("callbacks", "{what}: the user callbacks differ: {}", diff_log(log, wlog));
    }
    let _ = ctl::run_hash();
    ev!(0x50, got.digest(), log.len(); "{what}: {got:?}");
}

fn deliver<C: Content>(st: &Rc<Stream<C>>) {
    if st.avail() > 2500 {
        return;
    }
    // the rest of the input arrives over time
    let total = {
        let s = st.avail();
        st.limit(s, false);
        s
    };
    let mut at = sched(total as u32 + 1) as usize;
    st.limit(at, false);
    let mut t = 0u64;
    while at < total {
        at = (at + 1 + small(St::Sched, 6) as usize).min(total);
        t += 1 + sched(5) as u64;
        let (s, a) = (st.clone(), at);
        k1::after(t, move || s.arrive(a, false));
    }
    t += sched(3) as u64;
    let s = st.clone();
    k1::after(t, move || s.arrive(total, true));
}

/// Runs the parse on the library's own in-memory sequence.
pub fn in_memory<C: Content>(c: &Case, once: bool) -> (Outcome, Log)
where
    &'static C::Seg: Seq<Seg = C::Seg>,
{
    let m = Memory::<C>::new(&c.input);
    let g = build::<&'static C::Seg>(&c.root);
    let out = RefCell::new(None);
    env::clear_log(0);
    {
        let mut sim = k1::Sim::new(k1::Cfg::default());
        let (m, out) = (&m, &out);
        sim.spawn(env::scope(0, async move {
            let r = if once {
                parse_own(g, m.seq(), c.start).await
            } else {
                parse_ref(&g.root, m.seq(), c.start).await
            };
            *out.borrow_mut() = Some(r);
        }));
        check!(sim.run(), "stuck:memory", "a parse of a complete in-memory input never ended");
    }
    let log = env::log_of(0);
    env::clear_log(0);
    (out.into_inner().unwrap(), log)
}

/// Several parses of the same input at the same time, delivered in different ways.
fn streamed<C: Content>(c: &Case, want: &Outcome, wlog: &Log, tasks: usize)
where
    &'static C::Seg: Seq<Seg = C::Seg>,
{
    let g = build::<SimSeq<C>>(&c.root);
    let pause = if c.input.len() <= 2500 && chance(St::Sched, 1, 3) { 4 } else { 0 };
    env::set_pause(pause);
    let outs: Vec<RefCell<Option<Outcome>>> = (0..tasks).map(|_| RefCell::new(None)).collect();
    let mut streams = Vec::new();
    {
        let mut sim = k1::Sim::new(k1cfg(c.input.len()));
        for t in 0..tasks {
            let st = Stream::<C>::new(&c.input, delivery(c.input.len()));
            if sched(2) == 1 {
                deliver(&st);
            }
            streams.push(st.clone());
            let own = (sched(4) == 1).then(|| build::<SimSeq<C>>(&c.root));
            let (g, out) = (&g, &outs[t]);
            let seq = st.open();
            sim.spawn(env::scope(t, async move {
                let r = match own {
                    Some(o) => parse_own(o, seq, c.start).await,
                    None => parse_ref(&g.root, seq, c.start).await,
                };
                *out.borrow_mut() = Some(r);
            }));
        }
        check!(
            sim.run(),
            "stuck",
            "everything was delivered, but a parse is still waiting and nobody will wake it"
        );
    }
    env::set_pause(0);
    for (t, o) in outs.into_iter().enumerate() {
        let o = o.into_inner().unwrap();
        same(&format!("streamed parse {t}"), &o, &env::log_of(t), want, wlog);
        env::clear_log(t);
    }
    for s in streams {
        check!(
            s.live() == (0, 0),
            "handle:leak",
            "after the parse {:?} input handles and anchors are still alive",
            s.live()
        );
    }
}

fn c01_of<C: Content>(c: &Case)
where
    &'static C::Seg: Seq<Seg = C::Seg>,
{
    let (want, wlog) = in_memory::<C>(c, false);
    if chance(St::Sched, 1, 4) {
        let (o, l) = in_memory::<C>(c, true);
        same("the same parse, consuming the parser", &o, &l, &want, &wlog);
    }
    if chance(St::Sched, 1, 16) {
        let m = Memory::<C>::new(&c.input);
        let mut s = m.seq();
        let p = C::peek(&mut s);
        check!(
            std::ptr::eq(s, m.seq()) && std::ptr::eq(p, m.seq()),
            "peek",
            "a peek at an input shows something else, or changes the input"
        );
    }
    let tasks = tasks(c.input.len(), 3);
    streamed::<C>(c, &want, &wlog, tasks);
}

pub fn c01() {
    let mut p = Prof {
        fatal: work(2),
        bin: 1,
        iter: 3,
        size: 14,
        alpha: 2,
        calls: true,
    };
    let c = maybe_long(&mut p, |g| g.node(false, false));
    context(&c);
    // the model only bounds the size of the case here
    if expect(&c).is_none() {
        return;
    }
    dispatch!(c01_of, &c);
}

fn vs_model<C: Content>(c: &Case, e: &Expect)
where
    &'static C::Seg: Seq<Seg = C::Seg>,
{
    if work(3) == 0 {
        let once = sched(4) == 1;
        let (o, l) = in_memory::<C>(c, once);
        same("in-memory parse", &o, &l, &e.out, &e.log);
    }
    let tasks = tasks(c.input.len(), 2);
    streamed::<C>(c, &e.out, &e.log, tasks);
}

pub fn c02() {
    let mut p = Prof {
        fatal: 0,
        bin: 1,
        iter: 2,
        size: 22,
        alpha: 2,
        calls: true,
    };
    let c = maybe_long(&mut p, |g| g.node(false, false));
    context(&c);
    let Some(e) = expect(&c) else { return };
    dispatch!(vs_model, &c, &e);
}

pub fn c03() {
    let mut p = Prof {
        fatal: 3,
        bin: 2,
        iter: 5,
        size: 18,
        alpha: 2,
        calls: true,
    };
    let c = gen_case(&mut p, |g| {
        // a terminating failure somewhere below is wanted; wrap whatever was drawn in recovery
        let n = g.node(false, false);
        let b = Box::new;
        match work(6) {
            0 => N::Or(b(n), b(g.leaf(false))),
            1 => N::Opt(b(n)),
            2 if !nullable(&n) => N::Rep(b(n)),
            3 => {
                let id = g.id();
                N::Or(b(N::Map(id, b(n))), b(g.node(false, false)))
            }
            4 if !nullable(&n) => N::Collect(Box::new(It {
                base: Base::Rep(n),
                stages: vec![],
            })),
            _ => n,
        }
    });
    context(&c);
    let Some(e) = expect(&c) else { return };
    dispatch!(vs_model, &c, &e);
}

// ---------------------------------------------------------------------------------------------- C05

fn gen_expr(g: &mut Gen) -> N {
    let id = g.id();
    let b = Box::new;
    let alpha = g.p.alpha;
    let term = match work(6) {
        0 | 1 => N::Any,
        2 => N::User(g.id(), 1, Rule { modulus: 1, miss: 0, fatal: 0 }),
        3 => {
            let m = g.id();
            N::Map(m, b(N::Any))
        }
        4 if alpha > 1 => N::Or(
            b(N::Join(b(N::The(0)), b(N::Join(b(N::Call(0)), b(N::The(1)))))),
            b(N::User(g.id(), 1, Rule { modulus: 8, miss: 1, fatal: (g.p.fatal > 0) as u8 })),
        ),
        _ => g.node(true, false),
    };
    let op = match work(5) {
        0 | 1 => N::Any,
        2 => N::User(g.id(), 1, Rule { modulus: 16, miss: 1, fatal: (g.p.fatal > 0) as u8 }),
        3 => N::User(g.id(), 2, Rule { modulus: 1, miss: 0, fatal: 0 }),
        _ => g.node(true, false),
    };
    let n = 1 + work(8);
    let table = g.table(n);
    N::Bin(id, b(term), b(op), table)
}

pub fn c05() {
    let mut p = Prof {
        fatal: work(3) / 2,
        bin: 0,
        iter: 0,
        size: 6,
        alpha: 2,
        calls: false,
    };
    let mut c = gen_case(&mut p, gen_expr);
    // long operands lists
    if wchance(2, 3) {
        let n = match work(6) {
            0..=2 => work(14),
            3 | 4 => work(60),
            _ => work(700),
        };
        for _ in 0..n {
            c.input.push(work(c.alpha as u32) as u8);
        }
        if n > 60 {
            cnt!("probe.long_expression");
        }
    }
    context(&c);
    let Some(e) = expect(&c) else { return };
    dispatch!(vs_model, &c, &e);
}

// ---------------------------------------------------------------------------------------------- C04

struct ItCase {
    kind: u8,
    it: It,
    input: Vec<u8>,
    start: usize,
}

enum Pull {
    Item(V, usize),
    End(usize),
    Err(E),
}
impl std::fmt::Debug for Pull {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Pull::Item(v, p) => write!(f, "item {v:?} up to element {p}"),
            Pull::End(p) => write!(f, "the end at element {p}"),
            Pull::Err(e) => write!(f, "error {e:?}"),
        }
    }
}

fn c04_of<C: Content>(c: &ItCase)
where
    &'static C::Seg: Seq<Seg = C::Seg>,
{
    let rules = [N::Any];
    let fused = !c.it.stages.iter().any(|s| matches!(s, Stg::While(..) | Stg::TryEach(..)));
    let n = c.input.len();
    let builder = Builder::<SimSeq<C>>::new();
    let shared = builder.iter_grammar(&c.it);
    let tasks = tasks(c.input.len(), 2);
    let mut streams = Vec::new();
    {
        let mut sim = k1::Sim::new(k1cfg(c.input.len()));
        for t in 0..tasks {
            // every task interleaves up to three iterations, each over its own stream
            let k = 1 + small(St::Work, 2) as usize;
            let mut lanes = Vec::new();
            for _ in 0..k {
                let st = Stream::<C>::new(&c.input, delivery(c.input.len()));
                if sched(3) == 1 {
                    deliver(&st);
                }
                streams.push(st.clone());
                lanes.push((st.open(), sched(3) == 1));
            }
            let (shared, rules, builder) = (&shared, &rules, &builder);
            let extra = wchance(1, 2);
            let give_up = wchance(1, 4).then(|| work(5) as usize);
            sim.spawn(env::scope(t, async move {
                struct Lane<'a, S: Seq> {
                    seq: Option<S>,
                    st: DynState<'a, S>,
                    model: ItSt,
                    pos: usize,
                    ended: u32,
                    pulls: usize,
                }
                let mut ls = Vec::new();
                for (seq, own) in lanes {
                    let seq = skip(seq, c.start).await;
                    let st = if own {
                        builder.iter_grammar(&c.it).parse_iterative_once()
                    } else {
                        shared.parse_iterative()
                    };
                    ls.push(Lane {
                        seq: Some(seq),
                        st,
                        model: ItSt::default(),
                        pos: c.start,
                        ended: 0,
                        pulls: 0,
                    });
                }
                while !ls.is_empty() {
                    let i = sched(ls.len() as u32) as usize;
                    let l = &mut ls[i];
                    env::clear_log(t);
                    let s = l.seq.take().unwrap();
                    let a = parcom_core::RewindSequence::anchor(&s);
                    let got = match l.st.parse_next(s).await {
                        Ok((Some(v), s)) => {
                            let p = n - s.left();
                            l.seq = Some(s);
                            Pull::Item(v, p)
                        }
                        Ok((None, s)) => {
                            let p = n - s.left();
                            l.seq = Some(s);
                            Pull::End(p)
                        }
                        Err((e, u)) => {
                            let s = u.rewind(a).await;
                            check!(s.left() == n - l.pos, "result:rewind", "rewinding after a failed pull does not restore the position");
                            Pull::Err(e)
                        }
                    };
                    let mut m = Model::new(rules, &c.input, n, true);
                    let want = match m.pull(&c.it, &mut l.model, l.pos) {
                        P::Item(v, p) => Pull::Item(v, p),
                        P::End(p) => Pull::End(p),
                        P::Err(e) => Pull::Err(e),
                        P::Blocked => {
                            check!(m.overrun, "harness:model", "the model is undecided on a complete input");
                            return;
                        }
                    };
                    let eq = match (&got, &want) {
                        (Pull::Item(a, p), Pull::Item(b, q)) => a == b && p == q,
                        (Pull::End(p), Pull::End(q)) => p == q,
                        (Pull::Err(a), Pull::Err(b)) => a == b,
                        _ => false,
                    };
                    l.pulls += 1;
                    check!(eq, "iterate", "pull {} at element {}: got {got:?}; expected {want:?}", l.pulls, l.pos);
                    let log = env::log_of(t);
                    check!(
                        log == m.log,
                        "callbacks",
                        "pull {}: the user callbacks differ: {}",
                        l.pulls,
                        diff_log(&log, &m.log)
                    );
                    ev!(0x51, l.pulls, l.pos; "task {t} lane {i}: {got:?}");
                    cnt!("pulls");
                    let stop = match got {
                        Pull::Item(_, p) => {
                            l.pos = p;
                            give_up.is_some_and(|g| l.pulls >= g)
                        }
                        Pull::End(p) => {
                            l.pos = p;
                            l.ended += 1;
                            !(fused && extra && l.ended < 3)
                        }
                        Pull::Err(_) => true,
                    };
                    if stop {
                        drop(ls.swap_remove(i));
                    }
                }
            }));
        }
        check!(sim.run(), "stuck", "everything was delivered, but an iteration is still waiting");
    }
    for s in streams {
        check!(s.live() == (0, 0), "handle:leak", "input handles or anchors are still alive");
    }
    // the whole pipeline at once
    let case = Case {
        kind: c.kind,
        root: if work(2) == 0 {
            N::Collect(Box::new(c.it.clone()))
        } else {
            N::Fold(9999, Box::new(c.it.clone()))
        },
        input: c.input.clone(),
        start: c.start,
        alpha: 2,
    };
    for t in 0..4 {
        env::clear_log(t);
    }
    if let Some(e) = expect(&case) {
        vs_model::<C>(&case, &e);
    }
}

pub fn c04() {
    let (kind, alpha) = gen_kind();
    let p = Prof {
        fatal: work(3),
        bin: 0,
        iter: 0,
        size: 6,
        alpha,
        calls: false,
    };
    let mut g = Gen {
        p: &p,
        next_id: 0,
        budget: 1 + work(7) as i32,
    };
    let long = wchance(1, LONG);
    let it = if long { long_it(&mut g) } else { g.iter(false) };
    let root = N::Collect(Box::new(it.clone()));
    let start = if wchance(1, 4) { work(3) as usize } else { 0 };
    let input = if long {
        cnt!("probe.long_input");
        let Base::Rep(l) = &it.base else { unreachable!() };
        fill(l, long_len(), alpha)
    } else {
        gen_input(&root, start, alpha, 80)
    };
    let c = ItCase { kind, it, input, start };
    ctl::set_context(|| format!("pipeline {:?}; input {}; starts at element {}", c.it, show(kind, &c.input), c.start));
    dispatch!(c04_of, &c);
}

// ---------------------------------------------------------------------------------------------- C07

fn c07_of<C: Content>(c: &Case)
where
    &'static C::Seg: Seq<Seg = C::Seg>,
{
    let rules = [c.root.clone()];
    let n = c.input.len();
    let g = build::<SimSeq<C>>(&c.root);
    let st = Stream::<C>::new(&c.input, delivery(c.input.len()));
    let out = RefCell::new(None);
    let mut sim = k1::Sim::new(k1cfg(c.input.len()));
    // the stream stalls at these points, for as long as it likes
    let mut at = c.start + work((n - c.start) as u32 + 1) as usize;
    if wchance(1, 4) {
        at = c.start;
    }
    st.limit(at, false);
    let mut ended = false;
    let seq = st.open();
    {
        let (g, out) = (&g, &out);
        sim.spawn(env::scope(0, async move {
            let r = parse_ref(&g.root, seq, c.start).await;
            *out.borrow_mut() = Some(r);
        }));
    }
    loop {
        let all = sim.run();
        let mut m = Model::new(&rules, &c.input, at, ended);
        let r = m.eval(&c.root, c.start);
        if m.overrun {
            return;
        }
        let want = match r {
            R::Ok(v, p) => Some(Outcome::Ok(v, n - p)),
            R::Err(e) => Some(Outcome::Err(e, n - c.start)),
            R::Blocked => None,
        };
        let log = env::log_of(0);
        let got = out.borrow_mut().take();
        match (got, want) {
            (None, None) => {
                check!(!all, "harness:end", "the parse ended without an outcome");
                cnt!("probe.undecided_stall");
                ev!(0x60, at, 0; "t={} undecided after {at} elements, and pending", k1::now());
                check!(
                    log == m.log,
                    "callbacks",
                    "after {at} of {n} elements: the user callbacks differ: {}",
                    diff_log(&log, &m.log)
                );
                check!(!ended, "harness:model", "undecided although the input has ended");
            }
            (Some(got), Some(want)) => {
                if !ended {
                    cnt!("probe.decided_before_end");
                }
                same(&format!("after {at} of {n} elements (ended: {ended})"), &got, &log, &want, &m.log);
                return;
            }
            (Some(got), None) => violate!(
                "decided-early",
                "after {at} of {n} elements nothing decides the parse yet, but it ended with {got:?}"
            ),
            (None, Some(want)) => violate!(
                if ended { "stuck" } else { "waits-too-long" },
                "after {at} of {n} elements (ended: {ended}) the parse is decided ({want:?}), but it keeps waiting"
            ),
        }
        if at < n && work(4) > 0 {
            at += 1 + if n > 200 { work(n as u32 / 2) } else { small(St::Work, 5) } as usize;
            at = at.min(n);
            ended = at == n && wchance(1, 3);
        } else if at < n {
            at += if n > 200 { (n - at).min(1 + work(n as u32 / 2) as usize) } else { 1 };
        } else {
            ended = true;
        }
        st.arrive(at, ended);
    }
}

pub fn c07() {
    let mut p = Prof {
        fatal: work(2),
        bin: 1,
        iter: 3,
        size: 14,
        alpha: 2,
        calls: true,
    };
    let c = maybe_long(&mut p, |g| g.node(false, false));
    context(&c);
    if expect(&c).is_none() {
        return;
    }
    dispatch!(c07_of, &c);
}

// ---------------------------------------------------------------------------------------------- C06

fn c06_of<C: Content>(c: &Case, e: &Expect)
where
    &'static C::Seg: Seq<Seg = C::Seg>,
{
    let outer = tok::live();
    {
        let g = build::<SimSeq<C>>(&c.root);
        let tasks = tasks(c.input.len(), 2);
        let mut streams = Vec::new();
        for _ in 0..tasks {
            let mut d = delivery(c.input.len());
            if sched(2) == 1 {
                // pieces and waits, so that there are points to abandon the parse at
                d.delay = 5;
            }
            streams.push(Stream::<C>::new(&c.input, d));
        }
        let base = tok::live();
        env::set_pause(if chance(St::Sched, 1, 2) { 6 } else { 0 });
        let outs: Vec<RefCell<Option<Outcome>>> = (0..tasks).map(|_| RefCell::new(None)).collect();
        let mode = ctl::pick(St::Fault, 3);
        {
            let mut sim = k1::Sim::new(k1cfg(c.input.len()));
            for t in 0..tasks {
                let st = streams[t].clone();
                if sched(2) == 1 {
                    deliver(&st);
                }
                let own = (sched(4) == 1).then(|| build::<SimSeq<C>>(&c.root));
                let (g, out) = (&g, &outs[t]);
                let seq = st.open();
                let id = sim.spawn(env::scope(t, async move {
                    let r = match own {
                        Some(o) => parse_own(o, seq, c.start).await,
                        None => parse_ref(&g.root, seq, c.start).await,
                    };
                    *out.borrow_mut() = Some(r);
                }));
                if mode == 1 || (mode == 2 && fault(1, 2)) {
                    sim.cancel_after(id, small(St::Fault, 40));
                }
            }
            if mode != 1 {
                let k = match ctl::pick(St::Fault, 4) {
                    0 => ctl::pick(St::Fault, 12),
                    1 => ctl::pick(St::Fault, 60),
                    2 => ctl::pick(St::Fault, 400),
                    _ => ctl::pick(St::Fault, 4000),
                };
                env::arm(1 + k as u64);
            }
            let all = sim.run();
            env::arm(0);
            check!(all, "stuck", "everything was delivered, but a parse is still waiting");
            for t in 0..tasks {
                match sim.end(t) {
                    k1::End::Done => {
                        let o = outs[t].borrow_mut().take().unwrap();
                        same(&format!("parse {t}"), &o, &env::log_of(t), &e.out, &e.log);
                    }
                    k1::End::Cancelled | k1::End::Panicked => {
                        // what ran before the parse was abandoned is a prefix of what would have run
                        let l = env::log_of(t);
                        check!(
                            l.len() <= e.log.len() && l[..] == e.log[..l.len()],
                            "callbacks",
                            "an abandoned parse ran other callbacks: {}",
                            diff_log(&l, &e.log)
                        );
                    }
                    k1::End::Pending => violate!("stuck", "a parse is still pending"),
                }
            }
        }
        env::set_pause(0);
        drop(outs);
        for (t, s) in streams.iter().enumerate() {
            check!(
                s.live() == (0, 0),
                "handle:leak",
                "parse {t} was abandoned, but {:?} of its input handles and anchors are still alive",
                s.live()
            );
        }
        check!(
            tok::live() == base,
            "value:leak",
            "{} value(s) made during an abandoned parse were never released",
            tok::live() as i64 - base as i64
        );
        for t in 0..tasks {
            env::clear_log(t);
        }
        drop(streams);
        check!(k1::live_wakers() == 0, "waker:leak", "{} wakers are still held", k1::live_wakers());
        // the parser itself is unharmed
        let st = Stream::<C>::new(&c.input, delivery(c.input.len()));
        let out = RefCell::new(None);
        {
            let mut sim = k1::Sim::new(k1::Cfg::default());
            let seq = st.open();
            let (g, out) = (&g, &out);
            sim.spawn(env::scope(0, async move {
                *out.borrow_mut() = Some(parse_ref(&g.root, seq, c.start).await);
            }));
            check!(sim.run(), "stuck", "a fresh parse after an abandoned one never ended");
        }
        same("a fresh parse after an abandoned one", &out.into_inner().unwrap(), &env::log_of(0), &e.out, &e.log);
    }
    let _ = MAX_STEPS;
    check!(
        tok::live() == outer,
        "value:leak",
        "{} value(s) were never released",
        tok::live() as i64 - outer as i64
    );
}

pub fn c06() {
    if work(4) == 3 {
        return crate::shortvec::run();
    }
    let expr = wchance(1, 3);
    let mut p = Prof {
        fatal: work(2),
        bin: 3,
        iter: 4,
        size: if expr { 5 } else { 14 },
        alpha: 2,
        calls: true,
    };
    let mut c = gen_case(&mut p, |g| if expr { gen_expr(g) } else { g.node(false, false) });
    if expr {
        for _ in 0..work(30) {
            c.input.push(work(c.alpha as u32) as u8);
        }
    }
    context(&c);
    let Some(e) = expect(&c) else { return };
    dispatch!(c06_of, &c, &e);
}
