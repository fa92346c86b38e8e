//! Grammars, values and errors of the parser workloads, and their generator.

use crate::ctl::{wchance, work};
use crate::tok::Tok;
use std::fmt;

/// A tracked payload of values made by the code under test; the model's values carry none.
pub struct Pay(pub Option<Tok>);
impl PartialEq for Pay {
    fn eq(&self, _: &Pay) -> bool {
        true
    }
}
impl Clone for Pay {
    fn clone(&self) -> Pay {
        Pay(self.0.clone())
    }
}
impl Pay {
    pub fn real() -> Pay {
        Pay(Some(Tok::new()))
    }
    pub fn none() -> Pay {
        Pay(None)
    }
}

#[derive(Clone, PartialEq)]
pub enum V {
    Unit,
    El(u8),
    Pair(Box<V>, Box<V>),
    First(Box<V>),
    Last(Box<V>),
    Good(Box<V>),
    Bad(E),
    List(Vec<V>, E),
    Tag(u16, Box<V>, Pay),
    Uni(u8, Box<V>),
    Bin(Box<V>, Box<V>, Box<V>),
    BinOut(Box<V>, E),
    Coll(Vec<V>, Option<E>),
    Acc(Vec<V>),
    Nth(u16, u32, Box<V>),
    User(u16, Vec<u8>, Pay),
}

#[derive(Clone, PartialEq)]
pub struct E {
    pub term: bool,
    pub k: K,
}
#[derive(Clone, PartialEq)]
pub enum K {
    Miss,
    User(u16, Pay),
    First(Box<E>),
    Last(Box<E>),
    Both(Box<E>, Box<E>),
    Map(u16, Option<Box<E>>),
    Conv(Box<E>),
    Uni(u8, Box<E>),
}

impl E {
    pub fn new(term: bool, k: K) -> E {
        E { term, k }
    }
    fn h(&self, s: &mut u64) {
        add(s, 100 + self.term as u64);
        match &self.k {
            K::Miss => add(s, 1),
            K::User(i, p) => {
                if let Some(t) = &p.0 {
                    t.verify("error value");
                }
                add(s, 2 + ((*i as u64) << 8))
            }
            K::First(e) => {
                add(s, 3);
                e.h(s)
            }
            K::Last(e) => {
                add(s, 4);
                e.h(s)
            }
            K::Both(a, b) => {
                add(s, 5);
                a.h(s);
                b.h(s)
            }
            K::Map(i, e) => {
                add(s, 6 + ((*i as u64) << 8));
                if let Some(e) = e {
                    e.h(s)
                }
            }
            K::Conv(e) => {
                add(s, 7);
                e.h(s)
            }
            K::Uni(i, e) => {
                add(s, 8 + ((*i as u64) << 8));
                e.h(s)
            }
        }
    }
    pub fn digest(&self) -> u64 {
        let mut s = 99;
        self.h(&mut s);
        s
    }
}

fn add(s: &mut u64, v: u64) {
    *s = crate::ctl::mix(*s ^ v.wrapping_mul(0x2545F4914F6CDD1D));
}

impl V {
    pub fn digest(&self) -> u64 {
        let mut s = 7;
        self.h(&mut s);
        s
    }
    fn h(&self, s: &mut u64) {
        match self {
            V::Unit => add(s, 1),
            V::El(c) => add(s, 2 + ((*c as u64) << 8)),
            V::Pair(a, b) => {
                add(s, 3);
                a.h(s);
                b.h(s)
            }
            V::First(a) => {
                add(s, 4);
                a.h(s)
            }
            V::Last(a) => {
                add(s, 5);
                a.h(s)
            }
            V::Good(a) => {
                add(s, 6);
                a.h(s)
            }
            V::Bad(e) => {
                add(s, 7);
                e.h(s)
            }
            V::List(l, e) => {
                add(s, 8 + ((l.len() as u64) << 8));
                l.iter().for_each(|v| v.h(s));
                e.h(s)
            }
            V::Tag(i, v, p) => {
                add(s, 9 + ((*i as u64) << 8));
                if let Some(t) = &p.0 {
                    t.verify("mapped value");
                }
                v.h(s)
            }
            V::Uni(i, v) => {
                add(s, 10 + ((*i as u64) << 8));
                v.h(s)
            }
            V::Bin(a, o, b) => {
                add(s, 11);
                a.h(s);
                o.h(s);
                b.h(s)
            }
            V::BinOut(a, e) => {
                add(s, 12);
                a.h(s);
                e.h(s)
            }
            V::Coll(l, e) => {
                add(s, 13 + ((l.len() as u64) << 8));
                l.iter().for_each(|v| v.h(s));
                if let Some(e) = e {
                    e.h(s)
                }
            }
            V::Acc(l) => {
                add(s, 14 + ((l.len() as u64) << 8));
                l.iter().for_each(|v| v.h(s));
            }
            V::Nth(i, n, v) => {
                add(s, 15 + ((*i as u64) << 8) + ((*n as u64) << 32));
                v.h(s)
            }
            V::User(i, c, p) => {
                add(s, 16 + ((*i as u64) << 8));
                if let Some(t) = &p.0 {
                    t.verify("parsed value");
                }
                c.iter().for_each(|c| add(s, *c as u64));
            }
        }
    }
}

impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let t = if self.term { "!" } else { "" };
        match &self.k {
            K::Miss => write!(f, "{t}miss"),
            K::User(i, _) => write!(f, "{t}err{i}"),
            K::First(e) => write!(f, "{t}1st({e:?})"),
            K::Last(e) => write!(f, "{t}2nd({e:?})"),
            K::Both(a, b) => write!(f, "{t}both({a:?},{b:?})"),
            K::Map(i, e) => write!(f, "{t}map{i}({e:?})"),
            K::Conv(e) => write!(f, "{t}conv({e:?})"),
            K::Uni(i, e) => write!(f, "{t}uni{i}({e:?})"),
        }
    }
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::Unit => write!(f, "()"),
            V::El(c) => write!(f, "e{c}"),
            V::Pair(a, b) => write!(f, "({a:?},{b:?})"),
            V::First(a) => write!(f, "1st({a:?})"),
            V::Last(a) => write!(f, "2nd({a:?})"),
            V::Good(a) => write!(f, "ok({a:?})"),
            V::Bad(e) => write!(f, "none({e:?})"),
            V::List(l, e) => write!(f, "{l:?}/{e:?}"),
            V::Tag(i, v, _) => write!(f, "m{i}({v:?})"),
            V::Uni(i, v) => write!(f, "uni{i}({v:?})"),
            V::Bin(a, o, b) => write!(f, "[{a:?} {o:?} {b:?}]"),
            V::BinOut(a, e) => write!(f, "{a:?} stop={e:?}"),
            V::Coll(l, e) => write!(f, "coll{l:?}/{e:?}"),
            V::Acc(l) => write!(f, "acc{l:?}"),
            V::Nth(i, n, v) => write!(f, "s{i}#{n}({v:?})"),
            V::User(i, c, _) => write!(f, "u{i}{c:?}"),
        }
    }
}

/// What a user callback answers, as a function of the digest of what it was given.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rule {
    pub modulus: u8,
    pub miss: u8,
    pub fatal: u8,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans {
    Ok,
    Miss,
    Fatal,
}
impl Rule {
    pub fn ask(&self, d: u64) -> Ans {
        let r = ((d >> 13) % self.modulus as u64) as u8;
        if r < self.miss {
            Ans::Miss
        } else if r < self.miss + self.fatal {
            Ans::Fatal
        } else {
            Ans::Ok
        }
    }
    fn gen(p: &Prof) -> Rule {
        match work(6) {
            0 => Rule { modulus: 1, miss: 0, fatal: 0 },
            1 => Rule { modulus: 1, miss: 1, fatal: 0 },
            2 if p.fatal > 0 => Rule { modulus: 1, miss: 0, fatal: 1 },
            3 if p.fatal > 0 => Rule { modulus: 3, miss: 1, fatal: 1 },
            4 => Rule { modulus: 4, miss: 1, fatal: 0 },
            _ => Rule {
                modulus: 4,
                miss: (work(3) as u8).min(2),
                fatal: if p.fatal > 0 { work(2) as u8 } else { 0 },
            },
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Remap {
    Keep,
    ToFatal,
    ToMiss,
    Some,
    None,
}

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Any,
    The(u8),
    Atom(Vec<u8>, u8),
    User(u16, u8, Rule),
    Join(Box<N>, Box<N>),
    Or(Box<N>, Box<N>),
    Opt(Box<N>),
    Rep(Box<N>),
    Map(u16, Box<N>),
    AndThen(u16, Box<N>, Rule),
    MapErr(u16, Box<N>, Remap),
    Unify(Box<N>, Box<N>),
    UnifyErr(Box<N>, Box<N>),
    Ref(Box<N>),
    Boxed(Box<N>),
    Bin(u16, Box<N>, Box<N>, Vec<(usize, bool)>),
    Collect(Box<It>),
    Fold(u16, Box<It>),
    Call(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Base {
    Rep(N),
    Opt(N),
    /// an iterative parser of the user's own: it counts its items and reports every failure,
    /// those that do not terminate included
    Own(u16, N, Rule),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stg {
    Each(u16),
    TryEach(u16, Rule),
    While(u16, Rule),
    Scan(u16),
    Take(usize),
    ByRef,
}
#[derive(Clone, Debug, PartialEq)]
pub struct It {
    pub base: Base,
    pub stages: Vec<Stg>,
}

/// Generator profile.
#[derive(Clone, Debug)]
pub struct Prof {
    /// weight of terminating failures
    pub fatal: u32,
    pub bin: u32,
    pub iter: u32,
    pub size: u32,
    pub alpha: u8,
    pub calls: bool,
}

pub struct Gen<'a> {
    pub p: &'a Prof,
    pub next_id: u16,
    pub budget: i32,
}

pub fn nullable(n: &N) -> bool {
    match n {
        N::Any | N::The(_) => false,
        N::Atom(p, _) => p.is_empty(),
        N::User(_, k, _) => *k == 0,
        N::Join(a, b) => nullable(a) && nullable(b),
        N::Or(a, b) | N::Unify(a, b) => nullable(a) || nullable(b),
        N::UnifyErr(a, b) => nullable(a) && nullable(b),
        N::Opt(_) | N::Rep(_) => true,
        N::Map(_, a) | N::AndThen(_, a, _) | N::MapErr(_, a, _) | N::Ref(a) | N::Boxed(a) => nullable(a),
        N::Bin(_, t, _, _) => nullable(t),
        N::Collect(_) | N::Fold(..) => true,
        // only generated behind something that consumes
        N::Call(_) => true,
    }
}

impl Gen<'_> {
    pub fn id(&mut self) -> u16 {
        self.next_id += 1;
        self.next_id
    }
    fn el(&self) -> u8 {
        work(self.p.alpha as u32) as u8
    }

    pub fn leaf(&mut self, nonnull: bool) -> N {
        match work(6) {
            0 => N::The(self.el()),
            1 => N::Any,
            2 | 3 => {
                let lo = if nonnull { 1 } else { work(8).min(1) };
                let n = lo + crate::ctl::small(crate::ctl::St::Work, 5);
                N::Atom((0..n).map(|_| self.el()).collect(), work(5) as u8)
            }
            4 => {
                let k = (nonnull as u32 + work(3)).min(3) as u8;
                N::User(self.id(), k, Rule::gen(self.p))
            }
            _ => N::The(self.el()),
        }
    }

    pub fn node(&mut self, nonnull: bool, guarded: bool) -> N {
        self.budget -= 1;
        if self.budget <= 0 {
            return self.leaf(nonnull);
        }
        let b = |n: N| Box::new(n);
        let w = 16 + self.p.bin + self.p.iter;
        match work(w) {
            0 | 1 => self.leaf(nonnull),
            2 | 3 => {
                let l = self.node(nonnull, guarded);
                let g = guarded || !nullable(&l);
                N::Join(b(l), b(self.node(false, g)))
            }
            4 | 5 => N::Or(b(self.node(nonnull, guarded)), b(self.node(nonnull, guarded))),
            6 if !nonnull => N::Opt(b(self.node(false, guarded))),
            7 if !nonnull => N::Rep(b(self.node(true, guarded))),
            8 => N::Map(self.id(), b(self.node(nonnull, guarded))),
            9 => {
                let id = self.id();
                let r = Rule::gen(self.p);
                N::AndThen(id, b(self.node(nonnull, guarded)), r)
            }
            10 => {
                let id = self.id();
                let r = match work(if self.p.fatal > 0 { 5 } else { 3 }) {
                    0 => Remap::Keep,
                    1 => Remap::Some,
                    2 => Remap::None,
                    3 => Remap::ToFatal,
                    _ => Remap::ToMiss,
                };
                N::MapErr(id, b(self.node(nonnull, guarded)), r)
            }
            11 => N::Unify(b(self.node(nonnull, guarded)), b(self.node(nonnull, guarded))),
            12 => {
                let l = self.node(nonnull, guarded);
                let g = guarded || !nullable(&l);
                N::UnifyErr(b(l), b(self.node(false, g)))
            }
            13 => N::Ref(b(self.node(nonnull, guarded))),
            14 => N::Boxed(b(self.node(nonnull, guarded))),
            15 if guarded && !nonnull && self.p.calls => N::Call(0),
            15 => self.leaf(nonnull),
            x if x < 16 + self.p.bin => self.bin(nonnull, guarded),
            x if x < 16 + self.p.bin + self.p.iter && !nonnull => self.folded(guarded),
            _ => self.node(nonnull, guarded),
        }
    }

    pub fn bin(&mut self, nonnull: bool, guarded: bool) -> N {
        let id = self.id();
        let t = self.node(nonnull, guarded);
        let op = self.node(true, guarded);
        let n = 1 + work(5);
        let t2 = self.table(n);
        N::Bin(id, Box::new(t), Box::new(op), t2)
    }
    pub fn table(&mut self, n: u32) -> Vec<(usize, bool)> {
        (0..n)
            .map(|_| {
                let p = match work(10) {
                    0 => 0,
                    1..=6 => work(4) as usize,
                    7 => usize::MAX - work(2) as usize,
                    8 => usize::MAX / 2 + work(3) as usize,
                    _ => work(100) as usize,
                };
                (p, wchance(1, 2))
            })
            .collect()
    }

    pub fn folded(&mut self, guarded: bool) -> N {
        if wchance(1, 3) {
            let id = self.id();
            N::Fold(id, Box::new(self.iter(guarded)))
        } else {
            N::Collect(Box::new(self.iter(guarded)))
        }
    }

    pub fn iter(&mut self, guarded: bool) -> It {
        let base = if wchance(1, 5) {
            Base::Opt(self.node(false, guarded))
        } else if wchance(1, 4) {
            let id = self.id();
            let r = Rule::gen(self.p);
            Base::Own(id, self.node(true, guarded), r)
        } else {
            Base::Rep(self.node(true, guarded))
        };
        let n = crate::ctl::small(crate::ctl::St::Work, 4);
        let stages = (0..n)
            .map(|_| match work(7) {
                0 => Stg::Each(self.id()),
                1 => Stg::TryEach(self.id(), Rule::gen(self.p)),
                2 => Stg::While(self.id(), Rule::gen(self.p)),
                3 => Stg::Scan(self.id()),
                4 | 5 => Stg::Take(match work(20) {
                    19 => [usize::MAX, usize::MAX - 1, 1 << 32, 255, 256, 65536][work(6) as usize],
                    _ => crate::ctl::small(crate::ctl::St::Work, 6) as usize,
                }),
                _ => Stg::ByRef,
            })
            .collect();
        It { base, stages }
    }
}

/// Appends an input that the node probably accepts.
pub fn sample(n: &N, root: &N, out: &mut Vec<u8>, alpha: u8, depth: u32, cap: usize) {
    if out.len() > cap {
        return;
    }
    let any = |out: &mut Vec<u8>| out.push(work(alpha as u32) as u8);
    match n {
        N::Any => any(out),
        N::The(c) => out.push(*c),
        N::Atom(p, _) => out.extend_from_slice(p),
        N::User(_, k, _) => (0..*k).for_each(|_| any(out)),
        N::Join(a, b) | N::UnifyErr(a, b) => {
            sample(a, root, out, alpha, depth, cap);
            sample(b, root, out, alpha, depth, cap);
        }
        N::Or(a, b) | N::Unify(a, b) => {
            let n = if wchance(1, 2) { b } else { a };
            sample(n, root, out, alpha, depth, cap)
        }
        N::Opt(a) => {
            if wchance(1, 2) {
                sample(a, root, out, alpha, depth, cap)
            }
        }
        N::Rep(a) => (0..crate::ctl::small(crate::ctl::St::Work, 6)).for_each(|_| sample(a, root, out, alpha, depth, cap)),
        N::Map(_, a) | N::AndThen(_, a, _) | N::MapErr(_, a, _) | N::Ref(a) | N::Boxed(a) => {
            sample(a, root, out, alpha, depth, cap)
        }
        N::Bin(_, t, o, _) => {
            sample(t, root, out, alpha, depth, cap);
            for _ in 0..crate::ctl::small(crate::ctl::St::Work, 12) {
                sample(o, root, out, alpha, depth, cap);
                sample(t, root, out, alpha, depth, cap);
            }
        }
        N::Collect(i) | N::Fold(_, i) => sample_it(i, root, out, alpha, depth, cap),
        N::Call(_) => {
            if depth > 0 {
                sample(root, root, out, alpha, depth - 1, cap)
            }
        }
    }
}

pub fn sample_it(i: &It, root: &N, out: &mut Vec<u8>, alpha: u8, depth: u32, cap: usize) {
    match &i.base {
        Base::Rep(a) | Base::Own(_, a, _) => (0..crate::ctl::small(crate::ctl::St::Work, 8)).for_each(|_| sample(a, root, out, alpha, depth, cap)),
        Base::Opt(a) => sample(a, root, out, alpha, depth, cap),
    }
}

pub fn mutate(v: &mut Vec<u8>, alpha: u8) {
    for _ in 0..crate::ctl::small(crate::ctl::St::Work, 3) {
        let n = v.len() as u32;
        match work(4) {
            0 => v.insert(work(n + 1) as usize, work(alpha as u32) as u8),
            1 if n > 0 => {
                v.remove(work(n) as usize);
            }
            2 if n > 0 => v[work(n) as usize] = work(alpha as u32) as u8,
            3 if n > 0 => v.truncate(work(n) as usize),
            _ => {}
        }
    }
}
