//! The reference: ordered-choice semantics of the combinators over a list of elements, written
//! against their documentation and independent of their code. `avail` elements have been delivered
//! and `ended` tells whether more can follow; an undecided parse evaluates to `Blocked`.

use super::ast::*;

pub enum R {
    Ok(V, usize),
    Err(E),
    Blocked,
}
use R::{Blocked, Err as Fail, Ok as Done};

pub struct Model<'a> {
    pub rules: &'a [N],
    pub input: &'a [u8],
    pub avail: usize,
    pub ended: bool,
    pub log: Vec<(u16, u64)>,
    pub steps: u64,
    pub depth: u32,
    pub overrun: bool,
    pub max: u64,
}

pub const MAX_STEPS: u64 = 60_000;
pub const MAX_DEPTH: u32 = 400;

fn miss() -> E {
    E::new(false, K::Miss)
}
pub fn wrap(f: fn(Box<E>) -> K, e: E) -> E {
    E::new(e.term, f(Box::new(e)))
}

#[derive(Clone, Default)]
pub struct ItSt {
    opt_used: bool,
    own: u32,
    taken: Vec<usize>,
    scans: Vec<u32>,
}
pub enum P {
    Item(V, usize),
    End(usize),
    Err(E),
    Blocked,
}

impl<'a> Model<'a> {
    pub fn new(rules: &'a [N], input: &'a [u8], avail: usize, ended: bool) -> Self {
        Model {
            rules,
            input,
            avail,
            ended,
            log: Vec::new(),
            steps: 0,
            depth: 0,
            overrun: false,
            // a few steps for every element at least
            max: MAX_STEPS + 40 * (input.len() as u64).saturating_sub(600),
        }
    }

    fn any(&mut self, pos: usize) -> Option<Option<u8>> {
        if pos < self.avail {
            Some(Some(self.input[pos]))
        } else if self.ended {
            Some(None)
        } else {
            None
        }
    }

    pub fn eval(&mut self, n: &N, pos: usize) -> R {
        self.steps += 1;
        self.depth += 1;
        if self.steps > self.max || self.depth > MAX_DEPTH {
            self.overrun = true;
            self.depth -= 1;
            return Blocked;
        }
        let r = self.eval1(n, pos);
        self.depth -= 1;
        r
    }

    fn eval1(&mut self, n: &N, pos: usize) -> R {
        match n {
            N::Any => match self.any(pos) {
                None => Blocked,
                Some(None) => Fail(miss()),
                Some(Some(c)) => Done(V::El(c), pos + 1),
            },
            N::The(c) => match self.any(pos) {
                None => Blocked,
                Some(Some(d)) if d == *c => Done(V::Unit, pos + 1),
                _ => Fail(miss()),
            },
            N::Atom(p, _) => {
                for (i, c) in p.iter().enumerate() {
                    match self.any(pos + i) {
                        None => return Blocked,
                        Some(Some(d)) if d == *c => {}
                        _ => return Fail(miss()),
                    }
                }
                Done(V::Unit, pos + p.len())
            }
            N::User(id, k, rule) => {
                self.log.push((*id, 0));
                let mut got = Vec::new();
                for i in 0..*k as usize {
                    match self.any(pos + i) {
                        None => return Blocked,
                        Some(None) => return Fail(E::new(false, K::User(*id, Pay::none()))),
                        Some(Some(c)) => got.push(c),
                    }
                }
                let v = V::User(*id, got, Pay::none());
                let d = v.digest();
                self.log.push((*id, d));
                match rule.ask(d) {
                    Ans::Ok => Done(v, pos + *k as usize),
                    Ans::Miss => Fail(E::new(false, K::User(*id, Pay::none()))),
                    Ans::Fatal => Fail(E::new(true, K::User(*id, Pay::none()))),
                }
            }
            N::Join(a, b) => {
                let (x, p) = match self.eval(a, pos) {
                    Done(v, p) => (v, p),
                    Fail(e) => return Fail(wrap(K::First, e)),
                    Blocked => return Blocked,
                };
                match self.eval(b, p) {
                    Done(y, p) => Done(V::Pair(Box::new(x), Box::new(y)), p),
                    Fail(e) => Fail(wrap(K::Last, e)),
                    Blocked => Blocked,
                }
            }
            N::UnifyErr(a, b) => {
                let (x, p) = match self.eval(a, pos) {
                    Done(v, p) => (v, p),
                    Fail(e) => return Fail(E::new(e.term, K::Uni(0, Box::new(e)))),
                    Blocked => return Blocked,
                };
                match self.eval(b, p) {
                    Done(y, p) => Done(V::Pair(Box::new(x), Box::new(y)), p),
                    Fail(e) => Fail(E::new(e.term, K::Uni(1, Box::new(e)))),
                    Blocked => Blocked,
                }
            }
            N::Or(a, b) => self.choice(a, b, pos, |s, v| if s == 0 { V::First(v) } else { V::Last(v) }),
            N::Unify(a, b) => self.choice(a, b, pos, |s, v| V::Uni(s, v)),
            N::Opt(a) => match self.eval(a, pos) {
                Done(v, p) => Done(V::Good(Box::new(v)), p),
                Fail(e) if e.term => Fail(e),
                Fail(e) => Done(V::Bad(e), pos),
                Blocked => Blocked,
            },
            N::Rep(a) => {
                let mut l = Vec::new();
                let mut p = pos;
                loop {
                    match self.eval(a, p) {
                        Done(v, q) => {
                            l.push(v);
                            p = q;
                        }
                        Fail(e) if e.term => return Fail(e),
                        Fail(e) => return Done(V::List(l, e), p),
                        Blocked => return Blocked,
                    }
                }
            }
            N::Map(id, a) => match self.eval(a, pos) {
                Done(v, p) => {
                    self.log.push((*id, v.digest()));
                    Done(V::Tag(*id, Box::new(v), Pay::none()), p)
                }
                x => x,
            },
            N::AndThen(id, a, rule) => match self.eval(a, pos) {
                Done(v, p) => {
                    let d = v.digest();
                    self.log.push((*id, d));
                    match rule.ask(d) {
                        Ans::Ok => Done(V::Tag(*id, Box::new(v), Pay::none()), p),
                        Ans::Miss => Fail(E::new(false, K::User(*id, Pay::none()))),
                        Ans::Fatal => Fail(E::new(true, K::User(*id, Pay::none()))),
                    }
                }
                Fail(e) => Fail(wrap(K::Conv, e)),
                Blocked => Blocked,
            },
            N::MapErr(id, a, r) => match self.eval(a, pos) {
                Fail(e) => {
                    self.log.push((*id, e.digest()));
                    let t = e.term;
                    let (term, keep) = match r {
                        Remap::Keep => (t, true),
                        Remap::ToFatal => (true, true),
                        Remap::ToMiss => (false, true),
                        Remap::Some => (t, true),
                        Remap::None => (false, false),
                    };
                    Fail(E::new(term, K::Map(*id, keep.then(|| Box::new(e)))))
                }
                x => x,
            },
            N::Ref(a) | N::Boxed(a) => self.eval(a, pos),
            N::Call(i) => {
                let n: &'a N = &self.rules[*i as usize];
                self.eval(n, pos)
            }
            N::Bin(_, t, o, table) => self.binary(t, o, table, pos),
            N::Collect(it) => {
                let mut st = ItSt::default();
                let mut l = Vec::new();
                let mut p = pos;
                loop {
                    match self.pull(it, &mut st, p) {
                        P::Item(v, q) => {
                            l.push(v);
                            p = q;
                        }
                        P::End(_) => return Done(V::Coll(l, None), p),
                        P::Err(e) if e.term => return Fail(e),
                        P::Err(e) => return Done(V::Coll(l, Some(e)), p),
                        P::Blocked => return Blocked,
                    }
                }
            }
            N::Fold(id, it) => {
                let mut st = ItSt::default();
                let mut l = Vec::new();
                let mut p = pos;
                loop {
                    match self.pull(it, &mut st, p) {
                        P::Item(v, q) => {
                            self.log.push((*id, v.digest()));
                            l.push(v);
                            p = q;
                        }
                        P::End(q) => return Done(V::Acc(l), q),
                        P::Err(e) => return Fail(e),
                        P::Blocked => return Blocked,
                    }
                }
            }
        }
    }

    fn choice(&mut self, a: &N, b: &N, pos: usize, f: fn(u8, Box<V>) -> V) -> R {
        let e0 = match self.eval(a, pos) {
            Done(v, p) => return Done(f(0, Box::new(v)), p),
            Fail(e) if e.term => return Fail(wrap(K::First, e)),
            Fail(e) => e,
            Blocked => return Blocked,
        };
        match self.eval(b, pos) {
            Done(v, p) => Done(f(1, Box::new(v)), p),
            Fail(e) if e.term => Fail(wrap(K::Last, e)),
            Fail(e) => Fail(E::new(false, K::Both(Box::new(e0), Box::new(e)))),
            Blocked => Blocked,
        }
    }

    /// First reads the longest prefix `term (op term)*`, then builds the tree from the list.
    fn binary(&mut self, t: &N, o: &N, table: &[(usize, bool)], pos: usize) -> R {
        let (first, mut p) = match self.eval(t, pos) {
            Done(v, p) => (v, p),
            Fail(e) => return Fail(wrap(K::Last, e)),
            Blocked => return Blocked,
        };
        let mut terms = vec![first];
        let mut ops: Vec<(V, usize, bool)> = Vec::new();
        let reason = loop {
            let (op, q) = match self.eval(o, p) {
                Done(v, q) => (v, q),
                Fail(e) if e.term => return Fail(wrap(K::First, e)),
                Fail(e) => break wrap(K::First, e),
                Blocked => return Blocked,
            };
            match self.eval(t, q) {
                Done(v, q) => {
                    let (prec, right) = op_of(&op, table);
                    ops.push((op, prec, right));
                    terms.push(v);
                    p = q;
                }
                Fail(e) if e.term => return Fail(wrap(K::Last, e)),
                Fail(e) => break wrap(K::Last, e),
                Blocked => return Blocked,
            }
        };
        let tree = group(terms, ops);
        Done(V::BinOut(Box::new(tree), reason), p)
    }

    pub fn pull(&mut self, it: &It, st: &mut ItSt, pos: usize) -> P {
        st.taken.resize(it.stages.len(), 0);
        st.scans.resize(it.stages.len(), 0);
        self.pull_at(it, it.stages.len(), st, pos)
    }

    fn pull_at(&mut self, it: &It, level: usize, st: &mut ItSt, pos: usize) -> P {
        if level == 0 {
            return match &it.base {
                Base::Rep(n) => match self.eval(n, pos) {
                    Done(v, p) => P::Item(v, p),
                    Fail(e) if e.term => P::Err(e),
                    Fail(_) => P::End(pos),
                    Blocked => P::Blocked,
                },
                Base::Own(id, n, rule) => match self.eval(n, pos) {
                    Done(v, p) => {
                        st.own += 1;
                        let v = V::Nth(*id, st.own, Box::new(v));
                        let d = v.digest();
                        self.log.push((*id, d));
                        match rule.ask(d) {
                            Ans::Ok => P::Item(v, p),
                            Ans::Miss => P::Err(E::new(false, K::User(*id, Pay::none()))),
                            Ans::Fatal => P::Err(E::new(true, K::User(*id, Pay::none()))),
                        }
                    }
                    Fail(e) => P::Err(e),
                    Blocked => P::Blocked,
                },
                Base::Opt(n) => {
                    if st.opt_used {
                        return P::End(pos);
                    }
                    st.opt_used = true;
                    match self.eval(n, pos) {
                        Done(v, p) => P::Item(v, p),
                        Fail(e) if e.term => P::Err(e),
                        Fail(_) => P::End(pos),
                        Blocked => P::Blocked,
                    }
                }
            };
        }
        let i = level - 1;
        match &it.stages[i] {
            Stg::ByRef => self.pull_at(it, i, st, pos),
            Stg::Take(n) => {
                if st.taken[i] >= *n {
                    return P::End(pos);
                }
                let r = self.pull_at(it, i, st, pos);
                if let P::Item(..) = r {
                    st.taken[i] += 1;
                }
                r
            }
            Stg::Each(id) => match self.pull_at(it, i, st, pos) {
                P::Item(v, p) => {
                    self.log.push((*id, v.digest()));
                    P::Item(V::Tag(*id, Box::new(v), Pay::none()), p)
                }
                x => x,
            },
            Stg::Scan(id) => match self.pull_at(it, i, st, pos) {
                P::Item(v, p) => {
                    self.log.push((*id, v.digest()));
                    st.scans[i] += 1;
                    P::Item(V::Nth(*id, st.scans[i], Box::new(v)), p)
                }
                x => x,
            },
            Stg::While(id, rule) => match self.pull_at(it, i, st, pos) {
                P::Item(v, p) => {
                    let d = v.digest();
                    self.log.push((*id, d));
                    if rule.ask(d) == Ans::Ok {
                        P::Item(V::Tag(*id, Box::new(v), Pay::none()), p)
                    } else {
                        P::End(p)
                    }
                }
                x => x,
            },
            Stg::TryEach(id, rule) => match self.pull_at(it, i, st, pos) {
                P::Item(v, p) => {
                    let d = v.digest();
                    self.log.push((*id, d));
                    match rule.ask(d) {
                        Ans::Ok => P::Item(V::Tag(*id, Box::new(v), Pay::none()), p),
                        Ans::Miss => P::End(p),
                        Ans::Fatal => P::Err(E::new(true, K::User(*id, Pay::none()))),
                    }
                }
                P::Err(e) => P::Err(wrap(K::Conv, e)),
                x => x,
            },
        }
    }
}

pub fn op_of(op: &V, table: &[(usize, bool)]) -> (usize, bool) {
    table[((op.digest() >> 7) % table.len() as u64) as usize]
}

/// Groups by precedence: the operator that binds weakest is the root; among equally weak operators
/// the leftmost one decides (left associative: everything up to the next equally weak operator that
/// follows a chain of left associative ones is folded to the left).
pub fn group(terms: Vec<V>, ops: Vec<(V, usize, bool)>) -> V {
    // classical precedence climbing over the list, with (precedence, strict) bounds
    let mut terms = terms.into_iter();
    let mut ops = ops.into_iter().peekable();
    let lhs = terms.next().unwrap();
    climb(lhs, None, &mut terms, &mut ops)
}

/// `min`: (precedence, exclusive?) an operator must reach to be taken here.
fn climb(
    mut lhs: V,
    min: Option<(usize, bool)>,
    terms: &mut std::vec::IntoIter<V>,
    ops: &mut std::iter::Peekable<std::vec::IntoIter<(V, usize, bool)>>,
) -> V {
    loop {
        let Some((_, prec, _)) = ops.peek() else { return lhs };
        let ok = match min {
            None => true,
            Some((m, true)) => *prec > m,
            Some((m, false)) => *prec >= m,
        };
        if !ok {
            return lhs;
        }
        let (op, prec, right) = ops.next().unwrap();
        let rhs = terms.next().unwrap();
        let rhs = climb(rhs, Some((prec, !right)), terms, ops);
        lhs = V::Bin(Box::new(lhs), Box::new(op), Box::new(rhs));
    }
}
