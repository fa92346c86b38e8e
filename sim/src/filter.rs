//! C18: filtered subscriptions over a stub observable.

use crate::ctl::{fault, small, wchance, work, Injected, St};
use crate::tok::Tok;
use crate::{check, cnt, ctl, ev, violate};
use parcom_internals::reactive::extension::Filter;
use parcom_internals::reactive::{IObservable, IObserver, ObservableExtensions};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

struct Item {
    n: u32,
    tok: Tok,
}

type P = Box<dyn Fn(&Item) -> bool>;

// ------------------------------------------------------------------------------- stub observable

type Entry = (u64, Rc<RefCell<dyn IObserver<Item>>>);

#[derive(Clone)]
struct Subject(Rc<RefCell<(u64, Vec<Entry>)>>);

struct Handle<U> {
    at: Subject,
    id: u64,
    obs: Option<Rc<RefCell<U>>>,
}

impl<U> Drop for Handle<U> {
    fn drop(&mut self) {
        let mut s = self.at.0.borrow_mut();
        let e = s.1.iter().position(|e| e.0 == self.id).map(|i| s.1.remove(i));
        drop(s);
        drop(e);
        self.obs = None;
    }
}

impl IObservable<Item> for Subject {
    type Subscription<U: IObserver<Item>> = Handle<U>;
    fn subscribe<U: IObserver<Item>>(&self, observer: U) -> Handle<U> {
        let o = Rc::new(RefCell::new(observer));
        let d: Rc<RefCell<dyn IObserver<Item> + '_>> = o.clone();
        // every handle removes its entry before the observer's lifetime ends
        let d: Rc<RefCell<dyn IObserver<Item> + 'static>> = unsafe { std::mem::transmute(d) };
        let mut s = self.0.borrow_mut();
        s.0 += 1;
        let id = s.0;
        s.1.push((id, d));
        Handle {
            at: self.clone(),
            id,
            obs: Some(o),
        }
    }
}

impl Subject {
    fn publish(&self, n: u32) {
        let ids: Vec<u64> = self.0.borrow().1.iter().map(|e| e.0).collect();
        for id in ids {
            let Some(o) = self.0.borrow().1.iter().find(|e| e.0 == id).map(|e| e.1.clone()) else { continue };
            // an observer that publishes is not called again before it returns
            if o.try_borrow_mut().is_err() {
                continue;
            }
            W.with(|w| w.borrow_mut().as_mut().unwrap().begin(id, n));
            let r = catch_unwind(AssertUnwindSafe(|| o.borrow_mut().next(Item { n, tok: Tok::new() })));
            if let Err(p) = r {
                if !p.is::<Injected>() {
                    violate!("panic", "a delivery panicked outside an injected panic");
                }
                cnt!("fault.panic_unwound");
            }
            W.with(|w| w.borrow_mut().as_mut().unwrap().end(id, n));
        }
    }
}

// ------------------------------------------------------------------------------- the world

struct Sub {
    chain: usize,
    entry: u64,
    got: Vec<u32>,
    want: Vec<u32>,
    ended: bool,
}

struct World {
    subject: Subject,
    /// per chain: for every filter, which items pass (bit per residue), and which panic
    rules: Vec<Vec<(u8, u8)>>,
    /// per chain and per item residue: the observer panics
    subs: Vec<Sub>,
    handles: Vec<Option<Box<dyn Held>>>,
    makers: Vec<Option<Rc<dyn Chain>>>,
    next_item: u32,
    /// the delivery under way: (subscription, item, filters passed, stopped, delivered)
    now: Vec<Delivery>,
    obs_panic: u8,
    actions: Vec<(usize, u32, u8)>,
}

struct Delivery {
    sub: usize,
    item: u32,
    passed: usize,
    stopped: bool,
    delivered: bool,
}

trait Held {}
impl<T> Held for T {}

trait Chain {
    fn sub(&self, o: Obs) -> Box<dyn Held>;
}
impl<O: IObservable<Item>> Chain for O
where
    O::Subscription<Obs>: 'static,
{
    fn sub(&self, o: Obs) -> Box<dyn Held> {
        Box::new(self.subscribe(o))
    }
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(w.borrow_mut().as_mut().unwrap()))
}

const RES: u32 = 6;

impl World {
    fn begin(&mut self, entry: u64, item: u32) {
        let Some(sub) = self.subs.iter().position(|s| s.entry == entry && !s.ended) else {
            violate!("harness:filter", "a delivery to an unknown subscription")
        };
        let rules = &self.rules[self.subs[sub].chain];
        // what should happen
        let r = item % RES;
        let mut pass = true;
        for (ok, panic) in rules {
            if panic >> r & 1 == 1 || ok >> r & 1 == 0 {
                pass = false;
                break;
            }
        }
        if pass {
            self.subs[sub].want.push(item);
        }
        self.now.push(Delivery {
            sub,
            item,
            passed: 0,
            stopped: false,
            delivered: false,
        });
    }
    fn end(&mut self, _entry: u64, _item: u32) {
        let d = self.now.pop().unwrap();
        let s = &self.subs[d.sub];
        check!(
            s.got == s.want,
            "delivery",
            "subscription {} (filters {:?}) received {:?}, expected {:?}",
            d.sub,
            self.rules[s.chain],
            s.got,
            s.want
        );
    }
}

fn predicate(chain: usize, k: usize) -> P {
    let t = Tok::new();
    Box::new(move |i: &Item| {
        t.verify("predicate");
        i.tok.verify("item in a predicate");
        let (r, panic) = with(|w| {
            let (ok, panic) = w.rules[chain][k];
            let d = w.now.last_mut().expect("a predicate ran outside a delivery");
            check!(d.item == i.n, "delivery", "filter {k} was given item {} during the delivery of {}", i.n, d.item);
            let at = w.subs[d.sub].chain;
            check!(at == chain, "delivery", "a filter of chain {chain} ran for a subscription to chain {at}");
            check!(
                !d.stopped && d.passed >= k,
                "order",
                "filter {k} saw item {} although an earlier filter had not passed it",
                i.n
            );
            let r = ok >> (i.n % RES) & 1 == 1;
            let p = panic >> (i.n % RES) & 1 == 1;
            if r && !p {
                d.passed = d.passed.max(k + 1);
            } else {
                d.stopped = true;
            }
            (r, p)
        });
        ev!(0x41, k, i.n; "filter {k} of chain {chain} tests item {}: {r}{}", i.n, if panic { " (panics)" } else { "" });
        if panic {
            cnt!("fault.panic_predicate");
            ctl::inject_panic();
        }
        r
    })
}

struct Obs {
    sub: usize,
    tok: Tok,
}

impl IObserver<Item> for Obs {
    fn next(&mut self, i: Item) {
        self.tok.verify("observer");
        i.tok.verify("item in an observer");
        ev!(0x42, self.sub, i.n; "subscription {} receives item {}", self.sub, i.n);
        let (panic, act) = with(|w| {
            let d = w.now.last_mut().expect("an observer ran outside a delivery");
            check!(d.item == i.n && d.sub == self.sub, "delivery", "subscription {} was given item {} during another delivery", self.sub, i.n);
            check!(!d.delivered, "delivery", "subscription {} received item {} twice", self.sub, i.n);
            d.delivered = true;
            let n = w.rules[w.subs[self.sub].chain].len();
            check!(
                !d.stopped && d.passed == n,
                "delivery",
                "subscription {} received item {} past {} of {n} filters",
                self.sub,
                i.n,
                d.passed
            );
            w.subs[self.sub].got.push(i.n);
            let k = w.subs[self.sub].got.len() as u32;
            let act = w.actions.iter().find(|a| a.0 == self.sub && a.1 == k).map(|a| a.2);
            (w.obs_panic >> (i.n % RES) & 1 == 1, act)
        });
        match act {
            Some(a) if a < 8 => {
                cnt!("probe.subscribe_during_delivery");
                let n = with(|w| w.makers.len());
                subscribe(a as usize % n);
            }
            Some(a) if a < 11 => {
                // publishing from inside a delivery, not without end
                if with(|w| w.now.len()) < 3 {
                    publish(true);
                }
            }
            Some(11) => release(with(|w| w.subs[self.sub].chain)),
            Some(a) => {
                let me = self.sub;
                let k = with(|w| w.subs.len());
                let other = (a as usize * 7 + 1) % k;
                if other != me {
                    cnt!("probe.unsubscribe_during_delivery");
                    end(other);
                }
            }
            None => {}
        }
        if panic {
            cnt!("fault.panic_observer");
            ctl::inject_panic();
        }
    }
}

/// The filter goes; what was subscribed through it stays.
fn release(chain: usize) {
    let m = with(|w| w.makers[chain].take());
    if m.is_some() {
        cnt!("probe.filter_dropped");
        ev!(0x46, chain, 0; "filter of chain {chain} dropped");
    }
}

fn publish(nested: bool) {
    let (i, subject) = with(|w| {
        let i = if wchance(1, 2) { w.next_item } else { w.next_item + work(RES) };
        w.next_item = i + 1;
        (i, w.subject.clone())
    });
    if nested {
        cnt!("probe.publish_during_delivery");
    }
    ev!(0x45, i, nested; "item {i} is published");
    subject.publish(i);
}

fn subscribe(chain: usize) {
    let Some(m) = with(|w| w.makers[chain].clone()) else { return };
    let (id, entry) = with(|w| {
        let id = w.subs.len();
        let entry = w.subject.0.borrow().0 + 1;
        w.subs.push(Sub {
            chain,
            entry,
            got: Vec::new(),
            want: Vec::new(),
            ended: false,
        });
        w.handles.push(None);
        (id, entry)
    });
    let h = m.sub(Obs { sub: id, tok: Tok::new() });
    let made = with(|w| w.subject.0.borrow().0);
    check!(made == entry, "delivery", "subscribing to a filter made {} subscription(s) to its source", made + 1 - entry);
    ev!(0x43, id, chain; "subscription {id} to chain {chain}");
    with(|w| w.handles[id] = Some(h));
}

fn end(id: usize) {
    let h = with(|w| {
        let h = w.handles[id].take();
        if h.is_some() {
            w.subs[id].ended = true;
        }
        h
    });
    if h.is_some() {
        ev!(0x44, id, 0; "subscription {id} ended");
        drop(h);
        let (e, s) = with(|w| (w.subs[id].entry, w.subject.clone()));
        let left = s.0.borrow().1.iter().any(|x| x.0 == e);
        check!(!left, "delivery", "subscription {id} was ended, but its source still delivers to it");
    }
}

fn chain(s: &Subject, c: usize, n: usize) -> Rc<dyn Chain> {
    let p = |k| predicate(c, k);
    let f = s.clone();
    match n {
        0 => Rc::new(f),
        1 => Rc::new(f.filter(p(0))),
        2 => Rc::new(f.filter(p(0)).filter(p(1))),
        3 => Rc::new(f.filter(p(0)).filter(p(1)).filter(p(2))),
        _ => {
            let g: Filter<_, _, _> = f.filter(p(0)).filter(p(1)).filter(p(2)).filter(p(3));
            Rc::new(g)
        }
    }
}

pub fn c18() {
    let subject = Subject(Rc::new(RefCell::new((0, Vec::new()))));
    let nchain = 1 + work(3) as usize;
    let panics = fault(1, 3);
    let rules: Vec<Vec<(u8, u8)>> = (0..nchain)
        .map(|_| {
            (0..1 + work(4) as usize)
                .map(|_| {
                    let ok = 63 & !(work(64) as u8 & work(64) as u8);
                    let p = if panics && fault(1, 3) { 1 << ctl::pick(St::Fault, RES) } else { 0 };
                    (ok, p)
                })
                .collect()
        })
        .collect();
    let nops = if wchance(1, 1000) { 100 + work(300) } else { 4 + small(St::Work, 40) } as usize;
    let obs_panic = if panics && fault(1, 2) { 1 << ctl::pick(St::Fault, RES) } else { 0 };
    let actions: Vec<(usize, u32, u8)> = (0..small(St::Work, 4)).map(|_| (work(4) as usize, 1 + work(4), work(20) as u8)).collect();
    W.with(|w| {
        *w.borrow_mut() = Some(World {
            subject: subject.clone(),
            rules: rules.clone(),
            subs: Vec::new(),
            handles: Vec::new(),
            makers: Vec::new(),
            next_item: 0,
            now: Vec::new(),
            obs_panic,
            actions: actions.clone(),
        })
    });
    for (c, r) in rules.iter().enumerate() {
        let m = chain(&subject, c, r.len());
        with(|w| w.makers.push(Some(m)));
    }
    ctl::set_context(|| format!("filter chains (bit sets of passing and panicking item residues) {rules:?}; observers panic on {obs_panic:#b}; actions {actions:?}"));
    subscribe(work(nchain as u32) as usize);
    for _ in 0..nops {
        match work(8) {
            0..=4 => {
                publish(false);
            }
            5 | 6 => subscribe(work(nchain as u32) as usize),
            _ if wchance(1, 6) => release(work(nchain as u32) as usize),
            _ => {
                let k = with(|w| w.subs.len());
                if k > 0 {
                    end(work(k as u32) as usize);
                }
            }
        }
    }
    let k = with(|w| w.subs.len());
    cnt!("filter.subscriptions", k);
    cnt!("filter.items", with(|w| w.next_item));
    for i in 0..k {
        end(i);
    }
    let w = W.with(|w| w.borrow_mut().take()).unwrap();
    for (i, s) in w.subs.iter().enumerate() {
        check!(s.got == s.want, "delivery", "subscription {i} received {:?}, expected {:?}", s.got, s.want);
    }
    drop(w);
}
