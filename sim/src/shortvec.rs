//! Histories of the small vector against a plain list.

use crate::alloc;
use crate::ctl::{fault, small, wchance, work, St};
use crate::tok::{self, Tok, Zst};
use crate::{check, cnt, ev};
use parcom_internals::ShortVec;
use std::panic::{catch_unwind, AssertUnwindSafe};

trait Val: 'static {
    fn make() -> Self;
    fn id(&self) -> u64;
}
impl Val for Tok {
    fn make() -> Tok {
        Tok::new()
    }
    fn id(&self) -> u64 {
        self.verify("an element of the small vector");
        Tok::id(self)
    }
}
impl Val for Zst {
    fn make() -> Zst {
        Zst::new()
    }
    fn id(&self) -> u64 {
        0
    }
}
impl Val for () {
    fn make() {}
    fn id(&self) -> u64 {
        0
    }
}
/// Large and strongly aligned.
#[repr(align(64))]
struct Big {
    a: [u64; 13],
    t: Tok,
}
impl Val for Big {
    fn make() -> Big {
        let t = Tok::new();
        Big { a: [t.id(); 13], t }
    }
    fn id(&self) -> u64 {
        check!(
            (self as *const Big as usize) % 64 == 0,
            "memory:align",
            "an element with alignment 64 lies at {:p}",
            self
        );
        self.t.verify("a large element");
        check!(self.a == [self.t.id(); 13], "value:garbage", "a large element was overwritten");
        self.t.id()
    }
}
impl Val for u8 {
    fn make() -> u8 {
        let n = COUNT.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        n as u8
    }
    fn id(&self) -> u64 {
        *self as u64
    }
}
thread_local! {
    static COUNT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Panics when released, if armed.
struct Bomb(Tok, u64);
thread_local! {
    static FUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
impl Val for Bomb {
    fn make() -> Bomb {
        let t = Tok::new();
        let id = t.id();
        Bomb(t, id)
    }
    fn id(&self) -> u64 {
        self.0.verify("an element");
        self.1
    }
}
impl Drop for Bomb {
    fn drop(&mut self) {
        if FUSE.with(|f| f.get()) == self.1 && !std::thread::panicking() {
            FUSE.with(|f| f.set(u64::MAX));
            cnt!("fault.panic_injected");
            crate::ctl::inject_panic();
        }
    }
}

fn cap(n: u32) -> usize {
    if wchance(1, 60) {
        [255, 256, 257, 1000, 4095, 4096, 65535, 65536][work(8) as usize]
    } else {
        small(St::Work, n) as usize
    }
}

fn history<T: Val, const N: usize>(name: &str) {
    crate::ctl::set_context(|| format!("small vector of {name}, {N} inline"));
    COUNT.with(|c| c.set(0));
    let base = tok::live();
    let before = alloc::live().1;
    {
        let mut v: ShortVec<T, N> = match work(3) {
            0 => ShortVec::new(),
            1 => ShortVec::default(),
            _ => ShortVec::with_capacity(cap(12)),
        };
        let mut want: Vec<u64> = Vec::new();
        let long = wchance(1, 100);
        let steps = if long { 200 + work(2000) } else { small(St::Work, 60) };
        let grow = wchance(1, 2);
        for i in 0..steps {
            match if long && grow && wchance(1, 2) { 0 } else { work(10) } {
                0..=4 => {
                    let t = T::make();
                    want.push(t.id());
                    v.push(t);
                    ev!(0x70, want.len(), 0; "push -> {} elements", want.len());
                }
                5 | 6 => {
                    let got = v.pop();
                    ev!(0x71, want.len(), 0; "pop of {} elements", want.len());
                    match (got, want.pop()) {
                        (Some(t), Some(w)) => check!(t.id() == w, "shortvec", "pop returned element {} instead of {w}", t.id()),
                        (None, None) => {}
                        (g, w) => crate::violate!("shortvec", "pop returned {:?} instead of {w:?}", g.map(|t| t.id())),
                    }
                }
                7 => {
                    let n = cap(30);
                    ev!(0x72, n, 0; "reserve {n}");
                    v.reserve(n);
                }
                8 => {
                    let n = cap(30);
                    ev!(0x73, n, 0; "reserve_exact {n}");
                    v.reserve_exact(n);
                }
                _ => {
                    if !want.is_empty() && wchance(1, 2) {
                        // replace one element through the mutable view
                        let k = work(want.len() as u32) as usize;
                        let t = T::make();
                        want[k] = t.id();
                        v.as_slice_mut()[k] = t;
                        ev!(0x74, k, 0; "replace element {k}");
                    }
                }
            }
            if (i % 3 == 0 && !long) || i % 128 == 0 || i + 1 == steps || steps < 20 {
                let got: Vec<u64> = v.as_slice().iter().map(|t| t.id()).collect();
                check!(got == want, "shortvec", "the vector holds {got:?} instead of {want:?}");
                check!(v.is_empty() == want.is_empty(), "shortvec", "is_empty is wrong for {} elements", want.len());
                check!(
                    want.is_empty() || v.as_ptr() == v.as_slice().as_ptr(),
                    "shortvec",
                    "as_ptr and as_slice disagree"
                );
            }
        }
        if want.len() > N {
            cnt!("probe.spilled");
        }
        if wchance(1, 8) {
            // moving the vector moves its elements
            let w = Box::new(v);
            let got: Vec<u64> = w.as_slice().iter().map(|t| t.id()).collect();
            check!(got == want, "shortvec", "after a move the vector holds {got:?} instead of {want:?}");
            v = *w;
        }
        ev!(0x75, want.len(), 0; "drop with {} elements", want.len());
        if fault(1, 4) && !want.is_empty() {
            let k = want[crate::ctl::pick(St::Fault, want.len() as u32) as usize];
            FUSE.with(|f| f.set(k));
            let _ = catch_unwind(AssertUnwindSafe(|| drop(v)));
            let exploded = FUSE.with(|f| f.replace(u64::MAX)) == u64::MAX;
            if exploded {
                // a leaked buffer is tolerated when an element's own release panics
                check!(
                    tok::live() == base,
                    "value:leak",
                    "{} element(s) were not released when releasing one of them panicked",
                    tok::live() - base
                );
                return;
            }
        } else {
            drop(v);
        }
    }
    check!(
        tok::live() == base,
        "value:leak",
        "{} element(s) of the small vector were never released",
        tok::live() as i64 - base as i64
    );
    let after = alloc::live().1;
    check!(
        after == before,
        "memory:leak",
        "{} block(s) of memory were not returned",
        after as i64 - before as i64
    );
}

pub fn run() {
    match work(14) {
        0 | 1 => history::<Tok, 4>("tracked values"),
        2 => history::<Tok, 0>("tracked values"),
        3 => history::<Tok, 1>("tracked values"),
        4 => history::<Tok, 7>("tracked values"),
        5 => history::<Zst, 4>("tracked zero-sized values"),
        6 => history::<Zst, 0>("tracked zero-sized values"),
        7 => history::<(), 2>("units"),
        8 => history::<Big, 2>("large aligned values"),
        9 => history::<Big, 0>("large aligned values"),
        10 => history::<u8, 3>("bytes"),
        11 => history::<u8, 16>("bytes"),
        12 => history::<Bomb, 2>("values whose release panics"),
        _ => history::<Bomb, 4>("values whose release panics"),
    }
}
