//! Tracked values: each is created once, must be released once, and notices garbage.

use crate::check;
use std::cell::RefCell;

const CANARY: u64 = 0x70CE_70CE_5EED_0001;

thread_local! {
    static REG: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static ZST: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) };
}

#[derive(Debug)]
pub struct Tok {
    id: u64,
    canary: u64,
    heap: Box<u64>,
}

impl Tok {
    pub fn new() -> Tok {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            let _q = crate::alloc::quiet();
            r.push(1);
            r.len() as u64 - 1
        });
        Tok {
            id,
            canary: CANARY ^ id.wrapping_mul(0x9E37_79B9_7F4A_7C15),
            heap: Box::new(id),
        }
    }
    pub fn verify(&self, what: &str) {
        check!(
            self.canary == CANARY ^ self.id.wrapping_mul(0x9E37_79B9_7F4A_7C15),
            "value:garbage",
            "{what}: a value holds garbage (id {:#x}, canary {:#x})",
            self.id,
            self.canary
        );
        let st = REG.with(|r| r.borrow().get(self.id as usize).copied());
        check!(st == Some(1), "value:double-release", "{what}: value {} is used after its release", self.id);
        check!(*self.heap == self.id, "value:garbage", "{what}: the contents of value {} were overwritten", self.id);
    }
    pub fn id(&self) -> u64 {
        self.id
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.verify("clone");
        Tok::new()
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        check!(
            self.canary == CANARY ^ self.id.wrapping_mul(0x9E37_79B9_7F4A_7C15),
            "value:garbage",
            "garbage was released as if it were a value (id {:#x}, canary {:#x})",
            self.id,
            self.canary
        );
        let st = REG.with(|r| {
            r.borrow_mut()
                .get_mut(self.id as usize)
                .map(|s| std::mem::replace(s, 2))
        });
        check!(st == Some(1), "value:double-release", "value {} was released twice", self.id);
        check!(*self.heap == self.id, "value:garbage", "the contents of value {} were overwritten", self.id);
        self.canary = 0xDEAD;
    }
}

/// A tracked value of size zero.
#[derive(Debug)]
pub struct Zst(());
impl Zst {
    pub fn new() -> Zst {
        ZST.with(|z| {
            let (a, b) = z.get();
            z.set((a + 1, b));
        });
        Zst(())
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST.with(|z| {
            let (a, b) = z.get();
            check!(b < a, "value:double-release", "more zero-sized values were released than made");
            z.set((a, b + 1));
        })
    }
}

pub fn reset() {
    REG.with(|r| r.borrow_mut().clear());
    ZST.with(|z| z.set((0, 0)));
}

pub fn live() -> u64 {
    let z = ZST.with(|z| z.get());
    REG.with(|r| r.borrow().iter().filter(|s| **s == 1).count() as u64) + (z.0 - z.1)
}

pub fn made() -> u64 {
    REG.with(|r| r.borrow().len() as u64) + ZST.with(|z| z.get().0)
}

/// At the end of a run every value must have been released.
pub fn check_none(what: &str) {
    let n = live();
    check!(n == 0, "value:leak", "{what}: {n} value(s) were never released");
}
