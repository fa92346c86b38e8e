//! A checking global allocator: every block carries its layout and red zones, freed blocks are
//! poisoned and kept for a while, zero-size requests and mismatching layouts are reported.
//! The worker is single-threaded, so plain statics suffice; the parent process runs with checks off.

use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::addr_of_mut;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Checking;

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
static QUIET: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

const MAGIC: u64 = 0x51AFE0B10C4A110C;
const FREED: u64 = 0xDEADF2EEDB10C000;
const TAIL: usize = 32;
const TAILB: u8 = 0xC7;
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDD;

#[repr(C)]
struct Head {
    size: usize,
    align: u32,
    counted: u32,
    magic: u64,
    guard: u64,
}

const QN: usize = 256;
const QBYTES: usize = 4 << 20;
struct Quarantine {
    q: [(*mut u8, usize, usize); QN],
    at: usize,
    bytes: usize,
}
static mut Q: Quarantine = Quarantine {
    q: [(std::ptr::null_mut(), 0, 0); QN],
    at: 0,
    bytes: 0,
};

pub fn on() {
    ON.store(true, Ordering::Relaxed)
}
pub fn off() {
    ON.store(false, Ordering::Relaxed)
}
pub fn live() -> (usize, usize) {
    (LIVE.load(Ordering::Relaxed), BLOCKS.load(Ordering::Relaxed))
}
/// Blocks allocated while this lives belong to the harness and are not counted as live.
pub struct Quiet(());
pub fn quiet() -> Quiet {
    QUIET.store(QUIET.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
    Quiet(())
}
impl Drop for Quiet {
    fn drop(&mut self) {
        QUIET.store(QUIET.load(Ordering::Relaxed) - 1, Ordering::Relaxed);
    }
}
/// Reports a violation once more than `n` bytes are live.
pub fn limit(n: usize) {
    LIMIT.store(n, Ordering::Relaxed)
}

fn bad(class: &str, msg: &str) -> ! {
    off();
    crate::ctl::violation(class, msg)
}

fn front(align: usize) -> usize {
    // keeps the user pointer aligned and leaves room for the header right before it
    let h = std::mem::size_of::<Head>();
    h.max(align).next_multiple_of(align)
}

fn total(l: &Layout) -> Layout {
    let f = front(l.align().max(16));
    Layout::from_size_align(f + l.size() + TAIL, l.align().max(16)).unwrap()
}

unsafe fn head(p: *mut u8) -> *mut Head {
    (p as *mut Head).sub(1)
}

unsafe fn check_block(p: *mut u8, what: &str) -> (usize, usize) {
    let h = &*head(p);
    if h.magic == FREED {
        bad("memory:double-free", &format!("{what} of a block that was already released"));
    }
    if h.magic != MAGIC || h.guard != MAGIC.rotate_left(13) ^ h.size as u64 {
        bad("memory:corrupt", &format!("{what}: memory before the block was overwritten, or it was never allocated"));
    }
    let (size, align) = (h.size, h.align as usize);
    for i in 0..TAIL {
        if *p.add(size + i) != TAILB {
            bad("memory:overflow", &format!("{what}: {} bytes behind a block of {size} bytes were overwritten", i + 1));
        }
    }
    (size, align)
}

unsafe fn release(p: *mut u8, size: usize, align: usize) {
    let l = total(&Layout::from_size_align_unchecked(size, align));
    System.dealloc(p.sub(front(align.max(16))), l);
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 && ON.load(Ordering::Relaxed) {
            bad("memory:zero-size-alloc", "an allocation of size zero was requested");
        }
        let live = LIVE.load(Ordering::Relaxed) + l.size();
        if live > LIMIT.load(Ordering::Relaxed) && ON.load(Ordering::Relaxed) {
            bad("memory:runaway", &format!("{live} bytes of live memory"));
        }
        let t = total(&l);
        let b = System.alloc(t);
        if b.is_null() {
            return b;
        }
        let p = b.add(front(l.align().max(16)));
        *head(p) = Head {
            size: l.size(),
            align: l.align() as u32,
            counted: (QUIET.load(Ordering::Relaxed) == 0) as u32,
            magic: MAGIC,
            guard: MAGIC.rotate_left(13) ^ l.size() as u64,
        };
        if ON.load(Ordering::Relaxed) && l.size() <= 65536 {
            std::ptr::write_bytes(p, FRESH, l.size());
        }
        std::ptr::write_bytes(p.add(l.size()), TAILB, TAIL);
        if QUIET.load(Ordering::Relaxed) == 0 {
            LIVE.store(live, Ordering::Relaxed);
            BLOCKS.store(BLOCKS.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let on = ON.load(Ordering::Relaxed);
        let (size, align) = if on { check_block(p, "release") } else { ((*head(p)).size, (*head(p)).align as usize) };
        if on && (size != l.size() || align != l.align()) {
            bad(
                "memory:layout",
                &format!("a block of {size} bytes (align {align}) was released as {} bytes (align {})", l.size(), l.align()),
            );
        }
        if (*head(p)).counted == 1 {
            LIVE.store(LIVE.load(Ordering::Relaxed).wrapping_sub(size), Ordering::Relaxed);
            BLOCKS.store(BLOCKS.load(Ordering::Relaxed).wrapping_sub(1), Ordering::Relaxed);
        }
        (*head(p)).magic = FREED;
        if on && size <= 65536 {
            std::ptr::write_bytes(p, DEAD, size);
            let q = &mut *addr_of_mut!(Q);
            let old = q.q[q.at];
            q.q[q.at] = (p, size, align);
            q.at = (q.at + 1) % QN;
            q.bytes += size;
            if !old.0.is_null() {
                self.evict(old);
            }
            let mut k = q.at;
            while q.bytes > QBYTES {
                let e = q.q[k];
                q.q[k] = (std::ptr::null_mut(), 0, 0);
                if !e.0.is_null() {
                    self.evict(e);
                }
                k = (k + 1) % QN;
            }
        } else {
            release(p, size, align);
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ON.load(Ordering::Relaxed) {
            if new == 0 {
                bad("memory:zero-size-alloc", "a reallocation to size zero was requested");
            }
            let (size, align) = check_block(p, "reallocation");
            if size != l.size() || align != l.align() {
                bad(
                    "memory:layout",
                    &format!("a block of {size} bytes (align {align}) was reallocated as {} bytes (align {})", l.size(), l.align()),
                );
            }
        }
        let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
            self.dealloc(p, l);
        }
        n
    }
}

impl Checking {
    unsafe fn evict(&self, (p, size, align): (*mut u8, usize, usize)) {
        let q = &mut *addr_of_mut!(Q);
        q.bytes -= size;
        if ON.load(Ordering::Relaxed) {
            // blocks released outside the checked phase are not poisoned and never enter the queue
            let s = std::slice::from_raw_parts(p, size);
            if s.iter().any(|b| *b != DEAD) {
                bad("memory:use-after-free", &format!("a released block of {size} bytes was written to"));
            }
        }
        release(p, size, align);
    }
}
