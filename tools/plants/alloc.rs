#![allow(dead_code)]
// An allocator that checks layouts and overwrites released memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
pub struct Checked;
pub static BAD: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
const H: usize = 64;
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align(l.size() + H, H.max(l.align())).unwrap());
        (p as *mut usize).write(l.size());
        LIVE.fetch_add(1, Ordering::SeqCst);
        p.add(H)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let b = p.sub(H);
        let n = (b as *mut usize).read();
        if n != l.size() {
            BAD.store(true, Ordering::SeqCst);
        }
        LIVE.fetch_sub(1, Ordering::SeqCst);
        std::ptr::write_bytes(p, 0xAA, n);
        // never reused, so that later accesses see the pattern
    }
}
