//! Run control: the three decision streams, the event log, counters and violation reports.
//!
//! Every decision of a run is drawn from one of three streams of one seeded generator: the workload
//! (what is executed), the schedule (who runs next, how input is cut and delayed) and the faults.
//! The drawn values are recorded in a file-backed region that survives a crash of the process, so any
//! run can be replayed from its recorded values alone. The value 0 is always the simplest choice.

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Work = 0,
    Sched = 1,
    Fault = 2,
}

pub const NSTREAM: usize = 3;
pub const CAP: usize = 1 << 22;
/// Region layout (u64 words): [0] run index, [1] runs done, [2] hang flag, [3..6] stream lengths.
pub const HDR: usize = 16;
pub const REGION: usize = HDR * 8 + NSTREAM * CAP * 4;

struct Ctl {
    region: *mut u8,
    rng: [u64; NSTREAM],
    replay: [Option<Vec<u32>>; NSTREAM],
    pos: [usize; NSTREAM],
    hash: u64,
    events: u64,
    tracing: bool,
    trace: Vec<String>,
    dry: bool,
}

struct Cell0(std::cell::UnsafeCell<Option<Ctl>>);
unsafe impl Sync for Cell0 {}
static CTL: Cell0 = Cell0(std::cell::UnsafeCell::new(None));

fn ctl() -> &'static mut Ctl {
    // The worker process is single-threaded.
    unsafe { (*CTL.0.get()).as_mut().expect("ctl not initialised") }
}

pub fn init(region: *mut u8) {
    unsafe {
        *CTL.0.get() = Some(Ctl {
            region,
            rng: [0; NSTREAM],
            replay: [None, None, None],
            pos: [0; NSTREAM],
            hash: 0,
            events: 0,
            tracing: false,
            trace: Vec::new(),
            dry: false,
        });
    }
}

fn word(i: usize) -> &'static AtomicU64 {
    unsafe { &*(ctl().region as *const AtomicU64).add(i) }
}

pub fn hdr(i: usize) -> u64 {
    word(i).load(Ordering::Relaxed)
}
pub fn set_hdr(i: usize, v: u64) {
    word(i).store(v, Ordering::Relaxed)
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}

pub fn begin_run(seed: u64, prop: &str, index: u64, replay: Option<[Vec<u32>; NSTREAM]>, tracing: bool) {
    let c = ctl();
    let base = mix(seed) ^ mix(hash_str(prop)).rotate_left(17) ^ mix(index ^ 0xABCD).rotate_left(31);
    if c.pos.iter().any(|p| p * 4 > CAP) {
        // a run that came near the recorder's end; correct code with more steps could pass it
        crate::cnt!("limit.choices_above_a_quarter");
    }
    for s in 0..NSTREAM {
        c.rng[s] = mix(base ^ mix(s as u64 + 77));
        c.pos[s] = 0;
    }
    match replay {
        Some(r) => c.replay = r.map(Some),
        None => c.replay = [None, None, None],
    }
    c.hash = 0xcbf29ce484222325;
    c.events = 0;
    c.tracing = tracing;
    c.trace.clear();
    for s in 0..NSTREAM {
        set_hdr(3 + s, 0);
    }
    set_hdr(0, index);
}

#[inline]
fn raw(s: usize) -> u64 {
    let c = ctl();
    c.rng[s] = c.rng[s].wrapping_add(0x9E3779B97F4A7C15);
    let mut x = c.rng[s];
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

/// Draws a value in `0..n` from stream `s` and records it.
pub fn pick(s: St, n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let s = s as usize;
    let c = ctl();
    let p = c.pos[s];
    let v = match &c.replay[s] {
        Some(r) => {
            if p < r.len() {
                r[p] % n
            } else {
                0
            }
        }
        None => ((raw(s) >> 32) * n as u64 >> 32) as u32,
    };
    if p >= CAP {
        violation("harness:too-many-choices", "the run drew more decisions than the recorder holds");
    }
    unsafe {
        let base = c.region.add(HDR * 8 + s * CAP * 4) as *mut u32;
        *base.add(p) = v;
    }
    c.pos[s] = p + 1;
    set_hdr(3 + s, p as u64 + 1);
    v
}

pub fn recorded(s: usize) -> Vec<u32> {
    let c = ctl();
    let n = hdr(3 + s) as usize;
    unsafe {
        let base = c.region.add(HDR * 8 + s * CAP * 4) as *const u32;
        std::slice::from_raw_parts(base, n).to_vec()
    }
}

/// True with probability num/den; 0 is "no".
pub fn chance(s: St, num: u32, den: u32) -> bool {
    if num == 0 {
        return false;
    }
    pick(s, den) >= den - num.min(den)
}

/// A small number, biased towards 0, at most `max`.
pub fn small(s: St, max: u32) -> u32 {
    match pick(s, 4) {
        0 => 0.min(max),
        1 => pick(s, max.min(2) + 1),
        2 => pick(s, max.min(5) + 1),
        _ => pick(s, max + 1),
    }
}

pub fn work(n: u32) -> u32 {
    pick(St::Work, n)
}
pub fn sched(n: u32) -> u32 {
    pick(St::Sched, n)
}
pub fn fault(num: u32, den: u32) -> bool {
    chance(St::Fault, num, den)
}
pub fn wchance(num: u32, den: u32) -> bool {
    chance(St::Work, num, den)
}

pub fn tracing() -> bool {
    ctl().tracing
}

pub fn note(code: u64, a: u64, b: u64) {
    let c = ctl();
    c.events += 1;
    let mut h = c.hash;
    for v in [code, a, b] {
        h = (h ^ v).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    c.hash = h;
}

pub fn take_trace() -> Vec<String> {
    std::mem::take(&mut ctl().trace)
}

pub fn push_trace(s: String) {
    let c = ctl();
    if c.trace.len() < 20_000 {
        c.trace.push(s);
    }
}

thread_local! {
    static SKIPPED: Cell<bool> = const { Cell::new(false) };
}
/// The case was not executed (too big); the run does not count as non-trivial.
pub fn skip() {
    SKIPPED.with(|s| s.set(true));
}
pub fn take_skipped() -> bool {
    SKIPPED.with(|s| s.replace(false))
}

pub fn run_hash() -> (u64, u64) {
    (ctl().hash, ctl().events)
}

/// Event log: `ev!(code, a, b; "text {}", x)`. The numbers enter the run's hash; the text is only
/// rendered when a replay is traced.
#[macro_export]
macro_rules! ev {
    ($code:expr, $a:expr, $b:expr; $($f:tt)*) => {{
        $crate::weak::sync();
        $crate::ctl::note($code as u64, $a as u64, $b as u64);
        if $crate::ctl::tracing() {
            let _q = $crate::alloc::quiet();
            $crate::ctl::push_trace(format!($($f)*));
        }
    }};
}

/// Trace text only (does not enter the hash).
#[macro_export]
macro_rules! tr {
    ($($f:tt)*) => {{
        if $crate::ctl::tracing() {
            let _q = $crate::alloc::quiet();
            $crate::ctl::push_trace(format!($($f)*));
        }
    }};
}

// ------------------------------------------------------------------------------------------ counters

pub struct Counter {
    pub name: &'static str,
    n: AtomicU64,
    reg: AtomicU64,
}

struct Reg(RefCell<Vec<&'static Counter>>);
unsafe impl Sync for Reg {}
static REG: Reg = Reg(RefCell::new(Vec::new()));

impl Counter {
    pub const fn new(name: &'static str) -> Self {
        Self {
            name,
            n: AtomicU64::new(0),
            reg: AtomicU64::new(0),
        }
    }
    #[inline]
    pub fn add(&'static self, k: u64) {
        if self.reg.load(Ordering::Relaxed) == 0 {
            self.reg.store(1, Ordering::Relaxed);
            let _q = crate::alloc::quiet();
            REG.0.borrow_mut().push(self);
        }
        self.n.store(self.n.load(Ordering::Relaxed) + k, Ordering::Relaxed);
    }
}

pub fn counters() -> Vec<(&'static str, u64)> {
    let mut m = std::collections::BTreeMap::new();
    for c in REG.0.borrow().iter() {
        *m.entry(c.name).or_insert(0) += c.n.load(Ordering::Relaxed);
    }
    m.into_iter().collect()
}

/// Counts an occurrence of a fault, probe or fact that the evidence file reports.
#[macro_export]
macro_rules! cnt {
    ($name:literal) => {
        $crate::cnt!($name, 1)
    };
    ($name:literal, $k:expr) => {{
        static C: $crate::ctl::Counter = $crate::ctl::Counter::new($name);
        C.add($k as u64);
    }};
}

// ------------------------------------------------------------------------------------------ violations

thread_local! {
    static IN_RUN: Cell<bool> = const { Cell::new(false) };
    static REPORT: RefCell<Option<std::path::PathBuf>> = const { RefCell::new(None) };
    static CONTEXT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn set_in_run(b: bool) {
    IN_RUN.with(|c| c.set(b));
}
pub fn in_run() -> bool {
    IN_RUN.with(|c| c.get())
}
pub fn set_report_path(p: &std::path::Path) {
    REPORT.with(|r| *r.borrow_mut() = Some(p.to_path_buf()));
}
/// A human-readable description of the case being run, included in reports and samples.
pub fn set_context(f: impl FnOnce() -> String) {
    if tracing() {
        let _q = crate::alloc::quiet();
        let s = f();
        push_trace(format!("case: {s}"));
        CONTEXT.with(|c| *c.borrow_mut() = s);
    }
}
pub fn context() -> String {
    CONTEXT.with(|c| c.borrow().clone())
}
pub fn clear_context() {
    CONTEXT.with(|c| c.borrow_mut().clear());
}

pub const EXIT_VIOLATION: i32 = 3;
pub const EXIT_HANG: i32 = 4;

/// Reports a violation of the property being checked and ends the process.
pub fn violation(class: &str, msg: &str) -> ! {
    crate::alloc::off();
    if ctl().dry {
        unsafe { libc::_exit(EXIT_VIOLATION) }
    }
    let mut out = String::new();
    out.push_str(class);
    out.push('\n');
    out.push_str(&msg.replace('\n', "\\n"));
    out.push('\n');
    for t in &ctl().trace {
        out.push_str(&t.replace('\n', "\\n"));
        out.push('\n');
    }
    let path = REPORT.with(|r| r.try_borrow().ok().and_then(|r| r.clone()));
    match path {
        Some(p) => {
            let _ = std::fs::write(p, out);
        }
        None => eprintln!("{out}"),
    }
    unsafe { libc::_exit(EXIT_VIOLATION) }
}

#[macro_export]
macro_rules! violate {
    ($class:expr, $($f:tt)*) => {
        $crate::ctl::violation($class, &format!($($f)*))
    };
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($f:tt)*) => {
        if !($cond) {
            $crate::ctl::violation($class, &format!($($f)*))
        }
    };
}

/// Payload of panics the simulator injects.
pub struct Injected;

pub fn inject_panic() -> ! {
    std::panic::panic_any(Injected)
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        if in_run() {
            let short = file.rsplit("crates/").next().unwrap_or(&file).to_string();
            violation(&format!("panic:{short}"), &format!("panicked at {file}:{line}: {msg}"));
        }
        eprintln!("harness panic at {file}:{line}: {msg}");
    }));
}

/// Memory of the process as one region shared with the file at `path`.
pub fn map_region(path: &std::path::Path, create: bool) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .open(path)
        .expect("open region");
    f.set_len(REGION as u64).expect("size region");
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            REGION,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        p as *mut u8
    }
}
