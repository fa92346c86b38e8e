//! `parcom_sim_std`: a facade of the standard library for deterministic simulation.
//!
//! Everything is re-exported from the real `std`, except the blocking and atomic primitives, which
//! call into the simulator before every operation (a scheduling point) and block through it.
//! When no simulator is installed they behave like ordinary single-threaded primitives.
#![allow(clippy::all)]

pub use ::std::*;

pub mod sim {
    use ::std::sync::atomic::{AtomicPtr, Ordering};

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(u8)]
    pub enum Op {
        Load,
        Store,
        Rmw,
        Fence,
        Lock,
        Unlock,
        RLock,
        RUnlock,
        Wait,
        Notify,
        OnceGet,
        OnceSet,
        Yield,
        Spin,
    }

    pub struct Hooks {
        /// Scheduling point immediately before an operation on the object at `addr`.
        pub point: fn(op: Op, addr: usize),
        /// Blocks the calling simulated thread until `wake` is called for `addr`.
        pub block: fn(addr: usize),
        /// Makes threads blocked on `addr` runnable (one of them, or all).
        pub wake: fn(addr: usize, all: bool),
        /// Whether a weak compare-exchange or a condition wait should fail or return spuriously.
        pub spurious: fn() -> bool,
        /// Whether the calling simulated thread is unwinding.
        pub panicking: fn() -> bool,
        /// Weak memory: the value a load returns, given the latest one.
        pub load: fn(loc: &Loc, latest: u64, o: Ordering) -> u64,
        pub store: fn(loc: &Loc, old: u64, new: u64, o: Ordering),
        /// `new` is `None` for a failed compare-exchange.
        pub rmw: fn(loc: &Loc, old: u64, new: Option<u64>, o: Ordering),
        pub fence: fn(o: Ordering),
        /// Entering and leaving a critical section (or any other pair that synchronises).
        pub acquire: fn(loc: &Loc),
        pub release: fn(loc: &Loc),
    }

    /// Names a memory location in the simulator's tables; 0 until it is first used.
    #[derive(Default)]
    pub struct Loc(pub ::std::sync::atomic::AtomicU64);
    impl Loc {
        pub const fn new() -> Loc {
            Loc(::std::sync::atomic::AtomicU64::new(0))
        }
        pub fn forget(&self) {
            self.0.store(0, Ordering::Relaxed)
        }
    }
    pub(crate) fn load(l: &Loc, latest: u64, o: Ordering) -> u64 {
        hooks().map_or(latest, |h| (h.load)(l, latest, o))
    }
    pub(crate) fn store(l: &Loc, old: u64, new: u64, o: Ordering) {
        if let Some(h) = hooks() {
            (h.store)(l, old, new, o)
        }
    }
    pub(crate) fn rmw(l: &Loc, old: u64, new: Option<u64>, o: Ordering) {
        if let Some(h) = hooks() {
            (h.rmw)(l, old, new, o)
        }
    }
    pub(crate) fn fence(o: Ordering) {
        if let Some(h) = hooks() {
            (h.fence)(o)
        }
    }
    pub(crate) fn acquire(l: &Loc) {
        if let Some(h) = hooks() {
            (h.acquire)(l)
        }
    }
    pub(crate) fn release(l: &Loc) {
        if let Some(h) = hooks() {
            (h.release)(l)
        }
    }

    static HOOKS: AtomicPtr<Hooks> = AtomicPtr::new(::std::ptr::null_mut());

    pub fn install(h: &'static Hooks) {
        HOOKS.store(h as *const Hooks as *mut Hooks, Ordering::SeqCst);
    }
    #[inline]
    pub(crate) fn hooks() -> Option<&'static Hooks> {
        unsafe { HOOKS.load(Ordering::Relaxed).as_ref() }
    }
    #[inline]
    pub(crate) fn point(op: Op, addr: usize) {
        if let Some(h) = hooks() {
            (h.point)(op, addr)
        }
    }
    pub(crate) fn block(addr: usize) {
        match hooks() {
            Some(h) => (h.block)(addr),
            None => panic!("parcom_sim_std: blocking operation outside the simulator"),
        }
    }
    pub(crate) fn wake(addr: usize, all: bool) {
        if let Some(h) = hooks() {
            (h.wake)(addr, all)
        }
    }
    pub(crate) fn spurious() -> bool {
        hooks().map_or(false, |h| (h.spurious)())
    }
    pub(crate) fn panicking() -> bool {
        hooks().map_or_else(::std::thread::panicking, |h| (h.panicking)())
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::sim::point(crate::sim::Op::Spin, 0);
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::sim::point(crate::sim::Op::Yield, 0);
    }
    pub fn sleep(_: ::std::time::Duration) {
        crate::sim::point(crate::sim::Op::Yield, 0);
    }
    pub fn panicking() -> bool {
        crate::sim::panicking()
    }
}

pub mod sync {
    pub use self::imp::{
        Barrier, BarrierWaitResult, Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, OnceState,
        RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult,
    };
    pub use ::std::sync::{mpsc, Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};

    pub mod atomic {
        use crate::sim::{load, point, rmw, store, Loc, Op};
        pub use ::std::sync::atomic::{compiler_fence, Ordering};
        use ::std::sync::atomic as real;

        pub fn fence(o: Ordering) {
            point(Op::Fence, 0);
            real::fence(o);
            crate::sim::fence(o)
        }

        trait Bits: Copy {
            fn bits(self) -> u64;
            fn from(b: u64) -> Self;
        }
        macro_rules! bits {
            ($($t:ty)*) => { $(impl Bits for $t {
                fn bits(self) -> u64 { self as u64 }
                fn from(b: u64) -> Self { b as $t }
            })* };
        }
        bits!(usize isize u8 u16 u32 u64 i8 i16 i32 i64);
        impl Bits for bool {
            fn bits(self) -> u64 {
                self as u64
            }
            fn from(b: u64) -> Self {
                b != 0
            }
        }
        impl<T> Bits for *mut T {
            fn bits(self) -> u64 {
                self as usize as u64
            }
            fn from(b: u64) -> Self {
                b as usize as *mut T
            }
        }

        macro_rules! common {
            ($n:ident, $t:ty, [$($g:tt)*]) => {
                impl<$($g)*> $n<$($g)*> {
                    pub const fn new(v: $t) -> Self { Self(real::$n::new(v), Loc::new()) }
                    fn a(&self) -> usize { self as *const _ as *const u8 as usize }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.1.forget();
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                    pub fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
                    pub fn load(&self, o: Ordering) -> $t {
                        point(Op::Load, self.a());
                        <$t as Bits>::from(load(&self.1, self.0.load(o).bits(), o))
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        point(Op::Store, self.a());
                        let old = self.0.load(Ordering::Relaxed);
                        self.0.store(v, o);
                        store(&self.1, old.bits(), v.bits(), o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        point(Op::Rmw, self.a());
                        let old = self.0.swap(v, o);
                        rmw(&self.1, old.bits(), Some(v.bits()), o);
                        old
                    }
                    pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point(Op::Rmw, self.a());
                        let r = self.0.compare_exchange(c, n, s, f);
                        match r {
                            Ok(old) => rmw(&self.1, old.bits(), Some(n.bits()), s),
                            Err(old) => rmw(&self.1, old.bits(), None, f),
                        }
                        r
                    }
                    pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point(Op::Rmw, self.a());
                        if crate::sim::spurious() {
                            let old = self.0.load(f);
                            rmw(&self.1, old.bits(), None, f);
                            return Err(old);
                        }
                        let r = self.0.compare_exchange(c, n, s, f);
                        match r {
                            Ok(old) => rmw(&self.1, old.bits(), Some(n.bits()), s),
                            Err(old) => rmw(&self.1, old.bits(), None, f),
                        }
                        r
                    }
                    #[allow(deprecated)]
                    pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                        match self.compare_exchange(c, n, o, Ordering::SeqCst) {
                            Ok(v) | Err(v) => v,
                        }
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(next) = g(prev) {
                            match self.compare_exchange_weak(prev, next, s, f) {
                                x @ Ok(_) => return x,
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                    pub fn try_update(&self, s: Ordering, f: Ordering, g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                        self.fetch_update(s, f, g)
                    }
                    pub fn update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> $t) -> $t {
                        match self.fetch_update(s, f, |v| Some(g(v))) {
                            Ok(v) | Err(v) => v,
                        }
                    }
                }
                impl<$($g)*> ::std::fmt::Debug for $n<$($g)*> {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                        self.0.fmt(f)
                    }
                }
                impl<$($g)*> From<$t> for $n<$($g)*> {
                    fn from(v: $t) -> Self { Self::new(v) }
                }
            };
        }
        macro_rules! op {
            ($n:ident, $t:ty, $($m:ident)*) => {
                impl $n {
                    $(pub fn $m(&self, v: $t, o: Ordering) -> $t {
                        point(Op::Rmw, self.a());
                        let old = self.0.$m(v, o);
                        rmw(&self.1, old.bits(), Some(self.0.load(Ordering::Relaxed).bits()), o);
                        old
                    })*
                }
            };
        }
        macro_rules! int {
            ($($n:ident $t:ty;)*) => { $(
                #[derive(Default)]
                pub struct $n(real::$n, Loc);
                common!($n, $t, []);
                op!($n, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
            )* };
        }
        int! {
            AtomicUsize usize; AtomicIsize isize;
            AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64;
            AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64;
        }
        #[derive(Default)]
        pub struct AtomicBool(real::AtomicBool, Loc);
        common!(AtomicBool, bool, []);
        op!(AtomicBool, bool, fetch_and fetch_nand fetch_or fetch_xor);
        impl AtomicBool {
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }
        pub struct AtomicPtr<T>(real::AtomicPtr<T>, Loc);
        common!(AtomicPtr, *mut T, [T]);
        impl<T> Default for AtomicPtr<T> {
            fn default() -> Self {
                Self::new(::std::ptr::null_mut())
            }
        }
    }

    mod imp {
        use crate::sim::{acquire, block, load, panicking, point, release, rmw, spurious, store, wake, Loc, Op};
        use ::std::sync::atomic::Ordering;
        use ::std::cell::{Cell, UnsafeCell};
        use ::std::fmt;
        use ::std::mem::{forget, MaybeUninit};
        use ::std::ops::{Deref, DerefMut};
        use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

        // The simulator runs every simulated thread on one OS thread, so plain cells suffice.

        // ---------------------------------------------------------------- Mutex
        pub struct Mutex<T: ?Sized> {
            locked: Cell<bool>,
            poisoned: Cell<bool>,
            loc: Loc,
            data: UnsafeCell<T>,
        }
        unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
        unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
        impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
        impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

        pub struct MutexGuard<'a, T: ?Sized + 'a> {
            m: &'a Mutex<T>,
            panicking: bool,
            _not_send: ::std::marker::PhantomData<*const ()>,
        }
        unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

        impl<T> Mutex<T> {
            pub const fn new(t: T) -> Self {
                Self {
                    locked: Cell::new(false),
                    poisoned: Cell::new(false),
                    loc: Loc::new(),
                    data: UnsafeCell::new(t),
                }
            }
            pub fn into_inner(self) -> LockResult<T> {
                let p = self.poisoned.get();
                let v = self.data.into_inner();
                if p {
                    Err(PoisonError::new(v))
                } else {
                    Ok(v)
                }
            }
        }
        impl<T: ?Sized> Mutex<T> {
            fn addr(&self) -> usize {
                &self.locked as *const _ as usize
            }
            fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
                acquire(&self.loc);
                let g = MutexGuard {
                    m: self,
                    panicking: panicking(),
                    _not_send: ::std::marker::PhantomData,
                };
                if self.poisoned.get() {
                    Err(PoisonError::new(g))
                } else {
                    Ok(g)
                }
            }
            pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
                point(Op::Lock, self.addr());
                while self.locked.get() {
                    block(self.addr());
                }
                self.locked.set(true);
                self.guard()
            }
            pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
                point(Op::Lock, self.addr());
                if self.locked.get() {
                    return Err(TryLockError::WouldBlock);
                }
                self.locked.set(true);
                Ok(self.guard()?)
            }
            pub fn is_poisoned(&self) -> bool {
                self.poisoned.get()
            }
            pub fn clear_poison(&self) {
                self.poisoned.set(false)
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                let p = self.poisoned.get();
                let v = self.data.get_mut();
                if p {
                    Err(PoisonError::new(v))
                } else {
                    Ok(v)
                }
            }
            fn unlock(&self) {
                release(&self.loc);
                self.locked.set(false);
                wake(self.addr(), false);
            }
        }
        impl<T: Default> Default for Mutex<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }
        impl<T> From<T> for Mutex<T> {
            fn from(t: T) -> Self {
                Self::new(t)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct("Mutex").finish_non_exhaustive()
            }
        }
        impl<T: ?Sized> Deref for MutexGuard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.m.data.get() }
            }
        }
        impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.m.data.get() }
            }
        }
        impl<T: ?Sized> Drop for MutexGuard<'_, T> {
            fn drop(&mut self) {
                if !self.panicking && panicking() {
                    self.m.poisoned.set(true);
                }
                self.m.unlock();
                point(Op::Unlock, self.m.addr());
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }

        // ---------------------------------------------------------------- Condvar
        #[derive(Debug, PartialEq, Eq, Copy, Clone)]
        pub struct WaitTimeoutResult(bool);
        impl WaitTimeoutResult {
            pub fn timed_out(&self) -> bool {
                self.0
            }
        }
        #[derive(Default)]
        pub struct Condvar {
            waiters: Cell<usize>,
        }
        unsafe impl Sync for Condvar {}
        impl Condvar {
            pub const fn new() -> Self {
                Self {
                    waiters: Cell::new(0),
                }
            }
            fn addr(&self) -> usize {
                &self.waiters as *const _ as usize
            }
            pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
                let m = g.m;
                point(Op::Wait, self.addr());
                let unwinding = g.panicking;
                forget(g);
                if !unwinding && panicking() {
                    m.poisoned.set(true);
                }
                m.unlock();
                self.waiters.set(self.waiters.get() + 1);
                if !spurious() {
                    block(self.addr());
                }
                self.waiters.set(self.waiters.get() - 1);
                m.lock()
            }
            pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
                &self,
                mut g: MutexGuard<'a, T>,
                mut cond: F,
            ) -> LockResult<MutexGuard<'a, T>> {
                while cond(&mut *g) {
                    g = self.wait(g)?;
                }
                Ok(g)
            }
            pub fn wait_timeout<'a, T>(
                &self,
                g: MutexGuard<'a, T>,
                _d: ::std::time::Duration,
            ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
                let m = g.m;
                drop(g);
                point(Op::Wait, self.addr());
                match m.lock() {
                    Ok(g) => Ok((g, WaitTimeoutResult(true))),
                    Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
                }
            }
            pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
                &self,
                mut g: MutexGuard<'a, T>,
                d: ::std::time::Duration,
                mut cond: F,
            ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
                if !cond(&mut *g) {
                    return Ok((g, WaitTimeoutResult(false)));
                }
                self.wait_timeout(g, d).map(|(mut g, _)| {
                    let late = cond(&mut *g);
                    (g, WaitTimeoutResult(late))
                })
            }
            pub fn notify_one(&self) {
                point(Op::Notify, self.addr());
                wake(self.addr(), false);
            }
            pub fn notify_all(&self) {
                point(Op::Notify, self.addr());
                wake(self.addr(), true);
            }
        }
        impl fmt::Debug for Condvar {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct("Condvar").finish_non_exhaustive()
            }
        }

        // ---------------------------------------------------------------- RwLock
        pub struct RwLock<T: ?Sized> {
            /// -1: write-locked, n > 0: n readers
            state: Cell<isize>,
            poisoned: Cell<bool>,
            loc: Loc,
            data: UnsafeCell<T>,
        }
        unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
        unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
        impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
        impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}
        pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
            l: &'a RwLock<T>,
            _p: ::std::marker::PhantomData<*const ()>,
        }
        pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
            l: &'a RwLock<T>,
            panicking: bool,
            _p: ::std::marker::PhantomData<*const ()>,
        }
        unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
        unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
        impl<T> RwLock<T> {
            pub const fn new(t: T) -> Self {
                Self {
                    state: Cell::new(0),
                    poisoned: Cell::new(false),
                    loc: Loc::new(),
                    data: UnsafeCell::new(t),
                }
            }
            pub fn into_inner(self) -> LockResult<T> {
                let p = self.poisoned.get();
                let v = self.data.into_inner();
                if p {
                    Err(PoisonError::new(v))
                } else {
                    Ok(v)
                }
            }
        }
        impl<T: ?Sized> RwLock<T> {
            fn addr(&self) -> usize {
                &self.state as *const _ as usize
            }
            fn r(&self) -> LockResult<RwLockReadGuard<'_, T>> {
                acquire(&self.loc);
                let g = RwLockReadGuard {
                    l: self,
                    _p: ::std::marker::PhantomData,
                };
                if self.poisoned.get() {
                    Err(PoisonError::new(g))
                } else {
                    Ok(g)
                }
            }
            fn w(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
                acquire(&self.loc);
                let g = RwLockWriteGuard {
                    l: self,
                    panicking: panicking(),
                    _p: ::std::marker::PhantomData,
                };
                if self.poisoned.get() {
                    Err(PoisonError::new(g))
                } else {
                    Ok(g)
                }
            }
            pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
                point(Op::RLock, self.addr());
                while self.state.get() < 0 {
                    block(self.addr());
                }
                self.state.set(self.state.get() + 1);
                self.r()
            }
            pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
                point(Op::Lock, self.addr());
                while self.state.get() != 0 {
                    block(self.addr());
                }
                self.state.set(-1);
                self.w()
            }
            pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
                point(Op::RLock, self.addr());
                if self.state.get() < 0 {
                    return Err(TryLockError::WouldBlock);
                }
                self.state.set(self.state.get() + 1);
                Ok(self.r()?)
            }
            pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
                point(Op::Lock, self.addr());
                if self.state.get() != 0 {
                    return Err(TryLockError::WouldBlock);
                }
                self.state.set(-1);
                Ok(self.w()?)
            }
            pub fn is_poisoned(&self) -> bool {
                self.poisoned.get()
            }
            pub fn clear_poison(&self) {
                self.poisoned.set(false)
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                let p = self.poisoned.get();
                let v = self.data.get_mut();
                if p {
                    Err(PoisonError::new(v))
                } else {
                    Ok(v)
                }
            }
        }
        impl<T: Default> Default for RwLock<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }
        impl<T> From<T> for RwLock<T> {
            fn from(t: T) -> Self {
                Self::new(t)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct("RwLock").finish_non_exhaustive()
            }
        }
        impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.l.data.get() }
            }
        }
        impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.l.data.get() }
            }
        }
        impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.l.data.get() }
            }
        }
        impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
            pub fn downgrade(this: Self) -> RwLockReadGuard<'a, T> {
                let l = this.l;
                ::std::mem::forget(this);
                release(&l.loc);
                l.state.set(1);
                wake(l.addr(), true);
                point(Op::Unlock, l.addr());
                RwLockReadGuard {
                    l,
                    _p: ::std::marker::PhantomData,
                }
            }
        }
        impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
            fn drop(&mut self) {
                release(&self.l.loc);
                self.l.state.set(self.l.state.get() - 1);
                wake(self.l.addr(), true);
                point(Op::RUnlock, self.l.addr());
            }
        }
        impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
            fn drop(&mut self) {
                if !self.panicking && panicking() {
                    self.l.poisoned.set(true);
                }
                release(&self.l.loc);
                self.l.state.set(0);
                wake(self.l.addr(), true);
                point(Op::Unlock, self.l.addr());
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }

        // ---------------------------------------------------------------- OnceLock
        #[derive(Clone, Copy, PartialEq, Eq)]
        enum O {
            Empty,
            Running,
            Full,
        }
        pub struct OnceLock<T> {
            state: Cell<O>,
            loc: Loc,
            value: UnsafeCell<MaybeUninit<T>>,
            _own: ::std::marker::PhantomData<T>,
        }
        unsafe impl<T: Send> Send for OnceLock<T> {}
        unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
        impl<T: ::std::panic::UnwindSafe> ::std::panic::UnwindSafe for OnceLock<T> {}
        impl<T: ::std::panic::RefUnwindSafe + ::std::panic::UnwindSafe> ::std::panic::RefUnwindSafe
            for OnceLock<T>
        {
        }
        impl<T> OnceLock<T> {
            pub const fn new() -> Self {
                Self {
                    state: Cell::new(O::Empty),
                    loc: Loc::new(),
                    value: UnsafeCell::new(MaybeUninit::uninit()),
                    _own: ::std::marker::PhantomData,
                }
            }
            fn addr(&self) -> usize {
                &self.state as *const _ as usize
            }
            unsafe fn refer(&self) -> &T {
                (*self.value.get()).assume_init_ref()
            }
            pub fn get(&self) -> Option<&T> {
                point(Op::OnceGet, self.addr());
                let full = self.state.get() == O::Full;
                if load(&self.loc, full as u64, Ordering::Acquire) != 0 {
                    Some(unsafe { self.refer() })
                } else {
                    None
                }
            }
            pub fn get_mut(&mut self) -> Option<&mut T> {
                if self.state.get() == O::Full {
                    Some(unsafe { (*self.value.get()).assume_init_mut() })
                } else {
                    None
                }
            }
            pub fn wait(&self) -> &T {
                point(Op::OnceGet, self.addr());
                while self.state.get() != O::Full {
                    block(self.addr());
                }
                rmw(&self.loc, 1, None, Ordering::Acquire);
                unsafe { self.refer() }
            }
            pub fn set(&self, v: T) -> Result<(), T> {
                let mut v = Some(v);
                self.get_or_init(|| v.take().unwrap());
                match v {
                    None => Ok(()),
                    Some(v) => Err(v),
                }
            }
            pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
                point(Op::OnceSet, self.addr());
                loop {
                    match self.state.get() {
                        O::Full => {
                            rmw(&self.loc, 1, None, Ordering::Acquire);
                            return unsafe { self.refer() };
                        }
                        O::Running => block(self.addr()),
                        O::Empty => break,
                    }
                }
                struct Reset<'a, T>(&'a OnceLock<T>);
                impl<T> Drop for Reset<'_, T> {
                    fn drop(&mut self) {
                        self.0.state.set(O::Empty);
                        wake(self.0.addr(), true);
                    }
                }
                self.state.set(O::Running);
                let reset = Reset(self);
                let v = f();
                point(Op::OnceSet, self.addr());
                unsafe { (*self.value.get()).write(v) };
                forget(reset);
                store(&self.loc, 0, 1, Ordering::Release);
                self.state.set(O::Full);
                wake(self.addr(), true);
                point(Op::OnceSet, self.addr());
                unsafe { self.refer() }
            }
            pub fn take(&mut self) -> Option<T> {
                if self.state.get() == O::Full {
                    self.loc.forget();
                    self.state.set(O::Empty);
                    Some(unsafe { (*self.value.get()).assume_init_read() })
                } else {
                    None
                }
            }
            pub fn into_inner(mut self) -> Option<T> {
                self.take()
            }
        }
        impl<T> Drop for OnceLock<T> {
            fn drop(&mut self) {
                if self.state.get() == O::Full {
                    unsafe { (*self.value.get()).assume_init_drop() }
                }
            }
        }
        impl<T> Default for OnceLock<T> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct("OnceLock").finish_non_exhaustive()
            }
        }
        impl<T: Clone> Clone for OnceLock<T> {
            fn clone(&self) -> Self {
                match self.get() {
                    Some(v) => Self::from(v.clone()),
                    None => Self::new(),
                }
            }
        }
        impl<T> From<T> for OnceLock<T> {
            fn from(v: T) -> Self {
                let o = Self::new();
                let _ = o.set(v);
                o
            }
        }
        impl<T: PartialEq> PartialEq for OnceLock<T> {
            fn eq(&self, o: &Self) -> bool {
                self.get() == o.get()
            }
        }
        impl<T: Eq> Eq for OnceLock<T> {}

        // ---------------------------------------------------------------- Once, LazyLock, Barrier
        pub struct OnceState(());
        impl OnceState {
            pub fn is_poisoned(&self) -> bool {
                false
            }
        }
        #[derive(Default)]
        pub struct Once(OnceLock<()>);
        impl Once {
            pub const fn new() -> Self {
                Self(OnceLock::new())
            }
            pub fn call_once<F: FnOnce()>(&self, f: F) {
                self.0.get_or_init(f);
            }
            pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
                self.0.get_or_init(|| f(&OnceState(())));
            }
            pub fn is_completed(&self) -> bool {
                self.0.get().is_some()
            }
            pub fn wait(&self) {
                self.0.wait();
            }
        }
        pub struct LazyLock<T, F = fn() -> T> {
            cell: OnceLock<T>,
            init: Cell<Option<F>>,
        }
        unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
        impl<T, F: FnOnce() -> T> LazyLock<T, F> {
            pub const fn new(f: F) -> Self {
                Self {
                    cell: OnceLock::new(),
                    init: Cell::new(Some(f)),
                }
            }
            pub fn get(this: &Self) -> Option<&T> {
                this.cell.get()
            }
            pub fn force(this: &Self) -> &T {
                this.cell
                    .get_or_init(|| (this.init.take().expect("LazyLock poisoned"))())
            }
        }
        impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
            type Target = T;
            fn deref(&self) -> &T {
                Self::force(self)
            }
        }
        pub struct BarrierWaitResult(bool);
        impl BarrierWaitResult {
            pub fn is_leader(&self) -> bool {
                self.0
            }
        }
        pub struct Barrier {
            n: usize,
            m: Mutex<(usize, usize)>,
            c: Condvar,
        }
        impl Barrier {
            pub const fn new(n: usize) -> Self {
                Self {
                    n,
                    m: Mutex::new((0, 0)),
                    c: Condvar::new(),
                }
            }
            pub fn wait(&self) -> BarrierWaitResult {
                let mut g = self.m.lock().unwrap();
                g.0 += 1;
                if g.0 >= self.n {
                    *g = (0, g.1 + 1);
                    self.c.notify_all();
                    return BarrierWaitResult(true);
                }
                let gen = g.1;
                while g.1 == gen {
                    g = self.c.wait(g).unwrap();
                }
                BarrierWaitResult(false)
            }
        }
    }
}
