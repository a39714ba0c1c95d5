//! Model of `parking_lot` for symbolic execution.
//!
//! A lock is three explicit words (readers per thread, writer, upgradable reader).  Every operation that
//! another thread could be interleaved with calls `model::point()`, which runs the hook installed by the
//! harness; the harness lets the solver decide whether some other thread's operation runs there.
//! Acquiring a lock which cannot be granted is
//!   * a deadlock, reported by panic, if the current thread itself (or nobody that is merely suspended)
//!     holds it - no schedule can ever let this thread proceed;
//!   * an infeasible schedule, pruned by assume(false), if a suspended thread holds it: the real lock
//!     would keep this thread waiting there, so "run to completion now" is not a possible schedule.
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::marker::PhantomData;
use std::mem::forget;
use std::ops::{Deref, DerefMut};

pub mod model {
    pub const MAXT: usize = 3;
    static mut HOOK: Option<fn()> = None;
    static mut CUR: usize = 0;
    static mut HELD: u32 = 0;

    /// Install the function called at each schedule point.
    pub fn set_hook(h: Option<fn()>) {
        unsafe { HOOK = h }
    }
    /// Identity of the logical thread now running (0 = main).
    pub fn current() -> usize {
        unsafe { CUR }
    }
    pub fn set_current(t: usize) {
        unsafe { CUR = t }
    }
    /// Number of guards alive in total.
    pub fn held() -> u32 {
        unsafe { HELD }
    }
    pub(crate) fn inc() {
        unsafe { HELD += 1 }
    }
    pub(crate) fn dec() {
        unsafe { HELD -= 1 }
    }
    /// A schedule point.
    #[inline]
    pub fn point() {
        if let Some(h) = unsafe { HOOK } {
            h()
        }
    }
    // --- who holds what (for deadlocks between threads, see sched.rs)
    pub const R: usize = 0;
    pub const U: usize = 1;
    pub const W: usize = 2;
    /// Sets of locks, by mode.
    pub type Locks = [u32; 3];
    const LOCKS: u8 = 32;
    static mut TRACK: bool = false;
    static mut NEXT_ID: u8 = 0;
    static mut H: [Locks; MAXT] = [[0; 3]; MAXT];
    static mut TOGETHER: bool = false;
    static mut ARMED: bool = false;
    static mut STUCK: Locks = [0; 3];
    static mut WAITS: bool = false;
    static mut DIVERGED: bool = false;
    static mut FIRST: Locks = [0; 3];
    static mut SEEN: u32 = 0;
    static mut LET_GO: u32 = 0;

    /// Locks get numbers, from `n` on, in the order they are first used in.  Those beyond the limit are not followed.
    pub fn number_from(n: u8) {
        unsafe {
            TRACK = true;
            NEXT_ID = n
        }
    }
    pub fn numbered() -> u8 {
        unsafe { NEXT_ID }
    }
    /// From now on the first thread, which runs alone, behaves as if a second one were stuck with the locks in `stuck`.
    pub fn arm(stuck: Locks) {
        unsafe {
            ARMED = true;
            STUCK = stuck;
        }
    }
    pub fn disarm() {
        unsafe { ARMED = false }
    }
    /// Would the first thread have had to wait for the second one?
    pub fn waits() -> bool {
        unsafe { WAITS && !DIVERGED }
    }
    /// Now the second thread really runs, inside the first one.
    pub fn together() {
        unsafe {
            TOGETHER = true;
            LET_GO = 0;
        }
    }
    fn clash(h: &Locks, b: u32, mode: usize) -> bool {
        let m = match mode {
            R => h[W],
            U => h[W] | h[U],
            _ => h[W] | h[U] | h[R],
        };
        m & b != 0
    }
    /// The lock as a set.
    fn bit(c: &std::cell::Cell<u8>) -> u32 {
        unsafe {
            if c.get() == 255 {
                c.set(NEXT_ID);
                if NEXT_ID < LOCKS {
                    NEXT_ID += 1;
                }
            }
        }
        if c.get() < LOCKS { 1u32 << c.get() } else { 0 }
    }
    #[inline]
    pub(crate) fn wants(c: &std::cell::Cell<u8>, mode: usize, tries: bool) {
        unsafe {
            if TRACK {
                let b = bit(c);
                if ARMED && !WAITS {
                    SEEN |= b;
                    if clash(&STUCK, b, mode) {
                        WAITS = true;
                        DIVERGED = tries;
                        FIRST = H[0];
                    }
                }
            }
        }
    }
    #[inline]
    pub(crate) fn took(c: &std::cell::Cell<u8>, mode: usize) {
        unsafe {
            if TRACK {
                H[CUR][mode] |= bit(c);
            }
        }
    }
    #[inline]
    pub(crate) fn gave(c: &std::cell::Cell<u8>, mode: usize) {
        unsafe {
            if TRACK {
                let b = bit(c);
                H[CUR][mode] &= !b;
                if CUR == 1 {
                    LET_GO |= b;
                }
            }
        }
    }
    /// upgrade, downgrade
    #[inline]
    pub(crate) fn turned(c: &std::cell::Cell<u8>, from: usize, to: usize) {
        unsafe {
            if TRACK {
                let b = bit(c);
                H[CUR][from] &= !b;
                H[CUR][to] |= b;
                if CUR == 1 && from == W {
                    LET_GO |= b;
                }
            }
        }
    }
    /// The second thread has to wait for the first one, which is going to wait for what the second one holds
    /// and which, up to there, looks at no lock whose content the second one has changed and let go.
    pub(crate) fn blocked(c: &std::cell::Cell<u8>, mode: usize) -> ! {
        unsafe {
            if TRACK && TOGETHER && CUR == 1 && waits() && LET_GO & SEEN == 0
                && H[1][R] == STUCK[R] && H[1][U] == STUCK[U] && H[1][W] == STUCK[W]
                && clash(&FIRST, bit(c), mode)
            {
                panic!("DEADLOCK: two threads wait for each other's locks")
            }
        }
        prune()
    }
    pub(crate) fn deadlock() -> ! {
        panic!("DEADLOCK: a thread waits for a lock that can never be released")
    }
    /// The thread would have to wait for a suspended one: not a schedule we explore.
    pub(crate) fn prune() -> ! {
        #[cfg(kani)]
        kani::assume(false);
        #[cfg(not(kani))]
        {
            println!("ASSUME-FAILED (blocked)");
            std::process::exit(3);
        }
        #[allow(unreachable_code)]
        loop {}
    }
}
use model::MAXT;

struct Raw {
    r: [Cell<u8>; MAXT],
    /// 0 = none, t+1 = held by thread t
    w: Cell<u8>,
    u: Cell<u8>,
    id: Cell<u8>,
}

impl Raw {
    const fn new() -> Self {
        Raw { r: [const { Cell::new(0) }; MAXT], w: Cell::new(0), u: Cell::new(0), id: Cell::new(255) }
    }
    fn me() -> usize {
        model::current()
    }
    fn tag() -> u8 {
        model::current() as u8 + 1
    }
    fn readers(&self) -> u32 {
        let mut n = 0;
        let mut i = 0;
        while i < MAXT {
            n += self.r[i].get() as u32;
            i += 1;
        }
        n
    }
    fn can_read(&self) -> bool {
        self.w.get() == 0
    }
    fn can_upg(&self) -> bool {
        self.w.get() == 0 && self.u.get() == 0
    }
    fn can_write(&self) -> bool {
        self.w.get() == 0 && self.u.get() == 0 && self.readers() == 0
    }
    fn unavailable(&self, mode: usize) -> ! {
        let excl = mode == model::W;
        let mine = self.w.get() == Self::tag() || self.u.get() == Self::tag() || (excl && self.r[Self::me()].get() > 0);
        if mine || Self::me() == 0 {
            // Thread 0 is the outermost one: when it runs, every other thread has finished its operation.
            model::deadlock()
        }
        model::blocked(&self.id, mode)
    }
    fn add_r(&self) {
        let c = &self.r[Self::me()];
        c.set(c.get() + 1);
        model::took(&self.id, model::R);
        model::inc();
    }
    fn set_w(&self) {
        self.w.set(Self::tag());
        model::took(&self.id, model::W);
    }
    fn set_u(&self) {
        self.u.set(Self::tag());
        model::took(&self.id, model::U);
    }
    fn lock_read(&self) {
        model::point();
        model::wants(&self.id, model::R, false);
        if !self.can_read() {
            self.unavailable(model::R)
        }
        self.add_r();
    }
    fn lock_write(&self) {
        model::point();
        model::wants(&self.id, model::W, false);
        if !self.can_write() {
            self.unavailable(model::W)
        }
        self.set_w();
        model::inc();
    }
    fn lock_upg(&self) {
        model::point();
        model::wants(&self.id, model::U, false);
        if !self.can_upg() {
            self.unavailable(model::U)
        }
        self.set_u();
        model::inc();
    }
    fn try_read(&self) -> bool {
        model::point();
        model::wants(&self.id, model::R, true);
        let ok = self.can_read();
        if ok {
            self.add_r();
        }
        ok
    }
    fn try_write(&self) -> bool {
        model::point();
        model::wants(&self.id, model::W, true);
        let ok = self.can_write();
        if ok {
            self.set_w();
            model::inc();
        }
        ok
    }
    fn try_upg(&self) -> bool {
        model::point();
        model::wants(&self.id, model::U, true);
        let ok = self.can_upg();
        if ok {
            self.set_u();
            model::inc();
        }
        ok
    }
    fn unlock_read(&self) {
        // Guards are released by the thread that took them, unless the harness hands one over.
        let me = Self::me();
        if self.r[me].get() > 0 {
            self.r[me].set(self.r[me].get() - 1);
        } else {
            let mut i = 0;
            while i < MAXT {
                if self.r[i].get() > 0 {
                    self.r[i].set(self.r[i].get() - 1);
                    break;
                }
                i += 1;
            }
        }
        if self.r[me].get() == 0 {
            model::gave(&self.id, model::R);
        }
        model::dec();
        model::point();
    }
    fn unlock_write(&self) {
        self.w.set(0);
        model::gave(&self.id, model::W);
        model::dec();
        model::point();
    }
    fn unlock_upg(&self) {
        self.u.set(0);
        model::gave(&self.id, model::U);
        model::dec();
        model::point();
    }
    fn w_to_r(&self) {
        self.w.set(0);
        model::turned(&self.id, model::W, model::R);
        self.add_r();
        model::dec();
        model::point();
    }
    fn w_to_u(&self) {
        self.u.set(self.w.get());
        self.w.set(0);
        model::turned(&self.id, model::W, model::U);
        model::point();
    }
    fn u_to_r(&self) {
        self.u.set(0);
        model::turned(&self.id, model::U, model::R);
        self.add_r();
        model::dec();
        model::point();
    }
    fn can_upgrade(&self) -> bool {
        self.w.get() == 0 && self.readers() == 0
    }
    fn u_to_w(&self) {
        model::point();
        model::wants(&self.id, model::W, false);
        if !self.can_upgrade() {
            if Self::me() == 0 || self.r[Self::me()].get() > 0 {
                model::deadlock()
            }
            model::blocked(&self.id, model::W)
        }
        self.u_is_w();
    }
    fn try_u_to_w(&self) -> bool {
        model::point();
        model::wants(&self.id, model::W, true);
        let ok = self.can_upgrade();
        if ok {
            self.u_is_w();
        }
        ok
    }
    fn u_is_w(&self) {
        self.w.set(self.u.get());
        self.u.set(0);
        model::turned(&self.id, model::U, model::W);
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

type NotSend = PhantomData<*mut ()>;

pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _m: PhantomData<&'a T>,
    _n: NotSend,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _m: PhantomData<&'a mut T>,
    _n: NotSend,
}
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _m: PhantomData<&'a T>,
    _n: NotSend,
}
pub struct MappedRwLockReadGuard<'a, T: ?Sized> {
    raw: &'a Raw,
    d: *const T,
    _m: PhantomData<&'a T>,
}
pub struct MappedRwLockWriteGuard<'a, T: ?Sized> {
    raw: &'a Raw,
    d: *mut T,
    _m: PhantomData<&'a mut T>,
}
macro_rules! sync_if_t {
    ($($t:ident)*) => { $(
        #[cfg(feature = "send_guard")]
        unsafe impl<'a, T: ?Sized + Sync> Send for $t<'a, T> {}
        unsafe impl<'a, T: ?Sized + Sync> Sync for $t<'a, T> {}
    )* };
}
sync_if_t!(RwLockReadGuard RwLockWriteGuard RwLockUpgradableReadGuard MappedRwLockReadGuard MappedRwLockWriteGuard MutexGuard MappedMutexGuard);

impl<T> RwLock<T> {
    pub const fn new(val: T) -> Self {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(val) }
    }
    pub const fn const_new(_: (), val: T) -> Self {
        Self::new(val)
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}

impl<T: ?Sized> RwLock<T> {
    fn rg(&self) -> RwLockReadGuard<'_, T> {
        RwLockReadGuard { l: self, _m: PhantomData, _n: PhantomData }
    }
    fn wg(&self) -> RwLockWriteGuard<'_, T> {
        RwLockWriteGuard { l: self, _m: PhantomData, _n: PhantomData }
    }
    fn ug(&self) -> RwLockUpgradableReadGuard<'_, T> {
        RwLockUpgradableReadGuard { l: self, _m: PhantomData, _n: PhantomData }
    }
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.lock_read();
        self.rg()
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.read()
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.lock_write();
        self.wg()
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        self.raw.lock_upg();
        self.ug()
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        if self.raw.try_read() { Some(self.rg()) } else { None }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        if self.raw.try_write() { Some(self.wg()) } else { None }
    }
    pub fn try_upgradable_read(&self) -> Option<RwLockUpgradableReadGuard<'_, T>> {
        if self.raw.try_upg() { Some(self.ug()) } else { None }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.data.get()
    }
    pub fn is_locked(&self) -> bool {
        model::point();
        !self.raw.can_write()
    }
    pub fn is_locked_exclusive(&self) -> bool {
        model::point();
        self.raw.w.get() != 0
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: fmt::Debug + ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.try_read() {
            Some(g) => f.debug_struct("RwLock").field("data", &&*g).finish(),
            None => f.debug_struct("RwLock").finish(),
        }
    }
}

macro_rules! deref_lock {
    ($($t:ident)*) => { $(
        impl<T: ?Sized> Deref for $t<'_, T> {
            type Target = T;
            fn deref(&self) -> &T { unsafe { &*self.l.data.get() } }
        }
    )* };
}
deref_lock!(RwLockReadGuard RwLockWriteGuard RwLockUpgradableReadGuard MutexGuard);
macro_rules! deref_ptr {
    ($($t:ident)*) => { $(
        impl<T: ?Sized> Deref for $t<'_, T> {
            type Target = T;
            fn deref(&self) -> &T { unsafe { &*self.d } }
        }
    )* };
}
deref_ptr!(MappedRwLockReadGuard MappedRwLockWriteGuard MappedMutexGuard);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MappedRwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.d }
    }
}
impl<T: ?Sized> DerefMut for MappedMutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.d }
    }
}
macro_rules! fmt_guard {
    ($($t:ident)*) => { $(
        impl<T: fmt::Debug + ?Sized> fmt::Debug for $t<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) }
        }
        impl<T: fmt::Display + ?Sized> fmt::Display for $t<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) }
        }
    )* };
}
fmt_guard!(RwLockReadGuard RwLockWriteGuard RwLockUpgradableReadGuard MappedRwLockReadGuard MappedRwLockWriteGuard MutexGuard MappedMutexGuard);

impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_read()
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_write()
    }
}
impl<T: ?Sized> Drop for RwLockUpgradableReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_upg()
    }
}
impl<T: ?Sized> Drop for MappedRwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unlock_read()
    }
}
impl<T: ?Sized> Drop for MappedRwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unlock_write()
    }
}

impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
    pub fn rwlock(s: &Self) -> &'a RwLock<T> {
        s.l
    }
    pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> MappedRwLockReadGuard<'a, U> {
        let l = s.l;
        // as the real one: `f` runs with the lock held
        let d: *const U = f(unsafe { &*l.data.get() });
        forget(s);
        MappedRwLockReadGuard { raw: &l.raw, d, _m: PhantomData }
    }
    pub fn try_map<U: ?Sized, F: FnOnce(&T) -> Option<&U>>(s: Self, f: F) -> Result<MappedRwLockReadGuard<'a, U>, Self> {
        let l = s.l;
        match f(unsafe { &*l.data.get() }) {
            Some(d) => {
                let d: *const U = d;
                forget(s);
                Ok(MappedRwLockReadGuard { raw: &l.raw, d, _m: PhantomData })
            }
            None => Err(s),
        }
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn bump(_s: &mut Self) {}
    pub fn unlocked<U, F: FnOnce() -> U>(s: &mut Self, f: F) -> U {
        s.l.raw.unlock_read();
        let r = f();
        s.l.raw.lock_read();
        r
    }
}
impl<'a, T: ?Sized> MappedRwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> MappedRwLockReadGuard<'a, U> {
        let raw = s.raw;
        let d: *const U = f(unsafe { &*s.d });
        forget(s);
        MappedRwLockReadGuard { raw, d, _m: PhantomData }
    }
    pub fn try_map<U: ?Sized, F: FnOnce(&T) -> Option<&U>>(s: Self, f: F) -> Result<MappedRwLockReadGuard<'a, U>, Self> {
        let raw = s.raw;
        match f(unsafe { &*s.d }) {
            Some(d) => {
                let d: *const U = d;
                forget(s);
                Ok(MappedRwLockReadGuard { raw, d, _m: PhantomData })
            }
            None => Err(s),
        }
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn rwlock(s: &Self) -> &'a RwLock<T> {
        s.l
    }
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedRwLockWriteGuard<'a, U> {
        let l = s.l;
        let d: *mut U = f(unsafe { &mut *l.data.get() });
        forget(s);
        MappedRwLockWriteGuard { raw: &l.raw, d, _m: PhantomData }
    }
    pub fn try_map<U: ?Sized, F: FnOnce(&mut T) -> Option<&mut U>>(
        s: Self,
        f: F,
    ) -> Result<MappedRwLockWriteGuard<'a, U>, Self> {
        let l = s.l;
        match f(unsafe { &mut *l.data.get() }) {
            Some(d) => {
                let d: *mut U = d;
                forget(s);
                Ok(MappedRwLockWriteGuard { raw: &l.raw, d, _m: PhantomData })
            }
            None => Err(s),
        }
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        forget(s);
        l.raw.w_to_r();
        l.rg()
    }
    pub fn downgrade_to_upgradable(s: Self) -> RwLockUpgradableReadGuard<'a, T> {
        let l = s.l;
        forget(s);
        l.raw.w_to_u();
        l.ug()
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn bump(_s: &mut Self) {}
    pub fn unlocked<U, F: FnOnce() -> U>(s: &mut Self, f: F) -> U {
        s.l.raw.unlock_write();
        let r = f();
        s.l.raw.lock_write();
        r
    }
}
impl<'a, T: ?Sized> MappedRwLockWriteGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedRwLockWriteGuard<'a, U> {
        let raw = s.raw;
        let d: *mut U = f(unsafe { &mut *s.d });
        forget(s);
        MappedRwLockWriteGuard { raw, d, _m: PhantomData }
    }
    pub fn try_map<U: ?Sized, F: FnOnce(&mut T) -> Option<&mut U>>(
        s: Self,
        f: F,
    ) -> Result<MappedRwLockWriteGuard<'a, U>, Self> {
        let raw = s.raw;
        match f(unsafe { &mut *s.d }) {
            Some(d) => {
                let d: *mut U = d;
                forget(s);
                Ok(MappedRwLockWriteGuard { raw, d, _m: PhantomData })
            }
            None => Err(s),
        }
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn rwlock(s: &Self) -> &'a RwLock<T> {
        s.l
    }
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let l = s.l;
        forget(s);
        l.raw.u_to_w();
        l.wg()
    }
    pub fn try_upgrade(s: Self) -> Result<RwLockWriteGuard<'a, T>, Self> {
        let l = s.l;
        if l.raw.try_u_to_w() {
            forget(s);
            Ok(l.wg())
        } else {
            Err(s)
        }
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        forget(s);
        l.raw.u_to_r();
        l.rg()
    }
    pub fn with_upgraded<R, F: FnOnce(&mut T) -> R>(s: &mut Self, f: F) -> R {
        s.l.raw.u_to_w();
        let r = f(unsafe { &mut *s.l.data.get() });
        s.l.raw.w_to_u();
        r
    }
    pub fn try_with_upgraded<R, F: FnOnce(&mut T) -> R>(s: &mut Self, f: F) -> Option<R> {
        if s.l.raw.try_u_to_w() {
            let r = f(unsafe { &mut *s.l.data.get() });
            s.l.raw.w_to_u();
            Some(r)
        } else {
            None
        }
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn bump(_s: &mut Self) {}
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    l: &'a Mutex<T>,
    _m: PhantomData<&'a mut T>,
    _n: NotSend,
}
pub struct MappedMutexGuard<'a, T: ?Sized> {
    raw: &'a Raw,
    d: *mut T,
    _m: PhantomData<&'a mut T>,
}
impl<T> Mutex<T> {
    pub const fn new(val: T) -> Self {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(val) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.lock_write();
        MutexGuard { l: self, _m: PhantomData, _n: PhantomData }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        if self.raw.try_write() {
            Some(MutexGuard { l: self, _m: PhantomData, _n: PhantomData })
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        self.raw.w.get() != 0
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: fmt::Debug + ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Mutex").finish()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_write()
    }
}
impl<T: ?Sized> Drop for MappedMutexGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unlock_write()
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedMutexGuard<'a, U> {
        let l = s.l;
        let d: *mut U = f(unsafe { &mut *l.data.get() });
        forget(s);
        MappedMutexGuard { raw: &l.raw, d, _m: PhantomData }
    }
}

/// Reentrant: any number of guards, of one thread at a time.
pub struct ReentrantMutex<T: ?Sized> {
    raw: Raw,
    n: Cell<u32>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for ReentrantMutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for ReentrantMutex<T> {}
pub struct ReentrantMutexGuard<'a, T: ?Sized> {
    l: &'a ReentrantMutex<T>,
    _n: NotSend,
}
impl<T> ReentrantMutex<T> {
    pub const fn new(val: T) -> Self {
        ReentrantMutex { raw: Raw::new(), n: Cell::new(0), data: UnsafeCell::new(val) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> ReentrantMutex<T> {
    pub fn lock(&self) -> ReentrantMutexGuard<'_, T> {
        if self.raw.w.get() == Raw::tag() {
            model::inc();
        } else {
            self.raw.lock_write();
        }
        self.n.set(self.n.get() + 1);
        ReentrantMutexGuard { l: self, _n: PhantomData }
    }
    pub fn try_lock(&self) -> Option<ReentrantMutexGuard<'_, T>> {
        if self.raw.w.get() == Raw::tag() {
            model::inc();
        } else if !self.raw.try_write() {
            return None;
        }
        self.n.set(self.n.get() + 1);
        Some(ReentrantMutexGuard { l: self, _n: PhantomData })
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        self.raw.w.get() != 0
    }
}
impl<T: ?Sized> Deref for ReentrantMutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for ReentrantMutexGuard<'_, T> {
    fn drop(&mut self) {
        self.l.n.set(self.l.n.get() - 1);
        if self.l.n.get() == 0 {
            self.l.raw.unlock_write()
        } else {
            model::dec()
        }
    }
}

pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::new(val)
}
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::new(val)
}
