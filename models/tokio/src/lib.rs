//! Model of `tokio::sync` for symbolic execution: a fair (FIFO) async RwLock and Mutex with explicit state.
//! The solver chooses, through `model::set_yield_hook`, whether an acquisition that could succeed at once
//! first returns Pending (as the real one does when the cooperative budget is exhausted), so every
//! interleaving of tasks at acquisitions is a schedule of the harness's executor.
pub mod model {
    static mut YIELD: Option<fn() -> bool> = None;
    static mut HELD: u32 = 0;
    static mut IN_RT: bool = false;
    static mut NEXT: u8 = 1;
    pub fn set_yield_hook(h: Option<fn() -> bool>) {
        unsafe { YIELD = h }
    }
    pub(crate) fn want_yield() -> bool {
        match unsafe { YIELD } {
            Some(h) => h(),
            None => false,
        }
    }
    pub fn held() -> u32 {
        unsafe { HELD }
    }
    pub(crate) fn inc() {
        unsafe { HELD += 1 }
    }
    pub(crate) fn dec() {
        unsafe { HELD -= 1 }
    }
    /// The harness's executor says whether a task is being polled.
    pub fn set_in_runtime(v: bool) {
        unsafe { IN_RT = v }
    }
    pub fn in_runtime() -> bool {
        unsafe { IN_RT }
    }
    pub(crate) fn ticket() -> u8 {
        unsafe {
            let t = NEXT;
            NEXT += 1;
            t
        }
    }
}

pub mod sync {
    use super::model;
    use std::cell::{Cell, UnsafeCell};
    use std::fmt;
    use std::future::Future;
    use std::marker::PhantomData;
    use std::mem::forget;
    use std::ops::{Deref, DerefMut};
    use std::pin::Pin;
    use std::task::{Context, Poll};

    struct Raw {
        r: Cell<u8>,
        w: Cell<bool>,
        /// FIFO of waiting acquisitions (tickets, 0 = empty slot)
        q0: Cell<u8>,
        q1: Cell<u8>,
        q2: Cell<u8>,
    }
    unsafe impl Sync for Raw {}
    unsafe impl Send for Raw {}
    #[derive(Clone, Copy, PartialEq)]
    enum Kind {
        R,
        W,
    }
    impl Raw {
        const fn new() -> Self {
            Raw { r: Cell::new(0), w: Cell::new(false), q0: Cell::new(0), q1: Cell::new(0), q2: Cell::new(0) }
        }
        fn free(&self, k: Kind) -> bool {
            match k {
                Kind::R => !self.w.get(),
                Kind::W => !self.w.get() && self.r.get() == 0,
            }
        }
        fn take(&self, k: Kind) {
            match k {
                Kind::R => self.r.set(self.r.get() + 1),
                Kind::W => self.w.set(true),
            }
            model::inc();
        }
        fn waiting(&self) -> bool {
            self.q0.get() != 0
        }
        fn enqueue(&self, t: u8) {
            if self.q0.get() == 0 {
                self.q0.set(t)
            } else if self.q1.get() == 0 {
                self.q1.set(t)
            } else if self.q2.get() == 0 {
                self.q2.set(t)
            } else {
                panic!("MODEL-LIMIT: more than 3 waiters")
            }
        }
        fn dequeue(&self, t: u8) {
            let (a, b, c) = (self.q0.get(), self.q1.get(), self.q2.get());
            if a == t {
                self.q0.set(b);
                self.q1.set(c);
                self.q2.set(0);
            } else if b == t {
                self.q1.set(c);
                self.q2.set(0);
            } else if c == t {
                self.q2.set(0);
            }
        }
        fn try_take(&self, k: Kind) -> bool {
            let ok = !self.waiting() && self.free(k);
            if ok {
                self.take(k)
            }
            ok
        }
        fn rel(&self, k: Kind) {
            match k {
                Kind::R => self.r.set(self.r.get() - 1),
                Kind::W => self.w.set(false),
            }
            model::dec();
        }
        fn blocking(&self, k: Kind) {
            if model::in_runtime() {
                panic!("Cannot block the current thread from within a runtime.");
            }
            if !self.try_take(k) {
                panic!("DEADLOCK: blocking acquisition of a lock that nobody can release");
            }
        }
        fn acquire(&self, k: Kind) -> Acquire<'_> {
            Acquire { raw: self, k, yielded: false, ticket: 0 }
        }
    }
    struct Acquire<'a> {
        raw: &'a Raw,
        k: Kind,
        yielded: bool,
        ticket: u8,
    }
    impl Acquire<'_> {
        fn try_now(&mut self) -> bool {
            if self.ticket == 0 {
                if !self.yielded {
                    self.yielded = true;
                    if model::want_yield() {
                        return false;
                    }
                }
                if self.raw.try_take(self.k) {
                    return true;
                }
                self.ticket = model::ticket();
                self.raw.enqueue(self.ticket);
                false
            } else if self.raw.q0.get() == self.ticket && self.raw.free(self.k) {
                self.raw.dequeue(self.ticket);
                self.ticket = 0;
                self.raw.take(self.k);
                true
            } else {
                false
            }
        }
    }
    impl Drop for Acquire<'_> {
        fn drop(&mut self) {
            if self.ticket != 0 {
                self.raw.dequeue(self.ticket)
            }
        }
    }

    macro_rules! fut {
        ($f:ident $l:ident $g:ident $m:ident) => {
            /// What the real `async fn` returns, written by hand (one coroutine less for the solver).
            pub struct $f<'a, T: ?Sized> {
                a: Acquire<'a>,
                l: &'a $l<T>,
            }
            unsafe impl<T: ?Sized + Send> Send for $f<'_, T> {}
            impl<'a, T: ?Sized> Future for $f<'a, T> {
                type Output = $g<'a, T>;
                fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
                    if self.a.try_now() {
                        let l: &'a $l<T> = self.l;
                        Poll::Ready(l.$m())
                    } else {
                        Poll::Pending
                    }
                }
            }
        };
    }
    fut!(ReadFut RwLock RwLockReadGuard rg);
    fut!(WriteFut RwLock RwLockWriteGuard wg);
    fut!(LockFut Mutex MutexGuard g);

    #[derive(Debug)]
    pub struct TryLockError(());
    impl fmt::Display for TryLockError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("operation would block")
        }
    }
    impl std::error::Error for TryLockError {}

    pub struct RwLock<T: ?Sized> {
        raw: Raw,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

    pub struct RwLockReadGuard<'a, T: ?Sized> {
        raw: &'a Raw,
        d: *const T,
        _m: PhantomData<&'a T>,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        raw: &'a Raw,
        d: *mut T,
        _m: PhantomData<&'a mut T>,
    }
    pub struct RwLockMappedWriteGuard<'a, T: ?Sized> {
        raw: &'a Raw,
        d: *mut T,
        _m: PhantomData<&'a mut T>,
    }
    unsafe impl<T: ?Sized + Sync> Send for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Send for RwLockWriteGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockWriteGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Send for RwLockMappedWriteGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockMappedWriteGuard<'_, T> {}

    impl<T> RwLock<T> {
        pub const fn new(val: T) -> Self {
            RwLock { raw: Raw::new(), data: UnsafeCell::new(val) }
        }
        pub const fn const_new(val: T) -> Self {
            Self::new(val)
        }
        pub fn into_inner(self) -> T {
            self.data.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn rg(&self) -> RwLockReadGuard<'_, T> {
            RwLockReadGuard { raw: &self.raw, d: self.data.get(), _m: PhantomData }
        }
        fn wg(&self) -> RwLockWriteGuard<'_, T> {
            RwLockWriteGuard { raw: &self.raw, d: self.data.get(), _m: PhantomData }
        }
        pub fn read(&self) -> ReadFut<'_, T> {
            ReadFut { a: self.raw.acquire(Kind::R), l: self }
        }
        pub fn write(&self) -> WriteFut<'_, T> {
            WriteFut { a: self.raw.acquire(Kind::W), l: self }
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            if self.raw.try_take(Kind::R) { Ok(self.rg()) } else { Err(TryLockError(())) }
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            if self.raw.try_take(Kind::W) { Ok(self.wg()) } else { Err(TryLockError(())) }
        }
        pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
            self.raw.blocking(Kind::R);
            self.rg()
        }
        pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
            self.raw.blocking(Kind::W);
            self.wg()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.data.get_mut()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: fmt::Debug + ?Sized> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self.try_read() {
                Ok(g) => f.debug_struct("RwLock").field("data", &&*g).finish(),
                Err(_) => f.debug_struct("RwLock").finish(),
            }
        }
    }
    macro_rules! guard {
        ($($t:ident $k:ident;)*) => { $(
            impl<T: ?Sized> Deref for $t<'_, T> {
                type Target = T;
                fn deref(&self) -> &T { unsafe { &*self.d } }
            }
            impl<T: ?Sized> Drop for $t<'_, T> {
                fn drop(&mut self) { self.raw.rel(Kind::$k) }
            }
            impl<T: fmt::Debug + ?Sized> fmt::Debug for $t<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) }
            }
            impl<T: fmt::Display + ?Sized> fmt::Display for $t<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) }
            }
        )* };
    }
    guard! { RwLockReadGuard R; RwLockWriteGuard W; RwLockMappedWriteGuard W; MutexGuard W; MappedMutexGuard W; }
    macro_rules! guard_mut {
        ($($t:ident)*) => { $(
            impl<T: ?Sized> DerefMut for $t<'_, T> {
                fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.d } }
            }
        )* };
    }
    guard_mut!(RwLockWriteGuard RwLockMappedWriteGuard MutexGuard MappedMutexGuard);

    impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
        pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> RwLockReadGuard<'a, U> {
            let d: *const U = f(unsafe { &*s.d });
            let raw = s.raw;
            forget(s);
            RwLockReadGuard { raw, d, _m: PhantomData }
        }
        pub fn try_map<U: ?Sized, F: FnOnce(&T) -> Option<&U>>(s: Self, f: F) -> Result<RwLockReadGuard<'a, U>, Self> {
            match f(unsafe { &*s.d }) {
                Some(d) => {
                    let d: *const U = d;
                    let raw = s.raw;
                    forget(s);
                    Ok(RwLockReadGuard { raw, d, _m: PhantomData })
                }
                None => Err(s),
            }
        }
    }
    impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
        pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> RwLockMappedWriteGuard<'a, U> {
            let d: *mut U = f(unsafe { &mut *s.d });
            let raw = s.raw;
            forget(s);
            RwLockMappedWriteGuard { raw, d, _m: PhantomData }
        }
        pub fn try_map<U: ?Sized, F: FnOnce(&mut T) -> Option<&mut U>>(
            s: Self,
            f: F,
        ) -> Result<RwLockMappedWriteGuard<'a, U>, Self> {
            match f(unsafe { &mut *s.d }) {
                Some(d) => {
                    let d: *mut U = d;
                    let raw = s.raw;
                    forget(s);
                    Ok(RwLockMappedWriteGuard { raw, d, _m: PhantomData })
                }
                None => Err(s),
            }
        }
        pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
            let (raw, d) = (s.raw, s.d as *const T);
            forget(s);
            raw.w.set(false);
            raw.r.set(raw.r.get() + 1);
            RwLockReadGuard { raw, d, _m: PhantomData }
        }
        pub fn downgrade_map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> RwLockReadGuard<'a, U> {
            RwLockReadGuard::map(Self::downgrade(s), f)
        }
        pub fn into_mapped(s: Self) -> RwLockMappedWriteGuard<'a, T> {
            Self::map(s, |x| x)
        }
    }
    impl<'a, T: ?Sized> RwLockMappedWriteGuard<'a, T> {
        pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> RwLockMappedWriteGuard<'a, U> {
            let d: *mut U = f(unsafe { &mut *s.d });
            let raw = s.raw;
            forget(s);
            RwLockMappedWriteGuard { raw, d, _m: PhantomData }
        }
    }

    pub struct Mutex<T: ?Sized> {
        raw: Raw,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized> {
        raw: &'a Raw,
        d: *mut T,
        _m: PhantomData<&'a mut T>,
    }
    pub struct MappedMutexGuard<'a, T: ?Sized> {
        raw: &'a Raw,
        d: *mut T,
        _m: PhantomData<&'a mut T>,
    }
    unsafe impl<T: ?Sized + Send> Send for MutexGuard<'_, T> {}
    unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send> Send for MappedMutexGuard<'_, T> {}
    unsafe impl<T: ?Sized + Sync> Sync for MappedMutexGuard<'_, T> {}
    impl<T> Mutex<T> {
        pub const fn new(val: T) -> Self {
            Mutex { raw: Raw::new(), data: UnsafeCell::new(val) }
        }
        pub const fn const_new(val: T) -> Self {
            Self::new(val)
        }
        pub fn into_inner(self) -> T {
            self.data.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn g(&self) -> MutexGuard<'_, T> {
            MutexGuard { raw: &self.raw, d: self.data.get(), _m: PhantomData }
        }
        pub fn lock(&self) -> LockFut<'_, T> {
            LockFut { a: self.raw.acquire(Kind::W), l: self }
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            if self.raw.try_take(Kind::W) {
                Ok(MutexGuard { raw: &self.raw, d: self.data.get(), _m: PhantomData })
            } else {
                Err(TryLockError(()))
            }
        }
        pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
            self.raw.blocking(Kind::W);
            MutexGuard { raw: &self.raw, d: self.data.get(), _m: PhantomData }
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.data.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T: fmt::Debug + ?Sized> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_struct("Mutex").finish()
        }
    }
}
