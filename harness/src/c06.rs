//! C06: fallible lazy fields.
use crate::aio::{run, M};
use crate::lazy::Tok;
use crate::{nd, K};
use fieldx::fxstruct;
use std::rc::Rc;
use std::sync::Arc;

/// The n-th run of a builder, counted over successes and failures; whether it fails is up to the solver.
static mut RUNS: u8 = 0;
static mut LAST: Option<u8> = None;
fn runs() -> u8 {
    unsafe { RUNS }
}
fn attempt() -> Result<u8, E> {
    unsafe {
        RUNS += 1;
        if nd::flag() {
            let e = nd::val();
            LAST = Some(e);
            Err(E(e))
        } else {
            LAST = None;
            Ok(99 + RUNS)
        }
    }
}
#[derive(Debug, PartialEq, Clone)]
pub struct E(u8);
#[derive(Debug, PartialEq)]
pub struct E2(u8);
impl From<E> for E2 {
    fn from(e: E) -> Self {
        E2(e.0)
    }
}

const GET: u8 = 1;
const MUT: u8 = 2;
const SET: u8 = 4;
const CLR: u8 = 8;
const HAS: u8 = 16;
const READ: u8 = 32;
const WSTORE: u8 = 64;
const WCLR: u8 = 128;
trait Obj {
    const OPS: u8;
    fn get(&mut self) -> Result<u8, u8>;
    fn mutate(&mut self, _: u8) -> Result<u8, u8> {
        unreachable!()
    }
    fn read(&mut self) -> Result<u8, u8> {
        unreachable!()
    }
    fn set(&mut self, _: u8) -> Option<u8> {
        unreachable!()
    }
    fn clear(&mut self) -> Option<u8> {
        unreachable!()
    }
    fn has(&self) -> bool {
        unreachable!()
    }
    fn wstore(&mut self, _: u8) -> Option<u8> {
        unreachable!()
    }
    fn wclear(&mut self) -> Option<u8> {
        unreachable!()
    }
}
macro_rules! obj {
    ($t:ty; $($op:ident |$o:ident $(, $v:ident)?| $e:expr;)*) => {
        impl Obj for $t {
            const OPS: u8 = 0 $( | obj!(@bit $op) )*;
            $( obj!(@fn $op |$o $(, $v)?| $e); )*
        }
    };
    (@bit get) => { GET }; (@bit mutate) => { MUT }; (@bit set) => { SET }; (@bit clear) => { CLR }; (@bit has) => { HAS };
    (@bit read) => { READ }; (@bit wstore) => { WSTORE }; (@bit wclear) => { WCLR };
    (@fn get |$o:ident| $e:expr) => { fn get(&mut self) -> Result<u8, u8> { let $o = self; match $e { Ok(x) => Ok(x.into()), Err(e) => Err(e.0) } } };
    (@fn read |$o:ident| $e:expr) => { fn read(&mut self) -> Result<u8, u8> { let $o = self; match $e { Ok(x) => Ok((*x).into()), Err(e) => Err(e.0) } } };
    (@fn mutate |$o:ident, $v:ident| $e:expr) => {
        fn mutate(&mut self, $v: u8) -> Result<u8, u8> { let $o = self; match $e { Ok(mut p) => Ok(std::mem::replace(&mut *p, $v)), Err(e) => Err(e.0) } }
    };
    (@fn set |$o:ident, $v:ident| $e:expr) => { fn set(&mut self, $v: u8) -> Option<u8> { let $o = self; ($e).map(|x| x.into()) } };
    (@fn wstore |$o:ident, $v:ident| $e:expr) => { fn wstore(&mut self, $v: u8) -> Option<u8> { let $o = self; $e } };
    (@fn clear |$o:ident| $e:expr) => { fn clear(&mut self) -> Option<u8> { let $o = self; ($e).map(|x| x.into()) } };
    (@fn wclear |$o:ident| $e:expr) => { fn wclear(&mut self) -> Option<u8> { let $o = self; $e } };
    (@fn has |$o:ident| $e:expr) => { fn has(&self) -> bool { let $o = self; $e } };
}
fn access(r: Result<u8, u8>, cur: &mut Option<u8>, n: &mut u8) -> bool {
    match *cur {
        Some(v) => {
            assert!(r == Ok(v), "fallible: a present value is returned without a build");
            true
        }
        None => {
            *n += 1;
            assert!(runs() == *n, "fallible: each access of an unset field runs the builder once");
            match unsafe { LAST } {
                Some(e) => {
                    assert!(r == Err(e), "fallible: the access returns the builder's error");
                    false
                }
                None => {
                    assert!(r == Ok(99 + *n), "fallible: the access returns the builder's value");
                    *cur = Some(99 + *n);
                    true
                }
            }
        }
    }
}
fn steps<T: Obj>(o: &mut T, start: Option<u8>, k: usize) {
    let mut cur = start;
    let mut n = runs();
    let mut i = 0;
    while i < k {
        let op = nd::below(8);
        nd::assume(T::OPS & !HAS & (1u8 << op) != 0);
        match 1u8 << op {
            GET => {
                let r = o.get();
                access(r, &mut cur, &mut n);
            }
            READ => {
                let r = o.read();
                access(r, &mut cur, &mut n);
            }
            MUT => {
                let v = nd::val();
                let r = o.mutate(v);
                if access(r, &mut cur, &mut n) {
                    cur = Some(v);
                }
            }
            SET => {
                let v = nd::val();
                assert!(o.set(v) == cur, "fallible: setter returns the previous value");
                cur = Some(v);
            }
            WSTORE => {
                let v = nd::val();
                assert!(o.wstore(v) == cur, "fallible: writer's store returns the previous value");
                cur = Some(v);
            }
            WCLR => {
                assert!(o.wclear() == cur, "fallible: writer's clear returns the current value");
                cur = None;
            }
            _ => {
                assert!(o.clear() == cur, "fallible: clearer returns the current value");
                cur = None;
            }
        }
        assert!(runs() == n, "fallible: the builder runs exactly when an unset field is read");
        if T::OPS & HAS != 0 {
            assert!(o.has() == cur.is_some(), "fallible: predicate tells whether a value is present");
        }
        i += 1;
    }
    assert!(o.clear() == cur, "fallible: final content");
    assert!(runs() == n, "fallible: final number of builds");
}

// --- plain
#[fxstruct(lazy, fallible(error(E)), get, get_mut, set, clearer, predicate)]
struct P {
    foo: u8,
    #[fieldx(lazy(off), clearer(off), predicate(off))]
    other: u8,
}
impl P {
    fn build_foo(&self) -> Result<u8, E> {
        assert!(!self.has_foo(), "fallible: builder runs only while the field is unset");
        attempt()
    }
}
obj! { P;
    get |o| o.foo().map(|x| *x); mutate |o, v| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}
#[fxstruct(fallible(off, error(E)), builder)]
struct PF {
    #[fieldx(lazy("mk"), fallible, get(clone), set("put", into), clearer("wipe"), predicate("there"))]
    foo: Tok,
    #[fieldx(lazy, fallible(error(E2)), get(copy), predicate, clearer)]
    bar: u8,
    #[fieldx(lazy, get)]
    sure: u8,
}
impl PF {
    fn mk(&self) -> Result<Tok, E> {
        attempt().map(Tok)
    }
    // fails like the field it reads
    fn build_bar(&self) -> Result<u8, E2> {
        Ok(u8::from(self.foo()?))
    }
    fn build_sure(&self) -> u8 {
        7
    }
}
obj! { PF;
    get |o| o.foo(); set |o, v| o.put(v); clear |o| o.wipe(); has |o| o.there();
}
#[fxstruct(rc, lazy, fallible(error(E)), get, clearer, predicate, builder)]
struct PR {
    foo: u8,
}
impl PR {
    fn build_foo(&self) -> Result<u8, E> {
        assert!(self.myself().is_some());
        attempt()
    }
}

// --- sync
#[fxstruct(sync, lazy, fallible(error(E)), get, get_mut, set, clearer, predicate, reader, writer)]
struct S {
    foo: u8,
    #[fieldx(lazy(off), lock, clearer(off), predicate(off), get(copy))]
    other: u8,
}
impl S {
    fn build_foo(&self) -> Result<u8, E> {
        assert!(!self.has_foo(), "fallible: builder runs only while the field is unset");
        attempt()
    }
}
obj! { S;
    get |o| o.foo().map(|x| *x); mutate |o, v| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
    read |o| o.read_foo(); wstore |o, v| o.write_foo().store(v); wclear |o| o.write_foo().clear();
}
#[fxstruct(sync, fallible(off, error(E)), builder)]
struct SF {
    #[fieldx(lazy("mk"), fallible, get(clone), set("put", into), clearer("wipe"), predicate("there"))]
    foo: Tok,
    #[fieldx(lazy, fallible(error(E2)), get(copy), predicate, clearer)]
    bar: u8,
    #[fieldx(lazy, get)]
    sure: u8,
}
impl SF {
    fn mk(&self) -> Result<Tok, E> {
        attempt().map(Tok)
    }
    fn build_bar(&self) -> Result<u8, E2> {
        Ok(u8::from(self.foo()?))
    }
    fn build_sure(&self) -> u8 {
        7
    }
}
obj! { SF;
    get |o| o.foo(); set |o, v| o.put(v); clear |o| o.wipe(); has |o| o.there();
}
#[fxstruct(sync, rc, lazy, fallible(error(E)), get(copy), set, clearer, predicate)]
struct SR {
    foo: u8,
}
impl SR {
    fn build_foo(&self) -> Result<u8, E> {
        attempt()
    }
}
obj! { M<Arc<SR>>;
    get |o| o.foo(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}

// --- async
#[fxstruct(r#async, lazy, fallible(error(E)), get, get_mut, set, clearer, predicate, reader, writer)]
struct A {
    foo: u8,
}
impl A {
    async fn build_foo(&self) -> Result<u8, E> {
        assert!(!self.has_foo(), "fallible: builder runs only while the field is unset");
        attempt()
    }
}
obj! { M<A>;
    get |o| run(o.foo()).map(|x| *x); mutate |o, v| run(o.foo_mut()); set |o, v| run(o.set_foo(v)); clear |o| run(o.clear_foo()); has |o| o.has_foo();
    read |o| run(o.read_foo()); wstore |o, v| run(o.write_foo()).store(v); wclear |o| run(o.write_foo()).clear();
}
#[fxstruct(r#async, fallible(off, error(E)))]
struct AF {
    #[fieldx(lazy("mk"), fallible, get(clone), set("put", into), clearer("wipe"), predicate("there"))]
    foo: Tok,
    #[fieldx(lazy, fallible(error(E2)), get(copy), predicate, clearer)]
    bar: u8,
    #[fieldx(lazy, get)]
    sure: u8,
}
impl AF {
    async fn mk(&self) -> Result<Tok, E> {
        attempt().map(Tok)
    }
    async fn build_bar(&self) -> Result<u8, E2> {
        Ok(u8::from(self.foo().await?))
    }
    async fn build_sure(&self) -> u8 {
        7
    }
}
obj! { M<AF>;
    get |o| run(o.foo()); set |o, v| run(o.put(v)); clear |o| run(o.wipe()); has |o| o.there();
}

// a failing dependency: the dependant's error comes from it and neither is cached
macro_rules! dependent {
    ($x:ident, $bar:expr, $foo:expr, $setfoo:expr) => {{
        let p = nd::opt();
        if let Some(v) = p { $setfoo(v); }
        let r = $bar;
        match (p, unsafe { LAST }) {
            (Some(v), _) => assert!(r == Ok(v) && runs() == 0),
            (None, Some(e)) => assert!(r == Err(E2(e)) && runs() == 1 && !$x.there() && !$x.has_bar(), "fallible: a failed dependency leaves both unset"),
            (None, None) => assert!(r == Ok(100) && runs() == 1 && $x.there() && $x.has_bar()),
        }
        let ok = r.is_ok();
        let n = runs();
        let r2 = $bar;
        if ok {
            assert!(r2 == r && runs() == n, "fallible: the success is cached");
        } else {
            assert!(runs() == n + 1, "fallible: a retry builds anew");
            assert!(r2.is_ok() == unsafe { LAST }.is_none());
        }
    }};
}

harnesses! {
    fn plain [12] { let p = nd::opt(); let mut x = P::new(); if let Some(v) = p { x.set_foo(v); } let w = nd::val(); x.set_other(w); steps(&mut x, p, K); assert!(*x.other() == w); }
    fn plain_fields [12] { let p = nd::opt(); let b = PF::builder(); let mut b = if let Some(v) = p { b.foo(Tok(v)) } else { b }; let Ok(mut x) = b.build() else { panic!("builder") }; steps(&mut x, p, K); assert!(!x.has_bar() && *x.sure() == 7); }
    fn plain_dependent [12] { let mut x = PF::new(); dependent!(x, x.bar(), x.foo(), |v: u8| x.put(v)) }
    fn plain_rc [12] {
        let x = M::new(PR::new());
        let mut i = 0;
        let mut done = false;
        while i < 3 {
            let r = x.foo();
            if done { assert!(matches!(r, Ok(v) if *v == 99 + runs())); }
            else { match unsafe { LAST } { Some(e) => assert!(matches!(r, Err(E(d)) if d == e)), None => done = true } assert!(runs() == i + 1); }
            assert!(x.has_foo() == done);
            i += 1;
        }
    }
    fn sync [12] { let p = nd::opt(); let mut x = S::new(); if let Some(v) = p { x.set_foo(v); } let w = nd::val(); x.set_other(w); steps(&mut x, p, K); assert!(x.other() == w); }
    fn sync_fields [12] { let p = nd::opt(); let b = SF::builder(); let mut b = if let Some(v) = p { b.foo(Tok(v)) } else { b }; let Ok(mut x) = b.build() else { panic!("builder") }; steps(&mut x, p, K - 1); assert!(!x.has_bar() && *x.sure() == 7); }
    fn sync_dependent [12] { let x = SF::new(); dependent!(x, x.bar(), x.foo(), |v: u8| x.put(v)) }
    fn sync_rc [12] { let mut x = M::new(SR::new()); steps(&mut x, None, 2); }
    fn r#async [8] { let p = nd::opt(); let mut x = M::new(A::new()); if let Some(v) = p { run(x.set_foo(v)); } steps(&mut x, p, 1); }
    fn async_two [8] {
        let x = M::new(A::new());
        let ok = match run(x.foo()) { Ok(g) => *g == 100, Err(E(e)) => { assert!(unsafe { LAST } == Some(e)); false } };
        assert!(x.has_foo() == ok && runs() == 1 && ok == unsafe { LAST }.is_none());
        let r = run(x.read_foo()).map(|g| *g);
        if ok { assert!(r == Ok(100) && runs() == 1); }
        else { assert!(runs() == 2 && r == match unsafe { LAST } { Some(e) => Err(E(e)), None => Ok(101) }); }
        assert!(x.has_foo() == r.is_ok());
    }
    fn async_fields [8] { let p = nd::opt(); let mut x = M::new(AF::new()); if let Some(v) = p { run(x.put(v)); } steps(&mut x, p, 1); assert!(!x.has_bar()); }
    fn async_dependent [8] {
        let x = M::new(AF::new());
        let r = run(x.bar());
        assert!(runs() == 1);
        match unsafe { LAST } {
            Some(e) => assert!(r == Err(E2(e)) && !x.there() && !x.has_bar()),
            None => assert!(r == Ok(100) && x.there() && x.has_bar()),
        }
    }
    #[cfg(feature = "model")]
    fn sched_async_released [8] {
        let x = M::new(A::new());
        let r = run(x.foo_mut());
        let ok = r.is_ok();
        assert!((tokio::model::held() > 0) == ok, "fallible: a failed access holds a lock");
        drop(r);
        assert!(tokio::model::held() == 0 && x.has_foo() == ok);
    }
    #[cfg(feature = "model")]
    fn sched_released [8] {
        let x = S::new();
        let r = x.foo_mut();
        let ok = r.is_ok();
        assert!((parking_lot::model::held() > 0) == ok, "fallible: a failed access holds a lock");
        drop(r);
        let r = x.foo();
        let ok = r.is_ok();
        assert!((parking_lot::model::held() > 0) == ok, "fallible: a failed access holds a lock");
        drop(r);
        let r = x.read_foo();
        let ok = r.is_ok();
        assert!((parking_lot::model::held() > 0) == ok, "fallible: a failed access holds a lock");
        drop(r);
        assert!(parking_lot::model::held() == 0 && x.has_foo() == ok);
    }
    // two threads, the first build may fail: the other thread builds for itself, a success is shared
    #[cfg(feature = "model")]
    fn sched_two [10] {
        static mut X: Option<S> = None;
        unsafe { X = Some(S::new()) };
        
        fn exec(kind: u8, arg: u8) -> u8 {
            let x = unsafe { X.as_ref().unwrap() };
            match kind {
                0 => { let n = runs(); match x.foo() { Ok(g) => *g, Err(E(e)) => 200 + e % 50 } }
                1 => x.set_foo(arg).unwrap_or(255),
                _ => x.clear_foo().unwrap_or(255),
            }
        }
        crate::sched::overlap(exec, 0, 1, 1, 7);
        assert!(parking_lot::model::held() == 0);
        let x = unsafe { X.as_ref().unwrap() };
        let (a, b) = unsafe { (crate::sched::LOG[0], crate::sched::LOG[1]) };
        let n = runs();
        let last = x.has_foo();
        let content = x.clear_foo();
        assert!(content.is_some() == last);
        if b.kind == 0 {
            // both read
            if a.res >= 100 && a.res < 200 && b.res >= 100 && b.res < 200 {
                assert!(a.res == b.res && content == Some(a.res), "fallible: a success is shared");
            } else if a.res < 200 || b.res < 200 {
                assert!(n == 2 && content == Some(if a.res < 200 { a.res } else { b.res }), "fallible: after a failure the next access builds");
            } else {
                assert!(n == 2 && content.is_none(), "fallible: nothing is cached after failures");
            }
        } else if b.kind == 1 {
            assert!(content == Some(b.arg), "fallible: the stored value stays");
            assert!(if a.res == b.arg { n == 0 && b.res == 255 } else if a.res >= 200 { b.res == 255 && n == 1 } else { b.res == a.res && n == 1 });
        } else {
            assert!(n == 1);
            assert!(if a.res >= 200 { content.is_none() && b.res == 255 } else if content.is_some() { content == Some(a.res) && b.res == 255 } else { b.res == a.res });
        }
    }
}
