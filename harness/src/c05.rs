//! C05: async lazy fields: cancelled futures and overlapping tasks.
use crate::aio::*;
use crate::lazy::{builds, built};
use crate::nd;
use fieldx::fxstruct;
use tokio::model::{held, set_in_runtime};

pub const NONE: u8 = 255;

#[fxstruct(r#async, lazy, get, get_mut, set, clearer, predicate, reader, writer)]
struct A {
    foo: u8,
}
impl A {
    async fn build_foo(&self) -> u8 {
        assert!(!self.has_foo(), "lazy: builder runs only while the field is unset");
        stop(1).await;
        assert!(!self.has_foo(), "lazy: the field got a value while it was being built");
        let v = built();
        stop(2).await;
        v
    }
}
#[fxstruct]
struct B {
    #[fieldx(lazy("mk"), r#async, get(copy), set("put"), clearer("wipe"), predicate("there"))]
    foo: u8,
}
impl B {
    async fn mk(&self) -> u8 {
        stop(1).await;
        built()
    }
}

fn a() -> M<A> {
    set_in_runtime(true);
    M::new(A::new())
}
/// An object which is set or unset.
fn any() -> (M<A>, Option<u8>) {
    let x = a();
    let p = nd::opt();
    if let Some(v) = p {
        run(x.set_foo(v));
    }
    (x, p)
}
/// The builder is entered, the access is cancelled there.
macro_rules! cancelled_build {
    ($x:ident, $f:expr) => {{
        gate(1 + nd::below(2));
        let mut t = Task::new($f);
        assert!(t.poll().is_none(), "lazy: an access finished before its builder");
        assert!(!$x.has_foo(), "lazy: predicate while the field is being built");
        t.cancel();
        gate(0);
        assert!(held() == 0, "lazy: a cancelled access still holds a lock");
        assert!(!$x.has_foo(), "lazy: a cancelled access left a value");
        builds()
    }};
}
/// Cancelled at the n-th lock acquisition, or not at all.
macro_rules! cancelled_anywhere {
    ($f:expr) => {{
        yield_at(nd::below(4));
        let mut t = Task::new($f);
        let r = t.poll();
        yield_at(0);
        if r.is_none() {
            t.cancel();
        }
        r
    }};
}
fn unchanged(x: &A, p: Option<u8>) {
    assert!(held() == 0, "lazy: a cancelled operation still holds a lock");
    assert!(x.has_foo() == p.is_some(), "lazy: a cancelled operation changed the predicate");
    assert!(run(x.clear_foo()) == p, "lazy: a cancelled operation changed the content");
    assert!(builds() == 0, "lazy: a cancelled operation ran the builder to its end");
}
/// Cancelled while another task holds the lock.
macro_rules! cancelled_wait {
    ($x:ident => $f:expr) => {{
        let ($x, p) = any();
        let g = run($x.write_foo());
        let mut t = Task::new($f);
        assert!(t.poll().is_none(), "lazy: an operation got past another task's writer");
        assert!($x.has_foo() == p.is_some());
        t.cancel();
        drop(g);
        unchanged(&$x, p);
    }};
}

const GET: u8 = 0;
const MUT: u8 = 1;
const SET: u8 = 2;
const CLR: u8 = 3;
fn spec(st: &mut u8, n: &mut u8, kind: u8, arg: u8) -> u8 {
    match kind {
        GET | MUT => {
            if *st == NONE {
                *n += 1;
                *st = 99 + *n;
            }
            let r = *st;
            if kind == MUT {
                *st = arg
            }
            r
        }
        SET => std::mem::replace(st, arg),
        _ => std::mem::replace(st, NONE),
    }
}
fn code(x: Option<u8>) -> u8 {
    x.unwrap_or(NONE)
}
async fn get(x: &A, _: u8) -> u8 {
    *x.foo().await
}
async fn read(x: &A, _: u8) -> u8 {
    *x.read_foo().await
}
async fn mutate(x: &A, v: u8) -> u8 {
    std::mem::replace(&mut *x.foo_mut().await, v)
}
async fn set(x: &A, v: u8) -> u8 {
    code(x.set_foo(v).await)
}
async fn clear(x: &A, _: u8) -> u8 {
    code(x.clear_foo().await)
}
async fn wstore(x: &A, v: u8) -> u8 {
    code(x.write_foo().await.store(v))
}
async fn wclear(x: &A, _: u8) -> u8 {
    code(x.write_foo().await.clear())
}
/// Task 1 is suspended at a lock acquisition or inside the builder; task 2 goes as far as it can; then
/// task 1 goes on (or is cancelled), then task 2.
macro_rules! overlap {
    ($f1:ident $k1:ident, $f2:ident $k2:ident) => { overlap!($f1 $k1, $f2 $k2, any()) };
    ($f1:ident $k1:ident, $f2:ident $k2:ident, $start:expr) => {{
        let (x, p) = $start;
        let (v1, v2) = (nd::val(), nd::val());
        let at = nd::below(5);
        if at > 2 { gate(at - 2) } else { yield_at(at) }
        let mut t1 = Task::new($f1(&x, v1));
        let mut r1 = t1.poll();
        yield_at(0);
        crate::reach!(r1.is_none(), "the first task is suspended");
        let early = r1.is_some();
        let mut t2 = Task::new($f2(&x, v2));
        let mut r2 = if early { None } else { t2.poll() };
        gate(0);
        if !early {
            r1 = t1.poll();
            assert!(r1.is_some(), "lazy: the first task is stuck");
        }
        let first = r2.is_some();
        if !first {
            r2 = t2.poll();
            assert!(r2.is_some(), "lazy: the second task is stuck");
        }
        assert!(held() == 0, "lazy: a lock is still held");
        let n = builds();
        let present = x.has_foo();
        let last = code(run(x.clear_foo()));
        assert!(present == (last != NONE), "lazy: predicate and content differ when all tasks are done");
        let mut ok = false;
        {
            let (mut st, mut b) = (code(p), 0);
            ok |= spec(&mut st, &mut b, $k1, v1) == r1.unwrap() && spec(&mut st, &mut b, $k2, v2) == r2.unwrap() && st == last && b == n;
        }
        if !early {
            let (mut st, mut b) = (code(p), 0);
            ok |= spec(&mut st, &mut b, $k2, v2) == r2.unwrap() && spec(&mut st, &mut b, $k1, v1) == r1.unwrap() && st == last && b == n;
        }
        assert!(ok, "lazy: no order of the calls gives these results");
    }};
}
fn unset() -> (M<A>, Option<u8>) {
    (a(), None)
}

harnesses! {
    fn cancel_get_then_get [8] { let x = a(); let n = cancelled_build!(x, x.foo()); assert!(*run(x.foo()) == 100 + n && builds() == n + 1 && x.has_foo(), "lazy: the next access builds"); }
    fn cancel_get_then_set [8] { let x = a(); let n = cancelled_build!(x, x.foo()); let v = nd::val(); assert!(run(x.set_foo(v)).is_none() && x.has_foo()); assert!(run(x.clear_foo()) == Some(v) && builds() == n); }
    fn cancel_get_then_clear [8] { let x = a(); let n = cancelled_build!(x, x.foo()); assert!(run(x.clear_foo()).is_none() && !x.has_foo() && builds() == n, "lazy: a cancelled access left a value"); assert!(*run(x.read_foo()) == 100 + n); }
    fn cancel_read_then_mut [8] { let x = a(); let n = cancelled_build!(x, x.read_foo()); assert!(*run(x.foo_mut()) == 100 + n && builds() == n + 1 && x.has_foo(), "lazy: the next access builds"); }
    fn cancel_mut_then_read [8] { let x = a(); let n = cancelled_build!(x, x.foo_mut()); assert!(*run(x.read_foo()) == 100 + n && builds() == n + 1 && x.has_foo(), "lazy: the next access builds"); }
    fn cancel_twice [8] { let x = a(); cancelled_build!(x, x.foo()); let n = cancelled_build!(x, x.foo()); assert!(*run(x.foo()) == 100 + n && builds() == n + 1, "lazy: the next access builds"); }
    fn cancel_copy [8] {
        set_in_runtime(true);
        let x = M::new(B::new());
        gate(1);
        let mut t = Task::new(x.foo());
        assert!(t.poll().is_none() && !x.there());
        t.cancel();
        gate(0);
        assert!(held() == 0 && !x.there(), "lazy: a cancelled access left something");
        assert!(run(x.foo()) == 100 && x.there() && run(x.wipe()) == Some(100));
    }
    fn wait_get [8] { cancelled_wait!(x => x.foo()) }
    fn wait_read [8] { cancelled_wait!(x => x.read_foo()) }
    fn wait_mut [8] { cancelled_wait!(x => x.foo_mut()) }
    fn wait_set [8] { cancelled_wait!(x => x.set_foo(nd::val())) }
    fn wait_clear [8] { cancelled_wait!(x => x.clear_foo()) }
    fn wait_write [8] { cancelled_wait!(x => x.write_foo()) }
    fn anywhere_get [8] {
        let (x, p) = any();
        match cancelled_anywhere!(x.foo()) {
            Some(g) => assert!(*g == p.unwrap_or(100) && x.has_foo()),
            None => unchanged(&x, p),
        };
    }
    fn anywhere_mut [8] {
        let (x, p) = any();
        match cancelled_anywhere!(x.foo_mut()) {
            Some(g) => assert!(*g == p.unwrap_or(100) && x.has_foo()),
            None => unchanged(&x, p),
        };
    }
    fn anywhere_set [8] {
        let (x, p) = any();
        let v = nd::val();
        match cancelled_anywhere!(x.set_foo(v)) {
            Some(r) => assert!(r == p && run(x.clear_foo()) == Some(v)),
            None => unchanged(&x, p),
        };
    }
    fn anywhere_clear [8] {
        let (x, p) = any();
        match cancelled_anywhere!(x.clear_foo()) {
            Some(r) => assert!(r == p && !x.has_foo()),
            None => unchanged(&x, p),
        };
    }
    fn over_get_get [8] { overlap!(get GET, get GET) }
    fn over_get_set [8] { overlap!(get GET, set SET, unset()) }
    fn over_get_clear [8] { overlap!(get GET, clear CLR, unset()) }
    fn over_get_mutate [8] { overlap!(get GET, mutate MUT, unset()) }
    fn over_mutate_read [8] { overlap!(mutate MUT, read GET, unset()) }
    fn over_mutate_clear [8] { overlap!(mutate MUT, clear CLR, unset()) }
    fn over_set_get [8] { overlap!(set SET, get GET) }
    fn over_set_set [8] { overlap!(set SET, set SET) }
    fn over_clear_get [8] { overlap!(clear CLR, get GET) }
    fn over_clear_set [8] { overlap!(clear CLR, set SET) }
    fn over_clear_clear [8] { overlap!(clear CLR, clear CLR) }
    fn over_store_clear [8] { overlap!(wstore SET, wclear CLR) }
    fn over_wclear_get [8] { overlap!(wclear CLR, get GET) }
    // the builder's task is cancelled while another one waits for the value: that one builds it
    fn handover [8] {
        let x = a();
        gate(1);
        let mut t1 = Task::new(x.foo());
        assert!(t1.poll().is_none());
        let mut t2 = Task::new(x.foo());
        assert!(t2.poll().is_none(), "lazy: a second task got past a build");
        t1.cancel();
        gate(0);
        let g = t2.poll();
        assert!(g.is_some_and(|g| *g == 100) && builds() == 1 && x.has_foo(), "lazy: the waiting task builds");
        assert!(held() == 0);
    }
    // a task which waits for the value another one builds gets that value
    fn shared [8] {
        let x = a();
        gate(1 + nd::below(2));
        let mut t1 = Task::new(x.foo());
        assert!(t1.poll().is_none());
        let mut t2 = Task::new(x.foo());
        assert!(t2.poll().is_none(), "lazy: a second task got past a build");
        gate(0);
        let g = t1.poll();
        assert!(g.is_some_and(|g| *g == 100));
        let h = t2.poll();
        assert!(h.is_some_and(|h| *h == 100) && builds() == 1, "lazy: overlapping tasks share one build");
        assert!(held() == 0);
    }
}
