//! C03: one sync lazy field used by several threads.
use crate::lazy::*;
use crate::sched::*;
use crate::{nd, K};
use fieldx::fxstruct;
use parking_lot::model;

#[fxstruct(sync, lazy, get, get_mut, set, clearer, predicate, reader, writer)]
struct A {
    foo: u8,
    bar: u8,
}
impl A {
    fn build_foo(&self) -> u8 {
        assert!(!self.has_foo(), "lazy: builder runs only while the field is unset");
        model::point();
        built()
    }
    fn build_bar(&self) -> u8 {
        panic!("lazy: builder of an untouched field")
    }
}

#[fxstruct(sync)]
struct B {
    #[fieldx(lazy("mk"), get(copy), set("put"), clearer("wipe"), predicate("there"), writer("wr"), reader("rd"), get_mut("change"), default(200))]
    foo: u8,
    #[fieldx(lock, get(copy))]
    seed: u8,
}
impl B {
    fn mk(&self) -> u8 {
        assert!(!self.there(), "lazy: builder runs only while the field is unset");
        built() + self.seed()
    }
}

pub const GET: u8 = 0;
pub const READ: u8 = 1;
pub const MUT: u8 = 2;
pub const SET: u8 = 3;
pub const CLR: u8 = 4;
pub const WSTORE: u8 = 5;
pub const WCLR: u8 = 6;
pub const PAIR: u8 = 7;
const ALL_OPS: u8 = if cfg!(feature = "thorough") { 255 } else { 1 << GET | 1 << MUT | 1 << SET | 1 << CLR | 1 << WSTORE | 1 << WCLR };

fn spec(st: &mut u8, n: &mut u8, kind: u8, arg: u8) -> u8 {
    match kind {
        GET | READ | MUT | PAIR => {
            if *st == NONE {
                *n += 1;
                *st = 99 + *n;
            }
            let r = *st;
            if kind == MUT {
                *st = arg
            }
            r
        }
        SET | WSTORE => std::mem::replace(st, arg),
        _ => std::mem::replace(st, NONE),
    }
}
fn o(x: Option<u8>) -> u8 {
    x.unwrap_or(NONE)
}

static mut OA: Option<A> = None;
fn a() -> &'static A {
    unsafe { OA.as_ref().unwrap() }
}
fn exec_a(kind: u8, arg: u8) -> u8 {
    let x = a();
    match kind {
        GET => *x.foo(),
        READ => *x.read_foo(),
        MUT => {
            let mut g = x.foo_mut();
            std::mem::replace(&mut *g, arg)
        }
        SET => o(x.set_foo(arg)),
        CLR => o(x.clear_foo()),
        WSTORE => o(x.write_foo().store(arg)),
        WCLR => o(x.write_foo().clear()),
        _ => {
            // a reader keeps the value it sees for as long as it holds the guard
            let g = x.foo();
            let v = *g;
            model::point();
            assert!(*g == v, "lazy: the value changed under a read guard");
            assert!(x.has_foo(), "lazy: the value vanished under a read guard");
            v
        }
    }
}
fn check_a(first: u8, others: usize, depth: usize, kinds: u8) {
    unsafe { OA = Some(A::new()) };
    let start = nd::opt();
    if let Some(v) = start {
        a().set_foo(v);
    }
    overlap(exec_a, first, others, depth, kinds);
    assert!(model::held() == 0, "lazy: a lock is still held");
    reach!(inside() > 0, "operations overlap");
    let n = builds();
    let present = a().has_foo();
    assert!(builds() == n);
    let last = o(a().clear_foo());
    assert!(present == (last != NONE), "lazy: predicate and content differ when all threads are done");
    assert!(!a().has_foo() && !a().has_bar());
    assert!(explained(spec, 1 + others, o(start), 0, last, n), "lazy: no order of the calls gives these results");
}

static mut OB: Option<B> = None;
fn b() -> &'static B {
    unsafe { OB.as_ref().unwrap() }
}
fn exec_b(kind: u8, arg: u8) -> u8 {
    let x = b();
    match kind {
        GET | PAIR => x.foo(),
        READ => *x.rd(),
        MUT => {
            let mut g = x.change();
            std::mem::replace(&mut *g, arg)
        }
        SET => o(x.put(arg)),
        CLR => o(x.wipe()),
        WSTORE => {
            // one session of several changes under one guard
            let mut g = x.wr();
            let r = g.store(arg);
            model::point();
            assert!(g.clear() == Some(arg), "lazy: a store got in between under a write guard");
            g.store(arg);
            o(r)
        }
        _ => o(x.wr().clear()),
    }
}
fn check_b(first: u8, others: usize, depth: usize, kinds: u8) {
    unsafe { OB = Some(B::new()) };
    let mut start = 200;
    if nd::flag() {
        b().wipe();
        start = NONE;
    }
    overlap(exec_b, first, others, depth, kinds);
    assert!(model::held() == 0, "lazy: a lock is still held");
    reach!(inside() > 0, "operations overlap");
    let n = builds();
    let present = b().there();
    let last = o(b().wipe());
    assert!(present == (last != NONE), "lazy: predicate and content differ when all threads are done");
    assert!(!b().there());
    assert!(explained(spec, 1 + others, start, 0, last, n), "lazy: no order of the calls gives these results");
}

const MIX: u8 = 1 << GET | 1 << MUT | 1 << SET | 1 << CLR;
const CELL: u8 = 1 << GET | 1 << SET | 1 << CLR;

harnesses! {
    fn sched_two_get [10] { check_a(GET, 1, 1, ALL_OPS); }
    fn sched_two_mut [10] { check_a(MUT, 1, 1, ALL_OPS); }
    fn sched_two_set [10] { check_a(SET, 1, 1, ALL_OPS); }
    fn sched_two_clear [10] { check_a(CLR, 1, 1, ALL_OPS); }
    fn sched_two_wstore [10] { check_a(WSTORE, 1, 1, MIX); }
    fn sched_two_wclear [10] { check_a(WCLR, 1, 1, MIX); }
    fn sched_two_guard [10] { check_a(PAIR, 1, 1, MIX); }
    fn sched_three_get_flat [10] { check_a(GET, 2, 1, CELL); }
    fn sched_three_get_clear [10] { check_a(GET, 2, 2, 1 << GET | 1 << CLR); }
    fn sched_three_get_set [10] { check_a(GET, 2, 2, 1 << GET | 1 << SET); }
    fn sched_three_clear_get [10] { check_a(CLR, 2, 2, 1 << GET | 1 << SET); }
    fn sched_b_get [10] { check_b(GET, 1, 1, MIX); }
    fn sched_b_change [10] { check_b(MUT, 1, 1, MIX); }
    fn sched_b_wipe [10] { check_b(CLR, 1, 1, MIX); }
    fn sched_b_session [10] { check_b(WSTORE, 1, 1, MIX); }
    fn sched_b_reader [10] { check_b(READ, 1, 1, MIX); }
    #[cfg(feature = "thorough")]
    fn sched_two_read [10] { check_a(READ, 1, 1, ALL_OPS); }
    #[cfg(feature = "thorough")]
    fn sched_two_wstore_all [10] { check_a(WSTORE, 1, 1, ALL_OPS); }
    #[cfg(feature = "thorough")]
    fn sched_two_wclear_all [10] { check_a(WCLR, 1, 1, ALL_OPS); }
    #[cfg(feature = "thorough")]
    fn sched_two_guard_all [10] { check_a(PAIR, 1, 1, ALL_OPS); }
    #[cfg(feature = "thorough")]
    fn sched_three_get [10] { check_a(GET, 2, 2, CELL); }
    #[cfg(feature = "thorough")]
    fn sched_three_mut [10] { check_a(MUT, 2, 2, CELL); }
    #[cfg(feature = "thorough")]
    fn sched_three_set [10] { check_a(SET, 2, 2, CELL); }
    #[cfg(feature = "thorough")]
    fn sched_three_clear [10] { check_a(CLR, 2, 2, CELL); }
}
