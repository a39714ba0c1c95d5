//! C08: lock-protected fields used by several threads or tasks.
use crate::aio::*;
use crate::lazy::Tok;
use crate::nd;
use crate::sched::*;
use fieldx::fxstruct;
use parking_lot::model;

pub const GET: u8 = 0;
pub const READ: u8 = 1;
pub const SET: u8 = 2;
/// read-modify-write under the writer guard
pub const RMW: u8 = 3;
/// the same under the guard of the mutable accessor
pub const MUT: u8 = 4;
pub const CLR: u8 = 5;
pub const HAS: u8 = 6;
/// write guard: take the content out, put a new one in
pub const TAKE: u8 = 7;
const B: u8 = 1;
const MIX: u8 = B << GET | B << SET | B << RMW | B << MUT;
const OMIX: u8 = B << GET | B << SET | B << CLR | B << HAS | B << RMW;

fn bump(v: u8) -> u8 {
    if v >= 250 { 0 } else { v + 1 }
}
fn spec(st: &mut u8, _n: &mut u8, kind: u8, arg: u8) -> u8 {
    match kind {
        GET | READ => *st,
        SET | TAKE => std::mem::replace(st, arg),
        RMW | MUT => {
            let old = *st;
            *st = if old == NONE { arg } else { bump(old) };
            old
        }
        CLR => std::mem::replace(st, NONE),
        _ => (*st != NONE) as u8,
    }
}
fn o(x: Option<u8>) -> u8 {
    x.unwrap_or(NONE)
}
fn finish(others: usize, start: u8, last: u8) {
    assert!(model::held() == 0, "lock: a lock is still held");
    reach!(inside() > 0, "operations overlap");
    assert!(explained(spec, 1 + others, start, 0, last, 0), "lock: no order of the calls gives these results");
}
/// One session under an exclusive guard; other threads may run at the point in the middle.
macro_rules! session {
    ($g:expr, $new:expr) => {{
        let mut g = $g;
        let old = (*g).clone();
        model::point();
        assert!(*g == old, "lock: another thread changed the field under an exclusive guard");
        *g = $new(old.clone());
        model::point();
        assert!(*g == $new(old.clone()), "lock: another thread changed the field under an exclusive guard");
        old
    }};
}
/// A value seen under a shared guard stays.
macro_rules! shared {
    ($g:expr) => {{
        let g = $g;
        let v = (*g).clone();
        model::point();
        assert!(*g == v, "lock: the value changed under a read guard");
        v
    }};
}

// --- struct-level, two fields
#[fxstruct(sync, lock, get, get_mut, set, reader, writer)]
struct A {
    foo: u8,
    bar: u8,
}
static mut OA: Option<A> = None;
fn a() -> &'static A {
    unsafe { OA.as_ref().unwrap() }
}
fn exec_a(kind: u8, arg: u8) -> u8 {
    let x = a();
    match kind {
        GET => shared!(x.foo()),
        READ => shared!(x.read_foo()),
        SET => x.set_foo(arg),
        RMW => session!(x.write_foo(), bump),
        MUT => session!(x.foo_mut(), bump),
        _ => std::mem::replace(&mut *x.write_foo(), arg),
    }
}
fn check_a(first: u8, others: usize, depth: usize, kinds: u8) {
    unsafe { OA = Some(A::new()) };
    let (start, w) = (nd::val(), nd::val());
    a().set_foo(start);
    a().set_bar(w);
    overlap(exec_a, first, others, depth, kinds);
    let last = *a().foo();
    assert!(*a().bar() == w, "lock: another field changed");
    finish(others, start, last);
}

// --- field-level: what reader, writer and lock ask for, each alone; copy and clone accessors
#[fxstruct(sync, builder)]
struct F {
    #[fieldx(reader("rd"), get_mut("change"), set("put", into))]
    tok: Tok,
    #[fieldx(lock, get(copy), set("put_num"), writer("wr"), default(7))]
    num: u8,
    #[fieldx(writer, get(clone), set)]
    cl: Tok,
}
static mut OF: Option<F> = None;
fn f() -> &'static F {
    unsafe { OF.as_ref().unwrap() }
}
fn exec_tok(kind: u8, arg: u8) -> u8 {
    let x = f();
    match kind {
        GET | READ => shared!(x.rd()).0,
        SET => x.put(arg).0,
        _ => session!(x.change(), |t: Tok| Tok(bump(t.0))).0,
    }
}
fn exec_num(kind: u8, arg: u8) -> u8 {
    let x = f();
    match kind {
        GET | READ => x.num(),
        SET => x.put_num(arg),
        _ => session!(x.wr(), bump),
    }
}
fn exec_cl(kind: u8, arg: u8) -> u8 {
    let x = f();
    match kind {
        GET | READ => x.cl().0,
        SET => x.set_cl(Tok(arg)).0,
        _ => session!(x.write_cl(), |t: Tok| Tok(bump(t.0))).0,
    }
}
fn check_f(exec: fn(u8, u8) -> u8, first: u8, others: usize, depth: usize, kinds: u8, last: fn() -> u8) {
    let (p, q, r) = (nd::val(), nd::val(), nd::val());
    let Ok(x) = F::builder().tok(Tok(p)).num(q).cl(Tok(r)).build() else { panic!("builder") };
    unsafe { OF = Some(x) };
    let start = last();
    overlap(exec, first, others, depth, kinds);
    let l = last();
    finish(others, start, l);
    // the fields which nobody used
    let n = (f().rd().0 == p) as u8 + (f().num() == q) as u8 + (f().cl().0 == r) as u8;
    assert!(n >= 2, "lock: another field changed");
}

// --- optional
#[fxstruct(sync, optional, get, get_mut, set, reader, writer, clearer, predicate)]
struct O {
    foo: u8,
}
static mut OO: Option<O> = None;
fn oo() -> &'static O {
    unsafe { OO.as_ref().unwrap() }
}
fn exec_o(kind: u8, arg: u8) -> u8 {
    let x = oo();
    let next = |v: Option<u8>| Some(v.map_or(arg, bump));
    match kind {
        GET => o(shared!(x.foo())),
        READ => o(shared!(x.read_foo())),
        SET => o(x.set_foo(arg)),
        RMW => o(session!(x.write_foo(), next)),
        MUT => o(session!(x.foo_mut(), next)),
        CLR => o(x.clear_foo()),
        HAS => x.has_foo() as u8,
        _ => {
            let mut g = x.write_foo();
            let old = g.take();
            model::point();
            assert!(g.is_none(), "lock: another thread changed the field under an exclusive guard");
            *g = Some(arg);
            o(old)
        }
    }
}
fn check_o(first: u8, others: usize, depth: usize, kinds: u8) {
    unsafe { OO = Some(O::new()) };
    let start = nd::opt();
    if let Some(v) = start {
        oo().set_foo(v);
    }
    overlap(exec_o, first, others, depth, kinds);
    let last = o(*oo().foo());
    assert!(oo().has_foo() == (last != NONE), "lock: predicate and content differ when all threads are done");
    finish(others, o(start), last);
}
#[fxstruct(sync)]
struct Oc {
    #[fieldx(optional, lock, get(copy), set("put", into), clearer("wipe"), predicate("there"), writer("wr"))]
    foo: u8,
}
static mut OC: Option<Oc> = None;
fn oc() -> &'static Oc {
    unsafe { OC.as_ref().unwrap() }
}
fn exec_oc(kind: u8, arg: u8) -> u8 {
    let x = oc();
    match kind {
        GET | READ => o(x.foo()),
        SET => o(x.put(arg)),
        CLR => o(x.wipe()),
        HAS => x.there() as u8,
        _ => o(session!(x.wr(), |v: Option<u8>| Some(v.map_or(arg, bump)))),
    }
}
fn check_oc(first: u8, others: usize, depth: usize, kinds: u8) {
    unsafe { OC = Some(Oc::new()) };
    let start = nd::opt();
    if let Some(v) = start {
        oc().put(v);
    }
    overlap(exec_oc, first, others, depth, kinds);
    finish(others, o(start), o(oc().foo()));
}

// --- async: tasks which overlap at their suspension points
#[fxstruct(r#async, lock, get, get_mut, set, reader, writer)]
struct Y {
    foo: u8,
    #[fieldx(optional, predicate, clearer)]
    bar: u8,
}
async fn y_get(x: &Y, _: u8) -> u8 {
    let g = x.foo().await;
    let v = *g;
    stop(1).await;
    assert!(*g == v, "lock: the value changed under a read guard");
    v
}
async fn y_read(x: &Y, _: u8) -> u8 {
    *x.read_foo().await
}
async fn y_set(x: &Y, v: u8) -> u8 {
    x.set_foo(v).await
}
async fn y_rmw(x: &Y, _: u8) -> u8 {
    let mut g = x.write_foo().await;
    let v = *g;
    stop(1).await;
    assert!(*g == v, "lock: another task changed the field under an exclusive guard");
    *g = bump(v);
    v
}
async fn y_mut(x: &Y, _: u8) -> u8 {
    let mut g = x.foo_mut().await;
    let v = *g;
    stop(1).await;
    assert!(*g == v, "lock: another task changed the field under an exclusive guard");
    *g = bump(v);
    v
}
async fn z_get(x: &Y, _: u8) -> u8 {
    o(*x.bar().await)
}
async fn z_set(x: &Y, v: u8) -> u8 {
    o(x.set_bar(v).await)
}
async fn z_clear(x: &Y, _: u8) -> u8 {
    o(x.clear_bar().await)
}
async fn z_has(x: &Y, _: u8) -> u8 {
    x.has_bar().await as u8
}
async fn z_rmw(x: &Y, w: u8) -> u8 {
    let mut g = x.bar_mut().await;
    let v = *g;
    stop(1).await;
    assert!(*g == v, "lock: another task changed the field under an exclusive guard");
    *g = Some(v.map_or(w, bump));
    o(v)
}
macro_rules! tasks {
    ($f1:ident $k1:ident, $f2:ident $k2:ident, $opt:literal) => {{
        tokio::model::set_in_runtime(true);
        let x = M::new(Y::new());
        let start = if $opt {
            let p = nd::opt();
            if let Some(v) = p {
                run(x.set_bar(v));
            }
            o(p)
        } else {
            let p = nd::val();
            run(x.set_foo(p));
            p
        };
        let (v1, v2) = (nd::val(), nd::val());
        let at = nd::below(3);
        if at == 2 { gate(1) } else { yield_at(at) }
        let mut t1 = Task::new($f1(&x, v1));
        let mut r1 = t1.poll();
        yield_at(0);
        crate::reach!(r1.is_none(), "the first task is suspended");
        let early = r1.is_some();
        let mut t2 = Task::new($f2(&x, v2));
        let mut r2 = if early { None } else { t2.poll() };
        gate(0);
        if !early {
            r1 = t1.poll();
            assert!(r1.is_some(), "lock: the first task is stuck");
        }
        if r2.is_none() {
            r2 = t2.poll();
            assert!(r2.is_some(), "lock: the second task is stuck");
        }
        assert!(tokio::model::held() == 0, "lock: a lock is still held");
        let last = if $opt { o(*run(x.bar())) } else { *run(x.foo()) };
        let (mut st, mut b) = (start, 0);
        let one = spec(&mut st, &mut b, $k1, v1) == r1.unwrap() && spec(&mut st, &mut b, $k2, v2) == r2.unwrap() && st == last;
        let (mut st, mut b) = (start, 0);
        let two = spec(&mut st, &mut b, $k2, v2) == r2.unwrap() && spec(&mut st, &mut b, $k1, v1) == r1.unwrap() && st == last;
        assert!(one || !early && two, "lock: no order of the calls gives these results");
    }};
}

harnesses! {
    fn sched_get [10] { check_a(GET, 1, 1, MIX); }
    fn sched_read [10] { check_a(READ, 1, 1, MIX | B << READ); }
    fn sched_set [10] { check_a(SET, 1, 1, MIX | B << TAKE); }
    fn sched_rmw [10] { check_a(RMW, 1, 1, 255 ^ (B << CLR | B << HAS)); }
    fn sched_mut [10] { check_a(MUT, 1, 1, MIX | B << READ); }
    fn sched_rmw_three [10] { check_a(RMW, 2, 2, B << RMW | B << SET); }
    fn sched_set_three [10] { check_a(SET, 2, 2, B << GET | B << SET | B << RMW); }
    fn sched_mut_three [10] { check_a(MUT, 2, 2, B << GET | B << SET | B << RMW); }
    fn sched_tok [10] { check_f(exec_tok, MUT, 1, 1, MIX, || f().rd().0); }
    fn sched_tok_set [10] { check_f(exec_tok, SET, 1, 1, MIX, || f().rd().0); }
    fn sched_num [10] { check_f(exec_num, RMW, 1, 1, MIX, || f().num()); }
    fn sched_num_set [10] { check_f(exec_num, SET, 1, 1, MIX, || f().num()); }
    fn sched_clone [10] { check_f(exec_cl, GET, 1, 1, MIX, || f().cl().0); }
    fn sched_clone_set [10] { check_f(exec_cl, SET, 1, 1, MIX, || f().cl().0); }
    fn sched_opt_get [10] { check_o(GET, 1, 1, OMIX); }
    fn sched_opt_set [10] { check_o(SET, 1, 1, OMIX); }
    fn sched_opt_clear [10] { check_o(CLR, 1, 1, OMIX); }
    fn sched_opt_rmw [10] { check_o(RMW, 1, 1, 255); }
    fn sched_opt_mut [10] { check_o(MUT, 1, 1, OMIX); }
    fn sched_opt_take [10] { check_o(TAKE, 1, 1, OMIX); }
    fn sched_opt_has [10] { check_o(HAS, 1, 1, OMIX); }
    fn sched_opt_three [10] { check_o(CLR, 2, 2, B << SET | B << CLR | B << GET); }
    fn sched_opt_copy [10] { check_oc(GET, 1, 1, OMIX); }
    fn sched_opt_copy_set [10] { check_oc(SET, 1, 1, OMIX); }
    fn sched_opt_copy_clear [10] { check_oc(CLR, 1, 1, OMIX); }
    fn sched_opt_copy_rmw [10] { check_oc(RMW, 1, 1, OMIX); }
    fn sched_task_get_set [8] { tasks!(y_get GET, y_set SET, false) }
    fn sched_task_set_rmw [8] { tasks!(y_set SET, y_rmw RMW, false) }
    fn sched_task_rmw_set [8] { tasks!(y_rmw RMW, y_set SET, false) }
    fn sched_task_rmw_mut [8] { tasks!(y_rmw RMW, y_mut MUT, false) }
    fn sched_task_mut_read [8] { tasks!(y_mut MUT, y_read READ, false) }
    fn sched_task_opt_rmw_clear [8] { tasks!(z_rmw RMW, z_clear CLR, true) }
    fn sched_task_opt_rmw_has [8] { tasks!(z_rmw RMW, z_has HAS, true) }
    fn sched_task_opt_clear_set [8] { tasks!(z_clear CLR, z_set SET, true) }
    fn sched_task_opt_set_get [8] { tasks!(z_set SET, z_get GET, true) }
    // readers do not exclude each other, a guard of one field does not block another field
    fn sched_readers [8] {
        let x = A::new();
        let g = x.foo();
        let h = x.read_foo();
        assert!(*g == *h);
        let v = nd::val();
        x.set_bar(v);
        let w = x.write_bar();
        assert!(*w == v && model::held() == 3);
        drop(w);
        drop(g);
        drop(h);
        assert!(model::held() == 0);
    }
    #[cfg(feature = "thorough")]
    fn sched_get_three [10] { check_a(GET, 2, 2, MIX); }
    #[cfg(feature = "thorough")]
    fn sched_rmw_three_all [10] { check_a(RMW, 2, 2, MIX); }
    #[cfg(feature = "thorough")]
    fn sched_opt_set_three [10] { check_o(SET, 2, 2, OMIX); }
    #[cfg(feature = "thorough")]
    fn sched_opt_rmw_three [10] { check_o(RMW, 2, 2, OMIX); }
    #[cfg(feature = "thorough")]
    fn sched_opt_clear_three [10] { check_o(CLR, 2, 2, OMIX); }
}
