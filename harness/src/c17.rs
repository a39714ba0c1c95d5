//! C17: clones and comparisons of structs with lazy and lock-protected fields.
use crate::aio::{run, M};
use crate::cells::{self, num, MAX};
use crate::lazy::*;
use crate::sched::{self, overlap, inside, explained};
use crate::{nd, K};
use fieldx::fxstruct;
use parking_lot::model;

#[fxstruct(sync, lazy, get, get_mut, set, clearer, predicate, reader, writer)]
#[derive(Clone, PartialEq)]
struct A {
    foo: u8,
    bar: Tok,
}
impl A {
    fn build_foo(&self) -> u8 {
        built()
    }
    fn build_bar(&self) -> Tok {
        Tok(built())
    }
}
lazy_obj! { A;
    get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
    read |o| *o.read_foo(); wstore |o, v| o.write_foo().store(v); wclear |o| o.write_foo().clear();
}
/// the other one of its lazies
struct A2(A);
impl Clone for A2 {
    fn clone(&self) -> Self {
        A2(self.0.clone())
    }
}
impl PartialEq for A2 {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
lazy_obj! { A2;
    get |o| o.0.bar().0; mutate |o| o.0.bar_mut(); set |o, v| o.0.set_bar(Tok(v)); clear |o| o.0.clear_bar(); has |o| o.0.has_bar();
}
// reads its lazy through another field of the same object: the clone's builder sees the clone
#[fxstruct(sync, get, set)]
#[derive(Clone, PartialEq)]
struct B {
    #[fieldx(lazy, get(copy), clearer, predicate)]
    l: u8,
    #[fieldx(lock, get(copy))]
    seed: u8,
}
impl B {
    fn build_l(&self) -> u8 {
        self.seed()
    }
}
#[derive(Debug, Clone, PartialEq)]
struct Bad;
#[fxstruct(sync)]
#[derive(Clone, PartialEq)]
struct F {
    #[fieldx(lazy, fallible(error(Bad)), set, clearer, predicate)]
    l: u8,
}
impl F {
    fn build_l(&self) -> Result<u8, Bad> {
        Ok(built())
    }
}
lazy_obj! { F; get |o| match o.l() { Ok(v) => *v, Err(_) => 0 }; set |o, v| o.set_l(v); clear |o| o.clear_l(); has |o| o.has_l(); }
#[fxstruct(sync)]
#[derive(Clone, PartialEq)]
struct G<T: Clone + PartialEq + Default + From<u8> + Send + Sync + 'static> {
    #[fieldx(lazy, get(clone), set, clearer, predicate, default(T::from(200)))]
    l: T,
    #[fieldx(lock, get(clone))]
    k: T,
}
impl<T: Clone + PartialEq + Default + From<u8> + Send + Sync + 'static> G<T> {
    fn build_l(&self) -> T {
        built().into()
    }
}
lazy_obj! { G<Tok>; get |o| o.l(); set |o, v| o.set_l(Tok(v)); clear |o| o.clear_l(); has |o| o.has_l(); }
// non-concurrent ones
#[fxstruct(lazy, get, get_mut, set, clearer, predicate)]
#[derive(Clone, PartialEq)]
struct P {
    foo: u8,
    bar: Tok,
}
impl P {
    fn build_foo(&self) -> u8 {
        built()
    }
    fn build_bar(&self) -> Tok {
        Tok(built())
    }
}
lazy_obj! { P; get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo(); }

fn quiet(n: u8) {
    assert!(builds() == n, "clone: nothing is built");
    assert!(model::held() == 0, "clone: a lock is still held");
}
/// The same content, then each its own.
fn lazies<T: LazyObj + Clone + PartialEq>(a: T, start: Option<u8>, k: usize) {
    let mut a = M::new(a);
    let (cur, n) = ops(&mut *a, start, k);
    let mut b = M::new((*a).clone());
    quiet(n);
    assert!(a.has() == cur.is_some() && b.has() == cur.is_some(), "clone: a value is present as in the original");
    assert!(*a == *b && *b == *a, "eq: an object and its clone are equal");
    quiet(n);
    reach!(cur.is_some(), "of a set one");
    reach!(cur.is_none(), "of an unset one");
    let (ca, cb);
    if nd::flag() {
        ca = ops(&mut *a, cur, k).0;
        cb = ops(&mut *b, cur, k).0;
    } else {
        cb = ops(&mut *b, cur, k).0;
        ca = ops(&mut *a, cur, k).0;
    }
    let n = builds();
    let e = ca == cb;
    assert!((*a == *b) == e && (*b == *a) == e, "eq: compares the current contents");
    assert!((*a != *b) == !e, "eq: compares the current contents");
    quiet(n);
    reach!(e, "still equal");
    reach!(!e, "different");
    assert!(a.has() == ca.is_some() && b.has() == cb.is_some(), "eq: changes nothing");
    assert!(a.clear() == ca && b.clear() == cb, "clone: each has its own content");
    quiet(n);
}

// --- fields with locks, optional ones, and a field without
#[fxstruct(sync, get(copy), get_mut, set)]
#[derive(Clone, PartialEq)]
struct L {
    #[fieldx(lock)]
    a: u8,
    #[fieldx(optional, lock, clearer, predicate)]
    b: u8,
    #[fieldx(lock(off))]
    c: u8,
    #[fieldx(optional, lock(off), clearer, predicate)]
    d: u8,
}
struct Two<T>(M<T>, M<T>);
cells! { Two<L>; |o, v|
    { look o.0.a(), set o.0.set_a(v), mutate o.0.a_mut() }
    { look o.0.b(), set o.0.set_b(v), mutate o.0.b_mut(), clear o.0.clear_b(), has o.0.has_b() }
    { look o.0.c(), set o.0.set_c(v) }
    { look o.0.d(), set o.0.set_d(v), clear o.0.clear_d(), has o.0.has_d() }
    { look o.1.a(), set o.1.set_a(v), mutate o.1.a_mut() }
    { look o.1.b(), set o.1.set_b(v), mutate o.1.b_mut(), clear o.1.clear_b(), has o.1.has_b() }
    { look o.1.c(), set o.1.set_c(v) }
    { look o.1.d(), set o.1.set_d(v), clear o.1.clear_d(), has o.1.has_d() }
}
// nothing else than locked fields, compared with Eq
#[fxstruct(sync, lock, get(clone), set)]
#[derive(Clone, PartialEq, Eq)]
struct E {
    a: Tok,
    b: u8,
}
// async locks
#[fxstruct(r#async, get(copy), set)]
#[derive(Clone, PartialEq)]
struct Y {
    #[fieldx(lock)]
    a: u8,
    #[fieldx(optional, lock, clearer, predicate)]
    b: u8,
}
// async lazies
#[fxstruct(r#async, set)]
#[derive(Clone)]
struct Z {
    #[fieldx(lazy, get(copy), writer, clearer, predicate)]
    l: u8,
    #[fieldx(lock, get(copy))]
    seed: u8,
}
impl Z {
    async fn build_l(&self) -> u8 {
        built() + self.seed().await
    }
}
#[fxstruct(r#async, lazy, set, clearer, predicate)]
#[derive(Clone)]
struct ZD {
    #[fieldx(get(clone), default(Tok(200)))]
    m: Tok,
    #[fieldx(fallible(error(Bad)), get(copy))]
    f: i8,
}
impl ZD {
    async fn build_m(&self) -> Tok {
        Tok(built())
    }
    async fn build_f(&self) -> Result<i8, Bad> {
        built();
        Err(Bad)
    }
}
#[fxstruct(r#async)]
#[derive(Clone)]
struct ZG<T: Clone + Default + From<u8> + Send + Sync + 'static> {
    #[fieldx(lazy, get(clone), set, clearer, predicate)]
    l: T,
}
impl<T: Clone + Default + From<u8> + Send + Sync + 'static> ZG<T> {
    async fn build_l(&self) -> T {
        built().into()
    }
}
// inner mutability in a plain struct
#[fxstruct(inner_mut, get(copy), set)]
#[derive(Clone, PartialEq)]
struct I {
    a: u8,
    #[fieldx(optional, clearer)]
    b: u8,
}
/// One more operation on one of the two, after which they are equal iff their contents are.
fn same<T: Clone + PartialEq>(a: &T, show: fn(&T) -> (u8, u8), change: fn(&T, u8)) {
    let b = M::new(a.clone());
    assert!(*a == *b && *b == *a && *a == *a, "eq: an object and its clone are equal");
    let w = show(a);
    assert!(show(&b) == w, "clone: the content is the original's");
    let first = nd::flag();
    change(if first { a } else { &b }, nd::val());
    assert!(show(if first { &b } else { a }) == w, "clone: a change of one is not seen in the other");
    let e = show(a) == show(&b);
    assert!((*a == *b) == e && (*b == *a) == e, "eq: compares the current contents");
    reach!(e, "still equal");
    reach!(!e, "different");
}

/// Has its own idea of equality, which is not reflexive: 9 is like no other, itself included.
#[derive(Clone, Copy, Default)]
struct Skew(u8);
impl PartialEq for Skew {
    fn eq(&self, o: &Self) -> bool {
        self.0 != 9 && o.0 != 9 && self.0 / 4 == o.0 / 4
    }
}
#[fxstruct(sync, get(copy), set)]
#[derive(Clone, PartialEq)]
struct SK {
    #[fieldx(lazy)]
    l: Skew,
    #[fieldx(lock)]
    k: Skew,
    #[fieldx(optional)]
    o: Skew,
}
impl SK {
    fn build_l(&self) -> Skew {
        Skew(built())
    }
}
#[fxstruct(r#async, lock, get(copy), set)]
#[derive(Clone, PartialEq)]
struct AK {
    k: Skew,
    #[fieldx(optional)]
    o: Skew,
}
fn like(a: Option<u8>, b: Option<u8>) -> bool {
    a.map(Skew) == b.map(Skew)
}

// --- while another thread changes it
const GET: u8 = 0;
const SET: u8 = 1;
const CLR: u8 = 2;
const CLONE: u8 = 3;
const EQ: u8 = 4;
const WSTORE: u8 = 5;
static mut OA: Option<A> = None;
static mut OR: Option<A> = None;
static mut REF: u8 = 0;
fn o(x: Option<u8>) -> u8 {
    x.unwrap_or(sched::NONE)
}
fn exec(kind: u8, arg: u8) -> u8 {
    let x = unsafe { OA.as_ref().unwrap() };
    match kind {
        GET => *x.foo(),
        SET => o(x.set_foo(arg)),
        CLR => o(x.clear_foo()),
        WSTORE => o(x.write_foo().store(arg)),
        CLONE => {
            let c = M::new(x.clone());
            let there = c.has_foo();
            let r = o(c.clear_foo());
            assert!(there == (r != sched::NONE), "clone: its predicate and its content agree");
            r
        }
        _ => (*x == *unsafe { OR.as_ref().unwrap() }) as u8,
    }
}
fn spec(st: &mut u8, n: &mut u8, kind: u8, arg: u8) -> u8 {
    match kind {
        GET => {
            if *st == sched::NONE {
                *n += 1;
                *st = 99 + *n;
            }
            *st
        }
        SET | WSTORE => std::mem::replace(st, arg),
        CLR => std::mem::replace(st, sched::NONE),
        CLONE => *st,
        _ => (*st == unsafe { REF }) as u8,
    }
}
fn concurrent(first: u8, kinds: u8) {
    unsafe { OA = Some(A::new()) };
    let start = nd::opt();
    if let Some(v) = start {
        unsafe { OA.as_ref().unwrap().set_foo(v) };
    }
    if first == EQ {
        unsafe { OR = Some(A::new()) };
        let r = nd::opt();
        if let Some(v) = r {
            unsafe { OR.as_ref().unwrap().set_foo(v) };
        }
        unsafe { REF = o(r) };
    }
    overlap(exec, first, 1, 1, kinds);
    assert!(model::held() == 0, "clone: a lock is still held");
    reach!(inside() > 0, "operations overlap");
    let n = builds();
    let x = unsafe { OA.as_ref().unwrap() };
    let there = x.has_foo();
    let last = o(x.clear_foo());
    assert!(there == (last != sched::NONE), "lazy: predicate and content agree");
    assert!(explained(spec, 2, o(start), 0, last, n), "clone, eq: see the content of one moment");
}

harnesses! {
    /// An untouched object, its clone, and the first access of either.
    fn unset [10] {
        let a = M::new(A::new());
        let b = M::new((*a).clone());
        quiet(0);
        assert!(*a == *b, "eq: unset lazies are equal");
        let first = nd::flag();
        let (x, y) = if first { (&*a, &*b) } else { (&*b, &*a) };
        assert!(*x.foo() == 100, "clone: an unset lazy is built on its own first access");
        assert!(x.has_foo() && !y.has_foo() && !x.has_bar() && !y.has_bar(), "clone: an access of one is not seen in the other");
        assert!(*x != *y && *y != *x, "eq: an unset lazy is not equal to a set one");
        assert!(*y.foo() == 101 && builds() == 2, "clone: an unset lazy is built on its own first access");
        assert!(*a != *b, "eq: compares the current contents");
        y.set_foo(100);
        assert!(*a == *b, "eq: compares the current contents");
        x.set_bar(Tok(nd::val()));
        assert!(*a != *b && !y.has_bar(), "eq: compares every field");
        quiet(2);
    }
    fn lazy_sync [10] { let v = nd::opt(); let a = A::new(); if let Some(v) = v { a.set_foo(v); } lazies(a, v, 1) }
    fn lazy_sync_other [10] { let v = nd::opt(); let a = A::new(); if let Some(v) = v { a.set_bar(Tok(v)); } lazies(A2(a), v, 1) }
    fn lazy_fallible [10] { let v = nd::opt(); let a = F::new(); if let Some(v) = v { a.set_l(v); } lazies(a, v, 1) }
    fn lazy_generic [10] { lazies(G::<Tok>::new(), Some(200), 1) }
    fn lazy_plain [10] { let v = nd::opt(); let mut a = P::new(); if let Some(v) = v { a.set_foo(v); } lazies(a, v, 1) }
    /// A clone's builder works on the clone.
    fn own_builder [10] {
        let (v, w, p) = (nd::val(), nd::val(), nd::flag());
        let a = M::new(B::new());
        a.set_seed(v);
        if p { a.l(); }
        let b = M::new((*a).clone());
        assert!(*a == *b && b.seed() == v && b.has_l() == p, "clone: the content is the original's");
        let (x, y) = if nd::flag() { (&*a, &*b) } else { (&*b, &*a) };
        y.set_seed(w);
        assert!(x.seed() == v, "clone: a change of one is not seen in the other");
        assert!((*x == *y) == (v == w), "eq: compares the current contents");
        assert!(x.l() == v && y.l() == if p { v } else { w }, "clone: its builder sees the object it belongs to");
        y.clear_l();
        assert!(y.l() == w && x.l() == v, "clone: its builder sees the object it belongs to");
    }
    fn locks [10] {
        let (v, w, b, d) = (nd::val(), nd::val(), nd::opt(), nd::opt());
        let mut a = L::new();
        a.set_a(v);
        a.set_c(w);
        if let Some(b) = b { a.set_b(b); }
        if let Some(d) = d { a.set_d(d); }
        let c = a.clone();
        quiet(0);
        let (b, d) = (b.unwrap_or(cells::NONE), d.unwrap_or(cells::NONE));
        let mut t = Two(M::new(a), M::new(c));
        assert!(*t.0 == *t.1 && *t.1 == *t.0, "eq: an object and its clone are equal");
        cells::history(&mut t, [v, b, w, d, v, b, w, d], 2);
        let e = num(t.0.a()) == num(t.1.a()) && num(t.0.b()) == num(t.1.b()) && num(t.0.c()) == num(t.1.c()) && num(t.0.d()) == num(t.1.d());
        assert!((*t.0 == *t.1) == e && (*t.1 == *t.0) == e, "eq: compares the current contents");
        quiet(0);
        reach!(e, "still equal");
        reach!(!e, "different");
    }
    fn lock_only [10] {
        let a = M::new(E::new());
        a.set_a(Tok(nd::val()));
        a.set_b(nd::val());
        same(&*a, |x| (num(x.a()), x.b()), |x, v| if nd::flag() { x.set_a(Tok(v)); } else { x.set_b(v); });
        quiet(0);
    }
    fn lock_async [10] {
        let a = M::new(Y::new());
        run(a.set_a(nd::val()));
        if let Some(v) = nd::opt() { run(a.set_b(v)); }
        same(&*a, |x| (run(x.a()), num(run(x.b()))), |x, v| match nd::below(3) { 0 => { run(x.set_a(v)); } 1 => { run(x.set_b(v)); } _ => { run(x.clear_b()); } });
        assert!(tokio::model::held() == 0, "clone: a lock is still held");
    }
    fn lazy_async [10] {
        let a = M::new(Z::new());
        let (l, s) = (nd::opt(), nd::below(8));
        run(a.set_seed(s));
        if let Some(v) = l { run(a.set_l(v)); }
        let b = M::new((*a).clone());
        assert!(builds() == 0 && tokio::model::held() == 0, "clone: nothing is built, no lock is kept");
        assert!(b.has_l() == l.is_some(), "clone: a value is present as in the original");
        let (x, y) = if nd::flag() { (&*a, &*b) } else { (&*b, &*a) };
        let t = nd::below(8);
        run(y.set_seed(t));
        let v = nd::val();
        let now = match nd::below(3) {
            0 => { assert!(run(x.set_l(v)) == l, "clone: the content is the original's"); Some(v) }
            1 => { assert!(run(x.clear_l()) == l, "clone: the content is the original's"); None }
            _ => { assert!(run(x.write_l()).store(v) == l, "clone: the content is the original's"); Some(v) }
        };
        assert!(y.has_l() == l.is_some() && x.has_l() == now.is_some(), "clone: a change of one is not seen in the other");
        assert!(run(y.l()) == l.unwrap_or(100 + t), "clone: its builder sees the object it belongs to");
        assert!(builds() == l.is_none() as u8 && y.has_l(), "clone: an unset lazy is built on its own first access");
        assert!(run(x.clear_l()) == now && y.has_l() && !x.has_l() && run(x.seed()) == s, "clone: each has its own content");
        reach!(l.is_some(), "of a set one");
        reach!(l.is_none(), "of an unset one");
        assert!(tokio::model::held() == 0, "clone: a lock is still held");
    }
    fn lazy_async_kinds [10] {
        let a = M::new(ZD::new());
        let (f, m) = (nd::opt(), nd::flag());
        if let Some(v) = f { run(a.set_f(v as i8)); }
        if m { run(a.clear_m()); }
        let b = M::new((*a).clone());
        let (x, y) = if nd::flag() { (&*a, &*b) } else { (&*b, &*a) };
        assert!(x.has_m() != m && x.has_f() == f.is_some() && y.has_m() != m && y.has_f() == f.is_some(), "clone: a value is present as in the original");
        assert!(run(x.clear_m()) == if m { None } else { Some(Tok(200)) } && y.has_m() != m, "clone: each has its own content");
        assert!(run(x.clear_f()) == f.map(|v| v as i8) && y.has_f() == f.is_some() && run(y.clear_f()) == f.map(|v| v as i8), "clone: each has its own content");
        assert!(builds() == 0 && tokio::model::held() == 0, "clone: nothing is built, no lock is kept");
    }
    fn lazy_async_generic [10] {
        let a = M::new(ZG::<Tok>::new());
        let v = nd::opt();
        if let Some(v) = v { run(a.set_l(Tok(v))); }
        let b = M::new((*a).clone());
        let (x, y) = if nd::flag() { (&*a, &*b) } else { (&*b, &*a) };
        assert!(x.has_l() == v.is_some() && y.has_l() == v.is_some() && builds() == 0, "clone: a value is present as in the original");
        assert!(run(x.l()) == Tok(v.unwrap_or(100)), "clone: an unset lazy is built on its own first access");
        assert!(run(y.clear_l()) == v.map(Tok) && !y.has_l() && x.has_l(), "clone: an access of one is not seen in the other");
    }
    /// It is the contents which are compared, as they compare themselves, be it two objects or one.
    fn own_equality [10] {
        let (a, b) = (M::new(SK::new()), M::new(SK::new()));
        let (l, k, o) = (nd::opt(), nd::below(16), nd::opt());
        if let Some(v) = l { a.set_l(Skew(v)); }
        a.set_k(Skew(k));
        if let Some(v) = o { a.set_o(Skew(v)); }
        let (m, n, p) = (nd::opt(), nd::below(16), nd::opt());
        if let Some(v) = m { b.set_l(Skew(v)); }
        b.set_k(Skew(n));
        if let Some(v) = p { b.set_o(Skew(v)); }
        let e = like(l, m) && like(Some(k), Some(n)) && like(o, p);
        assert!((*a == *b) == e && (*b == *a) == e, "eq: compares the current contents");
        let e = like(l, l) && like(Some(k), Some(k)) && like(o, o);
        assert!((*a == *a) == e && (*a != *a) == !e, "eq: compares the current contents");
        let c = M::new((*a).clone());
        assert!((*a == *c) == e && (*c == *a) == e, "eq: compares the current contents");
        assert!(c.k().0 == k && c.o().map(|x| x.0) == o, "clone: the content is the original's");
        reach!(e, "equal");
        reach!(!e, "different");
        quiet(0);
    }
    fn own_equality_async [10] {
        let (a, b) = (M::new(AK::new()), M::new(AK::new()));
        let (k, o, n, p) = (nd::below(16), nd::opt(), nd::below(16), nd::opt());
        run(a.set_k(Skew(k)));
        if let Some(v) = o { run(a.set_o(Skew(v))); }
        run(b.set_k(Skew(n)));
        if let Some(v) = p { run(b.set_o(Skew(v))); }
        let e = like(Some(k), Some(n)) && like(o, p);
        assert!((*a == *b) == e && (*b == *a) == e, "eq: compares the current contents");
        let e = like(Some(k), Some(k)) && like(o, o);
        assert!((*a == *a) == e && (*a != *a) == !e, "eq: compares the current contents");
        assert!(tokio::model::held() == 0, "clone: a lock is still held");
    }
    fn inner_mut [10] {
        let a = M::new(I::new());
        a.set_a(nd::val());
        if let Some(v) = nd::opt() { a.set_b(v); }
        same(&*a, |x| (x.a(), num(x.b())), |x, v| match nd::below(3) { 0 => { x.set_a(v); } 1 => { x.set_b(v); } _ => { x.clear_b(); } });
    }
    fn clone_while_set [10] { concurrent(CLONE, 1 << SET | 1 << WSTORE) }
    fn clone_while_cleared [10] { concurrent(CLONE, 1 << CLR | 1 << GET) }
    fn eq_while_set [10] { concurrent(EQ, 1 << SET | 1 << GET | 1 << CLR) }
    fn set_while_cloned [10] { concurrent(SET, 1 << CLONE) }
    fn clear_while_cloned [10] { concurrent(CLR, 1 << CLONE) }
    fn built_while_cloned [10] { concurrent(GET, 1 << CLONE) }
    #[cfg(feature = "thorough")]
    fn lazy_sync_2 [10] { let v = nd::opt(); let a = A::new(); if let Some(v) = v { a.set_foo(v); } lazies(a, v, 2) }
    #[cfg(feature = "thorough")]
    fn lazy_plain_2 [10] { let v = nd::opt(); let mut a = P::new(); if let Some(v) = v { a.set_foo(v); } lazies(a, v, 2) }
}
