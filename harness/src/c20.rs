//! C20: lazies whose builders read other fields of the object: a diamond a <- b, c <- d over a seed,
//! where b depends on a second field, too.
use crate::aio::{run, stop, gate, Task, M};
use crate::{nd, K};
use fieldx::fxstruct;

pub const NO: u32 = u32::MAX;
static mut RUNS: [u8; 4] = [0; 4];
static mut ORDER: u32 = 0;
/// one more run of the builder of field i, after those it depends on
fn ran(i: usize) {
    unsafe {
        RUNS[i] += 1;
        ORDER = ORDER * 8 + i as u32 + 1;
    }
}
fn runs(i: usize) -> u8 {
    unsafe { RUNS[i] }
}
fn reset() {
    unsafe {
        RUNS = [0; 4];
        ORDER = 0;
    }
}
// what the builders make
fn mk_a(seed: u8) -> u32 {
    seed as u32
}
fn mk_b(a: u32, extra: u8) -> u32 {
    (a & 0xff) | (extra as u32) << 8
}
fn mk_c(a: u32) -> u32 {
    a ^ 0x80
}
fn mk_d(b: u32, c: u32) -> u32 {
    (b & 0xffff) << 8 | (c & 0xff)
}

trait Dia {
    fn get(&mut self, i: u8) -> u32;
    fn clear(&mut self, i: u8) -> u32;
    fn set(&mut self, i: u8, v: u32) -> u32;
    fn has(&mut self, i: u8) -> bool;
    fn seed(&mut self, v: u8);
    fn extra(&mut self, v: Option<u8>);
}
fn o(x: Option<u32>) -> u32 {
    x.unwrap_or(NO)
}
struct Ref {
    seed: u8,
    extra: u8,
    v: [u32; 4],
    n: [u8; 4],
    order: u32,
}
impl Ref {
    fn new(seed: u8, extra: u8) -> Ref {
        Ref { seed, extra, v: [NO; 4], n: [0; 4], order: 0 }
    }
    fn built(&mut self, i: usize, x: u32) -> u32 {
        self.v[i] = x;
        self.n[i] += 1;
        self.order = self.order * 8 + i as u32 + 1;
        x
    }
    fn a(&mut self) -> u32 {
        if self.v[0] == NO { let x = mk_a(self.seed); self.built(0, x) } else { self.v[0] }
    }
    fn b(&mut self) -> u32 {
        if self.v[1] == NO { let x = mk_b(self.a(), self.extra); self.built(1, x) } else { self.v[1] }
    }
    fn c(&mut self) -> u32 {
        if self.v[2] == NO { let x = mk_c(self.a()); self.built(2, x) } else { self.v[2] }
    }
    fn d(&mut self) -> u32 {
        if self.v[3] == NO {
            let b = self.b();
            let c = self.c();
            self.built(3, mk_d(b, c))
        } else {
            self.v[3]
        }
    }
    fn get(&mut self, i: u8) -> u32 {
        match i { 0 => self.a(), 1 => self.b(), 2 => self.c(), _ => self.d() }
    }
}
fn same<T: Dia>(x: &mut T, r: &Ref) {
    let mut i = 0;
    while i < 4 {
        assert!(runs(i) == r.n[i], "depend: exactly the unset lazies an access depends on are built, each once");
        assert!(x.has(i as u8) == (r.v[i] != NO), "depend: the fields set are those accessed or stored");
        i += 1;
    }
    assert!(unsafe { ORDER } == r.order, "depend: each lazy is built before its dependants");
}
fn history<T: Dia>(x: &mut T, k: usize) {
    let (s, e) = (nd::val(), nd::opt());
    x.seed(s);
    x.extra(e);
    let mut r = Ref::new(s, e.unwrap_or(0));
    let mut step = 0;
    while step < k {
        let i = nd::below(4);
        match nd::below(5) {
            0 => assert!(x.get(i) == r.get(i), "depend: the value is made of those the fields have"),
            1 => {
                assert!(x.clear(i) == r.v[i as usize], "clearer: returns the current value");
                r.v[i as usize] = NO;
            }
            2 => {
                let v = nd::val() as u32 | 0x1000000;
                assert!(x.set(i, v) == r.v[i as usize], "setter: returns the previous value");
                r.v[i as usize] = v;
            }
            3 => {
                let v = nd::val();
                x.seed(v);
                r.seed = v;
            }
            _ => {
                let v = nd::opt();
                x.extra(v);
                r.extra = v.unwrap_or(0);
            }
        }
        same(x, &r);
        step += 1;
    }
    let i = nd::below(4);
    assert!(x.get(i) == r.get(i), "depend: the value is made of those the fields have");
    same(x, &r);
    reach!(i == 3 && r.n[3] == 1 && r.n[0] == 1, "the whole diamond");
}
/// Every one is read; then one of them is cleared and read again.
fn rebuild<T: Dia>(x: &mut T) {
    let (s, t) = (nd::val(), nd::val());
    x.seed(s);
    let mut r = Ref::new(s, 0);
    let first = nd::below(4);
    assert!(x.get(first) == r.get(first), "depend: the value is made of those the fields have");
    same(x, &r);
    assert!(x.get(3) == r.get(3), "depend: the value is made of those the fields have");
    same(x, &r);
    x.seed(t);
    r.seed = t;
    let i = nd::below(4);
    assert!(x.clear(i) == r.v[i as usize], "clearer: returns the current value");
    r.v[i as usize] = NO;
    let j = nd::below(4);
    assert!(x.get(j) == r.get(j), "depend: dependants keep their value, only what was cleared is rebuilt");
    same(x, &r);
    assert!(x.get(i) == r.get(i), "depend: only what was cleared is rebuilt");
    same(x, &r);
}

macro_rules! dia {
    ($t:ty; |$x:ident, $v:ident| $g:ident: $a:expr, $b:expr, $c:expr, $d:expr; clear $ca:expr, $cb:expr, $cc:expr, $cd:expr;
     set $sa:expr, $sb:expr, $sc:expr, $sd:expr; seed $seed:expr; extra $ex:expr, $cex:expr) => {
        impl Dia for $t {
            fn get(&mut self, i: u8) -> u32 { let $x = self; match i { 0 => *$a, 1 => *$b, 2 => *$c, _ => *$d } }
            fn clear(&mut self, i: u8) -> u32 { let $x = self; o(match i { 0 => $ca, 1 => $cb, 2 => $cc, _ => $cd }) }
            fn set(&mut self, i: u8, $v: u32) -> u32 { let $x = self; o(match i { 0 => $sa, 1 => $sb, 2 => $sc, _ => $sd }) }
            fn has(&mut self, i: u8) -> bool { match i { 0 => self.has_a(), 1 => self.has_b(), 2 => self.has_c(), _ => self.has_d() } }
            fn seed(&mut self, $v: u8) { let $x = self; $seed; }
            fn extra(&mut self, v: Option<u8>) { let $x = self; match v { Some($v) => { $ex; } None => { $cex; } } }
        }
    };
}

#[fxstruct(get, set, clearer, predicate)]
struct P {
    #[fieldx(lazy)]
    d: u32,
    #[fieldx(lazy)]
    b: u32,
    #[fieldx(lazy)]
    a: u32,
    #[fieldx(lazy)]
    c: u32,
    #[fieldx(clearer(off), predicate(off), get(copy))]
    seed: u8,
    #[fieldx(optional, get(copy))]
    extra: u8,
}
impl P {
    fn build_a(&self) -> u32 {
        let r = mk_a(self.seed());
        ran(0);
        r
    }
    fn build_b(&self) -> u32 {
        let r = mk_b(*self.a(), self.extra().unwrap_or(0));
        ran(1);
        r
    }
    fn build_c(&self) -> u32 {
        let r = mk_c(*self.a());
        ran(2);
        r
    }
    fn build_d(&self) -> u32 {
        let r = mk_d(*self.b(), *self.c());
        ran(3);
        r
    }
}
dia! { P; |x, v| get: x.a(), x.b(), x.c(), x.d(); clear x.clear_a(), x.clear_b(), x.clear_c(), x.clear_d();
    set x.set_a(v), x.set_b(v), x.set_c(v), x.set_d(v); seed x.set_seed(v); extra x.set_extra(v), x.clear_extra() }

#[fxstruct(sync, get, set, clearer, predicate)]
struct S {
    #[fieldx(lazy)]
    d: u32,
    #[fieldx(lazy)]
    b: u32,
    #[fieldx(lazy)]
    a: u32,
    #[fieldx(lazy, get(copy), reader)]
    c: u32,
    #[fieldx(lock, clearer(off), predicate(off), get(copy))]
    seed: u8,
    #[fieldx(optional, lock, get(copy))]
    extra: u8,
}
impl S {
    fn build_a(&self) -> u32 {
        let r = mk_a(self.seed());
        ran(0);
        r
    }
    fn build_b(&self) -> u32 {
        let r = mk_b(*self.a(), self.extra().unwrap_or(0));
        ran(1);
        r
    }
    fn build_c(&self) -> u32 {
        let r = mk_c(*self.a());
        ran(2);
        r
    }
    fn build_d(&self) -> u32 {
        // both guards are held at once
        let b = self.b();
        let c = self.read_c();
        let r = mk_d(*b, *c);
        ran(3);
        r
    }
}
dia! { S; |x, v| get: x.a(), x.b(), &x.c(), x.d(); clear x.clear_a(), x.clear_b(), x.clear_c(), x.clear_d();
    set x.set_a(v), x.set_b(v), x.set_c(v), x.set_d(v); seed x.set_seed(v); extra x.set_extra(v), x.clear_extra() }

// fallible ones: an error of a dependency is handed on, and nothing stays half-built
#[derive(Debug, Clone, Copy, PartialEq)]
struct Bad(u8);
#[fxstruct(sync, lazy, fallible(error(Bad)), get, set, clearer, predicate)]
struct F {
    d: u32,
    b: u32,
    a: u32,
}
#[fxstruct(lazy, fallible(error(Bad)), get, set, clearer, predicate)]
struct FP {
    d: u32,
    b: u32,
    a: u32,
}
/// the builder which fails (3: none)
static mut FAIL: u8 = 3;
fn may(i: u8, v: u32) -> Result<u32, Bad> {
    ran(i as usize);
    if unsafe { FAIL } == i { Err(Bad(i)) } else { Ok(v) }
}
impl F {
    fn build_a(&self) -> Result<u32, Bad> {
        may(0, 5)
    }
    fn build_b(&self) -> Result<u32, Bad> {
        let a = *self.a()?;
        may(1, a + 10)
    }
    fn build_d(&self) -> Result<u32, Bad> {
        let (a, b) = (self.a()?, self.b()?);
        may(2, *a + 2 * *b)
    }
}
impl FP {
    fn build_a(&self) -> Result<u32, Bad> {
        may(0, 5)
    }
    fn build_b(&self) -> Result<u32, Bad> {
        let a = *self.a()?;
        may(1, a + 10)
    }
    fn build_d(&self) -> Result<u32, Bad> {
        let (a, b) = (self.a()?, self.b()?);
        may(2, *a + 2 * *b)
    }
}
macro_rules! fails {
    ($t:ty, $x:ident, $held:expr) => {{
        let mut $x = M::new(<$t>::new());
        let preset = nd::flag();
        if preset { $x.set_b(20); }
        let f = nd::below(4);
        unsafe { FAIL = f };
        let i = nd::below(3);
        let r = match i { 0 => $x.a().map(|v| *v), 1 => $x.b().map(|v| *v), _ => $x.d().map(|v| *v) };
        // what is built, in order, until one fails
        let needs_a = i != 1 || !preset;
        let ok_a = needs_a && f != 0;
        let b_runs = !preset && i != 0 && f != 0;
        let ok_b = b_runs && f != 1;
        let has_b = preset || ok_b;
        let d_runs = i == 2 && ok_a && has_b;
        let b = if preset { 20 } else { 15 };
        let want = match i {
            0 => if ok_a { Ok(5) } else { Err(Bad(0)) },
            1 => if has_b { Ok(b) } else { Err(Bad(f)) },
            _ => if d_runs && f != 2 { Ok(5 + 2 * b) } else { Err(Bad(f)) },
        };
        assert!(r == want, "depend: the error of the failing dependency, or the value");
        assert!(runs(0) == needs_a as u8 && runs(1) == b_runs as u8 && runs(2) == d_runs as u8, "depend: each builder at most once");
        assert!($x.has_a() == ok_a && $x.has_b() == has_b && $x.has_d() == (d_runs && f != 2), "depend: what was built stays, what failed does not");
        $held;
        // a later access builds what is missing and only that
        reset();
        unsafe { FAIL = 3 };
        assert!($x.d().map(|v| *v) == Ok(5 + 2 * b), "depend: a retry goes on from what is there");
        assert!(runs(0) == !ok_a as u8 && runs(1) == !has_b as u8 && runs(2) == !(d_runs && f != 2) as u8, "depend: a retry builds what is missing");
        reach!(i == 2 && f == 1 && !preset, "the middle one fails");
    }};
}

// --- async
#[fxstruct(r#async, get, clearer, predicate)]
struct Y {
    #[fieldx(lazy)]
    b: u32,
    // another type than b's: the solver need not consider that one's builder is the other's
    #[fieldx(lazy)]
    a: u16,
    #[fieldx(clearer(off), predicate(off), get(copy), set)]
    seed: u8,
}
impl Y {
    async fn build_a(&self) -> u16 {
        let r = self.seed() as u16;
        stop(1).await;
        ran(0);
        r
    }
    async fn build_b(&self) -> u32 {
        let r = mk_c(*self.a().await as u32);
        ran(1);
        r
    }
}
fn y(seed: u8) -> M<Y> {
    let mut x = M::new(Y::new());
    x.set_seed(seed);
    x
}

#[cfg(feature = "model")]
fn tasks(cancel: bool) {
    let s = nd::val();
    let x = y(s);
    gate(1);
    let mut t = Task::new(x.b());
    assert!(t.poll().is_none(), "depend: waits for the innermost builder");
    let mut u = Task::new(x.a());
    assert!(u.poll().is_none(), "depend: waits for the other task's build");
    assert!(!x.has_a() && !x.has_b(), "depend: nothing is there yet");
    gate(0);
    if cancel {
        t.cancel();
        assert!(!x.has_a() && !x.has_b(), "depend: a cancelled build leaves nothing");
        let g = u.poll();
        assert!(g.is_some(), "depend: the waiting task builds after the other has gone");
        assert!(**g.as_ref().unwrap() == s as u16 && unsafe { ORDER } == 0o1, "depend: built once");
        drop(g);
    } else {
        let g = t.poll();
        assert!(g.is_some(), "depend: goes on");
        assert!(**g.as_ref().unwrap() == mk_c(s as u32) && unsafe { ORDER } == 0o12, "depend: each once");
        drop(g);
        let g = u.poll();
        assert!(g.is_some(), "depend: the waiting task gets its value");
        assert!(**g.as_ref().unwrap() == s as u16 && unsafe { ORDER } == 0o12, "depend: each once");
        drop(g);
    }
    assert!(tokio::model::held() == 0, "depend: a lock is still held");
}

// --- two threads
#[cfg(feature = "model")]
mod threads {
    use super::*;
    use crate::sched::{self, inside, overlap, LOG};
    use parking_lot::model;
    pub const GET_A: u8 = 0;
    pub const GET_B: u8 = 1;
    pub const GET_C: u8 = 2;
    pub const GET_D: u8 = 3;
    pub const SEED: u8 = 4;
    pub const CLR_A: u8 = 5;
    pub const CLR_B: u8 = 6;
    static mut X: Option<S> = None;
    static mut RES: [u32; 8] = [NO; 8];
    fn x() -> &'static S {
        unsafe { X.as_ref().unwrap() }
    }
    fn exec(kind: u8, arg: u8) -> u8 {
        let r = match kind {
            GET_A => *x().a(),
            GET_B => *x().b(),
            GET_C => x().c(),
            GET_D => *x().d(),
            CLR_A => o(x().clear_a()),
            CLR_B => o(x().clear_b()),
            _ => x().set_seed(arg) as u32,
        };
        unsafe { RES[kind as usize] = r };
        0
    }
    fn res(kind: u8) -> u32 {
        unsafe { RES[kind as usize] }
    }
    /// Accesses only: one build each, and everybody sees the same values.
    pub fn gets(first: u8, kinds: u8) {
        unsafe { X = Some(S::new()) };
        let s = nd::val();
        x().set_seed(s);
        overlap(exec, first, 1, 1, kinds);
        reach!(inside() > 0, "operations overlap");
        assert!(model::held() == 0, "depend: a lock is still held");
        let (a, b, c) = (mk_a(s), mk_b(s as u32, 0), mk_c(s as u32));
        let want = [a, b, c, mk_d(b, c)];
        let mut deepest = [false; 4];
        let mut i = 0;
        while i < 4 {
            if res(i) != NO {
                assert!(res(i) == want[i as usize], "depend: everybody sees the same values");
                deepest[i as usize] = true;
            }
            i += 1;
        }
        let need = [true, deepest[1] || deepest[3], deepest[2] || deepest[3], deepest[3]];
        assert!(runs(0) == 1 && runs(1) == need[1] as u8 && runs(2) == need[2] as u8 && runs(3) == need[3] as u8, "depend: one build each");
        assert!(x().has_a() && x().has_b() == need[1] && x().has_c() == need[2] && x().has_d() == need[3], "depend: the fields set are those needed");
    }
    /// The seed changes or a dependency is cleared meanwhile.
    pub fn changes(first: u8, other: u8) {
        unsafe { X = Some(S::new()) };
        let s = nd::val();
        x().set_seed(s);
        let built = nd::flag();
        if built { x().b(); }
        reset();
        overlap(exec, first, 1, 1, 1 << other);
        reach!(inside() > 0, "operations overlap");
        assert!(model::held() == 0, "depend: a lock is still held");
        let t = unsafe { LOG[1].arg };
        let r = res(first);
        assert!(runs(first as usize) == 1 || (built && first == GET_B), "depend: one build");
        match other {
            SEED => {
                assert!(res(SEED) == s as u32, "setter: returns the previous value");
                let a = *x().a();
                assert!(a == s as u32 || (!built && a == t as u32), "depend: built from a value the seed had");
                assert!(r == mk_d(mk_b(a, 0), mk_c(a)), "depend: dependants are made of the one value");
                assert!(runs(0) == !built as u8 && runs(1) == !built as u8 && runs(2) == 1, "depend: one build each");
            }
            CLR_A => {
                assert!(res(CLR_A) == NO || res(CLR_A) == s as u32, "clearer: returns the current value");
                assert!(r == mk_d(mk_b(s as u32, 0), mk_c(s as u32)), "depend: the values");
                assert!(runs(0) <= 2 - built as u8 + 0 && runs(2) == 1, "depend: rebuilt after a clear only");
                assert!(x().has_d() && x().has_c() && x().has_b(), "depend: dependants keep their values");
                let there = x().has_a();
                let n = runs(0);
                assert!(*x().a() == s as u32 && runs(0) == n + !there as u8, "depend: rebuilt on the next access");
            }
            _ => {
                let b = mk_b(s as u32, 0);
                assert!(res(CLR_B) == NO || res(CLR_B) == b, "clearer: returns the current value");
                assert!(r == mk_d(b, mk_c(s as u32)), "depend: the values");
                assert!(x().has_d() && x().has_c() && x().has_a(), "depend: dependants and dependencies keep their values");
                assert!(runs(0) == !built as u8 && runs(2) == 1, "depend: nothing else is rebuilt");
                let there = x().has_b();
                let n = runs(1);
                assert!(*x().b() == b && runs(1) == n + !there as u8, "depend: rebuilt on the next access");
            }
        }
    }
}

// --- two threads which hold several locks at once
#[fxstruct(sync, get, set, clearer, predicate)]
struct L {
    #[fieldx(lazy)]
    b: u32,
    #[fieldx(lazy, reader, writer)]
    a: u32,
    #[fieldx(lazy, reader, writer)]
    e: u32,
    #[fieldx(lock, clearer(off), predicate(off), get(copy), reader, writer)]
    seed: u8,
}
impl L {
    fn build_b(&self) -> u32 {
        mk_c(*self.a())
    }
    fn build_a(&self) -> u32 {
        mk_a(self.seed())
    }
    fn build_e(&self) -> u32 {
        5
    }
}
#[cfg(feature = "model")]
mod locks {
    use super::*;
    use crate::sched;
    pub const GET_B: u8 = 0;
    pub const GET_A: u8 = 1;
    pub const SET_A: u8 = 2;
    pub const CLR_A: u8 = 3;
    pub const SEED: u8 = 4;
    /// what else is read while the seed is locked
    pub const HOLD_SEED: u8 = 5;
    /// and while another lazy is locked
    pub const HOLD_E: u8 = 6;
    pub const READ_A: u8 = 7;
    static mut O: [Option<L>; 3] = [None, None, None];
    static mut I: usize = 0;
    /// e is there
    static mut E: bool = false;
    fn x() -> &'static L {
        unsafe { O[I].as_ref().unwrap() }
    }
    fn select(i: usize) {
        unsafe { I = i }
    }
    fn object(i: usize) {
        unsafe { O[i] = Some(L::new()) };
        select(i);
        x().set_seed(1);
        x().b();
        x().e();
        x().clear_b();
        x().clear_a();
        if !unsafe { E } {
            x().clear_e();
        }
    }
    fn exec(kind: u8, arg: u8) -> u8 {
        match kind {
            GET_B => { x().b(); }
            GET_A => { x().a(); }
            SET_A => { x().set_a(arg as u32); }
            CLR_A => { x().clear_a(); }
            SEED => { x().set_seed(arg); }
            HOLD_SEED => {
                let mut s = x().write_seed();
                *s = *x().e() as u8;
            }
            HOLD_E => {
                let e = x().read_e();
                x().set_seed(*e as u8);
                x().set_b(*e);
            }
            _ => {
                let a = x().read_a();
                x().set_seed(*a as u8);
            }
        }
        0
    }
    pub fn free(first: u8, kinds: u8, e: bool) {
        unsafe { E = e };
        sched::deadlock_free(object, select, exec, first, kinds, 16);
    }
}

const KP: usize = if cfg!(feature = "thorough") { 4 } else { 3 };
const KS: usize = if cfg!(feature = "thorough") { 3 } else { 2 };
harnesses! {
    fn plain_history [10] { history(&mut *M::new(P::new()), KP) }
    fn plain_rebuild [10] { rebuild(&mut *M::new(P::new())) }
    fn sync_history [10] { history(&mut *M::new(S::new()), KS) }
    fn sync_rebuild [10] { rebuild(&mut *M::new(S::new())) }
    fn plain_fails [10] { fails!(FP, x, ()) }
    fn sync_fails [10] { fails!(F, x, { #[cfg(feature = "model")] assert!(parking_lot::model::held() == 0, "depend: a lock is still held") }) }
    fn async_chain [10] {
        let s = nd::val();
        let x = y(s);
        assert!(*run(x.b()) == mk_c(s as u32) && unsafe { ORDER } == 0o12, "depend: each once, before its dependants");
        assert!(x.has_a() && x.has_b(), "depend: both are there");
    }
    #[cfg(feature = "thorough")]
    fn async_keep [10] {
        let s = nd::val();
        let x = y(s);
        run(x.a());
        assert!(unsafe { ORDER } == 0o1 && !x.has_b(), "depend: only what the access depends on is built");
        assert!(*run(x.b()) == mk_c(s as u32) && unsafe { ORDER } == 0o12, "depend: what is there is not built again");
    }
    /// Two tasks at different ends of the chain, one of them waiting inside the innermost builder.
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn async_tasks [10] { tasks(false) }
    /// The one who builds is cancelled.
    #[cfg(feature = "model")]
    fn async_cancel [10] { tasks(true) }
    #[cfg(feature = "model")]
    fn threads_d_b [10] { threads::gets(threads::GET_D, 1 << threads::GET_B) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn threads_d_a [10] { threads::gets(threads::GET_D, 1 << threads::GET_A | 1 << threads::GET_B) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn threads_d_c [10] { threads::gets(threads::GET_D, 1 << threads::GET_C) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn threads_d_d [10] { threads::gets(threads::GET_D, 1 << threads::GET_D) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn threads_b_d [10] { threads::gets(threads::GET_B, 1 << threads::GET_D | 1 << threads::GET_C) }
    #[cfg(feature = "model")]
    fn threads_a_d [10] { threads::gets(threads::GET_A, 1 << threads::GET_D) }
    #[cfg(feature = "model")]
    fn threads_seed [10] { threads::changes(threads::GET_D, threads::SEED) }
    #[cfg(feature = "model")]
    fn threads_clear_a [10] { threads::changes(threads::GET_D, threads::CLR_A) }
    #[cfg(feature = "model")]
    fn threads_clear_b [10] { threads::changes(threads::GET_D, threads::CLR_B) }
    #[cfg(feature = "model")]
    fn deadlock_get [10] { locks::free(locks::GET_B, !0, false) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn deadlock_set [10] { locks::free(locks::SET_A, !0, false) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn deadlock_clear [10] { locks::free(locks::CLR_A, !0, false) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn deadlock_hold_seed [10] { locks::free(locks::HOLD_SEED, !0, false) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn deadlock_hold_e [10] { locks::free(locks::HOLD_E, !0, false) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn deadlock_hold_seed_set [10] { locks::free(locks::HOLD_SEED, !0, true) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn deadlock_hold_e_set [10] { locks::free(locks::HOLD_E, !0, true) }
    #[cfg(all(feature = "model", feature = "thorough"))]
    fn deadlock_read [10] { locks::free(locks::READ_A, !0, false) }
}
