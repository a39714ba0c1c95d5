//! C18: every value given to a field is dropped exactly once, and not while somebody has it.
use crate::aio::{run, stop, gate, Task, M};
use crate::nd;
use fieldx::fxstruct;

static mut LIVE: u32 = 0;
static mut MADE: u8 = 0;
/// The values: each knows whether it is alive.
#[derive(Debug)]
pub struct D(u8);
impl D {
    fn new() -> D {
        unsafe {
            let i = MADE;
            MADE += 1;
            LIVE |= 1 << i;
            D(i)
        }
    }
}
impl Drop for D {
    fn drop(&mut self) {
        unsafe {
            assert!(LIVE & (1 << self.0) != 0, "drop: a value is dropped twice");
            LIVE &= !(1 << self.0);
        }
    }
}
impl Default for D {
    fn default() -> D {
        D::new()
    }
}
fn alive(d: &D) -> bool {
    unsafe { LIVE & (1 << d.0) != 0 }
}
fn made() -> u8 {
    unsafe { MADE }
}
/// exactly these are alive
fn only(mask: u32) {
    assert!(unsafe { LIVE } == mask, "drop: the values alive are those in the fields and those the caller has");
}

pub const NONE: u8 = 255;
fn bit(i: u8) -> u32 {
    if i == NONE { 0 } else { 1 << i }
}
/// What an operation hands to the caller, who drops it after a look.
fn gone(x: Option<D>) -> u8 {
    match x {
        None => NONE,
        Some(d) => {
            assert!(alive(&d), "drop: a value was dropped before it was handed over");
            d.0
        }
    }
}
fn see(d: &D) -> u8 {
    assert!(alive(d), "drop: a value was dropped while the field has it");
    d.0
}

pub const GET: u8 = 1;
pub const SET: u8 = 2;
pub const CLR: u8 = 4;
pub const MUT: u8 = 8;
pub const WSTORE: u8 = 16;
pub const WCLR: u8 = 32;

/// One field under test; the struct's other values are in `rest`.
trait Own {
    const OPS: u8;
    fn get(&mut self) -> u8 {
        unreachable!()
    }
    fn set(&mut self, _d: D) -> u8 {
        unreachable!()
    }
    fn clear(&mut self) -> u8 {
        unreachable!()
    }
    fn mutate(&mut self, _d: D) -> u8 {
        unreachable!()
    }
    fn wstore(&mut self, _d: D) -> u8 {
        unreachable!()
    }
    fn wclear(&mut self) -> u8 {
        unreachable!()
    }
}
macro_rules! own {
    ($t:ty; $($op:ident |$o:ident $(, $d:ident)?| $e:expr;)*) => {
        impl Own for $t {
            const OPS: u8 = 0 $( | own!(@bit $op) )*;
            $( fn $op(&mut self $(, $d: D)?) -> u8 { let $o = self; $e } )*
        }
    };
    (@bit get) => { GET };
    (@bit set) => { SET };
    (@bit clear) => { CLR };
    (@bit mutate) => { MUT };
    (@bit wstore) => { WSTORE };
    (@bit wclear) => { WCLR };
}
/// `lazy`: reading an empty field fills it with a new value
fn life<T: Own>(mut o: T, start: u8, rest: u32, lazy: bool, k: usize) {
    let mut cur = start;
    only(bit(cur) | rest);
    let mut i = 0;
    while i < k {
        let op = nd::below(6);
        nd::assume(T::OPS & (1u8 << op) != 0);
        match 1u8 << op {
            GET => {
                let n = made();
                let r = o.get();
                if lazy && cur == NONE {
                    assert!(made() == n + 1, "drop: one value is built");
                    cur = n;
                }
                assert!(r == cur, "drop: the field has the value it was given");
            }
            MUT => {
                let n = made();
                nd::assume(lazy || cur != NONE);
                if cur == NONE {
                    // the new value is made before the one which is built
                    cur = n + 1;
                }
                let r = o.mutate(D::new());
                assert!(r == cur, "drop: the replaced value is handed over");
                cur = n;
            }
            SET => {
                let n = made();
                assert!(o.set(D::new()) == cur, "drop: the replaced value is handed over");
                cur = n;
            }
            WSTORE => {
                let n = made();
                assert!(o.wstore(D::new()) == cur, "drop: the replaced value is handed over");
                cur = n;
            }
            CLR => {
                assert!(o.clear() == cur, "drop: the removed value is handed over");
                cur = NONE;
            }
            _ => {
                assert!(o.wclear() == cur, "drop: the removed value is handed over");
                cur = NONE;
            }
        }
        only(bit(cur) | rest);
        i += 1;
    }
    drop(o);
    only(0);
}

#[fxstruct(lazy, get, get_mut, set, clearer)]
struct P {
    l: D,
    #[fieldx(default(D::new()))]
    m: D,
}
impl P {
    fn build_l(&self) -> D {
        D::new()
    }
    fn build_m(&self) -> D {
        D::new()
    }
}
own! { P; get |o| see(o.l()); set |o, d| gone(o.set_l(d)); clear |o| gone(o.clear_l()); mutate |o, d| gone(Some(std::mem::replace(o.l_mut(), d))); }
struct P2(P);
own! { P2; get |o| see(o.0.m()); set |o, d| gone(o.0.set_m(d)); clear |o| gone(o.0.clear_m()); mutate |o, d| gone(Some(std::mem::replace(o.0.m_mut(), d))); }

#[fxstruct(get, get_mut, set)]
struct Q {
    #[fieldx(optional, clearer)]
    o: D,
    p: D,
}
own! { Q; get |x| x.o().as_ref().map_or(NONE, see); set |x, d| gone(x.set_o(d)); clear |x| gone(x.clear_o()); mutate |x, d| gone(x.o_mut().replace(d)); }
struct Q2(Q);
own! { Q2; get |x| see(x.0.p()); set |x, d| gone(Some(x.0.set_p(d))); mutate |x, d| gone(Some(std::mem::replace(x.0.p_mut(), d))); }

#[fxstruct(inner_mut, get, get_mut, set)]
struct I {
    #[fieldx(optional, clearer)]
    o: D,
    p: D,
}
own! { I; get |x| { let r = x.o().as_ref().map_or(NONE, see); r }; set |x, d| gone(x.set_o(d)); clear |x| gone(x.clear_o()); mutate |x, d| { let r = x.o_mut().replace(d); gone(r) }; }
struct I2(I);
own! { I2; get |x| { let r = see(&*x.0.p()); r }; set |x, d| gone(Some(x.0.set_p(d))); mutate |x, d| { let r = std::mem::replace(&mut *x.0.p_mut(), d); gone(Some(r)) }; }

#[fxstruct(sync, get, get_mut, set)]
struct S {
    #[fieldx(lazy, clearer, writer)]
    l: D,
    #[fieldx(lock)]
    p: D,
    #[fieldx(optional, lock, clearer)]
    o: D,
}
impl S {
    fn build_l(&self) -> D {
        D::new()
    }
}
own! { S; get |x| see(&*x.l()); set |x, d| gone(x.set_l(d)); clear |x| gone(x.clear_l()); mutate |x, d| { let r = std::mem::replace(&mut *x.l_mut(), d); gone(Some(r)) };
    wstore |x, d| { let r = x.write_l().store(d); gone(r) }; wclear |x| { let r = x.write_l().clear(); gone(r) }; }
struct S2(S);
own! { S2; get |x| see(&*x.0.p()); set |x, d| gone(Some(x.0.set_p(d))); mutate |x, d| { let r = std::mem::replace(&mut *x.0.p_mut(), d); gone(Some(r)) }; }
struct S3(S);
own! { S3; get |x| { let r = x.0.o().as_ref().map_or(NONE, see); r }; set |x, d| gone(x.0.set_o(d)); clear |x| gone(x.0.clear_o()); mutate |x, d| { let r = x.0.o_mut().replace(d); gone(r) }; }
// no lock, but the kind is given
#[fxstruct(sync, get, get_mut, set)]
struct SB {
    #[fieldx(sync, lock(off), optional, clearer)]
    o: D,
    #[fieldx(sync, lock(off))]
    p: D,
}
own! { SB; get |x| { let r = x.o().as_ref().map_or(NONE, see); r }; set |x, d| gone(x.set_o(d)); clear |x| gone(x.clear_o()); mutate |x, d| { let r = x.o_mut().replace(d); gone(r) }; }
struct SB2(SB);
own! { SB2; get |x| see(x.0.p()); set |x, d| gone(Some(x.0.set_p(d))); mutate |x, d| { let r = std::mem::replace(x.0.p_mut(), d); gone(Some(r)) }; }

// --- fallible: errors are values, too
#[fxstruct(sync)]
struct F {
    #[fieldx(lazy, fallible(error(D)), get, set, clearer)]
    l: D,
}
static mut FAIL: bool = false;
impl F {
    fn build_l(&self) -> Result<D, D> {
        let d = D::new();
        if unsafe { FAIL } { Err(D::new()) } else { Ok(d) }
    }
}
#[fxstruct]
struct FP {
    #[fieldx(lazy, fallible(error(D)), get, set, clearer)]
    l: D,
}
impl FP {
    fn build_l(&self) -> Result<D, D> {
        let d = D::new();
        if unsafe { FAIL } { Err(D::new()) } else { Ok(d) }
    }
}
macro_rules! fails {
    ($t:ty) => {{
        let mut o = <$t>::new();
        unsafe { FAIL = true };
        match o.l() {
            Ok(_) => panic!("drop: the builder fails"),
            Err(e) => { see(&e); only(1 << e.0) }
        }
        only(0);
        let preset = nd::flag();
        if preset { o.set_l(D::new()); }
        unsafe { FAIL = nd::flag() };
        let n = made();
        match o.l() {
            Ok(v) => { assert!(see(v.as_d()) == if preset { n - 1 } else { n }, "drop: the field has the value built"); }
            Err(e) => { see(&e); only(1 << e.0) }
        }
        only(if preset { 1 << (n - 1) } else if unsafe { FAIL } { 0 } else { 1 << n });
        if nd::flag() { gone(o.clear_l()); only(0); }
        drop(o);
        only(0);
    }};
}
trait AsD {
    fn as_d(&self) -> &D;
}
impl AsD for D {
    fn as_d(&self) -> &D {
        self
    }
}

// --- builders
#[fxstruct(builder, get)]
struct B {
    a: D,
    #[fieldx(optional)]
    o: D,
    #[fieldx(lazy)]
    l: D,
    #[fieldx(default(D::new()))]
    d: D,
}
impl B {
    fn build_l(&self) -> D {
        D::new()
    }
}
#[fxstruct(sync, builder, get)]
struct BS {
    #[fieldx(lock)]
    a: D,
    #[fieldx(optional, lock)]
    o: D,
    #[fieldx(lazy)]
    l: D,
    #[fieldx(default(D::new()))]
    d: D,
}
impl BS {
    fn build_l(&self) -> D {
        D::new()
    }
}
#[fxstruct(rc, builder(post_build, error(D)), get)]
struct BP {
    #[fieldx(default(D::new()))]
    a: D,
    #[fieldx(optional)]
    o: D,
}
impl BP {
    fn post_build(self) -> Result<Self, D> {
        if unsafe { FAIL } { Err(D::new()) } else { Ok(self) }
    }
}
impl From<fieldx::error::FieldXError> for D {
    fn from(e: fieldx::error::FieldXError) -> D {
        std::mem::forget(e);
        D::new()
    }
}
macro_rules! builds {
    ($t:ty, $again:expr) => {{
        let mut b = <$t>::builder();
        let mut want = 0u32;
        // any of the fields, the first one possibly twice
        let given = nd::flag();
        let twice = nd::flag();
        if given { b = b.a(D::new()); want |= 1 << (made() - 1); }
        if given && twice { want &= !(1 << (made() - 1)); b = b.a(D::new()); want |= 1 << (made() - 1); }
        let opt = nd::flag();
        if opt { b = b.o(D::new()); want |= 1 << (made() - 1); }
        let lazy = nd::flag();
        if lazy { b = b.l(D::new()); want |= 1 << (made() - 1); }
        only(want);
        let n = made();
        let r = b.build();
        assert!(r.is_ok() == given, "drop: builds when the mandatory field is given");
        match r {
            Ok(o) => {
                only(want | 1 << n);
                assert!(made() == n + 1, "drop: one default");
                see(&*o.a());
                see(o.d());
                if !lazy { see(&*o.l()); want |= 1 << (n + 1); }
                only(want | 1 << n);
                drop(b);
                only(want | 1 << n);
                drop(o);
            }
            Err(e) => {
                std::mem::forget(e);
                only(want);
                drop(b);
            }
        }
        only(0);
        reach!(given && twice && opt && lazy, "everything given");
    }};
}

// --- async
#[fxstruct(r#async, get, set)]
struct Y {
    #[fieldx(lazy, clearer, writer, get_mut)]
    l: D,
}
impl Y {
    async fn build_l(&self) -> D {
        let d = D::new();
        stop(1).await;
        d
    }
}
own! { Y; get |x| { let r = see(&*run(x.l())); r }; set |x, d| gone(run(x.set_l(d))); clear |x| gone(run(x.clear_l()));
    mutate |x, d| { let r = std::mem::replace(&mut *run(x.l_mut()), d); gone(Some(r)) };
    wstore |x, d| { let r = run(x.write_l()).store(d); gone(r) }; wclear |x| { let r = run(x.write_l()).clear(); gone(r) }; }

const K: usize = if cfg!(feature = "thorough") { 5 } else { 3 };
fn p(v: bool) -> P {
    let mut x = P::new();
    if v { gone(x.set_l(D::new())); }
    x
}
fn s(l: bool, o: bool) -> S {
    let x = S::new();
    if l { gone(x.set_l(D::new())); }
    if o { gone(x.set_o(D::new())); }
    x
}
harnesses! {
    fn plain_lazy [10] { let v = nd::flag(); let x = p(v); life(x, if v { 1 } else { NONE }, 1, true, K) }
    fn plain_lazy_preset [10] { life(P2(p(true)), 0, 2, true, K) }
    fn plain_optional [10] { let mut q = Q::new(); let v = nd::flag(); if v { gone(q.set_o(D::new())); } life(q, if v { 1 } else { NONE }, 1, false, K) }
    fn plain_value [10] { life(Q2(Q::new()), 0, 0, false, K) }
    fn inner_optional [10] { let mut q = I::new(); let v = nd::flag(); if v { gone(q.set_o(D::new())); } life(q, if v { 1 } else { NONE }, 1, false, K) }
    fn inner_value [10] { life(I2(I::new()), 0, 0, false, K) }
    fn sync_lazy [10] { let v = nd::flag(); let x = s(v, false); life(x, if v { 1 } else { NONE }, 1, true, K) }
    fn sync_lock [10] { life(S2(s(true, false)), 0, 2, false, K) }
    fn sync_optional [10] { let v = nd::flag(); let x = s(false, v); life(S3(x), if v { 1 } else { NONE }, 1, false, K) }
    fn sync_kind [10] { let mut x = SB::new(); let v = nd::flag(); if v { gone(x.set_o(D::new())); } life(x, if v { 1 } else { NONE }, 1, false, K) }
    fn sync_kind_value [10] { life(SB2(SB::new()), 0, 0, false, K) }
    fn fails_plain [10] { fails!(FP) }
    fn fails_sync [10] { fails!(F) }
    fn builder_plain [10] { builds!(B, true) }
    fn builder_sync [10] { builds!(BS, true) }
    fn builder_hook [10] {
        let mut b = BP::builder();
        let (a, o) = (nd::flag(), nd::flag());
        let mut want = 0;
        if a { b = b.a(D::new()); want |= 1 << (made() - 1); }
        if o { b = b.o(D::new()); want |= 1 << (made() - 1); }
        unsafe { FAIL = nd::flag() };
        only(want);
        let n = made();
        match b.build() {
            Ok(x) => {
                assert!(unsafe { !FAIL }, "drop: the hook succeeds");
                if !a { want |= 1 << n; }
                only(want);
                let y = x.clone();
                drop(x);
                only(want);
                see(y.a());
                drop(b);
                only(want);
            }
            Err(e) => {
                // the object is gone, the caller has the error
                see(&e);
                only(1 << e.0);
            }
        }
        only(0);
    }
    fn async_lazy [10] {
        let x = Y::new();
        let v = nd::flag();
        if v { gone(run(x.set_l(D::new()))); }
        life(x, if v { 0 } else { NONE }, 0, true, 1)
    }
    /// A cancelled build drops what it had made.
    fn async_cancelled [10] {
        let x = Y::new();
        gate(1);
        let mut t = Task::new(x.l());
        assert!(t.poll().is_none(), "lazy: waits for its builder");
        only(1);
        if nd::flag() {
            t.cancel();
            only(0);
            gate(0);
            assert!(see(&*run(x.l())) == 1, "drop: the field has the value built");
            only(2);
        } else {
            gate(0);
            let g = t.poll();
            assert!(g.is_some(), "lazy: goes on with its builder");
            assert!(see(g.as_ref().unwrap()) == 0, "drop: the field has the value built");
            drop(g);
            t.cancel();
            only(1);
        }
        drop(x);
        only(0);
    }
}
