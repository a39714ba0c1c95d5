//! C11: what new(), Default and builders start from.
use crate::aio::{run, M};
use crate::lazy::{built, builds, Tok};
use crate::{nd, K};
use fieldx::fxstruct;
use std::rc::Rc;
use std::sync::Arc;

const NONE: u8 = 255;
static mut ENV: u8 = 0;
static mut EVALS: u8 = 0;
/// A default expression: its value depends on when it is evaluated.
fn env() -> u8 {
    unsafe {
        EVALS += 1;
        ENV
    }
}
fn env_tok() -> Tok {
    Tok(env())
}

/// What the fields hold: `E` the value of the environment at the time of the construction.
const E: u8 = 254;
const N: usize = 9;

trait Dflt {
    type O;
    const HAS: &'static [u8];
    const WAYS: u8;
    /// 0: Default, 1: a builder given nothing, 2: new()
    fn make(way: u8) -> Self::O;
    fn look(o: &Self::O) -> [u8; N];
    /// the lazy with a default: presence, value (or NONE) by clearing, presence, value read, builds by that
    fn lazy(o: &mut Self::O) -> Option<(bool, u8, bool, u8)> {
        None
    }
    fn change(o: &mut Self::O, v: u8);
}

fn fresh<T: Dflt>() {
    // two objects, made any way; the environment changes in between and after
    let way = [nd::below(T::WAYS), nd::below(T::WAYS)];
    let env = [nd::val(), nd::val()];
    unsafe { ENV = env[0] }
    let mut a = M::new(T::make(way[0]));
    let e0 = unsafe { EVALS };
    assert!(e0 > 0, "defaults: evaluated for the object");
    unsafe { ENV = env[1] }
    let mut b = M::new(T::make(way[1]));
    assert!(unsafe { EVALS } > e0, "defaults: evaluated for each object");
    unsafe { ENV = 98 }
    assert!(builds() == 0, "defaults: no lazy builder runs");
    check::<T>(&a, env[0]);
    check::<T>(&b, env[1]);
    // objects are independent
    let v = nd::val();
    T::change(&mut a, v);
    check::<T>(&b, env[1]);
    assert!(builds() == 0, "defaults: looking at an object runs no lazy builder");
    if let Some((had, was, has, now)) = T::lazy(&mut b) {
        assert!(had && was == env[1], "defaults: a lazy with a default starts set, holding it");
        assert!(!has && now == 100 && builds() == 1, "defaults: it is built once it was cleared");
    }
}
fn check<T: Dflt>(o: &T::O, env: u8) {
    let r = T::look(o);
    let mut i = 0;
    while i < T::HAS.len() {
        let w = if T::HAS[i] == E { env } else { T::HAS[i] };
        assert!(r[i] == w, "defaults: each field holds its declared default, the type's default, nothing or is unset");
        i += 1;
    }
}
fn c<X: Into<u8>>(x: Option<X>) -> u8 {
    match x {
        Some(v) => v.into(),
        None => NONE,
    }
}
macro_rules! dflt {
    ($t:ident<$o:ty>; ways $($way:literal $make:expr),*; $($def:expr),*; look |$x:ident| [$($look:expr),*]; change |$y:ident, $v:ident| $change:expr; $(lazy |$z:ident| $lazy:expr;)?) => {
        struct $t;
        impl Dflt for $t {
            type O = $o;
            const HAS: &'static [u8] = &[$($def),*];
            const WAYS: u8 = 0 $( + { let _ = $way; 1 } )*;
            fn make(way: u8) -> $o {
                match way {
                    $( $way => $make, )*
                    _ => unreachable!(),
                }
            }
            #[allow(unused_assignments)]
            fn look($x: &$o) -> [u8; N] {
                let mut r = [NONE; N];
                let mut k = 0;
                $( r[k] = $look; k += 1; )*
                r
            }
            fn change($y: &mut $o, $v: u8) {
                $change;
            }
            $( fn lazy($z: &mut $o) -> Option<(bool, u8, bool, u8)> { Some($lazy) } )?
        }
    };
}
fn ok<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            std::mem::forget(e);
            panic!("defaults: nothing is mandatory")
        }
    }
}

// --- plain
#[fxstruct(get_mut)]
struct P {
    #[fieldx(default(env()))]
    a: u8,
    z: u8,
    #[fieldx(default(env_tok()))]
    t: Tok,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(optional, default(env()))]
    od: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
    #[fieldx(lazy, predicate, clearer, default(env()), get(copy))]
    ld: u8,
    #[fieldx(optional, predicate, default(Self::named()))]
    own: Tok,
    #[fieldx(skip, default(207))]
    sk: u8,
}
impl P {
    fn build_l(&self) -> u8 {
        built()
    }
    fn build_ld(&self) -> u8 {
        built()
    }
    fn named() -> Tok {
        Tok(206)
    }
}
dflt! { CP<P>; ways 0 P::default(), 1 P::new(); E, 0, E, NONE, E, NONE, E, 206, 207;
    look |x| [x.a, x.z, x.t.0, c(x.o), c(x.od), if x.has_l() { 0 } else { NONE }, if x.has_ld() { x.ld() } else { NONE }, c(x.own.clone()), x.sk];
    change |y, v| { *y.a_mut() = v; *y.z_mut() = v; *y.t_mut() = Tok(v); *y.o_mut() = Some(v); *y.od_mut() = None; *y.ld_mut() = v; };
    lazy |z| { let h = z.has_ld(); let v = c(z.clear_ld()); (h, v, z.has_ld(), z.ld()) };
}
#[fxstruct(builder, get(copy), set)]
struct B {
    #[fieldx(default(env()))]
    a: u8,
    #[fieldx(default(208), builder(off))]
    z: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(optional, default(env()))]
    od: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
    #[fieldx(lazy, predicate, clearer, default(env()))]
    ld: u8,
    #[fieldx(inner_mut, default(env()))]
    im: u8,
    #[fieldx(inner_mut, optional, default(209))]
    io: u8,
    #[fieldx(inner_mut, optional, builder(off))]
    inn: u8,
}
impl B {
    fn build_l(&self) -> u8 {
        built()
    }
    fn build_ld(&self) -> u8 {
        built()
    }
}
dflt! { CB<B>; ways 0 B::default(), 1 ok(B::builder().build()), 2 B::new(); E, 208, NONE, E, NONE, E, E, 209, NONE;
    look |x| [x.a, x.z, c(x.o), c(x.od), if x.has_l() { 0 } else { NONE }, if x.has_ld() { x.ld() } else { NONE }, x.im(), c(x.io()), c(x.inn())];
    change |y, v| { y.set_a(v); y.set_z(v); y.set_o(v); y.set_od(v); y.set_l(v); y.set_ld(v); y.set_im(v); y.set_io(v); y.set_inn(v) };
    lazy |z| { let h = z.has_ld(); let v = c(z.clear_ld()); (h, v, z.has_ld(), z.ld()) };
}
#[fxstruct(rc, builder, get(copy), inner_mut, set)]
struct R {
    #[fieldx(default(env()))]
    a: u8,
    #[fieldx(builder(off))]
    z: u8,
    #[fieldx(optional, default(env()))]
    o: u8,
    #[fieldx(lazy, inner_mut(off), set(off), predicate)]
    l: u8,
}
impl R {
    fn build_l(&self) -> u8 {
        built()
    }
}
dflt! { CR<Rc<R>>; ways 0 R::new(), 1 ok(R::builder().build()); E, 0, E, NONE;
    look |x| [x.a(), x.z(), c(x.o()), if x.has_l() { 0 } else { NONE }];
    change |y, v| { y.set_a(v); y.set_z(v); y.set_o(v); };
}

// --- sync
#[fxstruct(sync, builder, get(copy), set)]
struct S {
    #[fieldx(lock, default(env()))]
    a: u8,
    #[fieldx(lock, default(208), builder(off))]
    z: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(optional, default(env()))]
    od: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
    #[fieldx(lazy, predicate, clearer, default(env()))]
    ld: u8,
    #[fieldx(lock(off), default(env()))]
    p: u8,
    #[fieldx(optional, lock(off), default(209))]
    bo: u8,
    #[fieldx(inner_mut, builder(off))]
    im: u8,
}
impl S {
    fn build_l(&self) -> u8 {
        built()
    }
    fn build_ld(&self) -> u8 {
        built()
    }
}
dflt! { CS<S>; ways 0 S::default(), 1 ok(S::builder().build()), 2 S::new(); E, 208, NONE, E, NONE, E, E, 209, 0;
    look |x| [x.a(), x.z(), c(x.o()), c(x.od()), if x.has_l() { 0 } else { NONE }, if x.has_ld() { x.ld() } else { NONE }, x.p, c(x.bo), x.im()];
    change |y, v| { y.set_a(v); y.set_z(v); y.set_o(v); y.set_od(v); y.set_l(v); y.set_ld(v); y.set_p(v); y.set_bo(v); y.set_im(v) };
    lazy |z| { let h = z.has_ld(); let v = c(z.clear_ld()); (h, v, z.has_ld(), z.ld()) };
}
#[fxstruct(sync, rc, builder, get(copy), lock)]
struct T {
    #[fieldx(default(env()), set)]
    a: u8,
    #[fieldx(builder(off), set)]
    z: u8,
    #[fieldx(optional, default(env()), builder(off), set)]
    o: u8,
    #[fieldx(lazy, predicate, builder(off))]
    l: u8,
    #[fieldx(lazy, predicate, clearer, default(env()), builder(off), get(copy))]
    ld: u8,
}
impl T {
    fn build_l(&self) -> u8 {
        built()
    }
    fn build_ld(&self) -> u8 {
        built()
    }
}
dflt! { CT<Arc<T>>; ways 0 T::new(), 1 ok(T::builder().build()); E, 0, E, NONE, E;
    look |x| [x.a(), x.z(), c(x.o()), if x.has_l() { 0 } else { NONE }, if x.has_ld() { x.ld() } else { NONE }];
    change |y, v| { y.set_a(v); y.set_z(v); y.set_o(v) };
    lazy |z| { let h = z.has_ld(); let v = c(z.clear_ld()); (h, v, z.has_ld(), z.ld()) };
}
// --- async
#[fxstruct(r#async, builder, get(copy), set)]
struct A {
    #[fieldx(lock, default(env()))]
    a: u8,
    #[fieldx(lock, builder(off))]
    z: u8,
    #[fieldx(optional, default(env()))]
    od: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
    #[fieldx(lazy, predicate, clearer, default(env()))]
    ld: u8,
    #[fieldx(optional, lock(off), default(209))]
    bo: u8,
}
impl A {
    async fn build_l(&self) -> u8 {
        built()
    }
    async fn build_ld(&self) -> u8 {
        built()
    }
}
dflt! { CA<A>; ways 0 A::default(), 1 ok(A::builder().build()), 2 A::new(); E, 0, E, NONE, 1, 209;
    look |x| [run(x.a()), run(x.z()), c(run(x.od())), if x.has_l() { 0 } else { NONE }, x.has_ld() as u8, c(x.bo)];
    change |y, v| { run(y.set_a(v)); run(y.set_od(v)); y.set_bo(v) };
    lazy |z| { let h = z.has_ld(); let v = c(run(z.clear_ld())); (h, v, z.has_ld(), run(z.ld())) };
}
// no locks, but the kind is given
#[fxstruct(sync, builder, get(copy), set)]
struct KS {
    #[fieldx(sync, lock(off), default(env()))]
    a: u8,
    #[fieldx(sync, lock(off), builder(off))]
    z: u8,
    #[fieldx(sync, lock(off), optional)]
    o: u8,
    #[fieldx(sync, lock(off), optional, default(env()))]
    od: u8,
    #[fieldx(sync, lock(off), optional, default(env()), builder(off))]
    ob: u8,
}
dflt! { CK<KS>; ways 0 KS::default(), 1 ok(KS::builder().build()), 2 KS::new(); E, 0, NONE, E, E;
    look |x| [x.a(), x.z(), c(x.o()), c(x.od()), c(x.ob())];
    change |y, v| { y.set_a(v); y.set_z(v); y.set_o(v); y.set_od(v); y.set_ob(v) };
}
#[fxstruct(r#async, builder, get(copy), set)]
struct KA {
    #[fieldx(r#async, lock(off), default(env()))]
    a: u8,
    #[fieldx(r#async, lock(off), optional)]
    o: u8,
    #[fieldx(r#async, lock(off), optional, default(env()))]
    od: u8,
}
dflt! { CL<KA>; ways 0 KA::default(), 1 ok(KA::builder().build()), 2 KA::new(); E, NONE, E;
    look |x| [x.a(), c(x.o()), c(x.od())];
    change |y, v| { y.set_a(v); y.set_o(v); y.set_od(v) };
}
// no new(): Default on request
#[fxstruct(no_new, default, sync)]
struct D {
    #[fieldx(lock, get(copy), get_mut, default(env()))]
    a: u8,
    z: u8,
    #[fieldx(lazy, predicate, default(210), get(copy))]
    l: u8,
}
impl D {
    fn build_l(&self) -> u8 {
        built()
    }
}
dflt! { CD<D>; ways 0 D::default(); E, 0, 210;
    look |x| [x.a(), x.z, if x.has_l() { x.l() } else { NONE }];
    change |y, v| { *y.a_mut() = v; };
}

harnesses! {
    fn plain [12] { fresh::<CP>(); }
    fn builder [12] { fresh::<CB>(); }
    fn rc [12] { fresh::<CR>(); }
    fn sync [12] { fresh::<CS>(); }
    fn sync_rc [12] { fresh::<CT>(); }
    fn r#async [12] { fresh::<CA>(); }
    fn sync_kind [12] { fresh::<CK>(); }
    fn async_kind [12] { fresh::<CL>(); }
    fn no_new [12] { fresh::<CD>(); }
}
