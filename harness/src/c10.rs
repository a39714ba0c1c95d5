//! C10: what happens around the construction of the object: post_build, error types, a builder used again.
use crate::aio::{run, M};
use crate::lazy::{built, builds, Tok};
use crate::{nd, K};
use fieldx::error::FieldXError;
use fieldx::fxstruct;
use std::rc::Rc;
use std::sync::Arc;

const NONE: u8 = 255;
static mut CALLS: u8 = 0;
/// what the hook saw: a, t, d, presence of l
static mut SEEN: [u8; 4] = [NONE; 4];
/// error code the hook fails with (0: it succeeds) and what it stores in `a`
static mut FAIL: u8 = 0;
static mut NEW_A: u8 = 0;

fn hook(a: u8, t: u8, d: u8, l: bool) {
    unsafe {
        CALLS += 1;
        SEEN = [a, t, d, l as u8];
    }
}

/// How a build ended.
#[derive(Clone, Copy, PartialEq)]
enum End<O> {
    Made(O),
    /// the missing-field error and the index of its field
    Missing(u8),
    /// the hook's error
    Hook(u8),
    Other,
}

trait Hooked {
    type B;
    type O;
    /// the struct has a hook, which can fail
    const HOOK: bool;
    const FALLIBLE: bool;
    fn start() -> Self::B;
    fn set(b: Self::B, i: u8, v: u8) -> Self::B;
    fn build(b: &mut Self::B) -> End<Self::O>;
    /// a, t, d, presence of l
    fn look(o: &Self::O) -> [u8; 4];
}

fn index(s: &str) -> u8 {
    match s.as_bytes() {
        b"a" => 0,
        b"t" => 1,
        _ => NONE,
    }
}

/// Any of the fields is given or not (in any order), the build fails if a mandatory one is missing, and the same
/// builder builds once it has been given.  The hook replaces `a` or fails, as the solver says.
fn around<T: Hooked>() {
    let mut given = [nd::opt(), nd::opt(), nd::opt()];
    let swap = nd::flag();
    let fail = if T::FALLIBLE && nd::flag() { nd::u8() } else { 0 };
    let new_a = nd::val();
    unsafe {
        FAIL = fail;
        NEW_A = new_a;
    }
    let mut b = T::start();
    let mut k = 0;
    while k < 3 {
        let i = if swap { 2 - k } else { k };
        if let Some(v) = given[i] {
            b = T::set(b, i as u8, v);
        }
        k += 1;
    }
    while given[0].is_none() || given[1].is_none() {
        let miss = if given[0].is_none() { 0 } else { 1 };
        match T::build(&mut b) {
            End::Missing(i) => assert!(i == miss as u8, "build: the error names the first missing field"),
            _ => panic!("build: a missing mandatory field is reported as the declared error"),
        }
        assert!(unsafe { CALLS } == 0, "build: the hook does not run before all mandatory fields were found present");
        assert!(builds() == 0, "build: a failing build runs no lazy builder");
        let v = nd::val();
        given[miss] = Some(v);
        b = T::set(b, miss as u8, v);
        reach!("a builder is used again");
    }
    let want = [given[0].unwrap(), given[1].unwrap(), given[2].unwrap_or(200), 0];
    match T::build(&mut b) {
        End::Made(o) => {
            assert!(fail == 0, "build: returns what the hook returns");
            reach!("built");
            let o = M::new(o);
            let is = T::look(&o);
            if T::HOOK {
                assert!(is == [new_a, want[1], want[2], 0], "build: returns the object the hook returned");
            } else {
                assert!(is == want, "build: the values which were given");
            }
        }
        End::Hook(e) => {
            assert!(fail != 0 && e == fail, "build: returns the error of the hook");
        }
        _ => panic!("build: a value of every mandatory field was given"),
    }
    reach!(!T::FALLIBLE || fail != 0, "the hook fails if it can");
    assert!(builds() == 0, "build: runs no lazy builder");
    if T::HOOK {
        assert!(unsafe { CALLS } == 1, "build: the hook runs exactly once");
        assert!(unsafe { SEEN } == want, "build: the hook gets the completely initialised object");
    }
}

macro_rules! hooked {
    ($t:ident<$s:ty, $b:ty, $o:ty> hook $hook:literal $fallible:literal; set $seta:ident $sett:ident $setd:ident; err |$e:ident| $err:expr; look |$x:ident| $look:expr) => {
        struct $t;
        impl Hooked for $t {
            type B = $b;
            type O = $o;
            const HOOK: bool = $hook;
            const FALLIBLE: bool = $fallible;
            fn start() -> $b {
                <$s>::builder()
            }
            fn set(b: $b, i: u8, v: u8) -> $b {
                match i {
                    0 => b.$seta(v),
                    1 => b.$sett(v.into()),
                    _ => b.$setd(v),
                }
            }
            fn build(b: &mut $b) -> End<$o> {
                match b.build() {
                    Ok(o) => End::Made(o),
                    Err($e) => {
                        let r = $err;
                        ::std::mem::forget($e);
                        r
                    }
                }
            }
            fn look($x: &$o) -> [u8; 4] {
                $look
            }
        }
    };
}
macro_rules! lazy_l {
    ($($s:ty),*) => { $( impl $s { fn build_l(&self) -> u8 { built() } } )* };
    (async $($s:ty),*) => { $( impl $s { async fn build_l(&self) -> u8 { built() } } )* };
}

/// the error of a library's user
enum E1 {
    Fx(FieldXError),
    Hook(u8),
}
impl From<FieldXError> for E1 {
    fn from(e: FieldXError) -> Self {
        E1::Fx(e)
    }
}
enum E2 {
    Unset(String),
    Hook(u8),
}
fn e0<O>(e: &FieldXError) -> End<O> {
    match e {
        FieldXError::UninitializedField(s) => End::Missing(index(s)),
        _ => End::Other,
    }
}
fn e1<O>(e: &E1) -> End<O> {
    match e {
        E1::Fx(FieldXError::UninitializedField(s)) => End::Missing(index(s)),
        E1::Hook(c) => End::Hook(*c),
        _ => End::Other,
    }
}
fn e2<O>(e: &E2) -> End<O> {
    match e {
        E2::Unset(s) => End::Missing(index(s)),
        E2::Hook(c) => End::Hook(*c),
    }
}

// --- no hook
#[fxstruct(builder)]
struct P0 {
    a: u8,
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
}
#[fxstruct(builder(error(E1)))]
struct P1 {
    a: u8,
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
}
#[fxstruct(builder(error(E2, E2::Unset)), rc)]
struct P2 {
    a: u8,
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
}
lazy_l! { P0, P1, P2 }
hooked! { C0<P0, P0Builder, P0> hook false false; set a t d; err |e| e0(&e); look |x| [x.a, x.t.0, x.d, x.has_l() as u8] }
hooked! { C1<P1, P1Builder, P1> hook false false; set a t d; err |e| e1(&e); look |x| [x.a, x.t.0, x.d, x.has_l() as u8] }
hooked! { C2<P2, P2Builder, Rc<P2>> hook false false; set a t d; err |e| e2(&e); look |x| [x.a, x.t.0, x.d, x.has_l() as u8] }

// --- a hook which can't fail
#[fxstruct(builder(post_build))]
struct P3 {
    a: u8,
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
}
#[fxstruct(builder(post_build(finish)), rc)]
struct P4 {
    a: u8,
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
}
#[fxstruct(sync, builder(post_build))]
struct S3 {
    #[fieldx(lock, get(copy), get_mut)]
    a: u8,
    #[fieldx(lock, get(clone))]
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
#[fxstruct(sync, builder(post_build(finish)), rc)]
struct S4 {
    #[fieldx(lock, get(copy), get_mut)]
    a: u8,
    #[fieldx(lock, get(clone))]
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
#[fxstruct(r#async, builder(post_build, "with_"))]
struct A3 {
    #[fieldx(lock, get(copy), get_mut)]
    a: u8,
    #[fieldx(lock, get(clone))]
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
lazy_l! { P3, P4, S3, S4 }
lazy_l! { async A3 }
impl P3 {
    fn post_build(mut self) -> Self {
        hook(self.a, self.t.0, self.d, self.has_l());
        self.a = unsafe { NEW_A };
        self
    }
}
impl P4 {
    fn finish(mut self) -> Self {
        hook(self.a, self.t.0, self.d, self.has_l());
        self.a = unsafe { NEW_A };
        self
    }
}
impl S3 {
    fn post_build(self) -> Self {
        hook(self.a(), self.t().0, self.d, self.has_l());
        *self.a_mut() = unsafe { NEW_A };
        self
    }
}
impl S4 {
    fn finish(self) -> Self {
        hook(self.a(), self.t().0, self.d, self.has_l());
        *self.a_mut() = unsafe { NEW_A };
        self
    }
}
impl A3 {
    fn post_build(self) -> Self {
        hook(run(self.a()), run(self.t()).0, self.d, self.has_l());
        *run(self.a_mut()) = unsafe { NEW_A };
        self
    }
}
hooked! { C3<P3, P3Builder, P3> hook true false; set a t d; err |e| e0(&e); look |x| [x.a, x.t.0, x.d, x.has_l() as u8] }
hooked! { C4<P4, P4Builder, Rc<P4>> hook true false; set a t d; err |e| e0(&e); look |x| [x.a, x.t.0, x.d, x.has_l() as u8] }
hooked! { D3<S3, S3Builder, S3> hook true false; set a t d; err |e| e0(&e); look |x| [x.a(), x.t().0, x.d, x.has_l() as u8] }
hooked! { D4<S4, S4Builder, Arc<S4>> hook true false; set a t d; err |e| e0(&e); look |x| [x.a(), x.t().0, x.d, x.has_l() as u8] }
hooked! { F3<A3, A3Builder, A3> hook true false; set with_a with_t with_d; err |e| e0(&e); look |x| [run(x.a()), run(x.t()).0, x.d, x.has_l() as u8] }

// --- a hook which can fail
#[fxstruct(builder(error(E1), post_build))]
struct P5 {
    a: u8,
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
}
#[fxstruct(builder(error(E2, E2::Unset), post_build(check)))]
struct P6 {
    a: u8,
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
}
#[fxstruct(rc, builder(error(E2, E2::Unset), post_build(check)))]
struct P7 {
    a: u8,
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
}
#[fxstruct(sync, builder(error(E1), post_build))]
struct S5 {
    #[fieldx(lock, get(copy), get_mut)]
    a: u8,
    #[fieldx(lock, get(clone))]
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
#[fxstruct(sync, rc, builder(error(E1), post_build(check)))]
struct S7 {
    #[fieldx(lock, get(copy), get_mut)]
    a: u8,
    #[fieldx(lock, get(clone))]
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
lazy_l! { P5, P6, P7, S5, S7 }
macro_rules! check {
    ($s:ty, $f:ident, $e:ident, plain) => {
        impl $s {
            fn $f(mut self) -> Result<Self, $e> {
                hook(self.a, self.t.0, self.d, self.has_l());
                self.a = unsafe { NEW_A };
                if unsafe { FAIL } != 0 { Err($e::Hook(unsafe { FAIL })) } else { Ok(self) }
            }
        }
    };
    ($s:ty, $f:ident, $e:ident, sync) => {
        impl $s {
            fn $f(self) -> Result<Self, $e> {
                hook(self.a(), self.t().0, self.d, self.has_l());
                *self.a_mut() = unsafe { NEW_A };
                if unsafe { FAIL } != 0 { Err($e::Hook(unsafe { FAIL })) } else { Ok(self) }
            }
        }
    };
}
check! { P5, post_build, E1, plain }
check! { P6, check, E2, plain }
check! { P7, check, E2, plain }
check! { S5, post_build, E1, sync }
check! { S7, check, E1, sync }
hooked! { C5<P5, P5Builder, P5> hook true true; set a t d; err |e| e1(&e); look |x| [x.a, x.t.0, x.d, x.has_l() as u8] }
hooked! { C6<P6, P6Builder, P6> hook true true; set a t d; err |e| e2(&e); look |x| [x.a, x.t.0, x.d, x.has_l() as u8] }
hooked! { C7<P7, P7Builder, Rc<P7>> hook true true; set a t d; err |e| e2(&e); look |x| [x.a, x.t.0, x.d, x.has_l() as u8] }
hooked! { D5<S5, S5Builder, S5> hook true true; set a t d; err |e| e1(&e); look |x| [x.a(), x.t().0, x.d, x.has_l() as u8] }
hooked! { D7<S7, S7Builder, Arc<S7>> hook true true; set a t d; err |e| e1(&e); look |x| [x.a(), x.t().0, x.d, x.has_l() as u8] }

harnesses! {
    fn plain [5] { around::<C0>(); }
    fn converted_error [5] { around::<C1>(); }
    fn rc_variant [5] { around::<C2>(); }
    fn plain_hook [5] { around::<C3>(); }
    fn rc_hook [5] { around::<C4>(); }
    fn sync_hook [5] { around::<D3>(); }
    fn sync_rc_hook [5] { around::<D4>(); }
    fn async_hook [5] { around::<F3>(); }
    fn plain_fallible [5] { around::<C5>(); }
    fn plain_variant_fallible [5] { around::<C6>(); }
    fn rc_fallible [5] { around::<C7>(); }
    fn sync_fallible [5] { around::<D5>(); }
    fn sync_rc_fallible [5] { around::<D7>(); }
}
