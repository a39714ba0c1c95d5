//! C16: reference-counted structs and their reference to themselves.
use crate::aio::{run, M};
use crate::lazy::{built, builds, Tok};
use crate::{nd, K};
use fieldx::fxstruct;
use std::rc::{Rc, Weak};
use std::sync::{Arc, Weak as AWeak};

static mut DROPS: u8 = 0;
fn drops() -> u8 {
    unsafe { DROPS }
}
/// A field which tells when the object goes.
#[derive(Default)]
pub struct Alive;
impl Drop for Alive {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}
/// what a lazy builder found: 1 itself, 2 something else, 3 nothing
static mut SELF_SEEN: u8 = 0;
fn seen(x: u8) -> u8 {
    unsafe { SELF_SEEN = x }
    built()
}

trait Counted: Sized {
    type P: Clone;
    type W;
    fn make(v: u8) -> Self::P;
    fn v(p: &Self::P) -> u8;
    fn myself(p: &Self::P) -> Option<Self::P>;
    fn downgrade(p: &Self::P) -> Self::W;
    fn upgrade(w: &Self::W) -> Option<Self::P>;
    fn same(a: &Self::P, b: &Self::P) -> bool;
    fn strong(p: &Self::P) -> usize;
    fn lazy(p: &Self::P) -> u8;
    /// Two objects with values 1 and 2 made by one builder; the first one is dropped in between if told so.
    fn pair(_keep: bool) -> (Option<Self::P>, Self::P) {
        unreachable!()
    }
}
macro_rules! counted {
    ($t:ident<$s:ty, $rc:ident, $weak:ident>; make |$v:ident| $make:expr; $my:ident $down:ident; |$x:ident| $lazy:expr $(; $pair:ident)?) => {
        struct $t;
        impl Counted for $t {
            type P = $rc<$s>;
            type W = $weak<$s>;
            fn make($v: u8) -> $rc<$s> { $make }
            fn v(p: &$rc<$s>) -> u8 { p.v }
            fn myself(p: &$rc<$s>) -> Option<$rc<$s>> { p.$my() }
            fn downgrade(p: &$rc<$s>) -> $weak<$s> { p.$down() }
            fn upgrade(w: &$weak<$s>) -> Option<$rc<$s>> { w.upgrade() }
            fn same(a: &$rc<$s>, b: &$rc<$s>) -> bool { $rc::ptr_eq(a, b) }
            fn strong(p: &$rc<$s>) -> usize { $rc::strong_count(p) }
            fn lazy($x: &$rc<$s>) -> u8 { $lazy }
            $(fn $pair(keep: bool) -> (Option<$rc<$s>>, $rc<$s>) {
                let mut b = <$s>::builder().v(1);
                let x = Some(ok(b.build()));
                let x = if keep { x } else { drop(x); None };
                b = b.v(2);
                (x, ok(b.build()))
            })?
        }
    };
}
/// myself() is the object, keeps it alive while held and not otherwise; the weak one follows.
fn identity<T: Counted>() {
    let v = nd::val();
    let o = T::make(v);
    assert!(drops() == 0, "rc: construction drops nothing of the object");
    assert!(T::strong(&o) == 1, "rc: the self-reference does not keep the object alive");
    assert!(T::v(&o) == v, "rc: the object made");
    let r = T::lazy(&o);
    assert!(r == 100 && unsafe { SELF_SEEN } == 1, "rc: a lazy builder's self-reference is the object itself");
    assert!(T::strong(&o) == 1, "rc: nothing keeps a reference");
    let w = M::new(T::downgrade(&o));
    let mut held = [None, None];
    // the holders: the first one made, and those obtained from the self-reference, released in any order
    match T::myself(&o) {
        None => panic!("rc: myself() is there while the object lives"),
        Some(p) => {
            assert!(T::same(&p, &o), "rc: myself() is the very object");
            assert!(T::strong(&o) == 2, "rc: myself() is a strong reference");
            held[0] = Some(p);
        }
    }
    if nd::flag() {
        held[1] = T::upgrade(&w);
        assert!(held[1].as_ref().map_or(false, |p| T::same(p, &o)), "rc: the weak reference is one to the object");
    }
    // the maker goes first or last
    let mut o = Some(o);
    if nd::flag() {
        o = None;
        assert!(drops() == 0, "rc: the object lives while somebody holds it");
        let p = held[0].as_ref().unwrap();
        match T::myself(p) {
            None => panic!("rc: myself() is there while the object lives"),
            Some(q) => {
                assert!(T::same(p, &q), "rc: myself() is the very object");
                assert!(T::v(&q) == v, "rc: the object made");
            }
        }
    }
    held[0] = None;
    let more = o.is_some() || held[1].is_some();
    assert!((drops() == 0) == more, "rc: the object goes with its last holder and not before");
    match T::upgrade(&w) {
        Some(_) => assert!(more, "rc: the weak reference ends with the object"),
        None => assert!(!more, "rc: the weak reference works while the object lives"),
    }
    reach!(more, "somebody else holds it");
    reach!(!more, "nobody else holds it");
    held[1] = None;
    o = None;
    assert!(drops() == 1, "rc: the object is dropped once");
    assert!(T::upgrade(&w).is_none(), "rc: the weak reference ends with the object");
}
/// Two objects: each one's reference is to itself.
fn two<T: Counted>() {
    let a = M::new(T::make(1));
    let b = M::new(T::make(2));
    let (p, q) = (M::new(T::myself(&a)), M::new(T::myself(&b)));
    match (&*p, &*q) {
        (Some(p), Some(q)) => {
            assert!(T::same(p, &a) && T::same(q, &b) && !T::same(p, &b), "rc: each object's myself() is itself");
            assert!(T::v(p) == 1 && T::v(q) == 2, "rc: each object's myself() is itself");
        }
        _ => panic!("rc: myself() is there while the object lives"),
    }
}
/// One builder makes both.
fn same_builder<T: Counted>() {
    let (a, b) = T::pair(nd::flag());
    assert!(T::strong(&b) == 1, "rc: the self-reference does not keep the object alive");
    match T::myself(&b) {
        Some(q) => assert!(T::same(&q, &b) && T::v(&q) == 2, "rc: each object's myself() is itself"),
        None => panic!("rc: myself() is there while the object lives"),
    }
    let w = M::new(T::downgrade(&b));
    drop(b);
    assert!(T::upgrade(&w).is_none(), "rc: the weak reference ends with the object");
    reach!(a.is_some(), "the first one lives");
    if let Some(a) = a {
        match T::myself(&a) {
            Some(p) => assert!(T::same(&p, &a) && T::v(&p) == 1, "rc: each object's myself() is itself"),
            None => panic!("rc: myself() is there while the object lives"),
        }
        assert!(drops() == 1, "rc: the other object lives");
    }
    assert!(drops() == 2, "rc: both are dropped once");
}
fn ok<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            std::mem::forget(e);
            panic!("rc: builds")
        }
    }
}

// --- plain
#[fxstruct(rc, default)]
struct P {
    #[fieldx(default(7))]
    v: u8,
    alive: Alive,
    #[fieldx(lazy, get(copy))]
    l: u8,
}
impl P {
    fn build_l(&self) -> u8 {
        seen(match self.myself() {
            Some(p) => if std::ptr::eq(&*p, self) { 1 } else { 2 },
            None => 3,
        })
    }
}
#[fxstruct(rc("me"), builder)]
struct B {
    v: u8,
    #[fieldx(builder(off))]
    alive: Alive,
    #[fieldx(lazy, get(copy))]
    l: u8,
}
impl B {
    fn build_l(&self) -> u8 {
        seen(match self.me() {
            Some(p) => if std::ptr::eq(&*p, self) { 1 } else { 2 },
            None => 3,
        })
    }
}
#[fxstruct(rc, builder(post_build))]
struct H {
    v: u8,
    #[fieldx(builder(off))]
    alive: Alive,
    #[fieldx(lazy, get(copy))]
    l: u8,
}
impl H {
    fn post_build(self) -> Self {
        self
    }
    fn build_l(&self) -> u8 {
        seen(match self.myself_downgrade().upgrade() {
            Some(p) => if std::ptr::eq(&*p, self) { 1 } else { 2 },
            None => 3,
        })
    }
}
#[fxstruct(rc, builder(post_build(check), error(fieldx::error::FieldXError)))]
struct E {
    v: u8,
    #[fieldx(builder(off))]
    alive: Alive,
    #[fieldx(lazy, get(copy))]
    l: u8,
}
impl E {
    fn check(self) -> Result<Self, fieldx::error::FieldXError> {
        Ok(self)
    }
    fn build_l(&self) -> u8 {
        seen(match self.myself() {
            Some(p) => if std::ptr::eq(&*p, self) { 1 } else { 2 },
            None => 3,
        })
    }
}
counted! { CP<P, Rc, Weak>; make |v| { nd::assume(v == 7); P::new() }; myself myself_downgrade; |x| x.l() }
counted! { CB<B, Rc, Weak>; make |v| ok(B::builder().v(v).build()); me me_downgrade; |x| x.l(); pair }
counted! { CH<H, Rc, Weak>; make |v| ok(H::builder().v(v).build()); myself myself_downgrade; |x| x.l(); pair }
counted! { CE<E, Rc, Weak>; make |v| ok(E::builder().v(v).build()); myself myself_downgrade; |x| x.l(); pair }

// --- sync
#[fxstruct(sync, rc, default)]
struct S {
    #[fieldx(default(7))]
    v: u8,
    alive: Alive,
    #[fieldx(lazy, get(copy))]
    l: u8,
}
impl S {
    fn build_l(&self) -> u8 {
        seen(match self.myself() {
            Some(p) => if std::ptr::eq(&*p, self) { 1 } else { 2 },
            None => 3,
        })
    }
}
#[fxstruct(sync, rc("me"), builder(post_build))]
struct T {
    v: u8,
    #[fieldx(builder(off))]
    alive: Alive,
    #[fieldx(lock, get(copy), default(3))]
    l: u8,
}
impl T {
    fn post_build(self) -> Self {
        self
    }
    fn find(&self) -> u8 {
        seen(match self.me() {
            Some(p) => if std::ptr::eq(&*p, self) { 1 } else { 2 },
            None => 3,
        })
    }
}
#[fxstruct(sync, rc, builder(post_build(check), error(fieldx::error::FieldXError)))]
struct F {
    v: u8,
    #[fieldx(builder(off))]
    alive: Alive,
}
impl F {
    fn check(self) -> Result<Self, fieldx::error::FieldXError> {
        Ok(self)
    }
    fn find(&self) -> u8 {
        seen(match self.myself() {
            Some(p) => if std::ptr::eq(&*p, self) { 1 } else { 2 },
            None => 3,
        })
    }
}
counted! { CS<S, Arc, AWeak>; make |v| { nd::assume(v == 7); S::new() }; myself myself_downgrade; |x| x.l() }
counted! { CT<T, Arc, AWeak>; make |v| ok(T::builder().v(v).build()); me me_downgrade; |x| x.find(); pair }
counted! { CF<F, Arc, AWeak>; make |v| ok(F::builder().v(v).build()); myself myself_downgrade; |x| x.find(); pair }
// --- async
#[fxstruct(r#async, rc, builder)]
struct A {
    v: u8,
    #[fieldx(builder(off))]
    alive: Alive,
    #[fieldx(lazy, get(copy))]
    l: u8,
}
impl A {
    async fn build_l(&self) -> u8 {
        seen(match self.myself() {
            Some(p) => if std::ptr::eq(&*p, self) { 1 } else { 2 },
            None => 3,
        })
    }
}
counted! { CA<A, Arc, AWeak>; make |v| ok(A::builder().v(v).build()); myself myself_downgrade; |x| run(x.l()); pair }

// a reference taken by the hook
#[fxstruct(rc, builder(post_build))]
struct Q {
    v: u8,
    #[fieldx(optional, builder(off))]
    noted: std::rc::Weak<Q>,
}
impl Q {
    fn post_build(mut self) -> Self {
        self.noted = Some(self.myself_downgrade());
        self
    }
}
#[fxstruct(sync, rc, builder(post_build))]
struct R {
    v: u8,
    #[fieldx(optional, lock(off), builder(off))]
    noted: std::sync::Weak<R>,
}
impl R {
    fn post_build(mut self) -> Self {
        self.noted = Some(self.myself_downgrade());
        self
    }
}
macro_rules! noted {
    ($t:ident, $p:path) => {{
        let v = nd::val();
        let o = $t::builder().v(v).build().ok().unwrap();
        let w = match &o.noted {
            Some(w) => w.clone(),
            None => panic!("hook: it has run"),
        };
        match w.upgrade() {
            Some(s) => assert!(<$p>::ptr_eq(&s, &o) && s.v == v, "downgrade: a reference to this very object"),
            None => panic!("downgrade: upgrades while the object lives"),
        }
        assert!(<$p>::strong_count(&o) == 1, "downgrade: does not own the object");
        let other = if nd::flag() { Some(o.clone()) } else { None };
        drop(o);
        assert!(w.upgrade().is_some() == other.is_some(), "downgrade: upgrades exactly while there is an owner");
        drop(other);
        assert!(w.upgrade().is_none(), "downgrade: stops upgrading with the last owner");
    }};
}

harnesses! {
    fn plain_noted_by_hook [5] { noted!(Q, std::rc::Rc<Q>) }
    fn sync_noted_by_hook [5] { noted!(R, std::sync::Arc<R>) }
    fn plain_new [5] { identity::<CP>(); }
    fn plain_builder [5] { identity::<CB>(); }
    fn plain_post_build [5] { identity::<CH>(); }
    fn plain_fallible_post_build [5] { identity::<CE>(); }
    fn plain_two [5] { two::<CB>(); }
    fn plain_same_builder [5] { same_builder::<CB>(); }
    fn plain_same_builder_post_build [5] { if nd::flag() { same_builder::<CH>() } else { same_builder::<CE>() } }
    fn sync_new [5] { identity::<CS>(); }
    fn sync_post_build [5] { identity::<CT>(); }
    fn sync_fallible_post_build [5] { identity::<CF>(); }
    fn sync_two [5] { two::<CT>(); }
    fn sync_same_builder [5] { if nd::flag() { same_builder::<CT>() } else { same_builder::<CF>() } }
    fn async_same_builder [5] { same_builder::<CA>(); }
    fn r#async [5] { identity::<CA>(); }
}
