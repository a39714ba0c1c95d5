//! C14: what serialisation writes, and reading it back.
use crate::aio::{run, M};
use crate::cells::{num, Num, NONE};
use crate::lazy::{built, builds, reset, Tok};
use crate::ser::{self, read, write, Reader, Written, MAX, NULL};
use crate::{nd, K};
use fieldx::fxstruct;
use serde::{Deserialize, Serialize};

/// What a field of a configuration is.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// always has a value
    Val,
    /// empty or not
    Opt,
    /// built when it is serialised unset
    Lazy,
    /// only written: the object read back has this
    Out(u8),
    /// never written nor read: the object read back has this
    Off(u8),
    /// not written; read when given
    In(u8),
}
use Kind::*;
trait Written_ {
    type O: Serialize + serde::de::DeserializeOwned + Clone;
    const KEYS: &'static [&'static str];
    const KINDS: &'static [Kind];
    /// the object with the given contents (NONE: nothing)
    fn make(v: [u8; MAX]) -> Self::O;
    fn look(o: &Self::O) -> [u8; MAX];
}

fn sample<T: Written_>() -> [u8; MAX] {
    let mut v = [NONE; MAX];
    let mut i = 0;
    while i < T::KEYS.len() {
        v[i] = match T::KINDS[i] {
            Val | In(_) => nd::val(),
            Out(d) | Off(d) => if d == NONE { nd::opt().unwrap_or(NONE) } else { nd::val() },
            Opt | Lazy => nd::opt().unwrap_or(NONE),
        };
        i += 1;
    }
    v
}
/// the content of field `i` as serialisation sees it; unset lazies are built in the order of the fields
fn expect<T: Written_>(v: &[u8; MAX], i: usize, n: &mut u8) -> u8 {
    if v[i] == NONE && (T::KINDS[i] == Lazy || T::KINDS[i] == Out(NONE)) {
        *n += 1;
        return 99 + *n;
    }
    v[i]
}
fn round<T: Written_>() {
    let v = sample::<T>();
    let o = M::new(T::make(v));
    let w = write(&*o);
    let mut want = [NONE; MAX];
    let (mut i, mut k, mut n) = (0, 0, 0);
    while i < T::KEYS.len() {
        match T::KINDS[i] {
            Off(_) | In(_) => {}
            _ => {
                want[i] = expect::<T>(&v, i, &mut n);
                assert!(k < w.n, "serde: each serialised field is written");
                assert!(w.key[k] == T::KEYS[i], "serde: a field is written once, under its own key");
                assert!(w.val[k] == want[i], "serde: a field is written with its current value");
                k += 1;
            }
        }
        i += 1;
    }
    assert!(k == w.n, "serde: nothing else is written");
    assert!(builds() == n, "serde: exactly the unset lazies are built");
    // the object itself is what it was
    let is = T::look(&o);
    let mut i = 0;
    while i < T::KEYS.len() {
        assert!(is[i] == v[i], "serde: serialising does not change the object");
        i += 1;
    }
    // and back
    match read::<T::O>(Reader::of(&w)) {
        Err(_) => panic!("serde: what was written can be read"),
        Ok(b) => {
            let b = M::new(b);
            let is = T::look(&b);
            let mut i = 0;
            while i < T::KEYS.len() {
                match T::KINDS[i] {
                    Off(d) | Out(d) | In(d) => assert!(is[i] == d, "serde: a field which is not read has its default"),
                    _ => assert!(is[i] == want[i], "serde: a field read back holds the value written"),
                }
                i += 1;
            }
            assert!(builds() == n, "serde: reading builds nothing");
        }
    }
}
/// Every key in the input, those of excluded fields too.
fn all_keys<T: Written_>() {
    let mut r = Reader { n: T::KEYS.len(), key: [""; MAX], val: [0; MAX], given: [true; MAX], at: 0 };
    let mut i = 0;
    while i < T::KEYS.len() {
        r.key[i] = T::KEYS[i];
        r.val[i] = if T::KINDS[i] == Opt { nd::opt().unwrap_or(NULL) } else { nd::val() };
        i += 1;
    }
    let v = r.val;
    match read::<T::O>(r) {
        Err(_) => panic!("serde: all keys are given"),
        Ok(b) => {
            let b = M::new(b);
            let is = T::look(&b);
            let mut i = 0;
            while i < T::KEYS.len() {
                match T::KINDS[i] {
                    Off(d) | Out(d) => assert!(is[i] == d, "serde: an excluded field is not read"),
                    _ => assert!(is[i] == v[i], "serde: a field takes the value of its key"),
                }
                i += 1;
            }
            assert!(builds() == 0, "serde: reading builds nothing");
        }
    }
}
macro_rules! serde_obj {
    ($t:ident<$o:ty>; $($key:literal $kind:expr),*; make |$v:ident| $make:expr; look |$x:ident| [$($look:expr),*]) => {
        struct $t;
        impl Written_ for $t {
            type O = $o;
            const KEYS: &'static [&'static str] = &[$($key),*];
            const KINDS: &'static [Kind] = &[$($kind),*];
            fn make($v: [u8; MAX]) -> $o { $make }
            #[allow(unused_assignments)]
            fn look($x: &$o) -> [u8; MAX] {
                let mut r = [NONE; MAX];
                let mut k = 0;
                $( r[k] = num($look); k += 1; )*
                r
            }
        }
    };
}
fn opt(v: u8) -> Option<u8> {
    if v == NONE { None } else { Some(v) }
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct T2(u8);
impl Num for T2 {
    fn num(&self) -> u8 {
        self.0
    }
}

// --- plain
#[fxstruct(serde, get, set)]
#[derive(Clone)]
struct P {
    a: u8,
    #[fieldx(optional, get(copy), set)]
    o: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
    #[fieldx(inner_mut, rename("mm"), get(copy))]
    m: u8,
    #[fieldx(serde("tt"))]
    t: T2,
    #[fieldx(lazy, predicate, get(clone))]
    lt: T2,
}
impl P {
    fn build_l(&self) -> u8 {
        built()
    }
    fn build_lt(&self) -> T2 {
        T2(built())
    }
}
serde_obj! { CP<P>; "a" Val, "o" Opt, "l" Lazy, "mm" Val, "tt" Val, "lt" Lazy;
    make |v| {
        let mut p = P::new();
        p.set_a(v[0]);
        if let Some(x) = opt(v[1]) { p.set_o(x); }
        if let Some(x) = opt(v[2]) { p.set_l(x); }
        p.set_mm(v[3]);
        p.set_t(T2(v[4]));
        if let Some(x) = opt(v[5]) { p.set_lt(T2(x)); }
        p
    };
    look |x| [x.a, x.o, if x.has_l() { x.l() } else { NONE }, x.mm(), x.t.0, if x.has_lt() { x.lt().0 } else { NONE }]
}
// defaults and excluded fields
#[fxstruct(serde, set, get(copy))]
#[derive(Clone)]
struct Q {
    #[fieldx(optional, default(200), clearer)]
    o: u8,
    #[fieldx(serde(off), default(201))]
    off: u8,
    #[fieldx(serde(deserialize(off)), default(202))]
    out: u8,
    #[fieldx(serde(serialize(off), default(203)))]
    inn: u8,
    #[fieldx(lazy, predicate, serde(deserialize(off)))]
    lo: u8,
    #[fieldx(lazy, predicate, clearer, default(204))]
    ld: u8,
    #[fieldx(optional, inner_mut, clearer)]
    om: u8,
}
impl Q {
    fn build_lo(&self) -> u8 {
        built()
    }
    fn build_ld(&self) -> u8 {
        built()
    }
}
serde_obj! { CQ<Q>; "o" Opt, "off" Off(201), "out" Out(202), "inn" In(203), "lo" Out(NONE), "ld" Lazy, "om" Opt;
    make |v| {
        let mut q = Q::new();
        match opt(v[0]) { Some(x) => { q.set_o(x); } None => { q.clear_o(); } }
        q.set_off(v[1]);
        q.set_out(v[2]);
        q.set_inn(v[3]);
        if let Some(x) = opt(v[4]) { q.set_lo(x); }
        match opt(v[5]) { Some(x) => { q.set_ld(x); } None => { q.clear_ld(); } }
        if let Some(x) = opt(v[6]) { q.set_om(x); }
        q
    };
    look |x| [x.o, x.off, x.out, x.inn, if x.has_lo() { x.lo() } else { NONE }, if x.has_ld() { x.ld() } else { NONE }, x.om()]
}
// generics
#[fxstruct(serde, get(copy), set)]
#[derive(Clone)]
struct G<T: Copy + Default + Send, const N: u8 = 3>
where
    T: PartialEq,
{
    a: T,
    #[fieldx(optional)]
    o: T,
}
serde_obj! { CG<G<u8>>; "a" Val, "o" Opt;
    make |v| { let mut g = G::new(); g.set_a(v[0]); if let Some(x) = opt(v[1]) { g.set_o(x); } g };
    look |x| [x.a, x.o]
}
// one direction alone: the other is off
#[fxstruct(serde, set, get(copy))]
#[derive(Clone)]
struct J {
    a: u8,
    #[fieldx(serde(serialize), default(205))]
    out: u8,
    #[fieldx(serde(deserialize, default(206)))]
    inn: u8,
    #[fieldx(serde(serialize, deserialize))]
    both: u8,
    #[fieldx(serde("nn"), rename("ren"), optional)]
    o: u8,
    #[fieldx(lazy, predicate, rename("el"))]
    l: u8,
    #[fieldx(serde(serialize(off), deserialize(off)), default(207))]
    none: u8,
}
impl J {
    fn build_el(&self) -> u8 {
        built()
    }
}
serde_obj! { CJ<J>; "a" Val, "out" Out(205), "inn" In(206), "both" Val, "nn" Opt, "el" Lazy, "none" Off(207);
    make |v| {
        let mut p = J::new();
        p.set_a(v[0]);
        p.set_out(v[1]);
        p.set_inn(v[2]);
        p.set_both(v[3]);
        if let Some(x) = opt(v[4]) { p.set_ren(x); }
        if let Some(x) = opt(v[5]) { p.set_el(x); }
        p.set_none(v[6]);
        p
    };
    look |x| [x.a, x.out, x.inn, x.both, x.o, if x.has_el() { x.el() } else { NONE }, x.none]
}
// a struct which is only built (no new, no setters), attributes for the shadow's fields
fn is_zero(x: &u8) -> bool {
    *x == 0
}
fn is_none(x: &Option<u8>) -> bool {
    x.is_none()
}
#[fxstruct(sync, serde(attributes(serde(deny_unknown_fields)), forward_attrs(serde)), get(copy), builder)]
#[derive(Clone)]
struct H {
    #[fieldx(lock, serde(attributes(serde(alias = "aa"))))]
    a: u8,
    #[fieldx(optional, serde(attributes(serde(skip_serializing_if = "is_none"))))]
    o: u8,
    b: u8,
}
// --- sync
#[fxstruct(sync, serde("SShadow"), get(copy), set)]
#[derive(Clone)]
struct S {
    a: u8,
    #[fieldx(lock, rename("kk"))]
    k: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
    #[fieldx(lock, get(clone), serde("tt"))]
    t: T2,
    #[fieldx(optional, lock(off))]
    bo: u8,
}
impl S {
    fn build_l(&self) -> u8 {
        built()
    }
}
serde_obj! { CS<S>; "a" Val, "kk" Val, "o" Opt, "l" Lazy, "tt" Val, "bo" Opt;
    make |v| {
        let mut s = S::new();
        s.set_a(v[0]);
        s.set_kk(v[1]);
        if let Some(x) = opt(v[2]) { s.set_o(x); }
        if let Some(x) = opt(v[3]) { s.set_l(x); }
        s.set_t(T2(v[4]));
        if let Some(x) = opt(v[5]) { s.set_bo(x); }
        s
    };
    look |x| [x.a, x.kk(), x.o(), if x.has_l() { x.l() } else { NONE }, x.t().0, x.bo]
}
// no locks, but the kind is given
#[fxstruct(sync, serde, get(copy), set, builder)]
#[derive(Clone)]
struct V {
    #[fieldx(sync, lock(off), optional)]
    o: u8,
    #[fieldx(sync, lock(off))]
    a: u8,
    #[fieldx(sync, lock(off), optional, default(200), clearer)]
    d: u8,
    #[fieldx(sync, lock(off), get(clone))]
    t: T2,
}
serde_obj! { CV<V>; "o" Opt, "a" Val, "d" Opt, "t" Val;
    make |v| {
        let mut s = V::new();
        if let Some(x) = opt(v[0]) { s.set_o(x); }
        s.set_a(v[1]);
        if let Some(x) = opt(v[2]) { s.set_d(x); } else { s.clear_d(); }
        s.set_t(T2(v[3]));
        s
    };
    look |x| [x.o(), x.a(), x.d(), x.t().0]
}
#[fxstruct(r#async, serde, get(copy), set)]
#[derive(Clone)]
struct Y {
    #[fieldx(r#async, lock(off), optional)]
    o: u8,
    #[fieldx(r#async, lock(off))]
    a: u8,
    #[fieldx(lock(off), optional)]
    d: u8,
}
serde_obj! { CY<Y>; "o" Opt, "a" Val, "d" Opt;
    make |v| {
        let mut s = Y::new();
        if let Some(x) = opt(v[0]) { s.set_o(x); }
        s.set_a(v[1]);
        if let Some(x) = opt(v[2]) { s.set_d(x); }
        s
    };
    look |x| [x.o(), x.a(), x.d()]
}
#[fxstruct(sync, serde, set, get(copy))]
#[derive(Clone)]
struct U {
    #[fieldx(optional, default(200), clearer)]
    o: u8,
    #[fieldx(serde(off), default(201), lock)]
    off: u8,
    #[fieldx(serde(deserialize(off)), default(202), lock)]
    out: u8,
    #[fieldx(lazy, predicate, serde(deserialize(off)))]
    lo: u8,
    #[fieldx(lazy, predicate, clearer, default(204))]
    ld: u8,
}
impl U {
    fn build_lo(&self) -> u8 {
        built()
    }
    fn build_ld(&self) -> u8 {
        built()
    }
}
serde_obj! { CU<U>; "o" Opt, "off" Off(201), "out" Out(202), "lo" Out(NONE), "ld" Lazy;
    make |v| {
        let mut q = U::new();
        match opt(v[0]) { Some(x) => { q.set_o(x); } None => { q.clear_o(); } }
        q.set_off(v[1]);
        q.set_out(v[2]);
        if let Some(x) = opt(v[3]) { q.set_lo(x); }
        match opt(v[4]) { Some(x) => { q.set_ld(x); } None => { q.clear_ld(); } }
        q
    };
    look |x| [x.o(), x.off(), x.out(), if x.has_lo() { x.lo() } else { NONE }, if x.has_ld() { x.ld() } else { NONE }]
}

// fields which are only read
#[fxstruct(sync, serde, set, get(copy))]
#[derive(Clone)]
struct I {
    #[fieldx(optional, serde(serialize(off)))]
    o: u8,
    #[fieldx(lazy, predicate, serde(serialize(off)))]
    l: u8,
    #[fieldx(lock, serde(serialize(off), default(203)))]
    k: u8,
    b: u8,
}
impl I {
    fn build_l(&self) -> u8 {
        built()
    }
}
serde_obj! { CI<I>; "o" In(NONE), "l" In(NONE), "k" In(203), "b" Val;
    make |v| {
        let mut s = I::new();
        s.set_o(v[0]);
        s.set_l(v[1]);
        s.set_k(v[2]);
        s.set_b(v[3]);
        s
    };
    look |x| [x.o(), if x.has_l() { x.l() } else { NONE }, x.k(), x.b]
}
// --- async
#[fxstruct(r#async, serde, get(copy), set)]
#[derive(Clone)]
struct A {
    a: u8,
    #[fieldx(lock, rename("kk"))]
    k: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(lock, get(clone), serde("tt"))]
    t: T2,
}
serde_obj! { CA<A>; "a" Val, "kk" Val, "o" Opt, "tt" Val;
    make |v| {
        let mut s = A::new();
        s.set_a(v[0]);
        run(s.set_kk(v[1]));
        if let Some(x) = opt(v[2]) { run(s.set_o(x)); }
        run(s.set_t(T2(v[3])));
        s
    };
    look |x| [x.a, run(x.kk()), run(x.o()), run(x.t()).0]
}
#[fxstruct(r#async, serde, set)]
#[derive(Clone)]
struct AL {
    #[fieldx(lazy, predicate, clearer, get(copy))]
    l: u8,
    #[fieldx(lazy, get(clone), serde("tt"))]
    t: T2,
    #[fieldx(lock, get(copy))]
    k: u8,
}
impl AL {
    async fn build_l(&self) -> u8 {
        built()
    }
    async fn build_t(&self) -> T2 {
        T2(built())
    }
}
serde_obj! { CAL<AL>; "l" Val, "tt" Val, "k" Val;
    make |v| {
        let s = AL::new();
        run(s.set_l(v[0]));
        run(s.set_t(T2(v[1])));
        run(s.set_k(v[2]));
        s
    };
    look |x| [run(x.l()), run(x.t()).0, run(x.k())]
}

harnesses! {
    fn sync_input [10] { round::<CI>(); }
    fn sync_input_read [10] { all_keys::<CI>(); }
    fn r#async [10] { round::<CA>(); }
    fn async_lazy [10] { round::<CAL>(); }
    fn async_read [10] { all_keys::<CA>(); }
    fn plain [10] { round::<CP>(); }
    fn one_direction [10] { round::<CJ>(); }
    fn one_direction_read [10] { all_keys::<CJ>(); }
    fn attributes [10] {
        let (a, o, b) = (nd::val(), nd::opt(), nd::val());
        let mut h = H::builder().a(a).b(b);
        if let Some(v) = o { h = h.o(v); }
        let h = M::new(h.build().ok().unwrap());
        let w = write(&*h);
        assert!(w.key[0] == "a" && w.val[0] == a, "serde: a field is written with its current value");
        match o {
            Some(v) => assert!(w.n == 3 && w.key[1] == "o" && w.val[1] == v && w.key[2] == "b" && w.val[2] == b, "serde: each serialised field is written"),
            None => assert!(w.n == 2 && w.key[1] == "b" && w.val[1] == b, "serde: the shadow field's own attributes are heeded"),
        }
        let mut r = Reader::of(&w);
        let other = nd::below(3);
        if other == 1 { r.key[0] = "aa"; }
        if other == 2 { r.key[0] = "zz"; }
        match read::<H>(r) {
            Ok(x) => {
                let x = M::new(x);
                assert!(other != 2 && x.a() == a && x.o() == o && x.b() == b, "serde: a field read back holds the value written");
            }
            Err(_) => assert!(other == 2, "serde: what was written can be read"),
        }
    }
    fn plain_read [10] { all_keys::<CP>(); }
    fn plain_excluded [10] { round::<CQ>(); }
    fn plain_excluded_read [10] { all_keys::<CQ>(); }
    fn generic [10] { round::<CG>(); }
    fn sync [10] { round::<CS>(); }
    fn sync_kind [10] { round::<CV>(); }
    fn sync_kind_read [10] { all_keys::<CV>(); }
    fn async_kind [10] { round::<CY>(); }
    fn sync_read [10] { all_keys::<CS>(); }
    fn sync_excluded [10] { round::<CU>(); }
    fn sync_excluded_read [10] { all_keys::<CU>(); }
}
