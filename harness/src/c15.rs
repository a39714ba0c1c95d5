//! C15: what a field holds when its key is missing from the input.
use crate::aio::{run, M};
use crate::cells::{num, Num, NONE};
use crate::lazy::{built, builds, Tok};
use crate::ser::{self, read, write, Reader, MAX, NULL};
use crate::{nd, K};
use fieldx::fxstruct;
use serde::{Deserialize, Serialize};

/// The key is mandatory.
const MUST: u8 = 253;
/// The key is not one of the field's: nothing is read.
const OFF: u8 = 128;

trait Missing {
    type O: serde::de::DeserializeOwned;
    const KEYS: &'static [&'static str];
    /// what the field holds when the key is missing (NONE: nothing)
    const DEF: &'static [u8];
    /// the field is an optional: null can be given
    const OPT: &'static [bool];
    /// the field does not read its key
    const DEAF: &'static [bool];
    fn look(o: &Self::O) -> [u8; MAX];
    /// reads a lazy field: returns the value and whether a builder had to run
    fn first_use(o: &Self::O) -> Option<u8> {
        None
    }
}
fn any_subset<T: Missing>() {
    let n = T::KEYS.len();
    let backwards = nd::flag();
    let mut r = Reader { n, key: [""; MAX], val: [0; MAX], given: [false; MAX], at: 0 };
    let mut want = [NONE; MAX];
    let mut fails = false;
    let mut i = 0;
    while i < n {
        let p = if backwards { n - 1 - i } else { i };
        let g = nd::flag();
        let v = if T::OPT[i] { nd::opt().unwrap_or(NULL) } else { nd::val() };
        r.key[p] = T::KEYS[i];
        r.given[p] = g;
        r.val[p] = v;
        if g && !T::DEAF[i] {
            want[i] = v;
        } else if T::DEF[i] == MUST {
            fails = true;
        } else {
            want[i] = T::DEF[i];
        }
        i += 1;
    }
    match read::<T::O>(r) {
        Err(_) => {
            assert!(fails, "deserialisation: fails only if a field without any default is missing");
        }
        Ok(o) => {
            assert!(!fails, "deserialisation: a field without any default is mandatory");
            reach!("read");
            let o = M::new(o);
            let is = T::look(&o);
            let mut i = 0;
            while i < n {
                assert!(is[i] == want[i], "deserialisation: the value of the key, else the serde default, else nothing");
                i += 1;
            }
            assert!(builds() == 0, "deserialisation: builds nothing");
            if let Some(v) = T::first_use(&o) {
                let l = want[n - 1];
                assert!(if l == NONE { v == 100 && builds() == 1 } else { v == l && builds() == 0 }, "deserialisation: a lazy left unset is built on its first use");
            }
        }
    }
}
macro_rules! missing {
    // the last field may be a lazy: `use` reads it
    ($t:ident<$o:ty>; $($key:literal $def:tt $opt:tt $deaf:tt),*; look |$x:ident| [$($look:expr),*] $(; first |$y:ident| $first:expr)?) => {
        struct $t;
        impl Missing for $t {
            type O = $o;
            const KEYS: &'static [&'static str] = &[$($key),*];
            const DEF: &'static [u8] = &[$($def),*];
            const OPT: &'static [bool] = &[$($opt),*];
            const DEAF: &'static [bool] = &[$($deaf),*];
            #[allow(unused_assignments)]
            fn look($x: &$o) -> [u8; MAX] {
                let mut r = [NONE; MAX];
                let mut k = 0;
                $( r[k] = num($look); k += 1; )*
                r
            }
            $( fn first_use($y: &$o) -> Option<u8> { Some($first) } )?
        }
    };
}
const Y: bool = true;
const N: bool = false;

// --- plain, no struct-level default
#[fxstruct(serde, get(copy))]
#[derive(Clone)]
struct P {
    a: u8,
    #[fieldx(serde(default(150)))]
    d: u8,
    #[fieldx(serde(default(151)), default(152), rename("ren"))]
    dd: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(optional, serde(default(153)))]
    od: u8,
    #[fieldx(lazy, predicate, serde(default(154)))]
    ld: u8,
    #[fieldx(inner_mut, serde(default(155)))]
    m: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
impl P {
    fn build_ld(&self) -> u8 {
        built()
    }
    fn build_l(&self) -> u8 {
        built()
    }
}
missing! { CP<P>; "a" MUST N N, "d" 150 N N, "ren" 151 N N, "o" NONE Y N, "od" 153 Y N, "ld" 154 N N, "m" 155 N N, "l" NONE N N;
    look |x| [x.a(), x.d(), x.ren(), x.o(), x.od(), if x.has_ld() { x.ld() } else { NONE }, x.m(), if x.has_l() { x.l() } else { NONE }];
    first |x| x.l() }
// fieldx defaults are not serde's; what is switched off
#[fxstruct(serde, get(copy))]
#[derive(Clone)]
struct Q {
    #[fieldx(default(160))]
    d: u8,
    #[fieldx(optional, default(161))]
    od: u8,
    #[fieldx(serde(off), default(162))]
    off: u8,
    #[fieldx(serde(deserialize(off)), default(163))]
    out: u8,
    #[fieldx(serde(serialize(off)))]
    inn: u8,
    #[fieldx(serde(serialize(off), default("Q::named")))]
    ind: u8,
    #[fieldx(lazy, predicate, default(164))]
    l: u8,
}
impl Q {
    fn named() -> u8 {
        165
    }
    fn build_l(&self) -> u8 {
        built()
    }
}
missing! { CQ<Q>; "d" MUST N N, "od" NONE Y N, "off" 162 N Y, "out" 163 N Y, "inn" MUST N N, "ind" 165 N N, "l" NONE N N;
    look |x| [x.d(), x.od(), x.off(), x.out(), x.inn(), x.ind(), if x.has_l() { x.l() } else { NONE }];
    first |x| x.l() }
// --- struct-level default: the fieldx defaults
#[fxstruct(serde(default), get(copy))]
#[derive(Clone)]
struct R {
    a: u8,
    #[fieldx(default(170))]
    d: u8,
    #[fieldx(default(171), serde(default(172)))]
    dd: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(optional, default(173))]
    od: u8,
    #[fieldx(inner_mut, default(174))]
    m: u8,
    #[fieldx(lazy, predicate, default(175))]
    ld: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
impl R {
    fn build_ld(&self) -> u8 {
        built()
    }
    fn build_l(&self) -> u8 {
        built()
    }
}
missing! { CR<R>; "a" 0 N N, "d" 170 N N, "dd" 172 N N, "o" NONE Y N, "od" 173 Y N, "m" 174 N N, "ld" 175 N N, "l" NONE N N;
    look |x| [x.a(), x.d(), x.dd(), x.o(), x.od(), x.m(), if x.has_ld() { x.ld() } else { NONE }, if x.has_l() { x.l() } else { NONE }];
    first |x| x.l() }
// a function's value
#[fxstruct(serde(default(Self::dflt())), get(copy), set, no_new)]
#[derive(Clone)]
struct D {
    a: u8,
    #[fieldx(default(180))]
    d: u8,
    #[fieldx(serde(default(181)))]
    dd: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(serde(deserialize(off)), default(182))]
    out: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
impl D {
    fn build_l(&self) -> u8 {
        built()
    }
    fn dflt() -> Self {
        let mut d = Self { a: 183, d: 184, dd: 185, o: Some(186), out: 187, l: ::fieldx::OnceCell::new() };
        d.set_l(188);
        d
    }
}
missing! { CD<D>; "a" 183 N N, "d" 184 N N, "dd" 181 N N, "o" 186 Y N, "out" 182 N Y, "l" 188 N N;
    look |x| [x.a(), x.d(), x.dd(), x.o(), x.out(), if x.has_l() { x.l() } else { NONE }];
    first |x| x.l() }
// a path
#[fxstruct(serde("EShadow", default("e_default")), get(copy))]
#[derive(Clone)]
struct E {
    a: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(lazy, predicate, serde("el"))]
    l: u8,
}
impl E {
    fn build_l(&self) -> u8 {
        built()
    }
}
fn e_default() -> EShadow {
    EShadow { a: 193, o: None, l: Some(194) }
}
missing! { CE<E>; "a" 193 N N, "o" NONE Y N, "el" 194 N N;
    look |x| [x.a(), x.o(), if x.has_l() { x.l() } else { NONE }];
    first |x| x.l() }
// an instance
#[fxstruct(serde(default(self::N_DEFAULT)), get(copy), no_new)]
#[derive(Clone)]
struct C {
    a: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(default(197))]
    d: u8,
}
const N_DEFAULT: C = C { a: 195, o: Some(196), d: 198 };
missing! { CC<C>; "a" 195 N N, "o" 196 Y N, "d" 198 N N;
    look |x| [x.a(), x.o(), x.d()] }
// of another type
#[fxstruct(sync, serde("FShadow", default(Self::dflt())), get(copy))]
#[derive(Clone)]
struct F {
    a: u8,
    #[fieldx(lock)]
    k: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
struct Other(u8);
impl From<Other> for FShadow {
    fn from(x: Other) -> Self {
        FShadow { a: x.0, k: x.0 + 1, o: Some(x.0 + 2), l: None }
    }
}
impl F {
    fn build_l(&self) -> u8 {
        built()
    }
    fn dflt() -> Other {
        Other(190)
    }
}
missing! { CF<F>; "a" 190 N N, "k" 191 N N, "o" 192 Y N, "l" NONE N N;
    look |x| [x.a(), x.k(), x.o(), if x.has_l() { x.l() } else { NONE }];
    first |x| x.l() }
// --- sync
#[fxstruct(sync, serde, get(copy))]
#[derive(Clone)]
struct S {
    #[fieldx(lock)]
    a: u8,
    #[fieldx(lock, serde(default(150)), default(151))]
    d: u8,
    #[fieldx(optional, default(152))]
    o: u8,
    #[fieldx(optional, serde(default(153)), rename("ren"))]
    od: u8,
    #[fieldx(serde(deserialize(off)), default(154), lock)]
    out: u8,
    #[fieldx(lazy, predicate, serde(default(155)))]
    ld: u8,
    #[fieldx(lazy, predicate, default(156))]
    l: u8,
}
impl S {
    fn build_ld(&self) -> u8 {
        built()
    }
    fn build_l(&self) -> u8 {
        built()
    }
}
missing! { CS<S>; "a" MUST N N, "d" 150 N N, "o" NONE Y N, "ren" 153 Y N, "out" 154 N Y, "ld" 155 N N, "l" NONE N N;
    look |x| [x.a(), x.d(), x.o(), x.ren(), x.out(), if x.has_ld() { x.ld() } else { NONE }, if x.has_l() { x.l() } else { NONE }];
    first |x| x.l() }
#[fxstruct(sync, serde(default), get(copy))]
#[derive(Clone)]
struct T {
    #[fieldx(lock, default(157))]
    a: u8,
    z: u8,
    #[fieldx(optional, default(158))]
    o: u8,
    #[fieldx(optional, serde(serialize(off)))]
    n: u8,
    #[fieldx(lazy, predicate, default(159), serde(default(160)))]
    ls: u8,
    #[fieldx(lazy, predicate, default(161))]
    l: u8,
}
impl T {
    fn build_ls(&self) -> u8 {
        built()
    }
    fn build_l(&self) -> u8 {
        built()
    }
}
missing! { CT<T>; "a" 157 N N, "z" 0 N N, "o" 158 Y N, "n" NONE Y N, "ls" 160 N N, "l" 161 N N;
    look |x| [x.a(), x.z(), x.o(), x.n(), if x.has_ls() { x.ls() } else { NONE }, if x.has_l() { x.l() } else { NONE }];
    first |x| x.l() }
// no locks, but the kind is given
#[fxstruct(sync, serde, get(copy))]
#[derive(Clone)]
struct V {
    #[fieldx(sync, lock(off), optional)]
    o: u8,
    #[fieldx(sync, lock(off), optional, default(162))]
    od: u8,
    #[fieldx(sync, lock(off), optional, serde(default(163)))]
    os: u8,
    #[fieldx(sync, lock(off), default(164))]
    a: u8,
    #[fieldx(sync, lock(off), default(165), serde(default(166)))]
    d: u8,
}
missing! { CV<V>; "o" NONE Y N, "od" NONE Y N, "os" 163 Y N, "a" MUST N N, "d" 166 N N;
    look |x| [x.o(), x.od(), x.os(), x.a(), x.d()] }
// --- only one direction for the whole struct
#[fxstruct(serde(serialize(off)), get(copy))]
struct I {
    a: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
}
impl I {
    fn build_l(&self) -> u8 {
        built()
    }
}
missing! { CI<I>; "a" MUST N N, "o" NONE Y N, "l" NONE N N;
    look |x| [x.a(), x.o(), if x.has_l() { x.l() } else { NONE }];
    first |x| x.l() }
#[fxstruct(sync, serde(deserialize(off)), get(copy), set)]
#[derive(Clone)]
struct W {
    a: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(lazy, predicate)]
    l: u8,
    #[fieldx(serde(off))]
    off: u8,
}
impl W {
    fn build_l(&self) -> u8 {
        built()
    }
}
// --- async
#[fxstruct(r#async, serde, get(copy))]
#[derive(Clone)]
struct A {
    #[fieldx(lock)]
    a: u8,
    #[fieldx(lock, serde(default(150)), default(151))]
    d: u8,
    #[fieldx(optional, default(152))]
    o: u8,
    #[fieldx(optional, serde(default(153)))]
    od: u8,
}
missing! { CA<A>; "a" MUST N N, "d" 150 N N, "o" NONE Y N, "od" 153 Y N;
    look |x| [run(x.a()), run(x.d()), run(x.o()), run(x.od())] }

harnesses! {
    fn plain [12] { any_subset::<CP>(); }
    fn plain_off [12] { any_subset::<CQ>(); }
    fn plain_struct_default [12] { any_subset::<CR>(); }
    fn plain_struct_function [12] { any_subset::<CD>(); }
    fn plain_struct_path [12] { any_subset::<CE>(); }
    fn plain_struct_instance [12] { any_subset::<CC>(); }
    fn sync_struct_other_type [12] { any_subset::<CF>(); }
    fn sync [12] { any_subset::<CS>(); }
    fn sync_kind [12] { any_subset::<CV>(); }
    fn sync_struct_default [12] { any_subset::<CT>(); }
    fn read_only [12] { any_subset::<CI>(); }
    fn r#async [12] { any_subset::<CA>(); }
    fn write_only [12] {
        let mut o = M::new(W::new());
        let (a, oo, l) = (nd::val(), nd::opt(), nd::opt());
        o.set_a(a);
        if let Some(v) = oo { o.set_o(v); }
        if let Some(v) = l { o.set_l(v); }
        o.set_off(nd::val());
        let w = write(&*o);
        assert!(w.n == 3 && w.key[0] == "a" && w.key[1] == "o" && w.key[2] == "l", "serialisation: the serialised fields and nothing else");
        assert!(w.val[0] == a && w.val[1] == oo.unwrap_or(NULL) && w.val[2] == l.unwrap_or(100), "serialisation: the current values");
    }
}
