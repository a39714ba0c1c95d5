//! C09: builders.
use crate::aio::{run, M};
use crate::lazy::{built, builds, Tok};
use crate::{nd, K};
use fieldx::error::FieldXError;
use fieldx::fxstruct;
use std::rc::Rc;
use std::sync::Arc;

pub const NONE: u8 = 255;
/// the field can't be missing
const FREE: u8 = 254;
/// no default: the builder must have been given a value
const MUST: u8 = 253;
const MAX: usize = 8;
type Vals = [u8; MAX];

trait Built {
    type B;
    type O;
    const NAMES: &'static [&'static str];
    /// MUST, or what the field holds when the builder was not given a value
    const DEF: &'static [u8];
    fn start() -> Self::B;
    fn set(b: Self::B, i: u8, v: u8) -> Self::B;
    fn build(b: &mut Self::B) -> Result<Self::O, FieldXError>;
    fn look(o: Self::O) -> Vals;
}
fn drive<T: Built>(k: usize) {
    let n = T::NAMES.len();
    let mut last = [NONE; MAX];
    let mut given = [false; MAX];
    let mut b = T::start();
    let mut i = 0;
    while i < k {
        let f = nd::below(n as u8);
        let v = nd::val();
        b = T::set(b, f, v);
        last[f as usize] = v;
        given[f as usize] = true;
        i += 1;
    }
    finish::<T>(&mut b, last, given);
}
/// Every field is given a value or not, in the order of the declaration.
fn subsets<T: Built>() {
    let n = T::NAMES.len();
    let mut last = [NONE; MAX];
    let mut given = [false; MAX];
    let mut b = T::start();
    let mut f = 0;
    while f < n {
        if nd::flag() {
            let v = nd::val();
            b = T::set(b, f as u8, v);
            last[f] = v;
            given[f] = true;
        }
        f += 1;
    }
    finish::<T>(&mut b, last, given);
}
fn finish<T: Built>(b: &mut T::B, last: Vals, given: [bool; MAX]) {
    let n = T::NAMES.len();
    let mut missing = FREE;
    let mut f = n;
    while f > 0 {
        f -= 1;
        if T::DEF[f] == MUST && !given[f] {
            missing = f as u8;
        }
    }
    match T::build(b) {
        Ok(o) => {
            assert!(missing == FREE, "builder: builds although a mandatory field was not given");
            assert!(builds() == 0, "builder: runs a lazy builder");
            reach!("builds");
            let r = T::look(o);
            let mut f = 0;
            while f < n {
                assert!(r[f] == if given[f] { last[f] } else { T::DEF[f] }, "builder: each field has its own last value or its default");
                f += 1;
            }
        }
        Err(e) => {
            assert!(missing != FREE, "builder: fails although every mandatory field was given");
            reach!("reports a missing field");
            match &e {
                FieldXError::UninitializedField(s) => {
                    assert!(*s == T::NAMES[missing as usize], "builder: the error names the first missing field");
                }
                _ => panic!("builder: not the missing-field error"),
            }
        }
    }
}
fn c(x: Option<u8>) -> u8 {
    x.unwrap_or(NONE)
}
macro_rules! built {
    ($t:ident<$s:ty, $b:ty, $o:ty>; $($name:literal $def:expr, $setter:ident $conv:expr;)* look |$x:ident| $({ $pre:expr })? [$($look:expr),*]) => {
        struct $t;
        impl Built for $t {
            type B = $b;
            type O = $o;
            const NAMES: &'static [&'static str] = &[$($name),*];
            const DEF: &'static [u8] = &[$($def),*];
            fn start() -> $b { <$s>::builder() }
            fn set(b: $b, i: u8, v: u8) -> $b {
                let mut k = 0;
                $( if i == k { let f: fn($b, u8) -> $b = |b, v| b.$setter(($conv)(v)); return f(b, v); } k += 1; )*
                b
            }
            fn build(b: &mut $b) -> Result<$o, FieldXError> { b.build() }
            #[allow(unused_assignments)]
            fn look(o: $o) -> Vals {
                let mut $x = M::new(o);
                $( $pre; )?
                let mut r = [NONE; MAX];
                let mut k = 0;
                $( r[k] = $look; k += 1; )*
                r
            }
        }
    };
}
fn id(v: u8) -> u8 {
    v
}

// --- plain
#[fxstruct(builder)]
struct P {
    a: u8,
    #[fieldx(builder(into))]
    t: Tok,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(lazy, predicate, get(copy))]
    l: u8,
    #[fieldx(optional, default(201))]
    od: u8,
    #[fieldx(lazy, predicate, get(copy), default(202))]
    ld: u8,
    last: u8,
}
impl P {
    fn build_l(&self) -> u8 {
        built()
    }
    fn build_ld(&self) -> u8 {
        built()
    }
}
built! { CP<P, PBuilder, P>;
    "a" MUST, a id; "t" MUST, t id; "d" 200, d id; "o" NONE, o id; "l" NONE, l id; "od" 201, od id; "ld" 202, ld id; "last" MUST, last id;
    look |x| [x.a, x.t.0, x.d, c(x.o), if x.has_l() { x.l() } else { NONE }, c(x.od), if x.has_ld() { x.ld() } else { NONE }, x.last]
}
// required whatever else is declared; inner mutability
#[fxstruct(builder("with_"))]
struct Q {
    #[fieldx(default(200), builder(required))]
    d: u8,
    #[fieldx(optional, builder(required))]
    o: u8,
    #[fieldx(lazy, predicate, get(copy), builder(required))]
    l: u8,
    #[fieldx(inner_mut, get)]
    m: u8,
    #[fieldx(inner_mut, get, default(203))]
    md: u8,
    #[fieldx(inner_mut, optional, get)]
    mo: u8,
    #[fieldx(inner_mut, optional, get, builder(required, into))]
    mr: Tok,
    #[fieldx(inner_mut, optional, get, default(204), builder("own"))]
    mod_: u8,
}
impl Q {
    fn build_l(&self) -> u8 {
        built()
    }
}
built! { CQ<Q, QBuilder, Q>;
    "d" MUST, with_d id; "o" MUST, with_o id; "l" MUST, with_l id; "m" MUST, with_m id; "md" 203, with_md id; "mo" NONE, with_mo id; "mr" MUST, with_mr id; "mod_" 204, own id;
    look |x| [x.d, c(x.o), if x.has_l() { x.l() } else { NONE }, *x.m(), *x.md(), c(*x.mo()), c(x.mr().as_ref().map(|t| t.0)), c(*x.mod_())]
}
// opt-in, struct-level into, fields the builder does not know, reference counting
#[fxstruct(rc, builder(opt_in, into))]
struct R {
    #[fieldx(builder)]
    t: Tok,
    #[fieldx(builder("num"), default(205))]
    n: u8,
    #[fieldx(default(206))]
    hidden: u8,
    #[fieldx(optional)]
    hidden_opt: u8,
    #[fieldx(lazy, predicate)]
    hidden_lazy: u8,
    #[fieldx(builder, optional)]
    o: Tok,
    zero: u8,
}
impl R {
    fn build_hidden_lazy(&self) -> u8 {
        built()
    }
}
built! { CR<R, RBuilder, Rc<R>>;
    "t" MUST, t id; "n" 205, num id; "o" NONE, o id;
    look |x| { assert!(x.hidden == 206 && x.hidden_opt.is_none() && !x.has_hidden_lazy() && x.zero == 0, "builder: a field it does not set has its default") } [x.t.0, x.n, c(x.o.as_ref().map(|t| t.0))]
}
// generics
#[fxstruct(builder)]
struct G<T: From<u8> + Into<u8> + Copy + Default, const N: u8 = 7> {
    a: T,
    #[fieldx(default(N))]
    n: u8,
    #[fieldx(optional)]
    o: T,
}
built! { CG<G<u8>, GBuilder<u8, 7>, G<u8, 7>>;
    "a" MUST, a id; "n" 7, n id; "o" NONE, o id;
    look |x| [x.a, x.n, c(x.o)]
}

// --- sync
#[fxstruct(sync, builder)]
struct S {
    a: u8,
    #[fieldx(lock, get(copy), builder(into))]
    t: Tok2,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(lock, get(copy), default(201))]
    ld: u8,
    #[fieldx(optional, get(copy))]
    o: u8,
    #[fieldx(optional, get(copy), default(202))]
    od: u8,
    #[fieldx(lazy, get(copy), predicate)]
    l: u8,
    #[fieldx(lazy, get(copy), predicate, default(203))]
    lz: u8,
}
#[derive(Clone, Copy, Default)]
struct Tok2(u8);
impl From<u8> for Tok2 {
    fn from(v: u8) -> Self {
        Tok2(v)
    }
}
impl S {
    fn build_l(&self) -> u8 {
        built()
    }
    fn build_lz(&self) -> u8 {
        built()
    }
}
built! { CS<S, SBuilder, S>;
    "a" MUST, a id; "t" MUST, t id; "d" 200, d id; "ld" 201, ld id; "o" NONE, o id; "od" 202, od id; "l" NONE, l id; "lz" 203, lz id;
    look |x| [x.a, x.t().0, x.d, x.ld(), c(x.o()), c(x.od()), if x.has_l() { x.l() } else { NONE }, if x.has_lz() { x.lz() } else { NONE }]
}
#[fxstruct(sync, builder("with_"))]
struct T {
    #[fieldx(reader, default(200), builder(required))]
    d: u8,
    #[fieldx(optional, get(copy), builder(required))]
    o: u8,
    #[fieldx(lazy, predicate, get(copy), builder(required))]
    l: u8,
    #[fieldx(lock(off), optional, get(copy))]
    bo: u8,
    #[fieldx(lock(off), optional, get(copy), default(204))]
    bd: u8,
    #[fieldx(lock(off), optional, get(clone), builder(required, into))]
    br: Tok,
    #[fieldx(builder("own"), writer, get(clone))]
    w: Tok,
    #[fieldx(inner_mut, get(copy), default(205))]
    im: u8,
}
impl T {
    fn build_l(&self) -> u8 {
        built()
    }
}
built! { CT<T, TBuilder, T>;
    "d" MUST, with_d id; "o" MUST, with_o id; "l" MUST, with_l id; "bo" NONE, with_bo id; "bd" 204, with_bd id; "br" MUST, with_br id; "w" MUST, own Tok; "im" 205, with_im id;
    look |x| [*x.read_d(), c(x.o()), if x.has_l() { x.l() } else { NONE }, c(x.bo()), c(x.bd()), c(x.br().map(|t| t.0)), x.w().0, x.im()]
}
// no locks, but the kind is given
#[fxstruct(sync, builder, get(copy))]
struct V {
    #[fieldx(sync, lock(off))]
    a: u8,
    #[fieldx(sync, lock(off), default(205))]
    d: u8,
    #[fieldx(sync, lock(off), optional)]
    o: u8,
    #[fieldx(sync, lock(off), optional, default(206))]
    od: u8,
    #[fieldx(sync, lock(off), optional, builder(required, into), get(clone))]
    r: Tok,
    #[fieldx(sync, lock(off), default(207), builder(required))]
    dr: u8,
}
built! { CV<V, VBuilder, V>;
    "a" MUST, a id; "d" 205, d id; "o" NONE, o id; "od" 206, od id; "r" MUST, r id; "dr" MUST, dr id;
    look |x| [x.a(), x.d(), c(x.o()), c(x.od()), c(x.r().map(|t| t.0)), x.dr()]
}
#[fxstruct(sync, rc, builder(opt_in, into), default(off))]
struct U {
    #[fieldx(builder, get(clone), lock)]
    t: Tok,
    #[fieldx(builder("num"), default(205))]
    n: u8,
    #[fieldx(lock, get(copy), default(206))]
    hidden: u8,
    #[fieldx(optional, get(copy))]
    hidden_opt: u8,
    #[fieldx(lazy, predicate)]
    hidden_lazy: u8,
    #[fieldx(builder, optional, get(clone))]
    o: Tok,
}
impl U {
    fn build_hidden_lazy(&self) -> u8 {
        built()
    }
}
built! { CU<U, UBuilder, Arc<U>>;
    "t" MUST, t id; "n" 205, num id; "o" NONE, o id;
    look |x| { assert!(x.hidden() == 206 && x.hidden_opt().is_none() && !x.has_hidden_lazy(), "builder: a field it does not set has its default") } [x.t().0, x.n, c(x.o().map(|t| t.0))]
}

// --- async
#[fxstruct(r#async, builder)]
struct A {
    a: u8,
    #[fieldx(lock, get(copy), builder(into))]
    t: Tok2,
    #[fieldx(lock, get(copy), default(201))]
    ld: u8,
    #[fieldx(optional, get(copy))]
    o: u8,
    #[fieldx(optional, get(copy), default(202))]
    od: u8,
    #[fieldx(lazy, predicate, clearer)]
    l: u8,
    #[fieldx(lazy, predicate, clearer, default(203))]
    lz: u8,
    #[fieldx(optional, lock(off), get(copy), builder(required))]
    bo: u8,
}
impl A {
    async fn build_l(&self) -> u8 {
        built()
    }
    async fn build_lz(&self) -> u8 {
        built()
    }
}
built! { CA<A, ABuilder, A>;
    "a" MUST, a id; "t" MUST, t id; "ld" 201, ld id; "o" NONE, o id; "od" 202, od id; "l" NONE, l id; "lz" 203, lz id; "bo" MUST, bo id;
    look |x| [x.a, run(x.t()).0, run(x.ld()), c(run(x.o())), c(run(x.od())), { let h = x.has_l(); let v = c(run(x.clear_l())); assert!(h == (v != NONE)); v }, { let h = x.has_lz(); let v = c(run(x.clear_lz())); assert!(h == (v != NONE)); v }, c(x.bo())]
}

// every field required by the struct
#[fxstruct(builder(required))]
struct AllReq {
    a: u8,
    #[fieldx(default(200))]
    d: u8,
    #[fieldx(optional)]
    o: u8,
    #[fieldx(default(201), builder(required(off)))]
    e: u8,
}
built! { CAll<AllReq, AllReqBuilder, AllReq>;
    "a" MUST, a id; "d" MUST, d id; "o" MUST, o id; "e" 201, e id;
    look |x| [x.a, x.d, c(x.o), x.e]
}

harnesses! {
    fn plain [12] { subsets::<CP>(); }
    fn plain_order [12] { drive::<CP>(K); }
    fn plain_required [12] { subsets::<CQ>(); }
    #[cfg(feature = "thorough")]
    fn plain_required_order [12] { drive::<CQ>(K); }
    fn plain_opt_in [12] { subsets::<CR>(); }
    fn plain_opt_in_order [12] { drive::<CR>(K); }
    fn generic [12] { drive::<CG>(K); }
    fn all_required [12] { subsets::<CAll>(); }
    fn sync [12] { subsets::<CS>(); }
    fn sync_kind [12] { subsets::<CV>(); }
    fn sync_order [12] { drive::<CS>(K); }
    fn sync_required [12] { subsets::<CT>(); }
    fn sync_opt_in [12] { subsets::<CU>(); }
    fn sync_opt_in_order [12] { drive::<CU>(K); }
    fn r#async [12] { subsets::<CA>(); }
}
