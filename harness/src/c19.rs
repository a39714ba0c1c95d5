//! C19: arguments of a field against those of its struct.
//!
//! Methods whose existence is in question are called through method resolution: inherent ones come first, and a
//! trait stands in for the missing ones, so that "there is no such method" is something an execution finds out.
use crate::aio::{run, M};
use crate::cells::{self, history, num, MAX, NONE};
use crate::lazy::{built, builds, Tok};
use crate::{nd, K};
use fieldx::fxstruct;

/// The result of a method which is not there.
#[derive(Clone, Copy)]
struct No([u8; 77]);
const NO: No = No([0; 77]);
fn absent<T>(x: &T) -> bool {
    std::mem::size_of::<T>() == 77
}
macro_rules! stand_ins {
    ($tr:ident for $t:ty: $($name:ident($($a:ident)?);)*) => {
        trait $tr { $( fn $name(&mut self $(, $a: u8)?) -> No { NO } )* }
        impl $tr for $t {}
    };
}
/// the rest of the row is not there
fn row(x: &[u8]) -> [u8; MAX] {
    let mut r = [NONE; MAX];
    let mut i = 0;
    while i < x.len() {
        r[i] = x[i];
        i += 1;
    }
    r
}

// --- lazy, optional, clearer, predicate of a plain struct
#[fxstruct(lazy, get(copy), set, clearer, predicate)]
struct P {
    a: u8,
    #[fieldx(lazy(off))]
    b: u8,
    #[fieldx(lazy(off), clearer(off), predicate(off))]
    c: u8,
    #[fieldx(predicate(off))]
    d: u8,
    #[fieldx(lazy(off), clearer(off))]
    e: u8,
    #[fieldx(lazy(off), predicate(off), optional)]
    f: u8,
    #[fieldx(set(off))]
    g: u8,
}
impl P {
    fn build_a(&self) -> u8 {
        built()
    }
    fn build_d(&self) -> u8 {
        built()
    }
    fn build_g(&self) -> u8 {
        built()
    }
}
stand_ins! { NotP for P: clear_c(); has_c(); has_d(); clear_e(); has_f(); set_g(v); }
cells! { P; |o, v|
    { look if o.has_a() { o.a() } else { NONE }, set o.set_a(v), clear o.clear_a(), has o.has_a() }
    { look o.b(), set o.set_b(v), clear o.clear_b(), has o.has_b() }
    { look o.c(), set o.set_c(v) }
    { look o.e(), set o.set_e(v), has o.has_e() }
    { look o.f(), set o.set_f(v), clear o.clear_f() }
}
// --- optional
#[fxstruct(optional, get(copy), set, clearer)]
struct O {
    a: u8,
    #[fieldx(optional(off), clearer(off))]
    b: u8,
    #[fieldx(clearer(off))]
    c: u8,
    #[fieldx(optional(off), lazy)]
    d: u8,
    #[fieldx(default(200))]
    e: u8,
}
impl O {
    fn build_d(&self) -> u8 {
        built()
    }
}
stand_ins! { NotO for O: clear_b(); clear_c(); has_a(); has_d(); }
cells! { O; |o, v|
    { look o.a(), set o.set_a(v), clear o.clear_a() }
    { look o.b(), set o.set_b(v) }
    { look o.c(), set o.set_c(v) }
    { look o.e(), set o.set_e(v), clear o.clear_e() }
}
// --- locks
#[fxstruct(sync, lock, get, get_mut, set)]
struct L {
    a: u8,
    #[fieldx(lock(off))]
    b: u8,
    #[fieldx(get(copy))]
    c: u8,
    #[fieldx(lock(off), get(copy), get_mut(off))]
    d: u8,
    #[fieldx(lock(off), optional, clearer)]
    e: u8,
    #[fieldx(optional, clearer)]
    f: u8,
}
fn is_guard(_: &parking_lot::RwLockReadGuard<'_, u8>) {}
fn is_guard_opt(_: &parking_lot::RwLockReadGuard<'_, Option<u8>>) {}
stand_ins! { NotL for L: d_mut(); read_a(); write_a(); }
cells! { L; |o, v|
    { look { let g = o.a(); is_guard(&g); *g }, set (&*o).set_a(v), mutate (&*o).a_mut() }
    { look { let r: &u8 = o.b(); *r }, set o.set_b(v), mutate { let r: &mut u8 = o.b_mut(); r } }
    { look o.c(), set (&*o).set_c(v), mutate (&*o).c_mut() }
    { look o.d(), set o.set_d(v) }
    { look { let r: &Option<u8> = o.e(); num(r) }, set o.set_e(v), clear o.clear_e() }
    { look { let g = o.f(); is_guard_opt(&g); num(&*g) }, set (&*o).set_f(v), clear (&*o).clear_f() }
}
// readers and writers make locks, and switching them off leaves the field without
#[fxstruct(sync, reader, writer("put_"), get(copy))]
struct RW {
    a: u8,
    #[fieldx(reader(off), writer(off), get_mut, set)]
    b: u8,
    #[fieldx(reader("peek"), writer(off))]
    c: u8,
    #[fieldx(writer("poke"))]
    d: u8,
    #[fieldx(lazy, set, clearer, predicate)]
    l: u8,
}
impl RW {
    fn build_l(&self) -> u8 {
        built()
    }
}
stand_ins! { NotRW for RW: read_b(); put_b(); put_c(); write_c(); read_c(); put_d(); write_a(); }
cells! { RW; |o, v|
    { look { let r = *o.read_a(); assert!(o.a() == r, "reader and accessor agree"); r }, mutate o.put_a() }
    { look o.b(), set o.set_b(v), mutate { let r: &mut u8 = o.b_mut(); r } }
    { look { let r = *o.peek(); assert!(o.c() == r, "reader and accessor agree"); r } }
    { look { let r = *o.read_d(); assert!(o.d() == r, "reader and accessor agree"); r }, mutate o.poke() }
    { look if o.has_l() { let r = *o.read_l(); assert!(o.l() == r, "reader and accessor agree"); r } else { NONE }, set o.set_l(v), clear o.clear_l(), has o.has_l() }
}

// --- names
#[fxstruct(get("get_", copy), get_mut("edit_"), set("put_"), clearer("wipe_"), predicate("is_"), lazy("make_"), builder("with_"))]
struct N {
    a: u8,
    #[fieldx(rename("bee"))]
    b: u8,
    #[fieldx(get("see", copy), get_mut("edit"), set("put"), clearer("wipe"), predicate("there"), lazy("make"), builder("give"))]
    c: u8,
    #[fieldx(rename("dee"), get("behold", copy), set("replace"), lazy(off), clearer(off), predicate(off), get_mut)]
    d: u8,
}
impl N {
    fn make_a(&self) -> u8 {
        built()
    }
    fn make_bee(&self) -> u8 {
        built()
    }
    fn make(&self) -> u8 {
        built()
    }
}
stand_ins! { NotN for N: a(); set_a(v); clear_a(); has_a(); a_mut(); get_b(); put_b(v); wipe_b();
    is_b(); get_c(); put_c(v); wipe_c(); is_c(); edit_c_mut(); get_dee(); put_dee(v); get_d();
    is_dee(); wipe_dee(); }
cells! { N; |o, v|
    { look if o.is_a() { o.get_a() } else { NONE }, set o.put_a(v), clear o.wipe_a(), has o.is_a() }
    { look if o.is_bee() { o.get_bee() } else { NONE }, set o.put_bee(v), clear o.wipe_bee(), has o.is_bee() }
    { look if o.there() { o.see() } else { NONE }, set o.put(v), clear o.wipe(), has o.there() }
    { look o.behold(), set o.replace(v), mutate o.edit_dee_mut() }
}
#[fxstruct(sync, get("get_", copy), get_mut("edit_"), set("put_"), clearer("wipe_"), predicate("is_"), lazy("make_"), reader("rd_"), writer("wr_"))]
struct NS {
    a: u8,
    #[fieldx(rename("bee"))]
    b: u8,
    #[fieldx(get("see", copy), get_mut("edit"), set("put"), clearer("wipe"), predicate("there"), lazy("make"), reader("rd"), writer("wr"))]
    c: u8,
    #[fieldx(rename("dee"), get("behold", copy), set("replace"), lazy(off), clearer(off), predicate(off))]
    d: u8,
}
impl NS {
    fn make_a(&self) -> u8 {
        built()
    }
    fn make_bee(&self) -> u8 {
        built()
    }
    fn make(&self) -> u8 {
        built()
    }
}
stand_ins! { NotNS for NS: a(); set_a(v); clear_a(); has_a(); read_a(); write_a(); get_b(); rd_b(); wr_b();
    get_c(); rd_c(); wr_c(); read_c(); write_c(); get_dee(); rd_d(); is_dee(); }
cells! { NS; |o, v|
    { look if o.is_a() { let r = *o.rd_a(); assert!(o.get_a() == r); r } else { NONE }, set o.put_a(v), clear o.wipe_a(), has o.is_a() }
    { look if o.is_bee() { let r = *o.rd_bee(); assert!(o.get_bee() == r); r } else { NONE }, set o.wr_bee().store(v), clear o.wipe_bee(), has o.is_bee() }
    { look if o.there() { let r = *o.rd(); assert!(o.see() == r); r } else { NONE }, set o.wr().store(v), clear o.wr().clear(), has o.there() }
    { look { let r = *o.rd_dee(); assert!(o.behold() == r); r }, set o.replace(v), mutate o.wr_dee() }
}

// --- access modes
#[fxstruct(get(copy), set)]
struct C {
    a: u8,
    #[fieldx(get(clone))]
    b: Tok,
    #[fieldx(get(off))]
    c: u8,
    #[fieldx(clone)]
    d: Tok,
    #[fieldx(get("e", clone), set(into))]
    e: Tok,
}
#[fxstruct(get(clone), set(into), builder(into))]
struct C2 {
    a: Tok,
    #[fieldx(get(copy))]
    b: u8,
    #[fieldx(set, copy)]
    c: u8,
    #[fieldx(get(clone), set(into))]
    d: Tok,
}
#[fxstruct(sync, get(copy), lock, set)]
struct CS {
    a: u8,
    #[fieldx(get(clone))]
    b: Tok,
    #[fieldx(get(off), set(off))]
    c: u8,
    #[fieldx(clone, set(into))]
    d: Tok,
}
stand_ins! { NotC for C: c(); }
stand_ins! { NotCS for CS: c(); set_c(v); }
cells! { C; |o, v|
    { look o.a(), set o.set_a(v) }
    { look { let t: Tok = o.b(); num(t) }, set o.set_b(Tok(v)) }
    { look { let t: Tok = o.d(); num(t) }, set o.set_d(Tok(v)) }
    { look { let t: Tok = o.e(); num(t) }, set o.set_e(v) }
}
cells! { C2; |o, v|
    { look { let t: Tok = o.a(); num(t) }, set o.set_a(v) }
    { look o.b(), set o.set_b(v) }
    { look o.c(), set o.set_c(v) }
    { look { let t: Tok = o.d(); num(t) }, set o.set_d(v) }
}
cells! { CS; |o, v|
    { look o.a(), set o.set_a(v) }
    { look { let t: Tok = o.b(); num(t) }, set o.set_b(Tok(v)) }
    { look { let t: Tok = o.d(); num(t) }, set o.set_d(v) }
}

// --- modes
#[fxstruct(mode(plain), get, set)]
struct MP {
    #[fieldx(sync, lazy, clearer, predicate)]
    a: u8,
    #[fieldx(lazy, clearer, predicate)]
    b: u8,
    #[fieldx(lock, get(copy))]
    c: u8,
}
// (an async builder's object must be Sync: no plain lazy beside)
#[fxstruct(mode(plain), get, set)]
struct MQ {
    #[fieldx(mode(async), lazy, clearer, predicate)]
    a: u8,
    b: u8,
    #[fieldx(sync, lazy, clearer, predicate)]
    c: u8,
}
impl MQ {
    async fn build_a(&self) -> u8 {
        built()
    }
    fn build_c(&self) -> u8 {
        built()
    }
}
impl MP {
    fn build_a(&self) -> u8 {
        built()
    }
    fn build_b(&self) -> u8 {
        built()
    }
}
#[fxstruct(mode(sync), get, set)]
struct MS {
    #[fieldx(mode(plain), lazy, clearer, predicate)]
    a: u8,
    #[fieldx(lazy, clearer, predicate)]
    b: u8,
    #[fieldx(inner_mut, get_mut)]
    c: u8,
}
impl MS {
    fn build_a(&self) -> u8 {
        built()
    }
    fn build_b(&self) -> u8 {
        built()
    }
}
#[fxstruct(mode(async), get, set)]
struct MA {
    #[fieldx(mode(sync), lazy, clearer, predicate)]
    a: u8,
    #[fieldx(lazy, clearer, predicate)]
    b: u8,
    #[fieldx(mode(plain), optional, get(copy), clearer, predicate)]
    c: u8,
}
impl MA {
    fn build_a(&self) -> u8 {
        built()
    }
    async fn build_b(&self) -> u8 {
        built()
    }
}
fn is_sync_lazy(g: &parking_lot::MappedRwLockReadGuard<'_, u8>) -> u8 {
    **g
}
fn is_async_lazy(g: &tokio::sync::RwLockReadGuard<'_, u8>) -> u8 {
    **g
}
fn is_plain_lazy(g: &u8) -> u8 {
    *g
}
cells! { MP; |o, v|
    { look if o.has_a() { is_sync_lazy(&o.a()) } else { NONE }, set (&*o).set_a(v), clear (&*o).clear_a(), has o.has_a() }
    { look if o.has_b() { is_plain_lazy(o.b()) } else { NONE }, set o.set_b(v), clear o.clear_b(), has o.has_b() }
    { look o.c(), set (&*o).set_c(v) }
}
cells! { MQ; |o, v|
    { look if o.has_a() { is_async_lazy(&run(o.a())) } else { NONE }, set run((&*o).set_a(v)), clear run((&*o).clear_a()), has o.has_a() }
    { look is_plain_lazy(o.b()), set o.set_b(v) }
    { look if o.has_c() { is_sync_lazy(&o.c()) } else { NONE }, set (&*o).set_c(v), clear (&*o).clear_c(), has o.has_c() }
}
cells! { MS; |o, v|
    { look if o.has_a() { is_plain_lazy(o.a()) } else { NONE }, set o.set_a(v), clear o.clear_a(), has o.has_a() }
    { look if o.has_b() { is_sync_lazy(&o.b()) } else { NONE }, set (&*o).set_b(v), clear (&*o).clear_b(), has o.has_b() }
    { look { let r = *o.c(); r }, set (&*o).set_c(v), mutate (&*o).c_mut() }
}
cells! { MA; |o, v|
    { look if o.has_a() { is_sync_lazy(&o.a()) } else { NONE }, set (&*o).set_a(v), clear (&*o).clear_a(), has o.has_a() }
    { look if o.has_b() { is_async_lazy(&run(o.b())) } else { NONE }, set run((&*o).set_b(v)), clear run((&*o).clear_b()), has o.has_b() }
    { look o.c(), set o.set_c(v), clear o.clear_c(), has o.has_c() }
}

// --- inner mutability
#[fxstruct(inner_mut, get(copy), get_mut, set)]
struct I {
    a: u8,
    #[fieldx(inner_mut(off))]
    b: u8,
    #[fieldx(optional, clearer)]
    c: u8,
    #[fieldx(inner_mut(off), optional, clearer)]
    d: u8,
}
cells! { I; |o, v|
    { look o.a(), set (&*o).set_a(v), mutate (&*o).a_mut() }
    { look o.b(), set o.set_b(v), mutate { let r: &mut u8 = o.b_mut(); r } }
    { look o.c(), set (&*o).set_c(v), mutate (&*o).c_mut(), clear (&*o).clear_c() }
    { look o.d(), set o.set_d(v), mutate { let r: &mut Option<u8> = o.d_mut(); r }, clear o.clear_d() }
}

// --- builders
// where there is no conversion, the argument's type follows from the field
#[fxstruct(set(into), get, builder(into))]
struct NI {
    #[fieldx(into(off))]
    a: Tok,
    b: Tok,
    #[fieldx(into(off), set(into))]
    c: Tok,
    #[fieldx(into(off), builder(into))]
    d: Tok,
    #[fieldx(into(off), lazy)]
    e: Tok,
}
impl NI {
    fn build_e(&self) -> Tok {
        Tok(100)
    }
}
#[fxstruct(into, set, get, builder)]
struct NJ {
    #[fieldx(into(off))]
    a: Tok,
    b: Tok,
    #[fieldx(into(off), set(into))]
    c: Tok,
    #[fieldx(into(off), builder(into))]
    d: Tok,
}
fn inferred<T: From<Tok>>(v: u8) -> T {
    Tok(v).into()
}
#[fxstruct(builder("with_", into), get)]
struct B {
    a: Tok,
    #[fieldx(builder("give"))]
    b: Tok,
    #[fieldx(builder(off), default(Tok(200)))]
    c: Tok,
    #[fieldx(builder(required), optional)]
    d: Tok,
    #[fieldx(rename("eee"), default(Tok(201)))]
    e: Tok,
}
#[fxstruct(builder(opt_in), get)]
struct BO {
    #[fieldx(builder)]
    a: u8,
    #[fieldx(default(200))]
    b: u8,
    #[fieldx(builder("give", into), default(Tok(201)))]
    c: Tok,
}
type BB = BBuilder;
type BOB = BOBuilder;
trait NotB: Sized {
    fn with_c(self, v: u8) -> No {
        NO
    }
    fn c(self, v: u8) -> No {
        NO
    }
    fn with_b(self, v: u8) -> No {
        NO
    }
    fn with_e(self, v: u8) -> No {
        NO
    }
    fn b(self, v: u8) -> No {
        NO
    }
}
// by value, as the setters are
impl NotB for BB {}
impl NotB for BOB {}

// --- fallible
#[derive(Debug, PartialEq, Clone, Copy)]
struct E1(u8);
#[derive(Debug, PartialEq, Clone, Copy)]
struct E2(u8);
#[fxstruct(lazy, fallible(error(E1)), get, clearer, predicate)]
struct FL {
    a: u8,
    #[fieldx(fallible(error(E2)))]
    b: u8,
    #[fieldx(fallible(off))]
    c: u8,
    #[fieldx(lazy(off), clearer(off), predicate(off))]
    d: u8,
}
static mut FAIL: u8 = 255;
fn fail() -> Option<u8> {
    unsafe { if FAIL == 255 { None } else { Some(FAIL) } }
}
impl FL {
    fn build_a(&self) -> Result<u8, E1> {
        match fail() { Some(e) => Err(E1(e)), None => Ok(built()) }
    }
    fn build_b(&self) -> Result<u8, E2> {
        match fail() { Some(e) => Err(E2(e)), None => Ok(built()) }
    }
    fn build_c(&self) -> u8 {
        built()
    }
}
#[fxstruct(sync, fallible(off, error(E1)), get, clearer, predicate)]
struct FS {
    #[fieldx(lazy, fallible)]
    a: u8,
    #[fieldx(lazy)]
    b: u8,
    #[fieldx(lazy, fallible(error(E2)))]
    c: u8,
}
impl FS {
    fn build_a(&self) -> Result<u8, E1> {
        match fail() { Some(e) => Err(E1(e)), None => Ok(built()) }
    }
    fn build_b(&self) -> u8 {
        built()
    }
    fn build_c(&self) -> Result<u8, E2> {
        match fail() { Some(e) => Err(E2(e)), None => Ok(built()) }
    }
}

// --- visibility, seen from outside of the module
mod inside {
    use super::{built, Tok};
    use fieldx::fxstruct;
    #[fxstruct(get(copy, public), set(private), clearer(public(super)), predicate, builder(public(crate)))]
    pub struct V {
        a: u8,
        #[fieldx(get(copy, private), set(public))]
        b: u8,
        #[fieldx(private, clearer(off), predicate(off), set(public(crate)))]
        c: u8,
    }
    impl V {
        pub fn c_inside(&self) -> u8 {
            self.c()
        }
        pub fn b_inside(&self) -> Option<u8> {
            self.b()
        }
    }
    #[fxstruct(private, get(copy), set(public))]
    pub struct W {
        a: u8,
        #[fieldx(public)]
        b: u8,
    }
}
use inside::{V, W};
// what is not restricted is as visible as the struct
mod open {
    use super::{built, Tok};
    use fieldx::fxstruct;
    #[fxstruct(rc(public), get(copy), get_mut, set, builder, clearer, predicate)]
    pub struct OP {
        #[fieldx(lazy)]
        l: u8,
        o: u8,
        #[fieldx(optional(off), clearer(off), predicate(off))]
        p: u8,
        #[fieldx(inner_mut)]
        m: u8,
        #[fieldx(clearer(off), predicate(off), get, optional(off))]
        pub f: u8,
    }
    impl OP {
        fn build_l(&self) -> u8 {
            built()
        }
    }
    #[fxstruct(sync, get(copy), get_mut, set, builder, reader, writer)]
    pub struct OS {
        #[fieldx(lazy, clearer, predicate)]
        l: u8,
        #[fieldx(clearer, predicate)]
        o: u8,
        p: u8,
        #[fieldx(lock(off), reader(off), writer(off))]
        b: u8,
        #[fieldx(sync, lock(off), reader(off), writer(off), clearer, predicate)]
        c: u8,
        #[fieldx(get(clone))]
        t: Tok,
        #[fieldx(get)]
        r: u8,
    }
    impl OS {
        fn build_l(&self) -> u8 {
            built()
        }
    }
    #[fxstruct(r#async, get(copy), get_mut, set, builder, reader, writer)]
    pub struct OA {
        #[fieldx(lazy, clearer, predicate)]
        l: u8,
        #[fieldx(clearer, predicate)]
        o: u8,
        p: u8,
    }
    impl OA {
        async fn build_l(&self) -> u8 {
            built()
        }
    }
    // and what is restricted is not
    #[fxstruct(private, get(copy), get_mut, set, clearer, predicate)]
    pub struct HP {
        #[fieldx(lazy)]
        l: u8,
        o: u8,
        #[fieldx(inner_mut)]
        m: u8,
    }
    impl HP {
        fn build_l(&self) -> u8 {
            built()
        }
    }
    #[fxstruct(sync, private, get(copy), get_mut, set, clearer, predicate, reader, writer)]
    pub struct HS {
        #[fieldx(lazy)]
        l: u8,
        o: u8,
        #[fieldx(sync, lock(off), reader(off), writer(off))]
        b: u8,
    }
    impl HS {
        fn build_l(&self) -> u8 {
            built()
        }
    }
    pub fn hp() -> HP {
        HP::new()
    }
    pub fn hs() -> HS {
        HS::new()
    }
}
use open::{HP, HS, OA, OP, OS};
// --- structs without a builder
#[fxstruct(get(copy))]
struct KP {
    #[fieldx(builder(off))]
    a: u8,
}
#[fxstruct(sync, builder(off))]
struct KS {
    #[fieldx(get(copy), builder)]
    a: u8,
}
trait NoBuilder {
    fn builder() -> No {
        NO
    }
}
impl NoBuilder for KP {}
impl NoBuilder for KS {}

stand_ins! { NotHP for HP: l(); o(); m(); l_mut(); o_mut(); m_mut(); set_l(v); set_o(v); set_m(v); clear_l(); clear_o(); clear_m(); has_l(); has_o(); has_m(); }
stand_ins! { NotHS for HS: l(); o(); b(); l_mut(); o_mut(); b_mut(); set_l(v); set_o(v); set_b(v); clear_l(); clear_o(); clear_b(); has_l(); has_o(); has_b();
    read_l(); read_o(); write_l(); write_o(); }
stand_ins! { NotV for V: set_a(v); b(); c(); }
stand_ins! { NotW for W: a(); }

harnesses! {
    fn plain [10] { history(&mut *M::new(P::new()), row(&[NONE, NONE, 0, NONE, NONE]), 3); assert!(builds() == 0, "override: nothing else is built"); }
    fn plain_off [10] {
        let mut o = M::new(P::new());
        assert!(absent(&o.clear_c()) && absent(&o.has_c()) && absent(&o.has_d()) && absent(&o.clear_e()) && absent(&o.has_f()) && absent(&o.set_g(1)),
            "names: a method which was switched off is there");
        assert!(o.b().is_none() && o.e().is_none() && o.f().is_none() && o.c() == 0 && builds() == 0, "override: a field which is not lazy is not built");
        assert!(o.d() == 100 && o.a() == 101 && o.g() == 102 && o.d() == 100, "override: the other fields are lazy");
        assert!(o.clear_d() == Some(100) && o.d() == 103, "override: a lazy field without a predicate");
        assert!(o.clear_g() == Some(102) && !o.has_g() && o.has_a(), "override: a lazy field without a setter");
    }
    fn optional [10] { history(&mut *M::new(O::new()), row(&[NONE, 0, NONE, 200]), 3) }
    fn optional_off [10] {
        let mut o = M::new(O::new());
        assert!(absent(&o.clear_b()) && absent(&o.clear_c()) && absent(&o.has_a()) && absent(&o.has_d()), "names: a method which was switched off is there");
        let v: u8 = o.b();
        assert!(v == 0 && builds() == 0 && o.d() == 100 && o.d() == 100 && o.clear_d() == Some(100) && o.d() == 101, "override: not optional but lazy");
    }
    fn locks [10] {
        let mut o = M::new(L::new());
        assert!(absent(&o.d_mut()) && absent(&o.read_a()) && absent(&o.write_a()), "names: a method which was not asked for is there");
        history(&mut *o, row(&[0, 0, 0, 0, NONE, NONE]), 2)
    }
    fn readers [10] {
        let mut o = M::new(RW::new());
        assert!(absent(&o.read_b()) && absent(&o.put_b()) && absent(&o.put_c()) && absent(&o.write_c()) && absent(&o.read_c()) && absent(&o.put_d())
            && absent(&o.write_a()), "names: a method which was switched off or named otherwise is there");
        history(&mut *o, row(&[0, 0, 0, 0, NONE]), 2)
    }
    fn names [10] {
        let mut o = M::new(N::builder().with_dee(1).build().ok().unwrap());
        assert!(absent(&o.a()) && absent(&o.set_a(1)) && absent(&o.clear_a()) && absent(&o.has_a()) && absent(&o.a_mut()) && absent(&o.get_b())
            && absent(&o.put_b(1)) && absent(&o.wipe_b()) && absent(&o.is_b()) && absent(&o.get_c()) && absent(&o.put_c(1)) && absent(&o.wipe_c())
            && absent(&o.is_c()) && absent(&o.edit_c_mut()) && absent(&o.get_dee()) && absent(&o.put_dee(1)) && absent(&o.get_d())
            && absent(&o.is_dee()) && absent(&o.wipe_dee()), "names: a method has another name than it was given");
        history(&mut *o, row(&[NONE, NONE, NONE, 1]), 2);
    }
    fn names_mut [10] {
        let mut o = M::new(N::builder().with_a(1).with_bee(2).give(3).with_dee(4).build().ok().unwrap());
        let v = nd::val();
        let i = nd::below(4);
        let p = match i { 0 => o.edit_a_mut(), 1 => o.edit_bee_mut(), 2 => o.edit(), _ => o.edit_dee_mut() };
        assert!(*p == i + 1, "names: the builder's setters and the mutable accessors are each field's");
        *p = v;
        let s = |k: u8, w: u8| if i == k { v } else { w };
        assert!(o.get_a() == s(0, 1) && o.get_bee() == s(1, 2) && o.see() == s(2, 3) && o.behold() == s(3, 4), "names: a mutable accessor is its own field's");
        o.wipe_a(); o.wipe_bee(); o.wipe();
        assert!(o.get_bee() == 100 && o.see() == 101 && o.get_a() == 102, "names: the lazy builders are found");
    }
    fn names_sync [10] {
        let mut o = M::new(NS::new());
        assert!(absent(&o.a()) && absent(&o.set_a(1)) && absent(&o.clear_a()) && absent(&o.has_a()) && absent(&o.read_a()) && absent(&o.write_a())
            && absent(&o.get_b()) && absent(&o.rd_b()) && absent(&o.wr_b()) && absent(&o.get_c()) && absent(&o.rd_c()) && absent(&o.wr_c())
            && absent(&o.read_c()) && absent(&o.write_c()) && absent(&o.get_dee()) && absent(&o.rd_d()) && absent(&o.is_dee()),
            "names: a method has another name than it was given");
        history(&mut *o, row(&[NONE, NONE, NONE, 0]), 1);
    }
    fn names_sync_mut [10] {
        let o = M::new(NS::new());
        assert!(o.get_bee() == 100 && o.see() == 101 && o.get_a() == 102, "names: the lazy builders are found");
        let v = nd::val();
        let i = nd::below(3);
        match i { 0 => *o.edit_a_mut() = v, 1 => *o.edit_bee_mut() = v, _ => *o.edit() = v };
        let s = |k: u8, w: u8| if i == k { v } else { w };
        assert!(o.get_bee() == s(1, 100) && o.see() == s(2, 101) && o.get_a() == s(0, 102), "names: a mutable accessor is its own field's");
    }
    fn access [10] { let mut o = M::new(C::new()); assert!(absent(&o.c()), "names: a method which was switched off is there"); history(&mut *o, row(&[0, 0, 0, 0]), 3); o.set_c(1); }
    fn access_into [10] {
        let mut o = M::new(C2::builder().a(1).b(2).c(3).d(4).build().ok().unwrap());
        history(&mut *o, row(&[1, 2, 3, 4]), 3)
    }
    fn access_sync [10] { let mut o = M::new(CS::new()); assert!(absent(&o.c()) && absent(&o.set_c(1)), "names: a method which was switched off is there"); history(&mut *o, row(&[0, 0, 0]), 2) }
    fn modes_plain [10] { history(&mut *M::new(MP::new()), row(&[NONE, NONE, 0]), 2); assert!(builds() == 0, "override: nothing is built"); }
    fn modes_mixed [10] { history(&mut *M::new(MQ::new()), row(&[NONE, 0, NONE]), 1); assert!(builds() == 0, "override: nothing is built"); }
    fn modes_sync [10] { history(&mut *M::new(MS::new()), row(&[NONE, NONE, 0]), 2); assert!(builds() == 0, "override: nothing is built"); }
    fn modes_async [10] { history(&mut *M::new(MA::new()), row(&[NONE, NONE, NONE]), 1); assert!(builds() == 0, "override: nothing is built"); }
    fn modes_build [10] {
        let (p, q, s, a) = (M::new(MP::new()), M::new(MQ::new()), M::new(MS::new()), M::new(MA::new()));
        assert!(*p.a() == 100 && *p.b() == 101 && *run(q.a()) == 102 && *s.a() == 103 && *s.b() == 104 && *a.a() == 105 && *run(a.b()) == 106, "override: each field's lazy builder");
        assert!(*p.a() == 100 && *p.b() == 101 && *run(q.a()) == 102 && *s.a() == 103 && *s.b() == 104 && *a.a() == 105 && *run(a.b()) == 106, "override: each field's value is kept");
        assert!(builds() == 7, "override: each lazy is built once");
    }
    fn inner [10] { history(&mut *M::new(I::new()), row(&[0, 0, NONE, NONE]), 3) }
    fn builders [10] {
        let (v, w, x) = (nd::val(), nd::val(), nd::val());
        let mut b = B::builder();
        assert!(absent(&B::builder().with_c(1)) && absent(&B::builder().with_b(1)) && absent(&B::builder().c(1)) && absent(&B::builder().with_e(1)) && absent(&B::builder().b(1)),
            "names: a builder's setter has another name or was switched off");
        let (ga, gb, gd, ge) = (nd::flag(), nd::flag(), nd::flag(), nd::flag());
        if ga { b = b.with_a(v); }
        if gb { b = b.give(w); }
        if gd { b = b.with_d(x); }
        if ge { b = b.with_eee(v); }
        match b.build() {
            Ok(o) => {
                assert!(ga && gb && gd, "override: what the field requires is asked for");
                assert!(o.a().0 == v && o.b().0 == w && o.c().0 == 200 && num(o.d()) == x && o.eee().0 == if ge { v } else { 201 }, "override: each field has its own value");
                std::mem::forget(o);
            }
            Err(e) => {
                assert!(!(ga && gb && gd), "override: nothing else is required");
                std::mem::forget(e);
            }
        }
        std::mem::forget(b);
    }
    fn builders_opt_in [10] {
        let (v, w) = (nd::val(), nd::val());
        let mut b = BO::builder();
        assert!(absent(&BO::builder().b(1)) && absent(&BO::builder().c(1)), "names: a builder's setter has another name or was not asked for");
        let (ga, gc) = (nd::flag(), nd::flag());
        if ga { b = b.a(v); }
        if gc { b = b.give(w); }
        match b.build() {
            Ok(o) => {
                assert!(ga && *o.a() == v && *o.b() == 200 && o.c().0 == if gc { w } else { 201 }, "override: each field has its own value");
                std::mem::forget(o);
            }
            Err(e) => {
                assert!(!ga, "override: nothing else is required");
                std::mem::forget(e);
            }
        }
        std::mem::forget(b);
    }
    fn into_off [10] {
        let (v, w, x, y) = (nd::val(), nd::val(), nd::val(), nd::val());
        match NI::builder().a(inferred(v)).b(w).c(inferred(x)).d(y).build() {
            Ok(o) => {
                let mut o = M::new(o);
                assert!(o.a().0 == v && o.b().0 == w && o.c().0 == x && o.d().0 == y && o.e().0 == 100, "override: each field has its own value");
                assert!(o.set_a(inferred(w)).0 == v && o.set_b(x).0 == w && o.set_c(y).0 == x && o.set_d(inferred(v)).0 == y, "setter: returns the previous value");
                assert!(num(o.set_e(inferred(v))) == 100 && o.a().0 == w && o.b().0 == x && o.c().0 == y && o.d().0 == v && o.e().0 == v, "override: each field has its own value");
            }
            Err(e) => { std::mem::forget(e); panic!("builds") }
        }
    }
    fn into_off_struct [10] {
        let (v, w, x, y) = (nd::val(), nd::val(), nd::val(), nd::val());
        match NJ::builder().a(inferred(v)).b(w).c(inferred(x)).d(y).build() {
            Ok(o) => {
                let mut o = M::new(o);
                assert!(o.a().0 == v && o.b().0 == w && o.c().0 == x && o.d().0 == y, "override: each field has its own value");
                assert!(o.set_a(inferred(w)).0 == v && o.set_b(x).0 == w && o.set_c(y).0 == x && o.set_d(inferred(v)).0 == y, "setter: returns the previous value");
                assert!(o.a().0 == w && o.b().0 == x && o.c().0 == y && o.d().0 == v, "override: each field has its own value");
            }
            Err(e) => { std::mem::forget(e); panic!("builds") }
        }
    }
    fn fallible [10] {
        let mut o = M::new(FL::new());
        let e = nd::val();
        unsafe { FAIL = e };
        assert!(o.a() == Err(E1(e)) && o.b() == Err(E2(e)) && !o.has_a() && !o.has_b(), "override: each field has its own error type");
        assert!(*o.c() == 100 && *o.d() == 0, "override: the field is not fallible");
        unsafe { FAIL = 255 };
        assert!(o.b() == Ok(&101) && o.a() == Ok(&102) && o.clear_c() == Some(100) && *o.c() == 103, "override: each field is built");
    }
    fn fallible_sync [10] {
        let o = M::new(FS::new());
        let e = nd::val();
        unsafe { FAIL = e };
        assert!(o.a().err() == Some(E1(e)) && o.c().err() == Some(E2(e)) && !o.has_a() && !o.has_c(), "override: each field has its own error type");
        assert!(*o.b() == 100, "override: the field is not fallible");
        unsafe { FAIL = 255 };
        assert!(o.c().map(|x| *x) == Ok(101) && o.a().map(|x| *x) == Ok(102) && o.clear_b() == Some(100) && *o.b() == 101 + 2, "override: each field is built");
    }
    fn visible [10] {
        let (v, w) = (nd::val(), nd::val());
        let r = OP::builder().l(v).o(v).p(v).m(v).f(v).build().ok().unwrap();
        assert!(r.l() == v && r.o() == Some(v) && r.p() == v && r.m() == Some(v) && r.f() == v && r.f == v && r.has_l() && r.has_o() && r.has_m(), "names: public methods are each field's");
        assert!(r.set_m(w) == Some(v) && r.clear_m() == Some(w), "names: public methods are each field's");
        assert!(r.myself().map(|m| std::rc::Rc::ptr_eq(&m, &r)) == Some(true) && r.myself_downgrade().upgrade().is_some(), "names: public methods are the object's");
        let mut r = r;
        assert!(std::rc::Rc::get_mut(&mut r).is_none(), "names: the object refers to itself");
        std::mem::forget(r);
    }
    fn visible_sync [10] {
        let (v, w) = (nd::val(), nd::val());
        let mut o = M::new(OS::builder().l(v).o(v).p(v).b(v).c(v).t(Tok(v)).r(v).build().ok().unwrap());
        assert!(o.l() == v && o.o() == Some(v) && o.p() == v && o.b() == v && o.c() == Some(v) && o.t().0 == v && o.r() == v && o.has_l() && o.has_o() && o.has_c(), "names: public methods are each field's");
        assert!(*o.read_l() == v && *o.read_o() == Some(v) && *o.read_p() == v && o.read_t().0 == v && *o.read_r() == v, "names: public methods are each field's");
        *o.l_mut() = w; *o.o_mut() = Some(w); *o.p_mut() = w; *o.b_mut() = w; *o.c_mut() = Some(w); o.t_mut().0 = w; *o.r_mut() = w;
        assert!(o.write_l().store(v) == Some(w) && o.write_o().replace(v) == Some(w) && *o.write_p() == w && o.write_t().0 == w && *o.write_r() == w, "names: public methods are each field's");
        assert!(o.set_l(w) == Some(v) && o.set_o(w) == Some(v) && o.set_p(v) == w && o.set_b(v) == w && o.set_c(v) == Some(w) && o.set_t(Tok(v)).0 == w && o.set_r(v) == w, "names: public methods are each field's");
        assert!(o.clear_l() == Some(w) && o.clear_o() == Some(w) && o.clear_c() == Some(v), "names: public methods are each field's");
        let n = M::new(OS::new());
        assert!(!n.has_l() && n.o().is_none() && n.p() == 0, "names: new() is public");
    }
    fn visible_async [10] {
        let (v, w) = (nd::val(), nd::val());
        let o = M::new(OA::builder().l(v).o(v).p(v).build().ok().unwrap());
        assert!(run(o.l()) == v && run(o.o()) == Some(v) && run(o.p()) == v && o.has_l() && run(o.has_o()), "names: public methods are each field's");
        assert!(*run(o.read_l()) == v && *run(o.read_o()) == Some(v) && *run(o.read_p()) == v, "names: public methods are each field's");
        *run(o.l_mut()) = w; *run(o.o_mut()) = Some(w); *run(o.p_mut()) = w;
        assert!(run(o.write_l()).store(v) == Some(w) && run(o.write_o()).replace(v) == Some(w) && *run(o.write_p()) == w, "names: public methods are each field's");
        assert!(run(o.set_l(w)) == Some(v) && run(o.set_o(w)) == Some(v) && run(o.set_p(v)) == w, "names: public methods are each field's");
        assert!(run(o.clear_l()) == Some(w) && run(o.clear_o()) == Some(w), "names: public methods are each field's");
    }
    fn hidden [10] {
        let mut o = M::new(open::hp());
        assert!(absent(&o.l()) && absent(&o.o()) && absent(&o.m()) && absent(&o.l_mut()) && absent(&o.o_mut()) && absent(&o.m_mut()) && absent(&o.set_l(1))
            && absent(&o.set_o(1)) && absent(&o.set_m(1)) && absent(&o.clear_l()) && absent(&o.clear_o()) && absent(&o.clear_m()) && absent(&o.has_l())
            && absent(&o.has_o()) && absent(&o.has_m()), "names: a private method is seen from outside");
        let mut o = M::new(open::hs());
        assert!(absent(&o.l()) && absent(&o.o()) && absent(&o.b()) && absent(&o.l_mut()) && absent(&o.o_mut()) && absent(&o.b_mut()) && absent(&o.set_l(1))
            && absent(&o.set_o(1)) && absent(&o.set_b(1)) && absent(&o.clear_l()) && absent(&o.clear_o()) && absent(&o.clear_b()) && absent(&o.has_l())
            && absent(&o.has_o()) && absent(&o.has_b()) && absent(&o.read_l()) && absent(&o.read_o()) && absent(&o.write_l()) && absent(&o.write_o()),
            "names: a private method is seen from outside");
    }
    fn no_builder [10] {
        let (p, s) = (M::new(KP::new()), M::new(KS::new()));
        assert!(absent(&KP::builder()) && absent(&KS::builder()) && p.a() == 0 && s.a() == 0, "names: there is a builder which was switched off");
    }
    fn visibility [10] {
        let v = nd::val();
        let mut o = M::new(V::builder().a(v).b(v).c(v).build().ok().unwrap());
        assert!(absent(&o.set_a(1)) && absent(&o.b()) && absent(&o.c()), "names: a private method is seen from outside");
        let w = nd::val();
        assert!(o.set_b(w) == Some(v) && o.b_inside() == Some(w) && o.set_c(w) == v && o.c_inside() == w && o.a() == Some(v) && o.has_a() && o.clear_a() == Some(v), "names: public methods are each field's");
        let mut x = M::new(W::new());
        assert!(absent(&x.a()), "names: a private method is seen from outside");
        x.set_a(v);
        assert!(x.set_a(w) == v && x.set_b(w) == 0 && x.b() == w, "names: public methods are each field's");
    }
}
