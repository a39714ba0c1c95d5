//! C12: accessors and setters act on exactly their own field, in every mode.
use crate::aio::{run, M};
use crate::cells::{self, history, num, Num, NONE};
use crate::lazy::{built, builds, Tok};
use crate::{nd, K};
use fieldx::fxstruct;

fn start(n: usize) -> [u8; cells::MAX] {
    let mut r = [NONE; cells::MAX];
    let mut i = 0;
    while i < n {
        r[i] = nd::val();
        i += 1;
    }
    r
}
impl Num for Copied {
    fn num(&self) -> u8 {
        self.0
    }
}
impl cells::Put for Copied {
    fn put(&mut self, v: u8) {
        self.0 = v
    }
}
#[derive(Clone, Copy)]
pub struct Copied(u8);
impl From<u8> for Copied {
    fn from(v: u8) -> Self {
        Copied(v)
    }
}

// --- plain
#[fxstruct(get, get_mut, set, no_new)]
struct P {
    a: u8,
    #[fieldx(get(copy))]
    b: u8,
    #[fieldx(get(clone), set(into))]
    t: Tok,
    #[fieldx(get(copy), set("put_it", into), get_mut("edit"))]
    c: Copied,
    #[fieldx(get("see"))]
    x: Tok,
    u: Tok,
}
cells! { P; |o, v|
    { look *o.a(), set o.set_a(v), mutate o.a_mut() }
    { look o.b(), set o.set_b(v), mutate o.b_mut() }
    { look o.t(), set o.set_t(v), mutate o.t_mut() }
    { look o.c(), set o.put_it(v), mutate o.edit() }
    { look o.see(), set o.set_x(Tok(v)), mutate o.x_mut() }
    { look o.u(), set o.set_u(Tok(v)), mutate o.u_mut() }
}
#[fxstruct(get, get_mut, set(into), no_new)]
struct Q {
    #[fieldx(optional)]
    a: Tok,
    #[fieldx(optional, get(copy), clearer, predicate)]
    b: u8,
    #[fieldx(optional, get(clone), clearer)]
    c: Tok,
    #[fieldx(optional, get(as_ref), predicate, clearer("wipe"))]
    d: Tok,
    #[fieldx(get(clone), get_mut(off))]
    e: Tok,
    #[fieldx(set("replace_f", off))]
    f: u8,
}
cells! { Q; |o, v|
    { look o.a(), set o.set_a(v), mutate o.a_mut() }
    { look o.b(), set o.set_b(v), mutate o.b_mut(), clear o.clear_b(), has o.has_b() }
    { look o.c(), set o.set_c(v), mutate o.c_mut(), clear o.clear_c() }
    { look o.d(), set o.set_d(v), mutate o.d_mut(), clear o.wipe(), has o.has_d() }
    { look o.e(), set o.set_e(v) }
    { look o.f(), mutate o.f_mut() }
}
// the fields of a lazy struct with other fields
#[fxstruct(lazy, get, set, get_mut)]
struct L {
    a: Tok,
    #[fieldx(get(copy), clearer, predicate)]
    b: u8,
    #[fieldx(get(clone), set(into))]
    c: Tok,
    #[fieldx(lazy(off))]
    d: u8,
}
impl L {
    fn build_a(&self) -> Tok {
        Tok(built())
    }
    fn build_b(&self) -> u8 {
        built()
    }
    fn build_c(&self) -> Tok {
        Tok(built())
    }
}
cells! { L; |o, v|
    { look o.a(), set o.set_a(Tok(v)), mutate o.a_mut() }
    { look o.b(), set o.set_b(v), mutate o.b_mut() }
    { look o.c(), set o.set_c(v), mutate o.c_mut() }
    { look o.d(), set o.set_d(v), mutate o.d_mut() }
}
// generics and lifetimes
#[fxstruct(get, set, get_mut, no_new)]
struct G<'a, T: Clone, const N: usize>
where
    T: PartialEq,
{
    #[fieldx(get(clone))]
    a: T,
    b: &'a u8,
    c: [T; N],
    #[fieldx(optional, get(as_ref))]
    d: T,
}
// --- sync
#[fxstruct(sync, get, set, get_mut, no_new)]
struct S {
    a: Tok,
    #[fieldx(get(copy))]
    b: u8,
    #[fieldx(lock, get(copy))]
    c: Copied,
    #[fieldx(lock, get(clone), set(into))]
    t: Tok,
    #[fieldx(reader, writer)]
    r: Tok,
    #[fieldx(get(clone), set(into))]
    u: Tok,
}
fn read_r(s: &S) -> u8 {
    let a = s.r().0;
    let b = s.read_r().0;
    assert!(a == b, "reader: shows what the accessor does");
    a
}
fn write_r(s: &S, v: u8) -> u8 {
    let mut w = s.write_r();
    std::mem::replace(&mut w.0, v)
}
cells! { S; |o, v|
    { look o.a(), set o.set_a(Tok(v)), mutate o.a_mut() }
    { look o.b(), set o.set_b(v), mutate o.b_mut() }
    { look o.c(), set o.set_c(Copied(v)), mutate o.c_mut() }
    { look o.t(), set o.set_t(v), mutate o.t_mut() }
    { look read_r(o), set write_r(o, v), mutate o.r_mut() }
    { look o.u(), set o.set_u(v), mutate o.u_mut() }
}
#[fxstruct(sync, get, set(into), get_mut)]
struct O {
    #[fieldx(optional, get(clone))]
    a: Tok,
    #[fieldx(optional, get(copy), clearer, predicate)]
    b: u8,
    #[fieldx(optional, lock(off), get(clone), clearer)]
    c: Tok,
    #[fieldx(optional, lock(off), get(copy), predicate, clearer)]
    d: u8,
    #[fieldx(lock, get(clone))]
    e: Tok,
}
cells! { O; |o, v|
    { look o.a(), set o.set_a(v), mutate o.a_mut() }
    { look o.b(), set o.set_b(v), mutate o.b_mut(), clear o.clear_b(), has o.has_b() }
    { look o.c(), set o.set_c(v), mutate o.c_mut(), clear o.clear_c() }
    { look o.d(), set o.set_d(v), mutate o.d_mut(), clear o.clear_d(), has o.has_d() }
    { look o.e(), set o.set_e(v), mutate o.e_mut() }
}
// bare fields of the sync kind: where the mode is given with the field, there is no lock but no plain field either
#[fxstruct(sync, get, set(into), get_mut)]
struct Bare {
    #[fieldx(sync, lock(off), optional, get(clone), clearer)]
    a: Tok,
    #[fieldx(mode(sync), lock(off), optional, get(copy), clearer, predicate)]
    b: u8,
    #[fieldx(sync, lock(off), get(clone))]
    c: Tok,
    #[fieldx(mode(sync), lock(off), optional, predicate)]
    d: Tok,
    #[fieldx(sync, lock(off), get(copy))]
    e: u8,
}
cells! { Bare; |o, v|
    { look o.a(), set o.set_a(v), mutate o.a_mut(), clear o.clear_a() }
    { look o.b(), set o.set_b(v), mutate o.b_mut(), clear o.clear_b(), has o.has_b() }
    { look o.c(), set o.set_c(v), mutate o.c_mut() }
    { look o.d(), set o.set_d(v), mutate o.d_mut(), has o.has_d() }
    { look o.e(), set o.set_e(v), mutate o.e_mut() }
}
// --- the access mode of the whole struct
#[fxstruct(clone, get, set, get_mut)]
struct PC {
    a: Tok,
    #[fieldx(copy)]
    b: u8,
    #[fieldx(optional, clearer, predicate)]
    c: Tok,
    #[fieldx(inner_mut)]
    d: Tok,
    #[fieldx(get(copy))]
    e: u8,
    #[fieldx(inner_mut, optional, clearer)]
    f: Tok,
}
cells! { PC; |o, v|
    { look { let t: Tok = o.a(); t }, set o.set_a(Tok(v)), mutate o.a_mut() }
    { look { let t: u8 = o.b(); t }, set o.set_b(v), mutate o.b_mut() }
    { look { let t: Option<Tok> = o.c(); t }, set o.set_c(Tok(v)), mutate o.c_mut(), clear o.clear_c(), has o.has_c() }
    { look { let t: Tok = o.d(); t }, set (&*o).set_d(Tok(v)), mutate (&*o).d_mut() }
    { look { let t: u8 = o.e(); t }, set o.set_e(v), mutate o.e_mut() }
    { look { let t: Option<Tok> = o.f(); t }, set (&*o).set_f(Tok(v)), mutate (&*o).f_mut(), clear (&*o).clear_f() }
}
#[fxstruct(sync, clone, get, set, get_mut)]
struct SC {
    a: Tok,
    #[fieldx(copy)]
    b: u8,
    #[fieldx(optional, clearer, predicate)]
    c: Tok,
    #[fieldx(lock)]
    d: Tok,
    #[fieldx(lock, get(copy))]
    e: u8,
    #[fieldx(optional, copy)]
    f: u8,
}
cells! { SC; |o, v|
    { look { let t: Tok = o.a(); t }, set o.set_a(Tok(v)), mutate o.a_mut() }
    { look { let t: u8 = o.b(); t }, set o.set_b(v), mutate o.b_mut() }
    { look { let t: Option<Tok> = o.c(); t }, set o.set_c(Tok(v)), mutate o.c_mut(), clear o.clear_c(), has o.has_c() }
    { look { let t: Tok = o.d(); t }, set o.set_d(Tok(v)), mutate o.d_mut() }
    { look { let t: u8 = o.e(); t }, set o.set_e(v), mutate o.e_mut() }
    { look { let t: Option<u8> = o.f(); t }, set o.set_f(v), mutate o.f_mut() }
}
#[fxstruct(r#async, copy, get, set, get_mut)]
struct AC {
    a: u8,
    #[fieldx(clone)]
    b: Tok,
    #[fieldx(optional, clearer)]
    c: u8,
    #[fieldx(lock)]
    d: u8,
    #[fieldx(lock, get(clone))]
    e: Tok,
}
cells! { AC; |o, v|
    { look { let t: u8 = o.a(); t }, set o.set_a(v), mutate o.a_mut() }
    { look { let t: Tok = o.b(); t }, set o.set_b(Tok(v)), mutate o.b_mut() }
    { look { let t: Option<u8> = run(o.c()); t }, set run(o.set_c(v)), mutate run(o.c_mut()), clear run(o.clear_c()) }
    { look { let t: u8 = run(o.d()); t }, set run(o.set_d(v)), mutate run(o.d_mut()) }
    { look { let t: Tok = run(o.e()); t }, set run(o.set_e(Tok(v))), mutate run(o.e_mut()) }
}
#[fxstruct(copy, lazy, get, set, get_mut)]
struct LC {
    a: u8,
    #[fieldx(clone)]
    b: Tok,
    #[fieldx(sync)]
    c: u8,
    #[fieldx(sync, get(clone))]
    d: Tok,
}
impl LC {
    fn build_a(&self) -> u8 {
        built()
    }
    fn build_b(&self) -> Tok {
        Tok(built())
    }
    fn build_c(&self) -> u8 {
        built()
    }
    fn build_d(&self) -> Tok {
        Tok(built())
    }
}
cells! { LC; |o, v|
    { look { let t: u8 = o.a(); t }, set o.set_a(v), mutate o.a_mut() }
    { look { let t: Tok = o.b(); t }, set o.set_b(Tok(v)), mutate o.b_mut() }
    { look { let t: u8 = o.c(); t }, set o.set_c(v), mutate o.c_mut() }
    { look { let t: Tok = o.d(); t }, set o.set_d(Tok(v)), mutate o.d_mut() }
}
// --- async
#[fxstruct(r#async, get, set, get_mut)]
struct A {
    a: Tok,
    #[fieldx(lock, get(copy))]
    b: u8,
    #[fieldx(lock, get(clone), set(into))]
    c: Tok,
    #[fieldx(optional, get(clone), clearer, predicate)]
    d: Tok,
    #[fieldx(get(copy))]
    e: u8,
}
cells! { A; |o, v|
    { look o.a(), set o.set_a(Tok(v)), mutate o.a_mut() }
    { look run(o.b()), set run(o.set_b(v)), mutate run(o.b_mut()) }
    { look run(o.c()), set run(o.set_c(v)), mutate run(o.c_mut()) }
    { look run(o.d()), set run(o.set_d(Tok(v))), mutate run(o.d_mut()), clear run(o.clear_d()), has run(o.has_d()) }
    { look o.e(), set o.set_e(v), mutate o.e_mut() }
}

harnesses! {
    fn plain [10] {
        let s = start(6);
        let mut o = M::new(P { a: s[0], b: s[1], t: Tok(s[2]), c: Copied(s[3]), x: Tok(s[4]), u: Tok(s[5]) });
        history(&mut *o, s, K);
    }
    fn plain_optional [10] {
        let mut s = start(6);
        s[0] = NONE;
        s[3] = NONE;
        let mut o = M::new(Q { a: None, b: Some(s[1]), c: Some(Tok(s[2])), d: None, e: Tok(s[4]), f: s[5] });
        history(&mut *o, s, K);
    }
    /// unset lazies: whichever is touched first
    fn plain_lazy [10] {
        let mut o = M::new(L::new());
        let i = nd::below(4);
        let v = nd::val();
        let w = cells::Cells::set(&mut *o, i, v);
        assert!(w == if i == 3 { 0 } else { NONE }, "setter: returns the content it replaces");
        assert!(builds() == 0, "setter: builds nothing");
        let mut s = [NONE; cells::MAX];
        let mut n = 0;
        let mut k = 0;
        while k < 4 {
            let r = cells::Cells::look(&mut *o, k);
            s[k as usize] = if k == i { v } else if k == 3 { 0 } else { n += 1; 99 + n };
            assert!(r == s[k as usize], "accessor: returns the content of its own field");
            assert!(builds() == n, "accessor: builds its own field only");
            k += 1;
        }
        history(&mut *o, s, K);
    }
    fn generic [10] {
        let s = start(5);
        let (x, y) = (s[1], nd::val());
        let mut o = M::new(G::<'_, Tok, 2> { a: Tok(s[0]), b: &x, c: [Tok(s[2]), Tok(s[3])], d: None });
        assert!(o.a().0 == s[0] && **o.b() == s[1] && o.c()[1].0 == s[3] && o.d().is_none(), "generic: starts as made");
        assert!(num(o.set_d(Tok(s[4]))) == NONE, "generic: setter returns the content it replaces");
        assert!(*o.set_b(&y) == s[1], "generic: setter returns the content it replaces");
        o.c_mut()[0] = Tok(s[4]);
        let old = o.set_a(Tok(y));
        assert!(old.0 == s[0], "generic: setter returns the content it replaces");
        assert!(o.a().0 == y && **o.b() == y && o.c()[0].0 == s[4] && o.c()[1].0 == s[3], "generic: fields hold the last values");
        assert!(o.d().unwrap().0 == s[4], "generic: optional holds the last value");
        let was = o.d_mut().take();
        assert!(num(was) == s[4] && o.d().is_none(), "generic: mutable accessor gives the optional itself");
    }
    /// copies and clones are the caller's own
    fn independent [10] {
        let s = start(4);
        let mut o = M::new(P { a: s[0], b: s[1], t: Tok(s[2]), c: Copied(s[3]), x: Tok(s[0]), u: Tok(s[1]) });
        let (mut b, mut t, mut c) = (o.b(), o.t(), o.c());
        let v = nd::val();
        match nd::below(3) {
            0 => { b = v; }
            1 => { t.0 = v; }
            _ => { c.0 = v; }
        }
        let k = b == s[1] || t.0 == s[2];
        assert!(o.b() == s[1] && o.t().0 == s[2] && o.c().0 == s[3], "accessor: copies and clones are independent of the field");
        let q = M::new(S { a: Tok(s[0]), b: s[1], c: Copied(s[3]).into(), t: Tok(s[2]).into(), r: Tok(s[0]).into(), u: Tok(s[2]) });
        let (mut b, mut t, mut c, mut u) = (q.b(), q.t(), q.c(), q.u());
        b = v; t.0 = v; c.0 = v; u.0 = v;
        assert!(q.b() == s[1] && q.t().0 == s[2] && q.c().0 == s[3] && q.u().0 == s[2], "accessor: copies and clones are independent of the field");
    }
    /// a reference accessor refers to the field itself
    fn in_place [10] {
        let s = start(2);
        let mut o = M::new(P { a: s[0], b: s[1], t: Tok(0), c: Copied(0), x: Tok(s[0]), u: Tok(s[1]) });
        assert!(std::ptr::eq(o.see(), &o.x) && std::ptr::eq(o.a(), &o.a), "accessor: refers to the field");
        let x: *const Tok = &o.x;
        assert!(std::ptr::eq(o.x_mut(), x), "mutable accessor: refers to the field");
    }
    fn sync [10] {
        let s = start(6);
        let mut o = M::new(S { a: Tok(s[0]), b: s[1], c: Copied(s[2]).into(), t: Tok(s[3]).into(), r: Tok(s[4]).into(), u: Tok(s[5]) });
        history(&mut *o, s, K);
    }
    fn sync_optional [10] {
        let mut o = M::new(O::new());
        history(&mut *o, [NONE, NONE, NONE, NONE, 0, NONE, NONE, NONE], K);
    }
    fn sync_bare [10] { history(&mut *M::new(Bare::new()), [NONE, NONE, 0, NONE, 0, NONE, NONE, NONE], K - 1); }
    fn struct_mode [10] { history(&mut *M::new(PC::new()), [0, 0, NONE, 0, 0, NONE, NONE, NONE], K - 1); }
    fn struct_mode_sync [10] { history(&mut *M::new(SC::new()), [0, 0, NONE, 0, 0, NONE, NONE, NONE], K - 2); }
    fn struct_mode_async [10] { history(&mut *M::new(AC::new()), [0, 0, NONE, 0, 0, NONE, NONE, NONE], K - 2); }
    fn struct_mode_lazy [10] {
        let mut o = M::new(LC::new());
        assert!(o.a() == 100 && o.b().0 == 101 && o.c() == 102 && o.d().0 == 103, "accessor: builds its own field only");
        history(&mut *o, [100, 101, 102, 103, NONE, NONE, NONE, NONE], K - 2);
        assert!(builds() == 4, "accessor: builds once");
    }
    fn r#async [10] {
        let mut o = M::new(A::new());
        history(&mut *o, [0, 0, 0, NONE, 0, NONE, NONE, NONE], K - 2);
    }
}
