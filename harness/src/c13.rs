//! C13: inner mutability: every change is made through a shared reference.
use crate::aio::{run, M};
use crate::cells::{self, history, num, Num, MAX, NONE};
use crate::lazy::{built, builds, Tok};
use crate::{nd, K};
use fieldx::fxstruct;
use std::rc::Rc;
use std::sync::Arc;

/// Two holders of one object; who makes a change is up to the solver.
struct Shared<T>(M<Rc<T>>, M<Rc<T>>);
impl<T> Shared<T> {
    fn new(x: Rc<T>) -> Self {
        let y = x.clone();
        Shared(M::new(x), M::new(y))
    }
    fn any(&self) -> &T {
        if nd::flag() { &self.0 } else { &self.1 }
    }
    fn one(&self) -> &T {
        &self.0
    }
    fn two(&self) -> &T {
        &self.1
    }
}

#[fxstruct(inner_mut, get, get_mut, set, builder)]
struct P {
    a: Tok,
    #[fieldx(get(copy))]
    b: u8,
    #[fieldx(get(clone), set(into))]
    c: Tok,
    #[fieldx(get("see"), get_mut("edit"), set("put"))]
    d: u8,
}
cells! { Shared<P>; |o, v|
    { look { let r = num(&*o.one().a()); r }, set o.any().set_a(Tok(v)), mutate o.any().a_mut() }
    { look o.two().b(), set o.any().set_b(v), mutate o.any().b_mut() }
    { look o.one().c(), set o.any().set_c(v), mutate o.any().c_mut() }
    { look { let r = num(&*o.two().see()); r }, set o.any().put(v), mutate o.any().edit() }
}
#[fxstruct(inner_mut, optional, get, get_mut, set, clearer, predicate)]
struct O {
    a: Tok,
    #[fieldx(get(copy))]
    b: u8,
    #[fieldx(get(clone), set(into), default(Tok(200)))]
    c: Tok,
}
cells! { Shared<O>; |o, v|
    { look { let r = num(&*o.one().a()); r }, set o.any().set_a(Tok(v)), mutate o.any().a_mut(), clear o.any().clear_a(), has o.two().has_a() }
    { look o.two().b(), set o.any().set_b(v), mutate o.any().b_mut(), clear o.any().clear_b(), has o.one().has_b() }
    { look o.one().c(), set o.any().set_c(v), mutate o.any().c_mut(), clear o.any().clear_c(), has o.two().has_c() }
}
// beside fields of other kinds
#[fxstruct(rc, get, builder)]
struct R {
    #[fieldx(inner_mut, get_mut, set)]
    a: Tok,
    #[fieldx(inner_mut, optional, get(clone), get_mut, set(into), clearer, predicate)]
    b: Tok,
    #[fieldx(lazy, get(copy))]
    l: u8,
    #[fieldx(default(Tok(201)))]
    p: Tok,
}
impl R {
    fn build_l(&self) -> u8 {
        self.a().0
    }
}
cells! { Shared<R>; |o, v|
    { look { let r = num(&*o.one().a()); r }, set o.any().set_a(Tok(v)), mutate o.any().a_mut() }
    { look o.two().b(), set o.any().set_b(v), mutate o.any().b_mut(), clear o.any().clear_b(), has o.one().has_b() }
    { look o.two().p() }
}
// lazies of a struct with inner mutability, fields without it
#[fxstruct(inner_mut, get, set, get_mut)]
struct L {
    a: Tok,
    #[fieldx(lazy, clearer, predicate)]
    l: u8,
    #[fieldx(inner_mut(off))]
    p: Tok,
}
impl L {
    fn build_l(&self) -> u8 {
        built()
    }
}
cells! { L; |o, v|
    { look { let r = num(&*o.a()); r }, set (&*o).set_a(Tok(v)), mutate (&*o).a_mut() }
    { look if o.has_l() { num(o.l()) } else { NONE }, set o.set_l(v), clear o.clear_l(), has o.has_l() }
    { look o.p(), set o.set_p(Tok(v)), mutate o.p_mut() }
}
// in a sync struct such a field is a plain one
#[fxstruct(sync, get, set, get_mut)]
struct S {
    #[fieldx(inner_mut)]
    a: Tok,
    #[fieldx(inner_mut, optional, get(copy), clearer, predicate)]
    b: u8,
    #[fieldx(lock, get(copy))]
    c: u8,
}
cells! { Shared<S>; |o, v|
    { look { let r = num(&*o.one().a()); r }, set o.any().set_a(Tok(v)), mutate o.any().a_mut() }
    { look o.two().b(), set o.any().set_b(v), mutate o.any().b_mut(), clear o.any().clear_b(), has o.one().has_b() }
    { look o.one().c(), set o.any().set_c(v), mutate o.any().c_mut() }
}

/// A value made from what the object holds at that time; sets and edits it, too.
struct Next<'a>(&'a C, bool);
#[fxstruct(inner_mut, get(copy), get_mut, set(into))]
struct C {
    a: u8,
    #[fieldx(optional, clearer)]
    b: u8,
    n: u8,
}
impl From<Next<'_>> for u8 {
    fn from(n: Next<'_>) -> u8 {
        let c = n.0.a().wrapping_add(n.0.b().unwrap_or(50));
        *n.0.n_mut() += 1;
        if n.1 {
            n.0.set_a(97u8);
            n.0.clear_b();
        }
        c
    }
}
/// the rest of the row is not there
fn row(x: &[u8]) -> [u8; MAX] {
    let mut r = [NONE; MAX];
    let mut i = 0;
    while i < x.len() {
        r[i] = x[i];
        i += 1;
    }
    r
}

harnesses! {
    fn plain [10] {
        let v = [nd::val(), nd::val(), nd::val(), nd::val()];
        let o = match P::builder().a(Tok(v[0])).b(v[1]).c(Tok(v[2])).d(v[3]).build() {
            Ok(o) => o,
            Err(e) => { std::mem::forget(e); panic!("builds") }
        };
        history(&mut Shared::new(Rc::new(o)), row(&v), K);
    }
    fn optional [10] { history(&mut Shared::new(Rc::new(O::new())), row(&[NONE, NONE, 200]), K); }
    fn rc [10] {
        let v = nd::val();
        let o = match R::builder().a(Tok(v)).build() {
            Ok(o) => o,
            Err(e) => { std::mem::forget(e); panic!("builds") }
        };
        history(&mut Shared::new(o), row(&[v, NONE, 201]), K);
    }
    fn lazy [10] {
        let mut o = M::new(L::new());
        history(&mut *o, row(&[0, NONE, 0]), K);
        assert!(builds() == 0, "inner_mut: nothing is built without a read");
    }
    fn sync [10] { history(&mut Shared::new(Rc::new(S::new())), row(&[0, NONE, 0]), K); }
    /// guards: readers together, a writer after them, what it wrote is seen by the next reader
    fn guards [10] {
        let (v, w) = (nd::val(), nd::val());
        let o = M::new(Rc::new(P::builder().a(Tok(v)).b(0).c(Tok(0)).d(0).build().ok().unwrap()));
        {
            let (x, y) = (o.a(), o.a());
            assert!(x.0 == v && y.0 == v, "inner_mut: readers see the content");
            // other fields are not borrowed
            o.set_b(w);
            o.see();
            *o.edit() = w;
        }
        {
            let mut m = o.a_mut();
            m.0 = w;
            assert!(m.0 == w && o.b() == w && *o.see() == w, "inner_mut: fields are borrowed one by one");
        }
        assert!(o.a().0 == w, "inner_mut: the next reader sees what was written");
        assert!(o.set_a(Tok(v)).0 == w, "inner_mut: setter returns the content it replaces");
    }
    /// the conversion of a new value may use the object
    fn conversion [10] {
        let (v, w) = (nd::val(), nd::opt());
        let o = M::new(C::new());
        o.set_a(v);
        if let Some(w) = w { o.set_b(w); }
        let edits = nd::flag();
        let next = v.wrapping_add(w.unwrap_or(50));
        if nd::flag() {
            let r = o.set_a(Next(&o, edits));
            assert!(r == if edits { 97 } else { v }, "inner_mut: setter returns the content it replaces");
            assert!(o.a() == next && o.b() == if edits { None } else { w }, "inner_mut: setter stores the converted value");
        } else {
            let r = o.set_b(Next(&o, edits));
            assert!(r == if edits { None } else { w }, "inner_mut: setter returns the content it replaces");
            assert!(o.b() == Some(next) && o.a() == if edits { 97 } else { v }, "inner_mut: setter stores the converted value");
        }
        assert!(o.n() == 1, "inner_mut: the value is converted once");
    }
    /// copies and clones are independent values
    fn independent [10] {
        let (v, w) = (nd::val(), nd::val());
        let o = M::new(Rc::new(O::new()));
        o.set_b(v);
        o.set_c(v);
        let (mut b, mut c) = (o.b(), o.c());
        if nd::flag() { o.set_b(w); o.set_c(w); } else { o.clear_b(); o.clear_c(); }
        assert!(b == Some(v) && num(&c) == v, "inner_mut: copies and clones stay what they were");
        let now = (o.b(), num(o.c()));
        b = Some(98);
        c = None;
        assert!(o.b() == now.0 && num(o.c()) == now.1, "inner_mut: copies and clones are the caller's");
    }
}
