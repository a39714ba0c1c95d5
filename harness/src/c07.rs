//! C07: optional fields.
use crate::aio::{run, M};
use crate::lazy::Tok;
use crate::opt::*;
use crate::{nd, K};
use fieldx::fxstruct;
use std::rc::Rc;
use std::sync::Arc;

// --- plain
#[fxstruct(optional, get, get_mut, set, clearer, predicate)]
struct P {
    foo: u8,
    bar: Tok,
}
opt_obj! { P;
    get |o| o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}
struct PBar(P);
opt_obj! { PBar;
    get |o| o.0.bar(); mutate |o| o.0.bar_mut(); set |o, v| o.0.set_bar(Tok(v)); clear |o| o.0.clear_bar(); has |o| o.0.has_bar();
}
// field-level, names, modes, defaults
#[fxstruct(builder)]
struct Q {
    #[fieldx(optional, get("fetch", as_ref), get_mut("change"), set("put", into), clearer("wipe"), predicate("there"), default(Tok(200)))]
    foo: Tok,
    #[fieldx(get(copy), set, clearer, predicate, default(201))]
    num: u8,
    #[fieldx(get(clone), set(into), clearer, predicate)]
    bar: Tok,
}
opt_obj! { Q;
    get |o| o.fetch(); mutate |o| o.change(); set |o, v| o.put(v); clear |o| o.wipe(); has |o| o.there();
}
struct QNum(Q);
opt_obj! { QNum; get |o| o.0.num(); set |o, v| o.0.set_num(v); clear |o| o.0.clear_num(); has |o| o.0.has_num(); }
struct QBar(Q);
opt_obj! { QBar; get |o| o.0.bar(); set |o, v| o.0.set_bar(v); clear |o| o.0.clear_bar(); has |o| o.0.has_bar(); }
#[fxstruct(rc, builder)]
struct PR {
    #[fieldx(clearer, inner_mut, get, get_mut, set, predicate)]
    foo: u8,
}
opt_obj! { M<Rc<PR>>;
    get |o| o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}
#[fxstruct(builder)]
struct PI {
    #[fieldx(optional, inner_mut, get(copy), get_mut, set, clearer, predicate, default(203))]
    foo: u8,
    #[fieldx(inner_mut, get(clone), get_mut, set(into), clearer, predicate, default(Tok(204)))]
    bar: Tok,
}
opt_obj! { PI;
    get |o| o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}
struct PIBar(PI);
opt_obj! { PIBar;
    get |o| o.0.bar(); mutate |o| o.0.bar_mut(); set |o, v| o.0.set_bar(v); clear |o| o.0.clear_bar(); has |o| o.0.has_bar();
}

// --- sync
#[fxstruct(sync, optional, get, get_mut, set, clearer, predicate, reader, writer)]
struct S {
    foo: u8,
    bar: Tok,
}
opt_obj! { S;
    get |o| o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
    read |o| o.read_foo(); write |o| o.write_foo();
}
struct SBar(S);
opt_obj! { SBar;
    get |o| o.0.bar(); mutate |o| o.0.bar_mut(); set |o, v| o.0.set_bar(Tok(v)); clear |o| o.0.clear_bar(); has |o| o.0.has_bar();
    read |o| o.0.read_bar(); write |o| o.0.write_bar();
}
#[fxstruct(sync, builder)]
struct T {
    #[fieldx(optional, get("fetch", clone), get_mut("change"), set("put", into), clearer("wipe"), predicate("there"), reader("rd"), writer("wr"), default(Tok(200)))]
    foo: Tok,
    #[fieldx(lock, get(copy), set, clearer, predicate, default(201))]
    num: u8,
    #[fieldx(lock(off), optional, get(clone), get_mut, set(into), clearer, predicate)]
    bare: Tok,
    #[fieldx(lock(off), get(copy), set, clearer, predicate, default(202))]
    bnum: u8,
    #[fieldx(lock(off), get, set, clearer, predicate)]
    bref: u8,
}
opt_obj! { T;
    get |o| o.fetch(); mutate |o| o.change(); set |o, v| o.put(v); clear |o| o.wipe(); has |o| o.there();
    read |o| o.rd(); write |o| o.wr();
}
struct TNum(T);
opt_obj! { TNum; get |o| o.0.num(); set |o, v| o.0.set_num(v); clear |o| o.0.clear_num(); has |o| o.0.has_num(); }
struct TBare(T);
opt_obj! { TBare; get |o| o.0.bare(); mutate |o| o.0.bare_mut(); set |o, v| o.0.set_bare(v); clear |o| o.0.clear_bare(); has |o| o.0.has_bare(); }
struct TBnum(T);
opt_obj! { TBnum; get |o| o.0.bnum(); set |o, v| o.0.set_bnum(v); clear |o| o.0.clear_bnum(); has |o| o.0.has_bnum(); }
struct TBref(T);
opt_obj! { TBref; get |o| o.0.bref(); set |o, v| o.0.set_bref(v); clear |o| o.0.clear_bref(); has |o| o.0.has_bref(); }
#[fxstruct(sync, rc, builder)]
struct SR {
    #[fieldx(optional, get, set, clearer, predicate)]
    foo: u8,
}
opt_obj! { M<Arc<SR>>;
    get |o| o.foo(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}
// no lock, but the kind is given
#[fxstruct(sync, builder, set(into), clearer, predicate)]
struct TS {
    #[fieldx(sync, lock(off), get(copy), get_mut, default(203))]
    num: u8,
    #[fieldx(sync, lock(off), optional, get(clone), get_mut)]
    bar: Tok,
    #[fieldx(sync, lock(off), get, default(Tok(204)))]
    tok: Tok,
}
opt_obj! { TS; get |o| o.num(); mutate |o| o.num_mut(); set |o, v| o.set_num(v); clear |o| o.clear_num(); has |o| o.has_num(); }
struct TSBar(TS);
opt_obj! { TSBar; get |o| o.0.bar(); mutate |o| o.0.bar_mut(); set |o, v| o.0.set_bar(v); clear |o| o.0.clear_bar(); has |o| o.0.has_bar(); }
struct TSTok(TS);
opt_obj! { TSTok; get |o| o.0.tok(); set |o, v| o.0.set_tok(v); clear |o| o.0.clear_tok(); has |o| o.0.has_tok(); }

// --- async
#[fxstruct(r#async, optional, get, get_mut, set, clearer, predicate, reader, writer)]
struct A {
    foo: u8,
    bar: Tok,
}
opt_obj! { M<A>;
    get |o| run(o.foo()); mutate |o| run(o.foo_mut()); set |o, v| run(o.set_foo(v)); clear |o| run(o.clear_foo()); has |o| run(o.has_foo());
    read |o| run(o.read_foo()); write |o| run(o.write_foo());
}
#[fxstruct(r#async, builder)]
struct B {
    #[fieldx(optional, get("fetch", clone), get_mut("change"), set("put", into), clearer("wipe"), predicate("there"), reader("rd"), writer("wr"), default(Tok(200)))]
    foo: Tok,
    #[fieldx(lock, get(copy), set, clearer, predicate, default(201))]
    num: u8,
    #[fieldx(lock(off), optional, get(clone), set, clearer, predicate)]
    bare: u8,
    #[fieldx(lock(off), get(copy), get_mut, set, clearer, predicate, default(202))]
    bnum: u8,
}
opt_obj! { M<B>;
    get |o| run(o.fetch()); mutate |o| run(o.change()); set |o, v| run(o.put(v)); clear |o| run(o.wipe()); has |o| run(o.there());
    read |o| run(o.rd()); write |o| run(o.wr());
}
struct BNum(M<B>);
opt_obj! { BNum; get |o| run(o.0.num()); set |o, v| run(o.0.set_num(v)); clear |o| run(o.0.clear_num()); has |o| run(o.0.has_num()); }
struct BBare(M<B>);
struct BBnum(M<B>);
opt_obj! { BBnum; get |o| o.0.bnum(); mutate |o| o.0.bnum_mut(); set |o, v| o.0.set_bnum(v); clear |o| o.0.clear_bnum(); has |o| o.0.has_bnum(); }
opt_obj! { BBare; get |o| o.0.bare(); set |o, v| o.0.set_bare(v); clear |o| o.0.clear_bare(); has |o| o.0.has_bare(); }

#[fxstruct(r#async, set, clearer, predicate)]
struct BK {
    #[fieldx(r#async, lock(off), get(copy), get_mut, default(203))]
    num: u8,
    #[fieldx(r#async, lock(off), optional, get(clone), get_mut)]
    bar: Tok,
}
opt_obj! { BK; get |o| o.num(); mutate |o| o.num_mut(); set |o, v| o.set_num(v); clear |o| o.clear_num(); has |o| o.has_num(); }

macro_rules! built {
    ($b:expr) => { match $b.build() { Ok(x) => x, Err(_) => panic!("builder fails without a mandatory field") } };
}
harnesses! {
    fn plain [12] { let mut x = P::new(); let w = nd::opt(); if let Some(v) = w { x.set_bar(Tok(v)); } history(&mut x, None, K); assert!(x.bar().as_ref().map(|t| t.0) == w && x.has_bar() == w.is_some(), "optional: another field changed"); }
    fn plain_tok [12] { let mut x = P::new(); let w = nd::opt(); if let Some(v) = w { x.set_foo(v); } let mut y = PBar(x); history(&mut y, None, K); assert!(*y.0.foo() == w, "optional: another field changed"); }
    fn plain_names [12] { let mut x = Q::new(); history(&mut x, Some(200), K); assert!(x.num() == Some(201) && x.bar().is_none()); }
    fn plain_copy [12] { let mut x = QNum(Q::new()); history(&mut x, Some(201), K); assert!(x.0.there() && !x.0.has_bar()); }
    fn plain_clone [12] { let mut x = QBar(Q::new()); history(&mut x, None, K); assert!(x.0.there() && x.0.has_num()); }
    fn plain_builder [12] {
        let (p, q, r) = (nd::opt(), nd::opt(), nd::opt());
        let b = Q::builder();
        let b = if let Some(v) = p { b.foo(Tok(v)) } else { b };
        let b = if let Some(v) = q { b.num(v) } else { b };
        let mut b = if let Some(v) = r { b.bar(Tok(v)) } else { b };
        let mut x = built!(b);
        assert!(x.fetch() == Some(&Tok(p.unwrap_or(200))) && x.num() == Some(q.unwrap_or(201)) && x.bar() == r.map(Tok), "optional: content of a built object");
        history(&mut x, Some(p.unwrap_or(200)), 2);
    }
    fn plain_rc [12] { let p = nd::opt(); let b = PR::builder(); let mut b = if let Some(v) = p { b.foo(v) } else { b }; let mut x = M::new(built!(b)); history(&mut x, p, 3); }
    fn plain_inner [12] { let mut x = PI::new(); history(&mut x, Some(203), K); assert!(x.bar() == Some(Tok(204)) && x.has_bar()); }
    fn plain_inner_clone [12] { let mut x = PIBar(PI::new()); history(&mut x, Some(204), K); assert!(x.0.foo() == Some(203) && x.0.has_foo()); }
    fn plain_inner_builder [12] {
        let (p, q) = (nd::opt(), nd::opt());
        let b = PI::builder();
        let b = if let Some(v) = p { b.foo(v) } else { b };
        let mut b = if let Some(v) = q { b.bar(Tok(v)) } else { b };
        let mut x = built!(b);
        assert!(x.bar() == Some(Tok(q.unwrap_or(204))), "optional: content of a built object");
        history(&mut x, Some(p.unwrap_or(203)), 2);
    }
    fn plain_default [12] { let mut x = P::default(); assert!(!x.has_foo() && !x.has_bar() && x.foo().is_none()); history(&mut x, None, 2); }
    fn sync [12] { let mut x = S::new(); let w = nd::opt(); if let Some(v) = w { x.set_bar(Tok(v)); } history(&mut x, None, K); assert!(x.bar().as_ref().map(|t| t.0) == w && x.has_bar() == w.is_some(), "optional: another field changed"); }
    fn sync_tok [12] { let mut x = SBar(S::new()); let w = nd::opt(); if let Some(v) = w { x.0.set_foo(v); } history(&mut x, None, K); assert!(*x.0.foo() == w, "optional: another field changed"); }
    fn sync_names [12] { let mut x = T::new(); history(&mut x, Some(200), K); assert!(x.num() == Some(201) && !x.has_bare() && x.bnum() == Some(202) && !x.has_bref()); }
    fn sync_copy [12] { let mut x = TNum(T::new()); history(&mut x, Some(201), K); assert!(x.0.there() && !x.0.has_bare() && x.0.has_bnum()); }
    fn sync_bare [12] { let mut x = TBare(T::new()); history(&mut x, None, K); assert!(x.0.there() && x.0.has_num() && x.0.has_bnum() && !x.0.has_bref()); }
    fn sync_bare_copy [12] { let mut x = TBnum(T::new()); history(&mut x, Some(202), K); assert!(x.0.there() && x.0.has_num() && !x.0.has_bare()); }
    fn sync_bare_ref [12] { let mut x = TBref(T::new()); history(&mut x, None, K); assert!(x.0.there() && x.0.has_num() && !x.0.has_bare()); }
    fn sync_kind [12] { let mut x = TS::new(); history(&mut x, Some(203), K); assert!(x.bar().is_none() && !x.has_bar() && x.tok() == &Some(Tok(204)) && x.has_tok()); }
    fn sync_kind_clone [12] { let mut x = TSBar(TS::new()); history(&mut x, None, K); assert!(x.0.num() == Some(203) && x.0.tok() == &Some(Tok(204))); }
    fn sync_kind_ref [12] { let mut x = TSTok(TS::new()); history(&mut x, Some(204), K); assert!(x.0.num() == Some(203) && x.0.bar().is_none()); }
    fn sync_kind_builder [12] {
        let (p, q, r) = (nd::opt(), nd::opt(), nd::opt());
        let b = TS::builder();
        let b = if let Some(v) = p { b.num(v) } else { b };
        let b = if let Some(v) = q { b.bar(Tok(v)) } else { b };
        let mut b = if let Some(v) = r { b.tok(Tok(v)) } else { b };
        let mut x = built!(b);
        assert!(x.bar() == q.map(Tok) && x.tok() == &Some(Tok(r.unwrap_or(204))), "optional: content of a built object");
        history(&mut x, Some(p.unwrap_or(203)), 2);
    }
    fn async_kind [12] { let mut x = BK::new(); history(&mut x, Some(203), K); assert!(x.bar().is_none() && !x.has_bar()); }
    fn sync_builder [12] {
        let (p, q, r, s) = (nd::opt(), nd::opt(), nd::opt(), nd::opt());
        let b = T::builder();
        let b = if let Some(v) = p { b.foo(Tok(v)) } else { b };
        let b = if let Some(v) = q { b.num(v) } else { b };
        let b = if let Some(v) = s { b.bnum(v) } else { b };
        let mut b = if let Some(v) = r { b.bare(Tok(v)) } else { b };
        let mut x = built!(b);
        assert!(x.fetch() == Some(Tok(p.unwrap_or(200))) && x.num() == Some(q.unwrap_or(201)) && x.bare() == r.map(Tok) && x.bnum() == Some(s.unwrap_or(202)), "optional: content of a built object");
        history(&mut x, Some(p.unwrap_or(200)), 2);
    }
    fn sync_rc [12] { let p = nd::opt(); let b = SR::builder(); let mut b = if let Some(v) = p { b.foo(v) } else { b }; let mut x = M::new(built!(b)); history(&mut x, p, 2); }
    fn sync_guard [12] {
        let x = S::new();
        let (v, w) = (nd::val(), nd::val());
        {
            let mut g = x.write_foo();
            *g = Some(v);
            if nd::flag() { g.take(); }
        }
        let p = *x.foo();
        assert!(p.is_none() || p == Some(v));
        assert!(x.has_foo() == p.is_some() && *x.read_foo() == p);
        assert!(x.set_foo(w) == p && x.clear_foo() == Some(w) && x.clear_foo().is_none());
    }
    fn r#async [12] { let mut x = M::new(A::new()); let w = nd::opt(); if let Some(v) = w { run(x.set_bar(Tok(v))); } history(&mut x, None, 2); assert!(run(x.bar()).as_ref().map(|t| t.0) == w, "optional: another field changed"); }
    fn async_names [12] { let mut x = M::new(B::new()); history(&mut x, Some(200), 1); assert!(run(x.num()) == Some(201) && !x.has_bare()); }
    fn async_copy [12] { let mut x = BNum(M::new(B::new())); history(&mut x, Some(201), 2); assert!(run(x.0.there()) && !x.0.has_bare()); }
    fn async_bare [12] { let mut x = BBare(M::new(B::new())); history(&mut x, None, K); assert!(run(x.0.there())); }
    fn async_bare_copy [12] { let mut x = BBnum(M::new(B::new())); history(&mut x, Some(202), 2); assert!(run(x.0.there()) && !x.0.has_bare()); }
    fn async_builder [12] {
        let (p, q, r) = (nd::opt(), nd::opt(), nd::opt());
        let b = B::builder();
        let b = if let Some(v) = p { b.foo(Tok(v)) } else { b };
        let b = if let Some(v) = q { b.num(v) } else { b };
        let mut b = if let Some(v) = r { b.bare(v) } else { b };
        let x = M::new(built!(b));
        assert!(run(x.fetch()) == Some(Tok(p.unwrap_or(200))) && run(x.num()) == Some(q.unwrap_or(201)) && x.bare() == r, "optional: content of a built object");
    }
    #[cfg(feature = "model")]
    fn sched_released [12] {
        let mut x = S::new();
        history(&mut x, None, 1);
        assert!(parking_lot::model::held() == 0, "optional: a lock is still held");
        drop(x.foo());
        drop(x.foo_mut());
        drop(x.read_foo());
        drop(x.write_foo());
        assert!(parking_lot::model::held() == 0, "optional: a lock is still held");
        let mut x = M::new(A::new());
        history(&mut x, None, 1);
        drop(run(x.foo()));
        drop(run(x.foo_mut()));
        assert!(tokio::model::held() == 0, "optional: a lock is still held");
    }
}
