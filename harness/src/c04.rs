//! C04: async lazy fields, one task.
use crate::aio::{run, M};
use crate::lazy::*;
use crate::nd;
use fieldx::fxstruct;
use std::sync::Arc;

// every helper, struct-level; two fields
#[fxstruct(r#async, lazy, get, get_mut, set, clearer, predicate, reader, writer)]
struct A {
    foo: u8,
    bar: u8,
}
impl A {
    async fn build_foo(&self) -> u8 {
        assert!(!self.has_foo(), "lazy: builder runs only while the field is unset");
        built()
    }
    async fn build_bar(&self) -> u8 {
        panic!("lazy: builder of an untouched field")
    }
}
lazy_obj! { M<A>;
    get |o| *run(o.foo()); mutate |o| run(o.foo_mut()); set |o, v| run(o.set_foo(v)); clear |o| run(o.clear_foo()); has |o| o.has_foo();
    read |o| *run(o.read_foo()); wstore |o, v| run(o.write_foo()).store(v); wclear |o| run(o.write_foo()).clear();
}
fn a() -> (M<A>, Option<u8>) {
    let x = M::new(A::new());
    let p = nd::opt();
    if let Some(v) = p {
        assert!(run(x.set_foo(v)).is_none(), "lazy: setter of a new object");
    }
    (x, p)
}

// field-level, names of our own, a value which is not Copy, declared default
#[fxstruct(r#async)]
struct B {
    #[fieldx(lazy("mk"), get("fetch"), get_mut("change"), set("put", into), clearer("wipe"), predicate("there"), reader("rd"), writer("wr"), default(Tok(200)))]
    foo: Tok,
    #[fieldx(lazy, predicate)]
    bar: u8,
}
impl B {
    async fn mk(&self) -> Tok {
        assert!(!self.there() && !self.has_bar(), "lazy: builder runs only while the field is unset");
        Tok(built())
    }
    async fn build_bar(&self) -> u8 {
        panic!("lazy: builder of an untouched field")
    }
}
lazy_obj! { M<B>;
    get |o| &*run(o.fetch()); mutate |o| run(o.change()); set |o, v| run(o.put(v)); clear |o| run(o.wipe()); has |o| o.there();
    read |o| &*run(o.rd()); wstore |o, v| run(o.wr()).store(Tok(v)); wclear |o| run(o.wr()).clear();
}

// copy and clone accessors
#[fxstruct(mode(async), lazy, get(copy), set, clearer, predicate)]
struct C {
    foo: u8,
    #[fieldx(get(clone), set("put"))]
    bar: Tok,
}
impl C {
    async fn build_foo(&self) -> u8 {
        assert!(!self.has_foo(), "lazy: builder runs only while the field is unset");
        built()
    }
    async fn build_bar(&self) -> Tok {
        assert!(!self.has_bar(), "lazy: builder runs only while the field is unset");
        Tok(built())
    }
}
lazy_obj! { M<C>;
    get |o| run(o.foo()); set |o, v| run(o.set_foo(v)); clear |o| run(o.clear_foo()); has |o| o.has_foo();
}
struct CBar(M<C>);
lazy_obj! { CBar;
    get |o| run(o.0.bar()); set |o, v| run(o.0.put(Tok(v))); clear |o| run(o.0.clear_bar()); has |o| o.0.has_bar();
}

// one async field in a plain struct, in a sync struct, and a sync field in an async struct
#[fxstruct(lazy, get, set, clearer, predicate)]
struct Mixed {
    #[fieldx(r#async)]
    foo: u8,
    #[fieldx(r#async(off), sync)]
    bar: u8,
}
impl Mixed {
    async fn build_foo(&self) -> u8 {
        assert!(!self.has_foo() && !self.has_bar(), "lazy: builder runs only while the field is unset");
        built()
    }
    fn build_bar(&self) -> u8 {
        panic!("lazy: builder of an untouched field")
    }
}
lazy_obj! { M<Mixed>;
    get |o| *run(o.foo()); set |o, v| run(o.set_foo(v)); clear |o| run(o.clear_foo()); has |o| o.has_foo();
}
#[fxstruct(sync, lazy, get, set, clearer, predicate, reader, writer)]
struct InSync {
    #[fieldx(mode(async))]
    foo: u8,
    bar: u8,
}
impl InSync {
    async fn build_foo(&self) -> u8 {
        assert!(!self.has_foo(), "lazy: builder runs only while the field is unset");
        built()
    }
    fn build_bar(&self) -> u8 {
        assert!(!self.has_bar(), "lazy: builder runs only while the field is unset");
        built()
    }
}
lazy_obj! { M<InSync>;
    get |o| *run(o.foo()); set |o, v| run(o.set_foo(v)); clear |o| run(o.clear_foo()); has |o| o.has_foo();
    read |o| *run(o.read_foo()); wstore |o, v| run(o.write_foo()).store(v); wclear |o| run(o.write_foo()).clear();
}
#[fxstruct(r#async, lazy, get, set, clearer, predicate, reader, writer)]
struct SyncIn {
    #[fieldx(sync)]
    foo: u8,
    bar: u8,
}
impl SyncIn {
    fn build_foo(&self) -> u8 {
        assert!(!self.has_foo(), "lazy: builder runs only while the field is unset");
        built()
    }
    async fn build_bar(&self) -> u8 {
        panic!("lazy: builder of an untouched field")
    }
}
lazy_obj! { M<SyncIn>;
    get |o| *o.foo(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
    read |o| *o.read_foo(); wstore |o, v| o.write_foo().store(v); wclear |o| o.write_foo().clear();
}

// generics, a builder reading a locked field
#[fxstruct(r#async, builder)]
struct G<T: Copy + Send + Sync + From<u8> + Into<u8> + 'static> {
    #[fieldx(lazy, get, get_mut, set, clearer, predicate)]
    foo: T,
    #[fieldx(lock, get(copy), set)]
    seed: u8,
}
impl<T: Copy + Send + Sync + From<u8> + Into<u8> + 'static> G<T> {
    async fn build_foo(&self) -> T {
        (built() + self.seed().await).into()
    }
}
lazy_obj! { M<G<u8>>;
    get |o| *run(o.foo()); mutate |o| run(o.foo_mut()); set |o, v| run(o.set_foo(v)); clear |o| run(o.clear_foo()); has |o| o.has_foo();
}

// reference counted
#[fxstruct(r#async, rc, builder)]
struct R {
    #[fieldx(lazy, get, set, clearer, predicate)]
    foo: u8,
}
impl R {
    async fn build_foo(&self) -> u8 {
        assert!(!self.has_foo(), "lazy: builder runs only while the field is unset");
        built()
    }
}
lazy_obj! { M<Arc<R>>;
    get |o| *run(o.foo()); set |o, v| run(o.set_foo(v)); clear |o| run(o.clear_foo()); has |o| o.has_foo();
}

harnesses! {
    fn one [8] { let (mut x, p) = a(); steps(&mut x, p, 1); assert!(!x.has_bar(), "lazy: an untouched field changed"); }
    fn one_get [8] { let (mut x, p) = a(); history(&mut x, p, 1); assert!(!x.has_bar(), "lazy: an untouched field changed"); }
    #[cfg(feature = "thorough")]
    fn two [8] { let mut x = M::new(A::new()); steps(&mut x, None, 2); }
    fn names [8] { let mut x = M::new(B::new()); steps(&mut x, Some(200), 1); assert!(!x.has_bar()); }
    #[cfg(feature = "thorough")]
    fn names_get [8] { let mut x = M::new(B::new()); assert!(run(x.wipe()) == Some(Tok(200)), "lazy: declared default"); history(&mut x, None, 1); }
    fn copy [8] { let mut x = M::new(C::new()); let p = nd::opt(); if let Some(v) = p { run(x.set_foo(v)); } steps(&mut x, p, 1); assert!(!x.has_bar()); }
    fn clone [8] { let mut x = CBar(M::new(C::new())); let p = nd::opt(); if let Some(v) = p { run(x.0.put(Tok(v))); } steps(&mut x, p, 1); assert!(!x.0.has_foo()); }
    fn in_plain [8] { let mut x = M::new(Mixed::new()); steps(&mut x, None, 1); assert!(!x.has_bar()); }
    fn in_sync [8] { let mut x = M::new(InSync::new()); steps(&mut x, None, 1); assert!(!x.has_bar()); }
    fn sync_in [8] { let mut x = M::new(SyncIn::new()); let p = nd::opt(); if let Some(v) = p { x.set_foo(v); } steps(&mut x, p, 2); assert!(!x.has_bar()); }
    fn generic [8] {
        let p = nd::opt();
        let b = G::<u8>::builder();
        let b = b.seed(0);
        let mut b = match p { Some(v) => b.foo(v), None => b };
        let Ok(x) = b.build() else { panic!("builder") };
        let mut x = M::new(x);
        steps(&mut x, p, 1);
    }
    fn reads_lock [8] {
        let s = nd::below(10);
        let x = M::new(G::<u8>::new());
        run(x.set_seed(s));
        assert!(*run(x.foo()) == 100 + s, "lazy: the builder sees the other field's content");
        let t = nd::below(10);
        assert!(run(x.set_seed(t)) == s);
        assert!(*run(x.foo()) == 100 + s && builds() == 1, "lazy: the cached value stays");
        assert!(run(x.clear_foo()) == Some(100 + s) && !x.has_foo());
        assert!(*run(x.foo_mut()) == 101 + t && x.has_foo());
    }
    fn rc [8] {
        let p = nd::opt();
        let b = R::builder();
        let mut b = match p { Some(v) => b.foo(v), None => b };
        let Ok(x) = b.build() else { panic!("builder") };
        let mut x = M::new(x);
        steps(&mut x, p, 1);
    }
    // several changes under one writer, through its own accessors
    fn session [8] {
        let (x, p) = a();
        let (v, w) = (nd::val(), nd::val());
        {
            let mut g = run(x.write_foo());
            assert!(x.has_foo() == p.is_some());
            assert!(g.store(v) == p, "lazy: writer's store returns the previous value");
            assert!(x.has_foo(), "lazy: the predicate agrees with the content under a writer");
            assert!(g.clear() == Some(v), "lazy: writer's clear returns the current value");
            assert!(!x.has_foo(), "lazy: the predicate agrees with the content under a writer");
            assert!(g.clear().is_none());
            if nd::flag() {
                assert!(g.store(w).is_none());
                assert!(x.has_foo(), "lazy: the predicate agrees with the content under a writer");
            }
        }
        let set = x.has_foo();
        let r = *run(x.foo());
        assert!(if set { r == w && builds() == 0 } else { r == 100 && builds() == 1 }, "lazy: what the writer left is what readers see");
        assert!(x.has_foo());
    }
    // a changed value is kept by the guard of the mutable accessor and seen by the reader
    fn update [8] {
        let (x, p) = a();
        let v = nd::val();
        {
            let mut g = run(x.foo_mut());
            assert!(*g == p.unwrap_or(100));
            *g = v;
            assert!(*g == v);
        }
        assert!(*run(x.read_foo()) == v && *run(x.foo()) == v);
        assert!(builds() == p.is_none() as u8);
        assert!(run(x.clear_foo()) == Some(v));
    }
    // every operation gives its locks back
    #[cfg(feature = "model")]
    fn sched_released [8] {
        let (mut x, p) = a();
        let (cur, n) = ops(&mut x, p, 1);
        assert!(tokio::model::held() == 0, "lazy: a lock is still held after the operation");
        let g = run(x.foo());
        assert!(tokio::model::held() == 1, "lazy: the guard holds its lock");
        drop(g);
        assert!(tokio::model::held() == 0, "lazy: a lock is still held after the guard");
    }
    #[cfg(feature = "model")]
    fn sched_released_writer [8] {
        let (x, p) = a();
        let mut g = run(x.write_foo());
        assert!(tokio::model::held() > 0);
        g.store(nd::val());
        drop(g);
        assert!(tokio::model::held() == 0, "lazy: a lock is still held after the writer");
        drop(run(x.foo_mut()));
        drop(run(x.read_foo()));
        assert!(tokio::model::held() == 0, "lazy: a lock is still held after the guard");
    }
    #[cfg(feature = "thorough")]
    fn three [8] { let mut x = M::new(A::new()); steps(&mut x, None, 3); }
    #[cfg(feature = "thorough")]
    fn names_two [8] { let mut x = M::new(B::new()); steps(&mut x, Some(200), 2); }
    #[cfg(feature = "thorough")]
    fn two_get [8] { let (mut x, p) = a(); history(&mut x, p, 2); }
    #[cfg(feature = "thorough")]
    fn rc_two [8] { let mut x = M::new(R::new()); steps(&mut x, None, 2); }
}
