//! C02: lazy fields of sync structs, used by one thread.
use crate::lazy::*;
use crate::{nd, K};
use fieldx::fxstruct;
use std::sync::Arc;

#[fxstruct(sync, lazy, get, get_mut, set, clearer, predicate, reader, writer)]
struct SAll {
    foo: u8,
    bar: u8,
}
impl SAll {
    fn build_foo(&self) -> u8 {
        assert!(!self.has_foo(), "lazy: builder runs only while the field is unset");
        built()
    }
    fn build_bar(&self) -> u8 {
        panic!("lazy: builder of an untouched field")
    }
}
lazy_obj! { SAll;
    get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
    read |o| *o.read_foo(); wstore |o, v| o.write_foo().store(v); wclear |o| o.write_foo().clear();
}

#[fxstruct(sync)]
struct SField {
    #[fieldx(lazy, get, get_mut, set, clearer, predicate, reader, writer)]
    foo: Tok,
    #[fieldx(lazy, get, set, clearer, predicate)]
    bar: u8,
}
impl SField {
    fn build_foo(&self) -> Tok {
        Tok(built())
    }
    fn build_bar(&self) -> u8 {
        panic!("lazy: builder of an untouched field")
    }
}
lazy_obj! { SField;
    get |o| &*o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(Tok(v)); clear |o| o.clear_foo(); has |o| o.has_foo();
    read |o| &*o.read_foo(); wstore |o, v| o.write_foo().store(Tok(v)); wclear |o| o.write_foo().clear();
}

#[fxstruct(sync, lazy, get(copy), get_mut, set, clearer, predicate, reader)]
struct SCopy {
    foo: u8,
}
impl SCopy {
    fn build_foo(&self) -> u8 {
        built()
    }
}
lazy_obj! { SCopy;
    get |o| o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
    read |o| *o.read_foo();
}

#[fxstruct(sync, lazy, set, clearer, predicate, writer)]
struct SClone {
    #[fieldx(get(clone))]
    foo: Tok,
}
impl SClone {
    fn build_foo(&self) -> Tok {
        Tok(built())
    }
}
lazy_obj! { SClone;
    get |o| o.foo(); set |o, v| o.set_foo(Tok(v)); clear |o| o.clear_foo(); has |o| o.has_foo();
    wstore |o, v| o.write_foo().store(Tok(v)); wclear |o| o.write_foo().clear();
}

#[fxstruct(sync)]
struct SNames {
    #[fieldx(lazy("make_it"), get("fetch"), get_mut("fetch_mut"), set("put"), clearer("wipe"), predicate("is_there"), reader("peek"), writer("poke"))]
    foo: u8,
}
impl SNames {
    fn make_it(&self) -> u8 {
        built()
    }
}
lazy_obj! { SNames;
    get |o| *o.fetch(); mutate |o| o.fetch_mut(); set |o, v| o.put(v); clear |o| o.wipe(); has |o| o.is_there();
    read |o| *o.peek(); wstore |o, v| o.poke().store(v); wclear |o| o.poke().clear();
}
#[fxstruct(sync, lazy("mk_"), get("g_"), set("put_"), clearer("wipe_"), predicate("is_"), reader("rd_"), writer("wr_"))]
struct SPrefix {
    foo: u8,
}
impl SPrefix {
    fn mk_foo(&self) -> u8 {
        built()
    }
}
lazy_obj! { SPrefix;
    get |o| *o.g_foo(); set |o, v| o.put_foo(v); clear |o| o.wipe_foo(); has |o| o.is_foo();
    read |o| *o.rd_foo(); wstore |o, v| o.wr_foo().store(v); wclear |o| o.wr_foo().clear();
}
#[fxstruct(sync, lazy, get, get_mut, set, clearer, predicate, reader, writer)]
struct SRename {
    #[fieldx(rename("alias"))]
    foo: u8,
}
impl SRename {
    fn build_alias(&self) -> u8 {
        built()
    }
}
lazy_obj! { SRename;
    get |o| *o.alias(); mutate |o| o.alias_mut(); set |o, v| o.set_alias(v); clear |o| o.clear_alias(); has |o| o.has_alias();
    read |o| *o.read_alias(); wstore |o, v| o.write_alias().store(v); wclear |o| o.write_alias().clear();
}

#[fxstruct(sync, lazy, get, get_mut, set, clearer, predicate)]
struct SGen<T>
where
    T: From<u8> + Clone + Send + Sync,
{
    foo: T,
}
impl<T: From<u8> + Clone + Send + Sync> SGen<T> {
    fn build_foo(&self) -> T {
        built().into()
    }
}
lazy_obj! { SGen<Tok>;
    get |o| &*o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(Tok(v)); clear |o| o.clear_foo(); has |o| o.has_foo();
}

#[fxstruct(sync, lazy, get, set(into), clearer, predicate)]
struct SInto {
    foo: Tok,
}
impl SInto {
    fn build_foo(&self) -> Tok {
        Tok(built())
    }
}
lazy_obj! { SInto; get |o| &*o.foo(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo(); }

#[fxstruct(sync, lazy, get, get_mut, set, clearer, predicate, writer)]
struct SDefault {
    #[fieldx(default(200))]
    foo: u8,
}
impl SDefault {
    fn build_foo(&self) -> u8 {
        built()
    }
}
lazy_obj! { SDefault;
    get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
    wstore |o, v| o.write_foo().store(v); wclear |o| o.write_foo().clear();
}

#[fxstruct(sync, lazy, get, get_mut, set, clearer, predicate, builder, reader)]
struct SBuilder {
    foo: u8,
    #[fieldx(default(201))]
    bar: u8,
}
impl SBuilder {
    fn build_foo(&self) -> u8 {
        built()
    }
    fn build_bar(&self) -> u8 {
        built()
    }
}
lazy_obj! { SBuilder;
    get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
    read |o| *o.read_foo();
}
struct SBuilderBar(SBuilder);
lazy_obj! { SBuilderBar;
    get |o| *o.0.bar(); mutate |o| o.0.bar_mut(); set |o, v| o.0.set_bar(v); clear |o| o.0.clear_bar(); has |o| o.0.has_bar();
    read |o| *o.0.read_bar();
}

// reference counted: everything goes through &self, so the whole history runs on the Arc
#[fxstruct(sync, rc, lazy, get, get_mut, set, clearer, predicate, reader, writer, builder)]
struct SArc {
    foo: u8,
}
impl SArc {
    fn build_foo(&self) -> u8 {
        let me = self.myself().unwrap();
        assert!(!me.has_foo());
        std::mem::forget(me); // reference counts are C16's
        built()
    }
}
struct SArcH(std::mem::ManuallyDrop<Arc<SArc>>);
fn hold<T>(v: T) -> std::mem::ManuallyDrop<T> {
    std::mem::ManuallyDrop::new(v)
}
lazy_obj! { SArcH;
    get |o| *o.0.foo(); mutate |o| o.0.foo_mut(); set |o, v| o.0.set_foo(v); clear |o| o.0.clear_foo(); has |o| o.0.has_foo();
    read |o| *o.0.read_foo(); wstore |o, v| o.0.write_foo().store(v); wclear |o| o.0.write_foo().clear();
}

// a sync lazy field of a plain struct; mode given by name; lock together with lazy
#[fxstruct]
struct SInPlain {
    #[fieldx(sync, lazy, get, get_mut, set, clearer, predicate, reader, writer)]
    foo: u8,
    #[fieldx(sync(off), lazy, get, predicate)]
    bar: u8,
}
impl SInPlain {
    fn build_foo(&self) -> u8 {
        built()
    }
    fn build_bar(&self) -> u8 {
        built()
    }
}
lazy_obj! { SInPlain;
    get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
    read |o| *o.read_foo(); wstore |o, v| o.write_foo().store(v); wclear |o| o.write_foo().clear();
}
#[fxstruct(mode(sync), lazy, lock, get, set, clearer, predicate)]
struct SMode {
    foo: u8,
}
impl SMode {
    fn build_foo(&self) -> u8 {
        built()
    }
}
lazy_obj! { SMode; get |o| *o.foo(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo(); }

#[fxstruct(sync)]
struct SSeed {
    #[fieldx(lock, get(copy), set)]
    seed: u8,
    #[fieldx(lazy, get, clearer, predicate)]
    foo: u8,
}
impl SSeed {
    fn build_foo(&self) -> u8 {
        built();
        self.seed()
    }
}

harnesses! {
    fn struct_level [8] {
        let mut o = SAll::new();
        assert!(!o.has_foo() && builds() == 0);
        history(&mut o, None, K);
        assert!(!o.has_bar());
    }
    fn field_level [8] {
        let mut o = SField::new();
        let b = nd::opt();
        if let Some(b) = b { o.set_bar(b); }
        history(&mut o, None, K - 1);
        assert!(o.has_bar() == b.is_some());
        assert!(o.clear_bar() == b && !o.has_bar());
    }
    fn copy_accessor [8] { history(&mut SCopy::new(), None, K); }
    fn clone_accessor [8] { history(&mut SClone::new(), None, K); }
    fn custom_names [8] { history(&mut SNames::new(), None, K - 1); }
    fn prefixes [8] { history(&mut SPrefix::new(), None, K - 1); }
    fn renamed [8] { history(&mut SRename::new(), None, K - 1); }
    fn generic [8] { history(&mut SGen::<Tok>::new(), None, K); }
    fn setter_into [8] { history(&mut SInto::new(), None, K); }
    fn with_default [8] {
        let mut o = SDefault::new();
        assert!(o.has_foo());
        history(&mut o, Some(200), K - 1);
    }
    fn from_builder_foo [8] {
        let (f, b) = (nd::opt(), nd::opt());
        let mut bld = SBuilder::builder();
        if let Some(v) = f { bld = bld.foo(v); }
        if let Some(v) = b { bld = bld.bar(v); }
        let mut o = bld.build().unwrap();
        assert!(o.has_foo() == f.is_some() && o.has_bar() && builds() == 0);
        history(&mut o, f, K - 2);
        assert!(*o.bar() == b.unwrap_or(201));
    }
    fn from_builder_bar [8] {
        let (f, b) = (nd::opt(), nd::opt());
        let mut bld = SBuilder::builder();
        if let Some(v) = f { bld = bld.foo(v); }
        if let Some(v) = b { bld = bld.bar(v); }
        let o = bld.build().unwrap();
        history(&mut SBuilderBar(o), Some(b.unwrap_or(201)), K - 2);
    }
    fn ref_counted [8] {
        let f = nd::opt();
        let mut bld = SArc::builder();
        if let Some(v) = f { bld = bld.foo(v); }
        let o = bld.build().unwrap();
        assert!(o.has_foo() == f.is_some());
        let o2 = hold(o.myself().unwrap());
        let mut h = SArcH(hold(o));
        history(&mut h, f, 2);
        let n = builds();
        o2.foo();
        assert!(builds() == n);
    }
    fn ref_counted_new [8] { history(&mut SArcH(hold(SArc::new())), None, 2); }
    fn sync_in_plain [8] {
        let mut o = SInPlain::new();
        history(&mut o, None, K - 1);
        assert!(!o.has_bar());
    }
    fn mode_argument [8] { history(&mut SMode::new(), None, K); }
    fn builder_sees_current_state [8] {
        let mut o = SSeed::new();
        let mut seed = 0;
        let mut cur: Option<u8> = None;
        let mut i = 0;
        while i < K {
            match nd::below(3) {
                0 => { let v = nd::val(); o.set_seed(v); seed = v; }
                1 => { let r = *o.foo(); let e = cur.unwrap_or(seed); assert!(r == e, "lazy: value built from the state at the time of the build"); cur = Some(e); }
                _ => { assert!(o.clear_foo() == cur); cur = None; }
            }
            i += 1;
        }
        reach!(cur.is_some() && cur != Some(seed), "cached value survives a change of its source");
    }
    // several operations under one write guard
    fn write_guard_session [8] {
        let o = SAll::new();
        let mut cur = nd::opt();
        if let Some(v) = cur { o.set_foo(v); }
        {
            let mut g = o.write_foo();
            let mut i = 0;
            while i < 3 {
                if nd::flag() {
                    let v = nd::val();
                    assert!(g.store(v) == cur, "lazy: writer's store returns the previous value");
                    cur = Some(v);
                } else {
                    assert!(g.clear() == cur, "lazy: writer's clear returns the current value");
                    cur = None;
                }
                assert!(o.has_foo() == cur.is_some(), "lazy: the predicate agrees with the content under a writer");
                i += 1;
            }
        }
        assert!(builds() == 0);
        assert!(o.has_foo() == cur.is_some());
        assert!(o.clear_foo() == cur);
    }
    // read guards coexist and pin the value
    fn guards_coexist [8] {
        let o = SAll::new();
        let p = nd::opt();
        if let Some(v) = p { o.set_foo(v); }
        let a = o.foo();
        let b = o.read_foo();
        assert!(*a == *b && *a == p.unwrap_or(100));
        assert!(o.has_foo());
        drop(a);
        assert!(*b == p.unwrap_or(100));
        drop(b);
        assert!(o.clear_foo() == Some(p.unwrap_or(100)));
        assert!(builds() == p.is_none() as u8);
    }
    // every guard dropped: the object can be taken apart
    #[cfg(feature = "model")]
    fn sched_locks_released [8] {
        let mut o = SAll::new();
        history(&mut o, None, K - 1);
        assert!(parking_lot::model::held() == 0, "lazy: a lock is still held");
    }
}
