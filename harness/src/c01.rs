//! C01: lazy fields of plain structs.
use crate::lazy::*;
use crate::{nd, K};
use fieldx::fxstruct;

// ---- struct-level arguments
#[fxstruct(lazy, clearer, predicate, get_mut, set)]
struct PStruct {
    foo: u8,
    bar: u8,
}
impl PStruct {
    fn build_foo(&self) -> u8 {
        assert!(!self.has_foo(), "lazy: builder runs only while the field is unset");
        built()
    }
    fn build_bar(&self) -> u8 {
        panic!("lazy: builder of an untouched field")
    }
}
lazy_obj! { PStruct;
    get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}

// ---- field-level arguments, non-Copy value
#[fxstruct]
struct PField {
    #[fieldx(lazy, clearer, predicate, get, get_mut, set)]
    foo: Tok,
    #[fieldx(lazy, clearer, predicate, get, set)]
    bar: u8,
}
impl PField {
    fn build_foo(&self) -> Tok {
        Tok(built())
    }
    fn build_bar(&self) -> u8 {
        panic!("lazy: builder of an untouched field")
    }
}
lazy_obj! { PField;
    get |o| o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(Tok(v)); clear |o| o.clear_foo(); has |o| o.has_foo();
}

// ---- accessor modes
#[fxstruct(lazy, clearer, predicate, set, get(copy))]
struct PCopy {
    foo: u8,
}
impl PCopy {
    fn build_foo(&self) -> u8 {
        built()
    }
}
lazy_obj! { PCopy; get |o| o.foo(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo(); }

#[fxstruct(lazy, clearer, predicate, set)]
struct PClone {
    #[fieldx(get(clone))]
    foo: Tok,
}
impl PClone {
    fn build_foo(&self) -> Tok {
        Tok(built())
    }
}
lazy_obj! { PClone; get |o| o.foo(); set |o, v| o.set_foo(Tok(v)); clear |o| o.clear_foo(); has |o| o.has_foo(); }

// ---- custom names at the field, prefixes at the struct, renamed base
#[fxstruct]
struct PNames {
    #[fieldx(lazy("make_it"), get("fetch"), get_mut("fetch_mut"), set("put"), clearer("wipe"), predicate("is_there"))]
    foo: u8,
}
impl PNames {
    fn make_it(&self) -> u8 {
        built()
    }
}
lazy_obj! { PNames;
    get |o| *o.fetch(); mutate |o| o.fetch_mut(); set |o, v| o.put(v); clear |o| o.wipe(); has |o| o.is_there();
}
#[fxstruct(lazy("mk_"), get("g_"), set("put_"), clearer("wipe_"), predicate("is_"))]
struct PPrefix {
    foo: u8,
}
impl PPrefix {
    fn mk_foo(&self) -> u8 {
        built()
    }
}
lazy_obj! { PPrefix; get |o| *o.g_foo(); set |o, v| o.put_foo(v); clear |o| o.wipe_foo(); has |o| o.is_foo(); }
#[fxstruct(lazy, get, get_mut, set, clearer, predicate)]
struct PRename {
    #[fieldx(rename("alias"))]
    foo: u8,
}
impl PRename {
    fn build_alias(&self) -> u8 {
        built()
    }
}
lazy_obj! { PRename;
    get |o| *o.alias(); mutate |o| o.alias_mut(); set |o, v| o.set_alias(v); clear |o| o.clear_alias(); has |o| o.has_alias();
}

// ---- generics
#[fxstruct(lazy, get, get_mut, set, clearer, predicate)]
struct PGen<T>
where
    T: From<u8> + Clone,
{
    foo: T,
}
impl<T: From<u8> + Clone> PGen<T> {
    fn build_foo(&self) -> T {
        built().into()
    }
}
lazy_obj! { PGen<Tok>;
    get |o| o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(Tok(v)); clear |o| o.clear_foo(); has |o| o.has_foo();
}

// ---- setter with Into
#[fxstruct(lazy, get, set(into), clearer, predicate)]
struct PInto {
    foo: Tok,
}
impl PInto {
    fn build_foo(&self) -> Tok {
        Tok(built())
    }
}
lazy_obj! { PInto; get |o| o.foo(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo(); }

// ---- initial values: default, builder, builder with default
#[fxstruct(lazy, get, get_mut, set, clearer, predicate)]
struct PDefault {
    #[fieldx(default(200))]
    foo: u8,
}
impl PDefault {
    fn build_foo(&self) -> u8 {
        built()
    }
}
lazy_obj! { PDefault;
    get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}
#[fxstruct(lazy, get, get_mut, set, clearer, predicate, builder)]
struct PBuilder {
    foo: u8,
    #[fieldx(default(201))]
    bar: u8,
}
impl PBuilder {
    fn build_foo(&self) -> u8 {
        built()
    }
    fn build_bar(&self) -> u8 {
        built()
    }
}
lazy_obj! { PBuilder;
    get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}
/// The same object seen through its field with a default.
struct PBuilderBar(PBuilder);
lazy_obj! { PBuilderBar;
    get |o| *o.0.bar(); mutate |o| o.0.bar_mut(); set |o, v| o.0.set_bar(v); clear |o| o.0.clear_bar(); has |o| o.0.has_bar();
}

// ---- reference counted
#[fxstruct(rc, lazy, get, predicate, builder)]
struct PRc {
    foo: u8,
}
impl PRc {
    fn build_foo(&self) -> u8 {
        let me = self.myself().unwrap();
        assert!(!me.has_foo());
        built()
    }
}
struct PRcH(std::rc::Rc<PRc>);
lazy_obj! { PRcH; get |o| *o.0.foo(); has |o| o.0.has_foo(); }

// ---- a plain lazy field of a sync struct
#[fxstruct(sync)]
struct PInSync {
    #[fieldx(sync(off), lazy, get, get_mut, set, clearer, predicate)]
    foo: u8,
    #[fieldx(lazy, get, predicate)]
    bar: u8,
}
impl PInSync {
    fn build_foo(&self) -> u8 {
        built()
    }
    fn build_bar(&self) -> u8 {
        built()
    }
}
lazy_obj! { PInSync;
    get |o| *o.foo(); mutate |o| o.foo_mut(); set |o, v| o.set_foo(v); clear |o| o.clear_foo(); has |o| o.has_foo();
}

// ---- a lazy value built from the other fields, as they are when it is built
#[fxstruct]
struct PSeed {
    #[fieldx(get, set)]
    seed: u8,
    #[fieldx(lazy, get, clearer, predicate)]
    foo: u8,
}
impl PSeed {
    fn build_foo(&self) -> u8 {
        built();
        *self.seed()
    }
}

harnesses! {
    fn struct_level [8] {
        let mut o = PStruct::new();
        assert!(!o.has_foo() && builds() == 0);
        history(&mut o, None, K);
        assert!(!o.has_bar());
    }
    fn field_level [8] {
        let mut o = PField::new();
        let b = nd::opt();
        if let Some(b) = b { o.set_bar(b); }
        history(&mut o, None, K);
        assert!(o.has_bar() == b.is_some());
        assert!(o.clear_bar() == b);
    }
    fn copy_accessor [8] { history(&mut PCopy::new(), None, K); }
    fn clone_accessor [8] { history(&mut PClone::new(), None, K); }
    fn custom_names [8] { history(&mut PNames::new(), None, K); }
    fn prefixes [8] { history(&mut PPrefix::new(), None, K); }
    fn renamed [8] { history(&mut PRename::new(), None, K); }
    fn generic [8] { history(&mut PGen::<Tok>::new(), None, K); }
    fn setter_into [8] { history(&mut PInto::new(), None, K); }
    fn with_default [8] { history(&mut PDefault::new(), Some(200), K); }
    fn from_builder [8] {
        let (f, b) = (nd::opt(), nd::opt());
        let mut bld = PBuilder::builder();
        if let Some(v) = f { bld = bld.foo(v); }
        if let Some(v) = b { bld = bld.bar(v); }
        let mut o = bld.build().unwrap();
        assert!(o.has_foo() == f.is_some() && o.has_bar() && builds() == 0);
        if nd::flag() {
            history(&mut o, f, K - 1);
            assert!(*o.bar() == b.unwrap_or(201));
        } else {
            history(&mut PBuilderBar(o), Some(b.unwrap_or(201)), K - 1);
        }
    }
    fn ref_counted [8] {
        let f = nd::opt();
        let mut bld = PRc::builder();
        if let Some(v) = f { bld = bld.foo(v); }
        let o = bld.build().unwrap();
        assert!(o.has_foo() == f.is_some());
        let o2 = o.myself().unwrap();
        if nd::flag() {
            history(&mut PRcH(o), f, 2);
            let n = builds();
            o2.foo();
            assert!(builds() == n);
        } else {
            history(&mut PRcH(PRc::new()), None, 2);
        }
    }
    fn plain_in_sync [8] {
        let mut o = PInSync::new();
        history(&mut o, None, K);
        assert!(!o.has_bar());
    }
    fn builder_sees_current_state [8] {
        let mut o = PSeed::new();
        let mut seed = 0;
        let mut cur: Option<u8> = None;
        let mut i = 0;
        while i < K {
            match nd::below(3) {
                0 => { let v = nd::val(); o.set_seed(v); seed = v; }
                1 => { let r = *o.foo(); let e = cur.unwrap_or(seed); assert!(r == e, "lazy: value built from the state at the time of the build"); cur = Some(e); }
                _ => { assert!(o.clear_foo() == cur); cur = None; }
            }
            i += 1;
        }
        reach!(cur.is_some() && cur != Some(seed), "cached value survives a change of its source");
    }
}
