//! Reference behaviour of a lazy field and the driver which runs a symbolic history against it.
use crate::nd;

static mut BUILDS: u8 = 0;
/// Called by every lazy builder of the harnesses: counts the run and makes the value of the n-th one.
pub fn built() -> u8 {
    unsafe {
        BUILDS += 1;
        99 + BUILDS
    }
}
pub fn builds() -> u8 {
    unsafe { BUILDS }
}
pub fn reset() {
    unsafe { BUILDS = 0 }
}

/// A value which is neither Copy nor a plain integer.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Tok(pub u8);
impl From<u8> for Tok {
    fn from(v: u8) -> Self {
        Tok(v)
    }
}
impl From<Tok> for u8 {
    fn from(v: Tok) -> Self {
        v.0
    }
}
impl From<&Tok> for u8 {
    fn from(v: &Tok) -> Self {
        v.0
    }
}

pub const GET: u8 = 1;
pub const MUT: u8 = 2;
pub const SET: u8 = 4;
pub const CLR: u8 = 8;
pub const HAS: u8 = 16;
pub const READ: u8 = 32;
pub const WSTORE: u8 = 64;
pub const WCLR: u8 = 128;

/// What the harness does to one lazy field; a configuration implements what its accessors offer.
pub trait LazyObj {
    const OPS: u8;
    fn get(&mut self) -> u8;
    fn mutate(&mut self, _v: u8) -> u8 {
        unreachable!()
    }
    fn set(&mut self, _v: u8) -> Option<u8> {
        unreachable!()
    }
    fn clear(&mut self) -> Option<u8> {
        unreachable!()
    }
    fn has(&self) -> bool {
        unreachable!()
    }
    fn read(&mut self) -> u8 {
        unreachable!()
    }
    /// store through the write guard
    fn wstore(&mut self, _v: u8) -> Option<u8> {
        unreachable!()
    }
    fn wclear(&mut self) -> Option<u8> {
        unreachable!()
    }
    /// The same struct's other lazy field, if the configuration has one, must not be touched.
    fn other(&self) -> Option<u8> {
        None
    }
}

pub fn expect_get(cur: &mut Option<u8>, n: &mut u8) -> u8 {
    match *cur {
        Some(v) => v,
        None => {
            *n += 1;
            let v = 99 + *n;
            *cur = Some(v);
            v
        }
    }
}

/// Runs `k` operations chosen by the solver and compares every result with the reference.
/// Returns the reference's content and number of builds.
pub fn ops<T: LazyObj>(o: &mut T, start: Option<u8>, k: usize) -> (Option<u8>, u8) {
    let mut cur = start;
    let mut n = builds();
    let mut i = 0;
    while i < k {
        let op = nd::below(8);
        nd::assume(T::OPS & (1u8 << op) != 0);
        match 1u8 << op {
            GET => {
                let r = o.get();
                assert!(r == expect_get(&mut cur, &mut n), "lazy: accessor returns the built, stored or cached value");
            }
            READ => {
                let r = o.read();
                assert!(r == expect_get(&mut cur, &mut n), "lazy: reader returns the built, stored or cached value");
            }
            MUT => {
                let v = nd::val();
                let r = o.mutate(v);
                assert!(r == expect_get(&mut cur, &mut n), "lazy: mutable accessor starts from the current value");
                cur = Some(v);
            }
            SET => {
                let v = nd::val();
                let r = o.set(v);
                assert!(r == cur, "lazy: setter returns the previous value");
                cur = Some(v);
            }
            WSTORE => {
                let v = nd::val();
                let r = o.wstore(v);
                assert!(r == cur, "lazy: writer's store returns the previous value");
                cur = Some(v);
            }
            CLR => {
                let r = o.clear();
                assert!(r == cur, "lazy: clearer returns the current value");
                cur = None;
            }
            WCLR => {
                let r = o.wclear();
                assert!(r == cur, "lazy: writer's clear returns the current value");
                cur = None;
            }
            _ => {}
        }
        assert!(builds() == n, "lazy: the builder runs exactly when an unset field is read");
        if T::OPS & HAS != 0 {
            assert!(o.has() == cur.is_some(), "lazy: predicate tells whether a value is present");
        }
        i += 1;
    }
    (cur, n)
}

/// As `history`, but looks at the final content by clearing the field: no build at the end.
pub fn steps<T: LazyObj>(o: &mut T, start: Option<u8>, k: usize) {
    let (cur, n) = ops(o, start, k);
    assert!(o.clear() == cur, "lazy: final content");
    assert!(builds() == n, "lazy: final number of builds");
    if T::OPS & HAS != 0 {
        assert!(!o.has(), "lazy: predicate after a clear");
    }
}

/// Runs `k` operations chosen by the solver, compares every result with the reference and reads the field at the end.
pub fn history<T: LazyObj>(o: &mut T, start: Option<u8>, k: usize) {
    let (mut cur, mut n) = ops(o, start, k);
    // whatever happened, the value is there for the next reader
    let r = o.get();
    assert!(r == expect_get(&mut cur, &mut n), "lazy: final value");
    assert!(builds() == n, "lazy: final number of builds");
    let r = o.get();
    assert!(cur == Some(r), "lazy: cached value");
    assert!(builds() == n, "lazy: cached value is not built again");
}

/// Implements `LazyObj` from the accessor expressions of a configuration.
#[macro_export]
macro_rules! lazy_obj {
    ($t:ty; $($op:ident |$o:ident $(, $v:ident)?| $e:expr;)*) => {
        impl $crate::lazy::LazyObj for $t {
            const OPS: u8 = 0 $( | $crate::lazy_obj!(@bit $op) )*;
            $( $crate::lazy_obj!(@fn $op |$o $(, $v)?| $e); )*
        }
    };
    (@bit get) => { $crate::lazy::GET };
    (@bit mutate) => { $crate::lazy::MUT };
    (@bit set) => { $crate::lazy::SET };
    (@bit clear) => { $crate::lazy::CLR };
    (@bit has) => { $crate::lazy::HAS };
    (@bit read) => { $crate::lazy::READ };
    (@bit wstore) => { $crate::lazy::WSTORE };
    (@bit wclear) => { $crate::lazy::WCLR };
    (@fn get |$o:ident| $e:expr) => { fn get(&mut self) -> u8 { let $o = self; ($e).into() } };
    (@fn read |$o:ident| $e:expr) => { fn read(&mut self) -> u8 { let $o = self; ($e).into() } };
    // $e is a mutable place: read the old value, store the new one
    (@fn mutate |$o:ident| $e:expr) => {
        fn mutate(&mut self, v: u8) -> u8 { let $o = self; let mut p = $e; let old = ::std::mem::replace(&mut *p, v.into()); old.into() }
    };
    (@fn set |$o:ident, $v:ident| $e:expr) => { fn set(&mut self, $v: u8) -> Option<u8> { let $o = self; ($e).map(|x| x.into()) } };
    (@fn wstore |$o:ident, $v:ident| $e:expr) => { fn wstore(&mut self, $v: u8) -> Option<u8> { let $o = self; ($e).map(|x| x.into()) } };
    (@fn clear |$o:ident| $e:expr) => { fn clear(&mut self) -> Option<u8> { let $o = self; ($e).map(|x| x.into()) } };
    (@fn wclear |$o:ident| $e:expr) => { fn wclear(&mut self) -> Option<u8> { let $o = self; ($e).map(|x| x.into()) } };
    (@fn has |$o:ident| $e:expr) => { fn has(&self) -> bool { let $o = self; $e } };
}
