//! Reference behaviour of an optional field.
use crate::nd;

pub const GET: u8 = 1;
pub const MUT: u8 = 2;
pub const SET: u8 = 4;
pub const CLR: u8 = 8;
pub const HAS: u8 = 16;
pub const READ: u8 = 32;
pub const WRITE: u8 = 64;

pub trait OptObj {
    const OPS: u8;
    fn get(&mut self) -> Option<u8> {
        unreachable!()
    }
    /// replaces the content through the mutable accessor
    fn mutate(&mut self, _: Option<u8>) -> Option<u8> {
        unreachable!()
    }
    fn set(&mut self, _: u8) -> Option<u8> {
        unreachable!()
    }
    fn clear(&mut self) -> Option<u8> {
        unreachable!()
    }
    fn has(&self) -> bool {
        unreachable!()
    }
    fn read(&mut self) -> Option<u8> {
        unreachable!()
    }
    fn write(&mut self, _: Option<u8>) -> Option<u8> {
        unreachable!()
    }
}

pub fn history<T: OptObj>(o: &mut T, start: Option<u8>, k: usize) {
    let mut cur = start;
    look(o, cur);
    let mut i = 0;
    while i < k {
        let op = nd::below(8);
        nd::assume(T::OPS & (MUT | SET | CLR | WRITE) & (1u8 << op) != 0);
        match 1u8 << op {
            MUT => {
                let v = nd::opt();
                assert!(o.mutate(v) == cur, "optional: mutable accessor shows the current content");
                cur = v;
            }
            WRITE => {
                let v = nd::opt();
                assert!(o.write(v) == cur, "optional: writer shows the current content");
                cur = v;
            }
            SET => {
                let v = nd::val();
                assert!(o.set(v) == cur, "optional: setter returns the previous content");
                cur = Some(v);
            }
            _ => {
                assert!(o.clear() == cur, "optional: clearer returns the current content");
                cur = None;
            }
        }
        look(o, cur);
        i += 1;
    }
}
pub fn look<T: OptObj>(o: &mut T, cur: Option<u8>) {
    if T::OPS & HAS != 0 {
        assert!(o.has() == cur.is_some(), "optional: predicate tells whether a value is present");
    }
    if T::OPS & GET != 0 {
        assert!(o.get() == cur, "optional: accessor shows the last stored content");
    }
    if T::OPS & READ != 0 {
        assert!(o.read() == cur, "optional: reader shows the last stored content");
    }
}

#[macro_export]
macro_rules! opt_obj {
    ($t:ty; $($op:ident |$o:ident $(, $v:ident)?| $e:expr;)*) => {
        impl $crate::opt::OptObj for $t {
            const OPS: u8 = 0 $( | $crate::opt_obj!(@bit $op) )*;
            $( $crate::opt_obj!(@fn $op |$o $(, $v)?| $e); )*
        }
    };
    (@bit get) => { $crate::opt::GET };
    (@bit mutate) => { $crate::opt::MUT };
    (@bit set) => { $crate::opt::SET };
    (@bit clear) => { $crate::opt::CLR };
    (@bit has) => { $crate::opt::HAS };
    (@bit read) => { $crate::opt::READ };
    (@bit write) => { $crate::opt::WRITE };
    // $e: an Option of something that converts to u8, or a guard of one
    (@fn get |$o:ident| $e:expr) => { fn get(&mut self) -> Option<u8> { let $o = self; ($e).as_ref().map(|x| (*x).clone().into()) } };
    (@fn read |$o:ident| $e:expr) => { fn read(&mut self) -> Option<u8> { let $o = self; ($e).as_ref().map(|x| (*x).clone().into()) } };
    (@fn mutate |$o:ident| $e:expr) => {
        fn mutate(&mut self, v: Option<u8>) -> Option<u8> { let $o = self; let mut p = $e; ::std::mem::replace(&mut *p, v.map(|x| x.into())).map(|x| x.into()) }
    };
    (@fn write |$o:ident| $e:expr) => {
        fn write(&mut self, v: Option<u8>) -> Option<u8> { let $o = self; let mut p = $e; ::std::mem::replace(&mut *p, v.map(|x| x.into())).map(|x| x.into()) }
    };
    (@fn set |$o:ident, $v:ident| $e:expr) => { fn set(&mut self, $v: u8) -> Option<u8> { let $o = self; ($e).map(|x| x.into()) } };
    (@fn clear |$o:ident| $e:expr) => { fn clear(&mut self) -> Option<u8> { let $o = self; ($e).map(|x| x.into()) } };
    (@fn has |$o:ident| $e:expr) => { fn has(&self) -> bool { let $o = self; $e } };
}
