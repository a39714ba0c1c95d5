//! Objects seen as a row of independent cells, some of them optional: every operation acts on one of them.
use crate::nd;

pub const NONE: u8 = 255;
pub const MAX: usize = 8;
pub const SET: u8 = 1;
pub const MUT: u8 = 2;
pub const CLR: u8 = 4;
pub const HAS: u8 = 8;

/// A configuration: `OPS[i]` what cell i offers besides being looked at.
pub trait Cells {
    const OPS: &'static [u8];
    fn set(&mut self, _i: u8, _v: u8) -> u8 {
        unreachable!()
    }
    fn mutate(&mut self, _i: u8, _v: u8) -> u8 {
        unreachable!()
    }
    fn clear(&mut self, _i: u8) -> u8 {
        unreachable!()
    }
    fn has(&mut self, _i: u8) -> bool {
        unreachable!()
    }
    fn look(&mut self, i: u8) -> u8;
}

fn look_all<T: Cells>(o: &mut T, cur: &[u8; MAX]) {
    let mut i = 0;
    while i < T::OPS.len() {
        assert!(o.look(i as u8) == cur[i], "accessor: returns the content of its own field");
        if T::OPS[i] & HAS != 0 {
            assert!(o.has(i as u8) == (cur[i] != NONE), "predicate: tells about its own field");
        }
        i += 1;
    }
}

pub fn history<T: Cells>(o: &mut T, start: [u8; MAX], k: usize) {
    let mut cur = start;
    let mut step = 0;
    while step < k {
        let i = nd::below(T::OPS.len() as u8);
        let op = nd::below(3);
        let w = cur[i as usize];
        nd::assume(T::OPS[i as usize] & (1u8 << op) != 0);
        match 1u8 << op {
            SET => {
                let v = nd::val();
                assert!(o.set(i, v) == w, "setter: returns the content it replaces");
                cur[i as usize] = v;
            }
            MUT => {
                let v = nd::val();
                assert!(o.mutate(i, v) == w, "mutable accessor: shows the content of its own field");
                cur[i as usize] = v;
            }
            _ => {
                assert!(o.clear(i) == w, "clearer: returns the content it removes");
                cur[i as usize] = NONE;
            }
        }
        look_all(o, &cur);
        step += 1;
    }
    look_all(o, &cur);
}

pub trait Num {
    fn num(&self) -> u8;
}
impl Num for u8 {
    fn num(&self) -> u8 {
        *self
    }
}
impl Num for crate::lazy::Tok {
    fn num(&self) -> u8 {
        self.0
    }
}
impl<T: Num> Num for Option<T> {
    fn num(&self) -> u8 {
        match self {
            Some(v) => v.num(),
            None => NONE,
        }
    }
}
impl<T: Num + ?Sized> Num for &T {
    fn num(&self) -> u8 {
        (**self).num()
    }
}
pub fn num<T: Num>(x: T) -> u8 {
    let r = x.num();
    ::std::mem::forget(x);
    r
}
/// Stores a value where an accessor lets us.
pub trait Put: Num {
    fn put(&mut self, v: u8);
}
impl Put for u8 {
    fn put(&mut self, v: u8) {
        *self = v
    }
}
impl Put for crate::lazy::Tok {
    fn put(&mut self, v: u8) {
        self.0 = v
    }
}
impl<T: From<u8> + Num> Put for Option<T> {
    fn put(&mut self, v: u8) {
        *self = Some(T::from(v))
    }
}
pub fn swap<T: Put>(p: &mut T, v: u8) -> u8 {
    let r = p.num();
    p.put(v);
    r
}

/// `cells! { Type; |o, v| { look expr, set expr, mut expr, ...}; ... }`: one brace per cell.
#[macro_export]
macro_rules! cells {
    ($t:ty; |$o:ident, $v:ident| $({ look $look:expr $(, set $set:expr)? $(, mutate $mut:expr)? $(, clear $clr:expr)? $(, has $has:expr)? })*) => {
        #[allow(unused_assignments)]
        impl $crate::cells::Cells for $t {
            const OPS: &'static [u8] = &[$( 0 $( | { stringify!($set); $crate::cells::SET } )? $( | { stringify!($mut); $crate::cells::MUT } )?
                $( | { stringify!($clr); $crate::cells::CLR } )? $( | { stringify!($has); $crate::cells::HAS } )? ),*];
            fn look(&mut self, i: u8) -> u8 {
                let $o = self;
                let mut k = 0;
                $( if i == k { return $crate::cells::num($look); } k += 1; )*
                unreachable!()
            }
            fn set(&mut self, i: u8, $v: u8) -> u8 {
                let $o = self;
                let mut k = 0;
                $( $( if i == k { return $crate::cells::num($set); } )? k += 1; )*
                unreachable!()
            }
            fn mutate(&mut self, i: u8, $v: u8) -> u8 {
                let $o = self;
                let mut k = 0;
                $( $( if i == k { return $crate::cells::swap(&mut *$mut, $v); } )? k += 1; )*
                unreachable!()
            }
            fn clear(&mut self, i: u8) -> u8 {
                let $o = self;
                let mut k = 0;
                $( $( if i == k { return $crate::cells::num($clr); } )? k += 1; )*
                unreachable!()
            }
            fn has(&mut self, i: u8) -> bool {
                let $o = self;
                let mut k = 0;
                $( $( if i == k { return $has; } )? k += 1; )*
                unreachable!()
            }
        }
    };
}
