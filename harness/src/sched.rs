//! Interleavings of whole operations of several threads, chosen by the solver.
//!
//! The lock model calls `hook` at every lock boundary of the running operation; there the solver may let
//! another thread run one complete operation, inside which a third one may run, and so on.  Afterwards the
//! results of all operations must be those of some one-at-a-time order that respects real time.
use crate::nd;
use parking_lot::model;

pub const NONE: u8 = 255;
pub const N: usize = 3;

#[derive(Clone, Copy)]
pub struct Rec {
    pub kind: u8,
    pub arg: u8,
    pub res: u8,
    pub from: u8,
    pub to: u8,
}
const EMPTY: Rec = Rec { kind: 0, arg: 0, res: 0, from: 0, to: 0 };
pub static mut LOG: [Rec; N] = [EMPTY; N];
static mut NEXT: usize = 0;
static mut LIMIT: usize = 0;
static mut DEPTH: usize = 0;
static mut MAXD: usize = 0;
static mut CLOCK: u8 = 0;
static mut KINDS: u8 = 0;
static mut INSIDE: u8 = 0;
static mut EXEC: Option<fn(u8, u8) -> u8> = None;

fn tick() -> u8 {
    unsafe {
        CLOCK += 1;
        CLOCK
    }
}
fn run_one(kind: u8) {
    unsafe {
        let i = NEXT;
        NEXT += 1;
        let arg = nd::val();
        let from = tick();
        let res = (EXEC.unwrap())(kind, arg);
        LOG[i] = Rec { kind, arg, res, from, to: tick() };
    }
}
/// One operation of any allowed kind.  The kinds are tried one by one so that the encoding contains only these.
fn run_any() {
    let k = nd::below(8);
    let mut done = false;
    let mut kk = 0;
    while kk < 8 {
        if unsafe { KINDS } & (1u8 << kk) != 0 && k == kk {
            run_one(kk);
            done = true;
        }
        kk += 1;
    }
    nd::assume(done);
}
fn hook() {
    unsafe {
        if DEPTH < MAXD && NEXT < LIMIT && nd::flag() {
            DEPTH += 1;
            let saved = model::current();
            model::set_current(DEPTH);
            run_any();
            INSIDE += 1;
            model::set_current(saved);
            DEPTH -= 1;
        }
    }
}

/// One operation of the given kind by thread 0, with up to `others` operations of other threads inside it
/// or after it; other threads use the operations in the mask `kinds`.
pub fn overlap(exec: fn(u8, u8) -> u8, first: u8, others: usize, depth: usize, kinds: u8) {
    unsafe {
        EXEC = Some(exec);
        NEXT = 0;
        LIMIT = 1 + others;
        MAXD = depth;
        KINDS = kinds;
        model::set_hook(Some(hook));
        run_one(first);
        model::set_hook(None);
        while NEXT < LIMIT {
            run_any();
        }
    }
}
pub fn done() -> usize {
    unsafe { NEXT }
}

/// Number of operations that ran inside another one.
pub fn inside() -> u8 {
    unsafe { INSIDE }
}

/// `spec(state, builds, kind, arg) -> result` is the one-at-a-time behaviour.
pub type Spec = fn(&mut u8, &mut u8, u8, u8) -> u8;

fn order_ok(spec: Spec, start: u8, builds0: u8, order: &[usize], last: u8, builds: u8) -> bool {
    let (mut st, mut n) = (start, builds0);
    let mut ok = true;
    let mut i = 0;
    while i < order.len() {
        let r = unsafe { LOG[order[i]] };
        // real time: nobody placed after r may have ended before r began
        let mut j = i + 1;
        while j < order.len() {
            ok &= unsafe { LOG[order[j]] }.to > r.from;
            j += 1;
        }
        ok &= spec(&mut st, &mut n, r.kind, r.arg) == r.res;
        i += 1;
    }
    ok && st == last && n == builds
}

/// Is there an order that explains the log, the final content and the number of builds?
pub fn explained(spec: Spec, n: usize, start: u8, builds0: u8, last: u8, builds: u8) -> bool {
    if n == 2 {
        order_ok(spec, start, builds0, &[0, 1], last, builds) || order_ok(spec, start, builds0, &[1, 0], last, builds)
    } else {
        order_ok(spec, start, builds0, &[0, 1, 2], last, builds)
            || order_ok(spec, start, builds0, &[0, 2, 1], last, builds)
            || order_ok(spec, start, builds0, &[1, 0, 2], last, builds)
            || order_ok(spec, start, builds0, &[1, 2, 0], last, builds)
            || order_ok(spec, start, builds0, &[2, 0, 1], last, builds)
            || order_ok(spec, start, builds0, &[2, 1, 0], last, builds)
    }
}

// --- deadlocks between two threads
static mut AT: u8 = 0;
static mut COUNT: u8 = 0;
static mut TOGETHER: bool = false;
static mut GUESS: model::Locks = [0; 3];

fn meet() {
    unsafe {
        if model::current() != 0 {
            return;
        }
        COUNT += 1;
        if COUNT == AT {
            if TOGETHER {
                model::set_current(1);
                run_any();
                // both got on
                nd::assume(false);
            } else {
                model::arm(GUESS);
            }
        }
    }
}

/// A thread runs `first`; at some lock boundary another one begins an operation of the mask `kinds`.  Does some
/// schedule leave each of them waiting for the other?
///
/// The solver guesses the locks the second one gets stuck with.  `first` runs alone on one object, to learn
/// whether it would get stuck on these and with what; then it runs on another one in the same state and the second
/// operation inside it must really get stuck with these locks, waiting for one the first one will not release.
/// `object(i)` makes object i and uses every lock of it; the
/// second operation begins at one of the first `points` lock boundaries.
pub fn deadlock_free(object: fn(usize), select: fn(usize), exec: fn(u8, u8) -> u8, first: u8, kinds: u8, points: u8) {
    unsafe {
        // locks which are not part of an object are numbered first, those of the objects alike
        model::number_from(0);
        object(0);
        let n = model::numbered();
        model::number_from(n);
        object(1);
        model::number_from(n);
        object(2);
        EXEC = Some(exec);
        NEXT = 0;
        KINDS = kinds;
        AT = 1 + nd::below(points);
        GUESS = [nd::bits(), nd::bits(), nd::bits()];
        COUNT = 0;
        TOGETHER = false;
        select(1);
        model::set_hook(Some(meet));
        run_one(first);
        model::set_hook(None);
        model::disarm();
        nd::assume(AT <= COUNT);
        reach!(model::waits(), "one thread waits for the other");
        if nd::flag() {
            COUNT = 0;
            TOGETHER = true;
            model::together();
            NEXT = 0;
            select(2);
            model::set_hook(Some(meet));
            run_one(first);
            model::set_hook(None);
        }
    }
}
