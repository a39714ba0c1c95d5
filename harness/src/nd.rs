//! Inputs of the harnesses.  Under Kani each call is one fresh symbolic byte; in a native replay the bytes
//! of the solver's model (counterexample or witness) are consumed in the same order.
#[cfg(kani)]
pub fn u8() -> u8 {
    kani::any::<u8>()
}
#[cfg(kani)]
pub fn assume(c: bool) {
    kani::assume(c)
}

#[cfg(not(kani))]
mod native {
    pub static mut BYTES: Vec<u8> = Vec::new();
    pub static mut POS: usize = 0;
}
#[cfg(not(kani))]
#[allow(static_mut_refs)]
pub fn u8() -> u8 {
    unsafe {
        let p = native::POS;
        native::POS += 1;
        if p < native::BYTES.len() { native::BYTES[p] } else { 0 }
    }
}
#[cfg(not(kani))]
pub fn assume(c: bool) {
    if !c {
        println!("ASSUME-FAILED");
        std::process::exit(3);
    }
}
#[cfg(not(kani))]
#[allow(static_mut_refs)]
pub fn load(b: Vec<u8>) {
    unsafe {
        native::BYTES = b;
        native::POS = 0;
    }
}

/// Any set of 32.
pub fn bits() -> u32 {
    u8() as u32 | (u8() as u32) << 8 | (u8() as u32) << 16 | (u8() as u32) << 24
}
/// Any value below `n`.
pub fn below(n: u8) -> u8 {
    let x = u8();
    assume(x < n);
    x
}
pub fn flag() -> bool {
    below(2) == 1
}
/// A value the user stores: never one a builder returns (builders return 100, 101, ...) nor a default (200..).
pub fn val() -> u8 {
    let x = u8();
    assume(x < 100);
    x
}
pub fn opt() -> Option<u8> {
    if flag() { Some(val()) } else { None }
}
