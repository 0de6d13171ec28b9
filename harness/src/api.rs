//! Primitives interpreted by the symbolic executor (engine/symir.cpp). In the
//! `native` build they read a recorded input instead, so that every path the
//! engine reports can be replayed on the ordinary build of gdbstub.

#[cfg(not(feature = "native"))]
extern "C" {
    fn sym_u8() -> u8;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_pick(v: u8) -> u8;
    fn sym_trace(v: u64);
}

#[cfg(feature = "native")]
mod native {
    pub static mut IN: Vec<u8> = Vec::new();
    pub static mut POS: usize = 0;
    pub static mut TRACE: Vec<u64> = Vec::new();
    #[allow(static_mut_refs)]
    pub unsafe fn sym_u8() -> u8 {
        let v = IN.get(POS).copied().unwrap_or(0);
        POS += 1;
        v
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            println!("RESULT assume-failed");
            std::process::exit(4);
        }
    }
    pub unsafe fn sym_assert(c: bool, id: u32) {
        if !c {
            println!("RESULT assert-failed {}", id);
            std::process::exit(1);
        }
    }
    pub unsafe fn sym_cover(_id: u32) {}
    pub unsafe fn sym_pick(v: u8) -> u8 {
        v
    }
    #[allow(static_mut_refs)]
    pub unsafe fn sym_trace(v: u64) {
        TRACE.push(v)
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub unsafe extern "C" fn replay_input(p: *const u8, n: usize) {
        IN = core::slice::from_raw_parts(p, n).to_vec();
        POS = 0;
        TRACE.clear();
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub unsafe extern "C" fn replay_trace(i: usize) -> u64 {
        TRACE[i]
    }
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub unsafe extern "C" fn replay_trace_len() -> usize {
        TRACE.len()
    }
}
#[cfg(feature = "native")]
use native::*;

/// a fresh, unconstrained byte
#[inline(always)]
pub fn any() -> u8 {
    unsafe { sym_u8() }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(always)]
pub fn assert_id(c: bool, id: u32) {
    unsafe { sym_assert(c, id) }
}
/// reachability marker: a run in which a required marker is not reached by
/// any path is vacuous, and reported as such
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
/// observable value: recorded per path and compared with the native replay
#[inline(always)]
pub fn trace(v: u64) {
    unsafe { sym_trace(v) }
}
/// one path per value in 0..n
#[inline(always)]
pub fn pick(n: u8) -> u8 {
    let v = any();
    assume(v < n);
    unsafe { sym_pick(v) }
}
/// one path per feasible value of `v`
#[inline(always)]
pub fn conc(v: u8) -> u8 {
    unsafe { sym_pick(v) }
}
pub fn any_bool() -> bool {
    any() & 1 == 1
}
pub fn any_below(n: u8) -> u8 {
    let v = any();
    assume(v < n);
    v
}
pub fn any16() -> u16 {
    any() as u16 | (any() as u16) << 8
}
pub fn any32() -> u32 {
    any16() as u32 | (any16() as u32) << 16
}
pub fn any64() -> u64 {
    any32() as u64 | (any32() as u64) << 32
}

/// assertion whose id is its source line (+ the file's base)
#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        $crate::api::assert_id($c, FILE_ID + line!())
    };
}
#[macro_export]
macro_rules! fail {
    () => {
        $crate::api::assert_id(false, FILE_ID + line!())
    };
}
#[macro_export]
macro_rules! cov {
    () => {
        $crate::api::cover(FILE_ID + line!())
    };
}
/// `harness! { name => body }`
#[macro_export]
macro_rules! harness {
    ($(fn $n:ident() $b:block)*) => {
        $(#[no_mangle] pub extern "C" fn $n() { $b })*
    };
}
