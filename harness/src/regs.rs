//! Register access commands.
use crate::api::*;
use crate::mem::sel;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 300_000;
const MC: u64 = FULL | MULTI;

// ---- the whole block ---------------------------------------------------------
/// every block size up to `max`; unavailable bytes: any subset of the first 5,
/// or a run anywhere
fn g_read<U: AddrW>(caps: u64, max: u8, hist: bool) {
    let mut s = S::<U>::new(caps, 64);
    let tid = if hist {
        history(&mut s);
        if has(MULTI) { 1 } else { NONE }
    } else {
        sel(&mut s)
    };
    let n = pick(max + 1) as usize;
    r().regs_n = n;
    sym_src(n);
    let mut mask = 0u32;
    if n <= 5 {
        let mut i = 0;
        while i < n {
            mask |= (pick(2) as u32) << i;
            i += 1;
        }
    } else {
        let a = pick(n as u8) as u32;
        let b = a + pick((n as u32 - a) as u8) as u32;
        mask = ((1u32 << b) - 1) & !((1u32 << a) - 1);
    }
    r().regs_none = mask;
    s.sends("g");
    let mut e = Bs::new();
    let mut i = 0;
    while i < n {
        if mask >> i & 1 == 1 {
            e.s("xx");
        } else {
            e.h8(r().src[i]);
        }
        i += 1;
    }
    ck!(s.idle());
    ck!(s.replied(&e));
    ck!(s.one(O_RREGS, tid, 0, 0, 0));
}
/// every block length sent against every block size
fn g_write<U: AddrW>(caps: u64, max: u8, hist: bool) {
    let mut s = S::<U>::new(caps, 64);
    let tid = if hist {
        history(&mut s);
        if has(MULTI) { 1 } else { NONE }
    } else {
        sel(&mut s)
    };
    let size = [0usize, 1, 4, 15, 16][pick(5) as usize];
    r().regs_n = size;
    let n = pick(max + 1) as usize;
    let mut d = [0u8; 32];
    let mut c = Bs::new();
    c.b(b'G');
    sym_hexbytes(&mut c, &mut d[..n]);
    s.send(c.sl());
    if n < size {
        ck!(s.ops() == 0);
        ck!(s.protocol_error());
    } else {
        ck!(s.idle());
        ck!(s.replied_s("OK"));
        ck!(s.one(O_WREGS, tid, 0, 0, 0));
        ck!(s.op_data(0, &d[..size]));
    }
}
fn g_fail<U: AddrW>(caps: u64) {
    let mut s = S::<U>::new(caps, 64);
    let tid = if has(MULTI) { 1 } else { NONE };
    let f = sym_fail();
    if pick(2) == 0 {
        s.sends("g");
        ck!(s.one(O_RREGS, tid, 0, 0, 0));
    } else {
        s.sends("G00112233");
        ck!(s.one(O_WREGS, tid, 0, 0, 0));
    }
    ck!(s.failed(f));
}
harness! {
fn g_read_s() { g_read::<u64>(FULL, 16, false) }
fn g_read_m() { g_read::<u32>(MC, 16, false) }
fn g_read_hist() { g_read::<u32>(MC, 2, true) }
fn g_write_s() { g_write::<u32>(FULL, 17, false) }
fn g_write_m() { g_write::<u64>(MC, 17, false) }
fn g_write_hist() { g_write::<u64>(FULL, 5, true) }
fn g_fail_s() { g_fail::<u16>(FULL) }
fn g_fail_m() { g_fail::<u32>(MC) }
}

// ---- one register --------------------------------------------------------------
/// every register number, every number of bytes the target may report
fn p_read<U: AddrW>(caps: u64, digits: u8, hist: bool) {
    let mut s = S::<U>::new(caps, 64);
    let tid = if hist {
        history(&mut s);
        if has(MULTI) { 1 } else { NONE }
    } else {
        sel(&mut s)
    };
    let mut c = Bs::new();
    c.b(b'p');
    let id = if digits > 4 { sym_long(&mut c) } else { sym_num(&mut c, digits) };
    // forks the known ids apart
    let known = rid_size(id as usize);
    sym_src(6);
    r().ret = conc(any_below(7)) as usize;
    s.send(c.sl());
    match known {
        None => {
            ck!(s.idle());
            ck!(s.replied_s(""));
            ck!(s.ops() == 0);
        }
        Some(sz) => {
            let n = if sz != 0 && r().ret > sz { sz } else { r().ret };
            ck!(s.one(O_RREG, tid, id, 0, 0));
            let mut e = Bs::new();
            if n == 0 && sz != 0 {
                let mut i = 0;
                while i < sz {
                    e.s("xx");
                    i += 1;
                }
                ck!(s.idle());
                ck!(s.replied(&e));
            } else if n == 0 || sz != 0 && n != sz {
                ck!(s.protocol_error());
            } else {
                e.hexs(&r().src[..n]);
                ck!(s.idle());
                ck!(s.replied(&e));
            }
        }
    }
}
fn p_write<U: AddrW>(caps: u64, digits: u8, max: u8, hist: bool) {
    let mut s = S::<U>::new(caps, 64);
    let tid = if hist {
        history(&mut s);
        if has(MULTI) { 1 } else { NONE }
    } else {
        sel(&mut s)
    };
    let mut c = Bs::new();
    c.b(b'P');
    let id = if digits > 4 { sym_long(&mut c) } else { sym_num(&mut c, digits) };
    let known = rid_size(id as usize);
    c.b(b'=');
    let n = pick(max) as usize + 1;
    let mut d = [0u8; 16];
    sym_hexbytes(&mut c, &mut d[..n]);
    s.send(c.sl());
    ck!(s.idle());
    match known {
        None => {
            ck!(s.replied_s(""));
            ck!(s.ops() == 0);
        }
        Some(_) => {
            ck!(s.replied_s("OK"));
            ck!(s.one(O_WREG, tid, id, 0, 0));
            ck!(s.op_data(0, &d[..n]));
        }
    }
}
fn p_fail<U: AddrW>(caps: u64) {
    let mut s = S::<U>::new(caps, 64);
    let tid = if has(MULTI) { 1 } else { NONE };
    let f = sym_fail();
    sym_src(4);
    if pick(2) == 0 {
        s.sends("p1");
        ck!(s.one(O_RREG, tid, 1, 0, 0));
    } else {
        s.sends("P1=00112233");
        ck!(s.one(O_WREG, tid, 1, 0, 0));
    }
    ck!(s.failed(f));
}
/// a target that claims more bytes than the register has
fn p_over<U: AddrW>(caps: u64) {
    let mut s = S::<U>::new(caps, 64);
    sym_src(6);
    r().ret = pick(6) as usize;
    r().over = [1usize, 2, 100, usize::MAX / 2][pick(4) as usize];
    s.sends(["p0", "p1", "p2", "p10"][pick(4) as usize]);
    // what it claims is never more than it was asked for, so this must not be
    // taken for a value of some other length
    let sz = s.op(0).b as usize;
    let claim = match rid_size(sz) {
        Some(z) if z != 0 => {
            let n = if r().ret > z { z } else { r().ret };
            if n + r().over == z {
                return;
            }
            ck!(s.protocol_error());
        }
        _ => {
            if r().over > 2 {
                ck!(s.protocol_error());
            }
        }
    };
}
harness! {
fn p_read_s() { p_read::<u64>(FULL, 3, false) }
fn p_read_m() { p_read::<u32>(MC, 16, false) }
fn p_read_hist() { p_read::<u32>(MC, 2, true) }
fn p_write_s() { p_write::<u32>(FULL, 16, 6, false) }
fn p_write_m() { p_write::<u64>(MC, 4, 6, false) }
fn p_write_hist() { p_write::<u64>(FULL, 2, 2, true) }
fn p_fail_s() { p_fail::<u16>(FULL) }
fn p_fail_m() { p_fail::<u32>(MC) }
fn p_over_s() { p_over::<u32>(FULL) }
fn p_over_m() { p_over::<u32>(MC) }
}
