//! Thread selection and thread queries.
use crate::api::*;
use crate::mock::*;
use crate::run::{sym_tid, Sel};
use crate::session::*;
use crate::*;
use gdbstub::stub::*;
const FILE_ID: u32 = 700_000;
const MC: u64 = FULL | MULTI;

/// up to `max` threads with arbitrary ids
pub fn sym_threads(max: u8, wide: bool) {
    let n = pick(max + 1) as usize;
    r().nthreads = n;
    let mut i = 0;
    while i < n {
        let v = if wide { any64() } else { any16() as u64 };
        assume(v != 0);
        r().threads[i] = v as usize;
        i += 1;
    }
}
/// `n` selections, then an operation
fn select(caps: u64, n: usize, forms: u8, hist: bool, nops: u8) {
    let mut s = S::<u32>::new(caps, 96);
    if hist {
        history(&mut s);
        r().nthreads = 1;
        r().threads[0] = 9;
    } else {
        sym_threads(2, false);
    }
    let mut mem = 1u64;
    let mut res = Sel::Id(1);
    let mut i = 0;
    while i < n {
        let g = pick(2) == 0;
        let mut c = Bs::new();
        c.b(b'H').b(if g { b'g' } else { b'c' });
        let mut t = sym_tid(&mut c, forms);
        s.send(c.sl());
        ck!(s.ops() == 0);
        if t == Sel::Any {
            if has(MULTI) {
                if r().nthreads == 0 {
                    ck!(s.idle());
                    ck!(s.replied_s("E01"));
                    i += 1;
                    continue;
                }
                t = Sel::Id(r().threads[0] as u64);
            } else {
                t = Sel::Id(1);
            }
        }
        if g {
            match t {
                Sel::Id(v) => mem = v,
                _ => {
                    // memory of all threads: there is no such thing
                    ck!(s.protocol_error());
                    return;
                }
            }
        } else {
            res = t;
        }
        ck!(s.idle());
        ck!(s.replied_s("OK"));
        i += 1;
    }
    // a command in between changes nothing
    if n < 2 && !hist && forms < 8 {
        match pick(4) {
            0 => {}
            1 => s.sends("qfThreadInfo"),
            2 => s.sends("T1"),
            _ => s.sends("?"),
        }
    }
    let m = if has(MULTI) { mem } else { NONE };
    sym_src(4);
    r().num[0] = 0;
    match pick(nops) {
        3 => {
            s.sends("g");
            ck!(s.one(O_RREGS, m, 0, 0, 0));
        }
        7 => {
            s.sends("G00112233");
            ck!(s.one(O_WREGS, m, 0, 0, 0));
        }
        2 => {
            s.sends("m0,1");
            ck!(s.one(O_RADDR, 0, 1, m, 0));
        }
        0 => {
            s.sends("M5,1:aa");
            ck!(s.one(O_WADDR, 5, 1, m, 0));
        }
        4 => {
            s.sends("X5,1:a");
            ck!(s.one(O_WADDR, 5, 1, m, 0));
        }
        5 => {
            s.sends("p1");
            ck!(s.one(O_RREG, m, 1, 0, 0));
        }
        6 => {
            s.sends("P1=00000000");
            ck!(s.one(O_WREG, m, 1, 0, 0));
        }
        1 => {
            s.sends("c");
            if !has(MULTI) {
                ck!(s.one(O_RESUME, NONE, 0, 0, 0));
            } else if let Sel::Id(v) = res {
                ck!(s.ops() == 3);
                ck!(s.op_is(1, O_SETC, v, NONE, 0, 0));
            } else {
                ck!(s.ops() == 2);
            }
        }
        8 => {
            s.sends("s");
            if !has(MULTI) {
                ck!(s.one(O_STEP, NONE, 0, 0, 0));
            } else if let Sel::Id(v) = res {
                ck!(s.ops() == 3);
                ck!(s.op_is(1, O_SETS, v, NONE, 0, 0));
            } else {
                ck!(s.protocol_error());
            }
        }
        _ => {
            s.sends("bs");
            if let Sel::Id(v) = res {
                ck!(s.one(O_RSTEP, if has(MULTI) { v } else { NONE }, 0, 0, 0));
            } else {
                ck!(s.protocol_error());
            }
        }
    }
}
/// listing the threads fails while 'any' is selected
fn select_fail() {
    let mut s = S::<u32>::new(MC, 96);
    r().lfail = true;
    r().code = any();
    s.sends(if pick(2) == 0 { "Hg0" } else { "Hc0" });
    ck!(s.err == Some(Err::Target(r().code)));
    ck!(s.ops() == 0);
}
/// a selection outlives a command that failed, and is replaced by a stop
fn select_stop() {
    let mut s = S::<u32>::new(MC, 96);
    s.sends("Hg5");
    s.sends("Hc6");
    r().fail = Fail::Errno;
    r().fail_at = 0;
    s.sends("g");
    ck!(s.idle());
    r().fail_at = u32::MAX;
    let stopped = pick(2) == 1;
    let v = any16() as u64;
    assume(v != 0);
    if stopped {
        s.sends("vCont;c");
        s.stop_m(MultiThreadStopReason::HwBreak(nz(v as usize)));
    }
    if pick(2) == 0 {
        s.sends("m0,1");
        ck!(s.one(O_RADDR, 0, 1, if stopped { v } else { 5 }, 0));
    } else {
        s.sends("c");
        ck!(s.ops() == 3);
        ck!(s.op_is(1, O_SETC, if stopped { v } else { 6 }, NONE, 0, 0));
    }
}
harness! {
fn h_sel1() { select(MC, 1, 8, false, 10) }
fn h_sel1b() { select(MC, 1, 4, false, 10) }
fn h_sel1h() { select(MC, 1, 4, true, 2) }
fn h_sel1s() { select(FULL, 1, 8, false, 10) }
fn h_sel2() { select(MC, 2, 4, false, 5) }
fn h_sel2s() { select(FULL, 2, 2, false, 3) }
fn h_sel2d() { select(MC, 2, 8, false, 10) }
fn h_sel3() { select(MC, 3, 4, false, 4) }
fn h_full() { select(MC, 1, 9, false, 2) }
fn h_fail() { select_fail() }
fn h_stop() { select_stop() }
}

// ---- queries -------------------------------------------------------------------
/// a session with or without process ids in thread ids; the process id
pub fn named<U: AddrW>(caps: u64) -> (S<U>, bool, u64) {
    let own = pick(2) == 1;
    let mut s = S::<U>::new(if own { caps } else { caps & !EXT }, 160);
    let mut pid = 1;
    if own {
        pid = any32() as u64;
        assume(pid != 0);
    }
    r().num[1] = pid;
    let mp = pick(2) == 1;
    if mp {
        s.sends(if pick(2) == 0 { "qSupported:multiprocess+" } else { "qSupported:multiprocess-;xmlRegisters=i386;multiprocess+;swbreak+" });
        ck!(s.idle());
    } else if pick(2) == 1 {
        s.sends("qSupported:multiprocess+;vContSupported+");
        s.sends("qSupported:multiprocess-");
    }
    (s, mp, pid)
}
fn list(caps: u64, max: u8, wide: bool) {
    let (mut s, mp, pid) = named::<u32>(caps);
    sym_threads(max, wide);
    s.sends("qfThreadInfo");
    let mut e = Bs::of("m");
    if has(MULTI) {
        let mut i = 0;
        while i < r().nthreads {
            if i > 0 {
                e.b(b',');
            }
            tid_str(&mut e, mp, pid, r().threads[i] as u64);
            i += 1;
        }
    } else {
        tid_str(&mut e, mp, pid, 1);
    }
    ck!(s.idle());
    ck!(s.replied(&e));
    s.sends("qsThreadInfo");
    ck!(s.idle());
    ck!(s.replied_s("l"));
    ck!(r().nev == 0);
}
fn alive(caps: u64, max: u8, long: bool) {
    let mut s = S::<u32>::new(caps, 96);
    if !long {
        history(&mut s);
    }
    sym_threads(max, false);
    let mut c = Bs::of("T");
    let mut v;
    if pick(2) == 1 {
        c.s("p");
        let p = sym_num(&mut c, 2);
        assume(p != 0);
        c.s(".");
    }
    v = if long { sym_long(&mut c) } else { sym_num(&mut c, 2) };
    assume(v != 0);
    s.send(c.sl());
    let mut there = false;
    if has(MULTI) {
        let mut i = 0;
        while i < r().nthreads {
            there |= r().threads[i] as u64 == v;
            i += 1;
        }
    } else {
        there = v == 1;
    }
    ck!(s.idle());
    ck!(s.ops() == 0);
    if there {
        ck!(s.replied_s("OK"));
    } else {
        ck!(s.replied_s("E01"));
    }
}
/// the initial stop query
fn question(caps: u64) {
    let (mut s, mp, pid) = named::<u32>(caps);
    sym_threads(2, true);
    assume(r().nthreads > 0);
    if pick(2) == 1 {
        // whatever thread is selected
        s.sends("Hg77");
    }
    s.sends("?");
    let mut e = Bs::of("T05thread:");
    tid_str(&mut e, mp, pid, if has(MULTI) { r().threads[0] as u64 } else { 1 });
    e.b(b';');
    ck!(s.idle());
    ck!(s.replied(&e));
    ck!(s.ops() == 0);
}
/// the current thread
fn current(caps: u64) {
    let (mut s, mp, pid) = named::<u32>(caps);
    assume(has(EXT));
    sym_threads(2, true);
    assume(r().nthreads > 0);
    let mut t = r().threads[0] as u64;
    match pick(3) {
        0 => {}
        1 => {
            let mut c = Bs::of("Hg");
            t = sym_num(&mut c, 3);
            // (selecting thread 1: see th_cur1)
            assume(t > 1);
            s.send(c.sl());
            ck!(s.replied_s("OK"));
        }
        _ => {
            // a selection for resumption is not one for memory access
            s.sends("Hc5");
        }
    }
    s.sends("qC");
    let mut e = Bs::of("QC");
    tid_str(&mut e, mp, pid, if has(MULTI) { t } else { 1 });
    ck!(s.idle());
    ck!(s.replied(&e));
    ck!(s.ops() == 0);
}
fn extra(caps: u64) {
    let mut s = S::<u32>::new(caps, 96);
    let h = pick(2) == 0;
    if h {
        history(&mut s);
    }
    let mut c = Bs::of("qThreadExtraInfo,");
    if pick(2) == 1 {
        c.s("p");
        let p = sym_hex(&mut c, 2);
        assume(p != 0);
        c.s(".");
    }
    let v = if h { sym_hex(&mut c, 1) } else { sym_long(&mut c) };
    assume(v != 0);
    let n = pick(if h { 2 } else { 7 }) as usize;
    sym_src(n);
    let fail = pick(2) == 1;
    if fail {
        r().fail_at = r().calls;
        r().code = any();
    }
    s.send(c.sl());
    ck!(s.one(O_EXTRA, v, 0, 0, 0));
    if fail {
        ck!(s.err == Some(Err::Target(r().code)));
        return;
    }
    let mut e = Bs::new();
    e.hexs(&r().src[..n]);
    ck!(s.idle());
    ck!(s.replied(&e));
}
/// single-threaded, or without the extension
fn extra_none() {
    let mut s = S::<u32>::new(if pick(2) == 0 { FULL } else { MC & !EXTRA }, 96);
    s.sends("qThreadExtraInfo,p1.1");
    ck!(s.idle());
    ck!(s.replied_s(""));
    ck!(s.ops() == 0);
}
/// the target fails: no complete response, its error handed out
fn query_fail() {
    let mut s = S::<u32>::new(MC, 96);
    let q = pick(4);
    if q != 1 && pick(2) == 1 {
        s.sends("qSupported:multiprocess+");
        r().pfail = true;
    } else {
        r().lfail = true;
    }
    r().code = any();
    s.sends(["qfThreadInfo", "T5", "?", "qC"][q as usize]);
    ck!(s.err == Some(Err::Target(r().code)));
    let mut i = s.mark;
    while i < r().nout {
        ck!(r().out[i] != b'#');
        i += 1;
    }
    // one answer only
    ck!(s.ops() == 0);
}
/// thread 1 selected although it is not the first
fn current1() {
    let mut s = S::<u32>::new(MC, 96);
    r().threads = [2, 1, 3, 4];
    s.sends("Hg1");
    s.sends("qC");
    ck!(s.replied_s("QC01"));
}
harness! {
fn th_list_m() { list(MC, 3, false) }
fn th_list_w() { list(MC, 1, true) }
fn th_list_s() { list(FULL, 0, false) }
fn th_alive_m() { alive(MC, 3, false) }
fn th_alive_l() { alive(MC, 2, true) }
fn th_alive_s() { alive(FULL, 1, true) }
fn th_q_m() { question(MC) }
fn th_q_s() { question(FULL) }
fn th_cur_m() { current(MC) }
fn th_cur_s() { current(FULL) }
fn th_extra() { extra(MC) }
fn th_extra0() { extra_none() }
fn th_fail() { query_fail() }
fn th_cur1() { current1() }
}
