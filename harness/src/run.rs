//! Resuming, stopping, and ending a session.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::common::*;
use gdbstub::stub::*;
use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
use gdbstub::target::ext::breakpoints::WatchKind;
use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
const FILE_ID: u32 = 500_000;
const MC: u64 = FULL | MULTI;

#[derive(Clone, Copy, PartialEq)]
pub enum Sel {
    None,
    All,
    Any,
    Id(u64),
}
/// a thread id, as a client may write it
pub fn sym_tid(c: &mut Bs, forms: u8) -> Sel {
    match pick(forms) {
        0 => {
            let v = sym_hex(c, 1);
            assume(v != 0);
            Sel::Id(v)
        }
        1 => {
            c.s("-1");
            Sel::All
        }
        2 => {
            c.s("p");
            let p = sym_hex(c, 2);
            assume(p != 0);
            c.s(".");
            let v = sym_hex(c, 2);
            assume(v != 0);
            Sel::Id(v)
        }
        3 => {
            c.s("0");
            Sel::Any
        }
        4 => {
            c.s("p");
            let p = sym_hex(c, 1);
            assume(p != 0);
            Sel::All
        }
        5 => {
            c.s("p");
            let p = sym_hex(c, 1);
            assume(p != 0);
            c.s(".-1");
            Sel::All
        }
        6 => {
            c.s("p-1.");
            let v = sym_hex(c, 2);
            assume(v != 0);
            Sel::Id(v)
        }
        7 => {
            let v = sym_ends(c, 16);
            assume(v != 0);
            Sel::Id(v)
        }
        _ => {
            let v = sym_hex(c, 16);
            assume(v != 0);
            Sel::Id(v)
        }
    }
}

/// no call of any of the ways to resume
fn not_resumed<U: AddrW>(s: &S<U>) -> bool {
    let mut i = 0;
    while i < s.ops() {
        let o = s.op(i).op;
        if o == O_RESUME || o == O_STEP || o == O_RANGE || o == O_RCONT || o == O_RSTEP {
            return false;
        }
        i += 1;
    }
    true
}

#[derive(Clone, Copy)]
struct Act {
    kind: u8,
    sig: u64,
    a: u64,
    b: u64,
    t: Sel,
}
/// one well-formed vCont action; full-width addresses if `wide`
fn sym_act<U: AddrW>(c: &mut Bs, kinds: u8, forms: u8, wide: u8) -> Act {
    let mut x = Act { kind: pick(kinds), sig: NONE, a: 0, b: 0, t: Sel::None };
    c.b(b';');
    match x.kind {
        0 => {
            c.b(b'c');
        }
        1 => {
            c.b(b's');
        }
        2 => {
            c.b(b'C');
            x.sig = sym_hex(c, 2);
        }
        3 => {
            c.b(b'S');
            x.sig = sym_hex(c, 2);
        }
        _ => {
            c.b(b'r');
            let n = if wide > 0 { 2 * core::mem::size_of::<U>() as u32 } else { 2 };
            x.a = if wide == 1 { sym_ends(c, n) } else { sym_hex(c, n) };
            c.b(b',');
            x.b = if wide == 1 { sym_ends(c, n) } else { sym_hex(c, n) };
        }
    }
    if forms > 0 && (x.kind == 2 || pick(2) == 1) {
        c.b(b':');
        if forms == 8 && pick(2) == 1 {
            c.s("p");
            let p = sym_hex(c, 1);
            assume(p != 0);
            c.s(".0");
            x.t = Sel::Any;
        } else {
            x.t = sym_tid(c, forms);
        }
        // a signal for every thread: left open
        if x.kind == 2 {
            assume(matches!(x.t, Sel::Id(_)));
        }
    }
    x
}
fn caps_sr(base: u64) -> u64 {
    let k = pick(4) as u64;
    (base & !(STEP | RANGE)) | if k & 1 != 0 { STEP } else { 0 } | if k & 2 != 0 { RANGE } else { 0 }
}
/// a list of actions for a multi-threaded target
fn vc_multi<U: AddrW>(n: usize, kinds: u8, forms: u8, wide: u8, hist: bool) {
    let mut s = S::<U>::new(if n == 1 { caps_sr(MC) } else { MC }, 128);
    if hist {
        history(&mut s);
    }
    let mut c = Bs::of("vCont");
    let mut acts = [Act { kind: 0, sig: 0, a: 0, b: 0, t: Sel::None }; 3];
    let mut i = 0;
    while i < n {
        acts[i] = sym_act::<U>(&mut c, kinds, forms, wide);
        i += 1;
    }
    s.send(c.sl());
    // what the target must have been told
    let mut k = 0;
    ck!(s.op_is(k, O_CLEAR, 0, 0, 0, 0));
    k += 1;
    i = 0;
    while i < n {
        let x = acts[i];
        let bad = match x.kind {
            0 | 2 => false,
            1 | 3 => !has(STEP) || !matches!(x.t, Sel::Id(_)),
            _ => !has(RANGE) || !matches!(x.t, Sel::Id(_)),
        };
        if bad {
            ck!(s.protocol_error());
            ck!(not_resumed(&s));
            return;
        }
        if let Sel::Id(t) = x.t {
            match x.kind {
                0 | 2 => ck!(s.op_is(k, O_SETC, t, x.sig, 0, 0)),
                1 | 3 => ck!(s.op_is(k, O_SETS, t, x.sig, 0, 0)),
                _ => ck!(s.op_is(k, O_SETR, t, x.a, x.b, 0)),
            }
            k += 1;
        }
        i += 1;
    }
    ck!(s.op_is(k, O_RESUME, NONE, 0, 0, 0));
    ck!(s.ops() == k + 1);
    ck!(s.st() == St::Running);
    ck!(s.acked_only());
}
/// a single-threaded target: one action, possibly followed by the default
/// action for other threads
fn vc_single<U: AddrW>(forms: u8, wide: u8, hist: bool) {
    let mut s = S::<U>::new(caps_sr(FULL), 128);
    if hist {
        history(&mut s);
    }
    let mut c = Bs::of("vCont");
    let x = sym_act::<U>(&mut c, 5, forms, wide);
    match pick(3) {
        0 => {}
        1 => {
            c.s(";c");
        }
        _ => {
            c.s(";c:p1.-1");
        }
    }
    s.send(c.sl());
    let ok = match x.kind {
        0 | 2 => true,
        1 | 3 => has(STEP),
        _ => has(RANGE),
    };
    if !ok {
        ck!(s.protocol_error());
        ck!(s.ops() == 0);
        return;
    }
    match x.kind {
        0 | 2 => ck!(s.one(O_RESUME, x.sig, 0, 0, 0)),
        1 | 3 => ck!(s.one(O_STEP, x.sig, 0, 0, 0)),
        _ => ck!(s.one(O_RANGE, x.a, x.b, NONE, 0)),
    }
    ck!(s.st() == St::Running);
    ck!(s.acked_only());
}
/// an action that is not one, at any position
fn vc_bad(caps: u64) {
    let mut s = S::<u32>::new(caps, 128);
    let mut c = Bs::of("vCont");
    let before = pick(if has(MULTI) { 3 } else { 2 });
    let mut i = 0;
    while i < before {
        c.s(if pick(2) == 0 { ";c:1" } else { ";C05:2" });
        i += 1;
    }
    c.b(b';');
    match pick(9) {
        // an unknown kind
        0 => {
            let k = any();
            assume(!matches!(k, b'c' | b'C' | b's' | b'S' | b'r' | b';' | b':' | b'#' | b'?'));
            c.b(k);
        }
        // nothing
        1 => {}
        // a signal that is not a number
        2 => {
            c.s(if pick(2) == 0 { "C" } else { "S" });
            let d = any();
            assume(d < b'0' || d > b'9');
            assume(!matches!(d, b'a'..=b'f' | b'A'..=b'F' | b'x' | b'X' | b';' | b':' | b'#'));
            c.b(d);
            c.s(":1");
        }
        // no signal, or one that does not fit
        3 => {
            c.s(if pick(2) == 0 { "C:1" } else { "C100:1" });
        }
        // trailing characters
        4 => {
            c.s(if pick(2) == 0 { "c1:1" } else { "ss:1" });
        }
        // a thread id that is not one
        5 => {
            c.s("c:");
            let d = any();
            assume(d < b'0' || d > b'9');
            assume(!matches!(d, b'a'..=b'f' | b'A'..=b'F' | b'x' | b'X' | b';' | b':' | b'#'));
            c.b(d);
        }
        6 => {
            c.s(["c:", "c:p", "c:1.1", "c:p1.", "c:-2", "c:00"][pick(6) as usize]);
        }
        // half a range, or bounds the target does not have
        7 => {
            c.s(["r:1", "r1:1", "r1,:1", "r,1:1", "r100000000,1:1", "r1,100000000:1", "rz,1:1", "r1-2:1", "r1 2:1", "r-1,2:1"][pick(10) as usize]);
        }
        // stop, which only exists in non-stop mode
        _ => {
            c.s(if pick(2) == 0 { "t" } else { "t:1" });
        }
    }
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(not_resumed(&s));
}
/// the target refuses at any point of the request
fn vc_fail(caps: u64) {
    let mut s = S::<u32>::new(caps, 128);
    r().fail_at = pick(6) as u32;
    r().code = any();
    s.sends(if has(MULTI) { "vCont;C05:1;s:2;r1,2:3;c" } else { ["vCont;c", "vCont;s", "vCont;r1,2"][pick(3) as usize] });
    let n = if has(MULTI) { 5 } else { 1 };
    if r().fail_at < n {
        ck!(s.err == Some(Err::Target(r().code)));
        ck!(s.ops() == r().fail_at as usize + 1);
    } else {
        ck!(s.st() == St::Running);
        ck!(s.ops() == n as usize);
    }
    ck!(s.acked_only());
}
/// `c` and `s` after a selection
fn vc_legacy<U: AddrW>(caps: u64, forms: u8) {
    let mut s = S::<U>::new(caps_sr(caps), 96);
    let mut t = Sel::Id(1);
    if pick(2) == 1 {
        let mut c = Bs::of("Hc");
        t = sym_tid(&mut c, forms);
        if t == Sel::Any {
            t = Sel::Id(1);
        }
        s.send(c.sl());
        ck!(s.replied_s("OK"));
    }
    let step = pick(2) == 1;
    s.sends(if step { "s" } else { "c" });
    if !has(MULTI) {
        if step && !has(STEP) {
            ck!(s.protocol_error());
            ck!(s.ops() == 0);
            return;
        }
        ck!(s.one(if step { O_STEP } else { O_RESUME }, NONE, 0, 0, 0));
    } else {
        match t {
            Sel::Id(t) => {
                if step && !has(STEP) {
                    ck!(s.protocol_error());
                    ck!(not_resumed(&s));
                    return;
                }
                ck!(s.ops() == 3);
                ck!(s.op_is(0, O_CLEAR, 0, 0, 0, 0));
                ck!(s.op_is(1, if step { O_SETS } else { O_SETC }, t, NONE, 0, 0));
                ck!(s.op_is(2, O_RESUME, NONE, 0, 0, 0));
            }
            _ => {
                if step {
                    ck!(s.protocol_error());
                    ck!(not_resumed(&s));
                    return;
                }
                ck!(s.ops() == 2);
                ck!(s.op_is(0, O_CLEAR, 0, 0, 0, 0));
                ck!(s.op_is(1, O_RESUME, NONE, 0, 0, 0));
            }
        }
    }
    ck!(s.st() == St::Running);
    ck!(s.acked_only());
}
fn vc_query() {
    let mut s = S::<u32>::new(caps_sr(if pick(2) == 0 { FULL } else { MC }), 64);
    s.sends("vCont?");
    let mut e = Bs::of("vCont;c;C");
    if has(STEP) {
        e.s(";s;S");
    }
    if has(RANGE) {
        e.s(";r");
    }
    ck!(s.idle());
    ck!(s.replied(&e));
    ck!(s.ops() == 0);
}
/// two resumptions in a row: the second starts from scratch
fn vc_again() {
    let mut s = S::<u32>::new(MC, 128);
    s.sends("vCont;s:2;C0b:3");
    ck!(s.ops() == 4);
    s.stop_m(MultiThreadStopReason::SwBreak(nz(2)));
    let mut c = Bs::of("vCont");
    let x = sym_act::<u32>(&mut c, 2, 1, 0);
    assume(x.kind == 0 || x.t != Sel::None);
    s.send(c.sl());
    ck!(s.op_is(0, O_CLEAR, 0, 0, 0, 0));
    let mut k = 1;
    if let Sel::Id(t) = x.t {
        ck!(s.op_is(1, if x.kind == 0 { O_SETC } else { O_SETS }, t, NONE, 0, 0));
        k = 2;
    }
    ck!(s.op_is(k, O_RESUME, NONE, 0, 0, 0));
    ck!(s.ops() == k + 1);
}
harness! {
fn vc_m1() { vc_multi::<u32>(1, 5, 8, 0, false) }
fn vc_m1w16() { vc_multi::<u16>(1, 5, 1, 2, false) }
fn vc_m1w64() { vc_multi::<u64>(1, 5, 1, 1, false) }
fn vc_m1f64() { vc_multi::<u64>(1, 5, 9, 2, false) }
fn vc_m3d() { vc_multi::<u64>(3, 5, 8, 0, false) }
fn vc_m2() { vc_multi::<u32>(2, 5, 3, 0, false) }
fn vc_m3() { vc_multi::<u32>(3, 5, 2, 0, false) }
fn vc_mh() { vc_multi::<u64>(1, 5, 2, 0, true) }
fn vc_s() { vc_single::<u32>(8, 0, false) }
fn vc_sw16() { vc_single::<u16>(1, 2, false) }
fn vc_sw64() { vc_single::<u64>(1, 1, false) }
fn vc_sf64() { vc_single::<u64>(9, 2, false) }
fn vc_sh() { vc_single::<u32>(1, 0, true) }
fn vc_bad_m() { vc_bad(MC) }
fn vc_bad_s() { vc_bad(FULL) }
fn vc_fail_m() { vc_fail(MC) }
fn vc_fail_s() { vc_fail(FULL) }
fn vc_leg_m() { vc_legacy::<u32>(MC, 8) }
fn vc_leg_s() { vc_legacy::<u64>(FULL, 8) }
fn vc_q() { vc_query() }
fn vc_twice() { vc_again() }
}

// ---- reverse execution -------------------------------------------------------
fn rev(multi: bool) {
    let k = pick(8) as u64;
    let base = if multi { MC } else { FULL };
    let caps = (base & !(RSTEP | RCONT | RESUME))
        | if k & 1 != 0 { RSTEP } else { 0 }
        | if k & 2 != 0 { RCONT } else { 0 }
        | if k & 4 != 0 { RESUME } else { 0 };
    let mut s = S::<u32>::new(caps, 96);
    let mut t = Sel::Id(1);
    if pick(2) == 1 {
        // a selection for memory access is not one for resumption
        s.sends("Hg7");
    }
    match pick(3) {
        0 => history(&mut s),
        1 => {
            let mut c = Bs::of("Hc");
            t = sym_tid(&mut c, 8);
            if t == Sel::Any {
                t = Sel::Id(1);
            }
            s.send(c.sl());
            ck!(s.replied_s("OK"));
        }
        // the thread of the last stop
        _ => {
            if has(RESUME) {
                s.sends("vCont;c");
                let v = any64();
                assume(v != 0);
                s.stop_m(MultiThreadStopReason::SwBreak(nz(v as usize)));
                t = Sel::Id(v);
            }
        }
    }
    r().fail_at = if pick(2) == 1 { r().calls } else { u32::MAX };
    r().code = any();
    let step = pick(2) == 1;
    s.sends(if step { "bs" } else { "bc" });
    if !has(RESUME) || step && !has(RSTEP) || !step && !has(RCONT) {
        ck!(s.idle());
        ck!(s.replied_s(""));
        ck!(s.ops() == 0);
        return;
    }
    if step {
        match t {
            Sel::Id(t) => ck!(s.one(O_RSTEP, if multi { t } else { NONE }, 0, 0, 0)),
            _ => {
                ck!(s.ops() == 0);
                ck!(s.protocol_error());
                return;
            }
        }
    } else {
        ck!(s.one(O_RCONT, 0, 0, 0, 0));
    }
    ck!(s.acked_only());
    if r().fail_at != u32::MAX {
        ck!(s.err == Some(Err::Target(r().code)));
    } else {
        ck!(s.st() == St::Running);
        // nothing further until the stop is reported
        s.stop_m(MultiThreadStopReason::DoneStep);
        ck!(s.sent_s("S05"));
        ck!(s.idle());
    }
}
harness! {
fn rev_s() { rev(false) }
fn rev_m() { rev(true) }
}

// ---- stop replies --------------------------------------------------------------
pub const NSTOP: u8 = 16;
/// reason `k` with arbitrary contents: what is sent for it (None: the target
/// does not declare the support it depends on), the thread it names, and the
/// way it ends the session
pub struct Stop<U> {
    pub m: MultiThreadStopReason<U>,
    pub s: SingleThreadStopReason<U>,
    pub tid: Option<u64>,
    pub needs: u64,
    pub end: Option<DisconnectReason>,
}
pub fn sym_stop<U: AddrW>(k: u8, e: &mut Bs, multi: bool, mp: bool, pid: u64) -> Stop<U> {
    let tv = if multi { any64() } else { 1 };
    assume(tv != 0);
    let t = nz(tv as usize);
    let sg = any();
    let sig = Signal(sg);
    let num = match core::mem::size_of::<U>() {
        2 => any16() as u64,
        4 => any32() as u64,
        _ => any64(),
    };
    let u = uw::<U>(num);
    let with = |e: &mut Bs, sg: u64| {
        e.b(b'T').num(sg).s("thread:");
        tid_str(e, mp, pid, tv);
        e.b(b';');
    };
    type M<U> = MultiThreadStopReason<U>;
    type Z<U> = SingleThreadStopReason<U>;
    let mut st = Stop { m: M::DoneStep, s: Z::DoneStep, tid: None, needs: 0, end: None };
    match k {
        0 => {
            e.s("S05");
        }
        1 => {
            st.m = M::Exited(sg);
            st.s = Z::Exited(sg);
            e.b(b'W').h8(sg);
            st.end = Some(DisconnectReason::TargetExited(sg));
        }
        2 => {
            st.m = M::Terminated(sig);
            st.s = Z::Terminated(sig);
            e.b(b'X').h8(sg);
            st.end = Some(DisconnectReason::TargetTerminated(sig));
        }
        3 => {
            st.m = M::Signal(sig);
            st.s = Z::Signal(sig);
            e.b(b'S').h8(sg);
        }
        4 => {
            st.m = M::SignalWithThread { tid: t, signal: sig };
            st.s = Z::SignalWithThread { tid: (), signal: sig };
            with(e, sg as u64);
            st.tid = Some(tv);
        }
        5 => {
            st.m = M::SwBreak(t);
            st.s = Z::SwBreak(());
            with(e, 5);
            e.s("swbreak:;");
            st.tid = Some(tv);
            st.needs = SWB;
        }
        6 => {
            st.m = M::HwBreak(t);
            st.s = Z::HwBreak(());
            with(e, 5);
            e.s("hwbreak:;");
            st.tid = Some(tv);
            st.needs = HWB;
        }
        7 | 8 | 9 => {
            let kind = || match k {
                7 => WatchKind::Write,
                8 => WatchKind::Read,
                _ => WatchKind::ReadWrite,
            };
            st.m = M::Watch { tid: t, kind: kind(), addr: u };
            st.s = Z::Watch { tid: (), kind: kind(), addr: u };
            with(e, 5);
            e.s(match k {
                7 => "watch:",
                8 => "rwatch:",
                _ => "awatch:",
            });
            e.num(num).b(b';');
            st.tid = Some(tv);
            st.needs = HWW;
        }
        10 | 11 | 12 => {
            let end = k == 11;
            let pos = || if end { ReplayLogPosition::End } else { ReplayLogPosition::Begin };
            let named = multi && k != 12;
            st.m = M::ReplayLog { tid: if named { Some(t) } else { None }, pos: pos() };
            st.s = Z::ReplayLog { tid: None, pos: pos() };
            if named {
                with(e, 5);
                st.tid = Some(tv);
            } else {
                e.s("T05");
            }
            e.s(if end { "replaylog:end;" } else { "replaylog:begin;" });
            st.needs = RSTEP | RCONT;
        }
        _ => {
            let entry = k == 13;
            let pos = || if entry { CatchSyscallPosition::Entry } else { CatchSyscallPosition::Return };
            let named = multi && k != 15;
            st.m = M::CatchSyscall { tid: if named { Some(t) } else { None }, number: u, position: pos() };
            st.s = Z::CatchSyscall { tid: None, number: u, position: pos() };
            if named {
                with(e, 5);
                st.tid = Some(tv);
            } else {
                e.s("T05");
            }
            e.s(if entry { "syscall_entry:" } else { "syscall_return:" });
            e.num(num).b(b';');
            st.needs = CATCH;
        }
    }
    st
}
fn stop<U: AddrW>(multi: bool, single_api: bool) {
    let base = if multi { MC } else { FULL };
    let k = pick(NSTOP);
    // the support the reason depends on: all there, exactly this missing, or
    // nothing but this there
    let needs = match k {
        5 => SWB,
        6 => HWB,
        7 | 8 | 9 => HWW,
        10 | 11 | 12 => RSTEP | RCONT,
        13 | 14 | 15 => CATCH,
        _ => 0,
    };
    let all = SWB | HWB | HWW | RSTEP | RCONT | CATCH;
    let caps = match pick(5) {
        0 => base,
        1 => base & !needs,
        2 => base & !all | needs,
        3 => base & !(all | needs),
        // (either kind of reverse execution is enough for a replay log)
        _ => base & !(if needs == RSTEP | RCONT { if pick(2) == 0 { RSTEP } else { RCONT } } else { BRK | needs }),
    };
    let pid_there = pick(2) == 1;
    let mut s = S::<U>::new(if pid_there { caps } else { caps & !EXT }, 160);
    let pid = any16() as u64;
    assume(pid != 0);
    r().num[1] = pid;
    let mp = pick(2) == 1;
    if mp {
        s.sends("qSupported:multiprocess+");
        ck!(s.idle());
    }
    s.sends("vCont;c");
    ck!(s.st() == St::Running);
    let mut e = Bs::new();
    let st = sym_stop::<U>(k, &mut e, multi, mp, if pid_there { pid } else { 1 });
    let tid = st.tid;
    if single_api {
        s.stop_s(st.s);
    } else {
        s.stop_m(st.m);
    }
    let there = match needs {
        0 => true,
        n if n == RSTEP | RCONT => r().caps & n != 0,
        n if n == CATCH => has(n),
        n => has(n | BRK),
    };
    ck!(s.ops() == 0);
    if !there {
        ck!(s.silent());
        ck!(s.protocol_error());
        return;
    }
    ck!(s.sent(&e));
    if let Some(end) = st.end {
        ck!(s.st() == St::Disc);
        ck!(s.disc_reason() == Some(end));
        return;
    }
    ck!(s.idle());
    // what later commands act on
    let t = tid.unwrap_or(1);
    match pick(4) {
        0 => {
            s.sends("g");
            ck!(s.one(O_RREGS, if multi { t } else { NONE }, 0, 0, 0));
        }
        1 => {
            sym_src(1);
            s.sends("m0,1");
            ck!(s.one(O_RADDR, 0, 1, if multi { t } else { NONE }, 0));
        }
        2 => {
            s.sends("c");
            if multi {
                ck!(s.ops() == 3);
                ck!(s.op_is(1, O_SETC, t, NONE, 0, 0));
            } else {
                ck!(s.one(O_RESUME, NONE, 0, 0, 0));
            }
        }
        _ => {
            s.sends("s");
            if multi {
                ck!(s.ops() == 3);
                ck!(s.op_is(1, O_SETS, t, NONE, 0, 0));
            } else {
                ck!(s.one(O_STEP, NONE, 0, 0, 0));
            }
        }
    }
}
/// the second stop replaces the thread of the first; one without a thread
/// leaves it alone
fn stop_twice() {
    let mut s = S::<u32>::new(MC, 96);
    let mut t = 1u64;
    let mut i = 0;
    while i < 2 {
        s.sends("vCont;c");
        let v = any16() as u64;
        assume(v != 0);
        match pick(4) {
            0 => {
                s.stop_m(MultiThreadStopReason::SwBreak(nz(v as usize)));
                t = v;
            }
            1 => {
                s.stop_m(MultiThreadStopReason::Signal(Signal(2)));
            }
            2 => {
                s.stop_m(MultiThreadStopReason::ReplayLog { tid: Some(nz(v as usize)), pos: ReplayLogPosition::End });
                t = v;
            }
            _ => {
                s.stop_m(MultiThreadStopReason::CatchSyscall { tid: None, number: 3, position: CatchSyscallPosition::Entry });
            }
        }
        ck!(s.idle());
        i += 1;
    }
    if pick(2) == 0 {
        s.sends("g");
        ck!(s.one(O_RREGS, t, 0, 0, 0));
    } else {
        s.sends("c");
        ck!(s.op_is(1, O_SETC, t, NONE, 0, 0));
    }
}
/// the target fails when asked which process this is
fn stop_pidfail() {
    let mut s = S::<u32>::new(MC, 96);
    s.sends("qSupported:multiprocess+");
    s.sends("vCont;c");
    r().pfail = true;
    r().code = any();
    s.stop_m(MultiThreadStopReason::SwBreak(nz(2)));
    ck!(s.err == Some(Err::Target(r().code)));
}
harness! {
fn stop_s16() { stop::<u16>(false, true) }
fn stop_s64() { stop::<u64>(false, true) }
fn stop_m32() { stop::<u32>(true, false) }
fn stop_m64() { stop::<u64>(true, false) }
fn stop_two() { stop_twice() }
fn stop_pid() { stop_pidfail() }
}

// ---- ends of a session -----------------------------------------------------------
/// the session still works after it was returned to idle
fn reusable<U: AddrW>(s: &mut S<U>) {
    s.return_to_idle();
    ck!(s.idle());
    r().fail_at = u32::MAX;
    r().num[0] = 0x10;
    r().src[0] = 0xa5;
    r().ret = 1;
    s.sends("m10,1");
    let mut e = Bs::new();
    e.h8(r().src[0]);
    ck!(s.replied(&e));
    ck!(s.idle());
}
fn end(running: bool, wide: bool) {
    let k = pick(4);
    let caps = if k & 1 != 0 { FULL } else { FULL & !EXT } | if k & 2 != 0 { MULTI } else { 0 };
    let mut s = S::<u32>::new(caps, 96);
    if running {
        s.sends("vCont;c");
    } else {
        history(&mut s);
    }
    r().flag = pick(2) == 1;
    let mut c = Bs::new();
    match pick(5) {
        0 => {
            c.s("D");
        }
        1 => {
            c.s("D;");
            let p = sym_num(&mut c, 4);
            assume(p != 0);
        }
        2 => {
            c.s("k");
        }
        _ => {
            c.s("vKill;");
            let p = if wide { sym_long(&mut c) } else { sym_hex(&mut c, 2) };
            assume(p != 0);
            s.send(c.sl());
            if !has(EXT) {
                ck!(s.ops() == 0);
                ck!(s.acked_only());
            } else {
                ck!(s.one(O_KILL, p, 0, 0, 0));
                ck!(s.replied_s("OK"));
                if !r().flag {
                    ck!(s.st() == if running { St::Running } else { St::Idle });
                    return;
                }
            }
            ck!(s.st() == St::Disc);
            ck!(s.disc_reason() == Some(DisconnectReason::Kill));
            reusable(&mut s);
            return;
        }
    }
    s.send(c.sl());
    if c.d[0] == b'D' {
        ck!(s.ops() == 0);
        ck!(s.replied_s("OK"));
        ck!(s.st() == St::Disc);
        ck!(s.disc_reason() == Some(DisconnectReason::Disconnect));
    } else {
        if !has(EXT) {
            ck!(s.ops() == 0);
            ck!(s.acked_only());
        } else {
            ck!(s.one(O_KILL, NONE, 0, 0, 0));
            ck!(s.replied_s("OK"));
            if !r().flag {
                ck!(s.st() == if running { St::Running } else { St::Idle });
                return;
            }
        }
        ck!(s.st() == St::Disc);
        ck!(s.disc_reason() == Some(DisconnectReason::Kill));
    }
    reusable(&mut s);
}
fn end_exit() {
    let multi = pick(2) == 1;
    let mut s = S::<u32>::new(if multi { MC } else { FULL }, 96);
    let mut i = 0;
    while i < 2 {
        s.sends(if pick(2) == 0 { "c" } else { "vCont;s:1" });
        let code = if i == 0 { any() } else { 7 };
        let mut e = Bs::new();
        let exit = pick(2) == 1;
        e.b(if exit { b'W' } else { b'X' }).h8(code);
        if pick(2) == 0 {
            s.stop_m(if exit { MultiThreadStopReason::Exited(code) } else { MultiThreadStopReason::Terminated(Signal(code)) });
        } else {
            s.byte(3);
            ck!(s.st() == St::CtrlC);
            s.interrupt_handled(Some(if exit { MultiThreadStopReason::Exited(code) } else { MultiThreadStopReason::Terminated(Signal(code)) }));
        }
        ck!(s.sent(&e));
        ck!(s.st() == St::Disc);
        ck!(s.disc_reason() == Some(if exit { DisconnectReason::TargetExited(code) } else { DisconnectReason::TargetTerminated(Signal(code)) }));
        reusable(&mut s);
        i += 1;
    }
}
fn end_killfail() {
    let mut s = S::<u32>::new(FULL, 96);
    let f = sym_fail();
    s.sends(if pick(2) == 0 { "k" } else { "vKill;1" });
    ck!(s.ops() == 1);
    ck!(s.failed(f));
}
harness! {
fn end_idle() { end(false, false) }
fn end_running() { end(true, true) }
fn end_exits() { end_exit() }
fn end_fail() { end_killfail() }
}
