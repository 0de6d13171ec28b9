//! Failing targets and failing connections.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 1_600_000;
/// nearly every command there is (the resume commands apart)
pub const N: u8 = 86;
pub const CMDS: [&str; N as usize] = [
    // 0
    "?", "g", "G0102030405060708", "m20,4", "M20,2:0102", "X20,2:ab", "p0", "p1", "P0=0102", "Hg2",
    // 10
    "Hg0", "Hc-1", "Hc0", "T2", "qC", "qfThreadInfo", "qsThreadInfo", "qThreadExtraInfo,2", "Z0,10,1", "Z1,10,1",
    // 20
    "Z2,10,4", "z0,10,1", "z1,10,1", "z3,10,4", "vCont?", "D", "k", "vKill;1", "!", "R00",
    // 30
    "vRun;61;62", "vAttach;1", "qAttached:1", "QDisableRandomization:1", "QEnvironmentHexEncoded:613d62", "QEnvironmentUnset:61", "QEnvironmentReset", "QSetWorkingDir:61", "QStartupWithShell:1", "qRcmd,61",
    // 40
    "qOffsets", "qSupported:multiprocess+", "qXfer:features:read:target.xml:0,10", "qXfer:memory-map:read::0,10", "qXfer:auxv:read::0,10", "qXfer:exec-file:read:1:0,10", "qXfer:libraries-svr4:read::0,10", "vFile:open:61,0,0", "vFile:close:1", "vFile:pread:1,4,3",
    // 50
    "vFile:pwrite:1,2,a", "vFile:fstat:1", "vFile:unlink:61", "vFile:readlink:61", "vFile:setfs:1", "QCatchSyscalls:1;2;3", "QCatchSyscalls:1", "QCatchSyscalls:0", "qRegisterInfo0", "QTinit",
    // 60
    "QTDP:1:5:E:1:1-", "QTDP:1:5:E:1:1", "QTDP:-1:5:R03X1,00", "QTDPsrc:1:5:at:0:1:61", "qTStatus", "qTP:1:5", "qTBuffer:0,4", "QTBuffer:size:5", "QTStart", "QTStop",
    // 70
    "QTFrame:1", "qTfP", "qTsP", "qTfV", "qTsV", "QStartNoAckMode", "vMustReplyEmpty", "qUnknown", "", "vFile:zzz",
    // 80
    "QTBuffer:circular:1", "QTFrame:pc:5", "QTFrame:tdp:5", "m20,20", "qAttached", "Z4,10,1",
];
pub fn script() {
    let r = r();
    r.num = [1; 13];
    r.num[0] = 0x20;
    r.num[1] = 127;
    r.num[3] = 1;
    r.num[4] = 2;
    r.num[7] = 0;
    r.num[8] = 3;
    r.num[9] = 1;
    r.num[10] = 2;
    for i in 0..8 {
        r.src[i] = b'r' + i as u8;
    }
    r.ret = 4;
    r.regs_n = 8;
    r.flag = true;
    r.sel = 2;
    r.xml = "<t/>";
    tps().step[0] = 1 << 4 | 1;
    tps().step[1] = 1 << 4 | 2;
}
pub fn caps(k: u8) -> u64 {
    match k {
        0 => FULL | ARCHXML,
        1 => FULL | MULTI,
        _ => FULL | MULTI | XMLOV & !EXT | ARCHXML,
    }
}

// ---- failing connections ----------------------------------------------------------
/// once a write or flush failed: the session ended with that error, nothing
/// else was written, nothing else was asked of the target
fn broken<U: AddrW>(s: &S<U>) {
    let r = r();
    if r.natt > r.cfail_at {
        ck!(s.err == Some(Err::Conn(r.code, b'W')));
        ck!(r.after == 0);
        ck!(r.nev == r.cnev);
        cov!();
    } else {
        ck!(!matches!(s.err, Some(Err::Conn(..))));
    }
}
/// fails at an arbitrary point of whatever follows
fn arm() {
    r().cfail_at = any16() as usize;
    r().code = any();
    r().natt = 0;
}
fn cmds(lo: u8, hi: u8, rle: bool) {
    let c = caps(pick(3)) | if rle { RLE } else { 0 };
    let k = lo + pick(hi - lo);
    let mut s = S::<u32>::new(c, 160);
    script();
    if k == 72 {
        s.sends("qTfP");
    }
    if k == 66 {
        r().ret = 5;
    }
    if k == 70 {
        r().sel = 3;
    }
    if pick(2) == 1 {
        s.sends("QStartNoAckMode");
        s.na = true;
    }
    s.begin();
    arm();
    s.sends(CMDS[k as usize]);
    broken(&s);
}
/// what a monitor command prints
fn monitor() {
    let mut s = S::<u32>::new(caps(pick(2)), 160);
    script();
    r().ret = 4;
    r().sel = [0, 1, 3, 250, 252, 254][pick(6) as usize];
    r().flag = pick(2) == 1;
    arm();
    s.sends("qRcmd,61");
    broken(&s);
}
/// every form of status, frame and buffer reply
fn traces() {
    let mut s = S::<u32>::new(FULL, 160);
    script();
    let k = pick(3);
    r().sel = pick([11, 4, 3][k as usize]);
    r().num[1] = if k == 0 { [127, 0, 5][pick(3) as usize] } else { 127 };
    arm();
    s.sends(["qTStatus", "QTFrame:1", "qTBuffer:0,4"][k as usize]);
    broken(&s);
}
fn uploads() {
    let mut s = S::<u32>::new(if pick(2) == 1 { FULL } else { FULL & !TPSRC }, 160);
    script();
    r().num = [5, 5, 5, 5, 5, 5, 5, 5, 2, 2, 2, 2, 2];
    tps().step[0] = 1 << 4 | 1 + pick(2);
    tps().step[1] = (1 + pick(4)) << 4 | 1;
    s.sends("qTfP");
    arm();
    s.sends("qTsP");
    broken(&s);
}
/// the report of a stop, at once or deferred
fn stops() {
    use gdbstub::stub::BaseStopReason::*;
    use gdbstub::stub::*;
    use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
    use gdbstub::target::ext::breakpoints::WatchKind;
    use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
    use gdbstub::common::Signal as Sg;
    let mut s = S::<u32>::new(caps(1), 160);
    script();
    if pick(2) == 1 {
        s.sends("qSupported:multiprocess+");
    }
    let t = nz(2);
    let reason = match pick(11) {
        0 => DoneStep,
        1 => Signal(Sg::SIGTRAP),
        2 => SignalWithThread { tid: t, signal: Sg::SIGTRAP },
        3 => SwBreak(t),
        4 => HwBreak(t),
        5 => Watch { tid: t, kind: WatchKind::Write, addr: 0x1234 },
        6 => ReplayLog { tid: Some(t), pos: ReplayLogPosition::Begin },
        7 => CatchSyscall { tid: Some(t), number: 5, position: CatchSyscallPosition::Entry },
        8 => Exited(3),
        9 => Terminated(Sg::SIGKILL),
        _ => ReplayLog { tid: None, pos: ReplayLogPosition::End },
    };
    if pick(2) == 1 {
        s.sends("vCont;c");
        arm();
        s.stop_m(reason);
    } else {
        s.byte(3);
        s.interrupt_handled(Some(reason));
        arm();
        s.sends("vCont;c");
    }
    broken(&s);
}
/// a resume command, run or refused by a target that cannot
fn resumes() {
    let c = [FULL, FULL | MULTI, FULL & !RESUME, (FULL | MULTI) & !RESUME][pick(4) as usize];
    let mut s = S::<u32>::new(c, 160);
    script();
    arm();
    s.sends(["c", "s", "vCont;c:1", "vCont;s:1", "vCont;r1,2:1;c", "bc", "bs", "C05", "S05"][pick(9) as usize]);
    broken(&s);
}
/// commands while the target runs
fn while_running() {
    let mut s = S::<u32>::new(caps(pick(2)), 160);
    script();
    s.sends("vCont;c:1");
    arm();
    s.sends(["m20,4", "g", "D", "vMustReplyEmpty", "qRcmd,61", "vKill;1"][pick(6) as usize]);
    broken(&s);
}

// ---- failing targets -----------------------------------------------------------------
/// no packet since `begin` says OK
fn no_ok(mark: usize) -> bool {
    let r = r();
    let mut ok = true;
    let mut i = mark;
    while i + 3 < r.nout && r.nout <= NOUT {
        ok &= !((r.out[i] == b'$') & (r.out[i + 1] == b'O') & (r.out[i + 2] == b'K'));
        i += 1;
    }
    ok
}
/// the `at`-th call fails in some way. How it must be answered (None: not)
fn sym_kind(at: u32) -> Option<u8> {
    r().fail_at = at;
    r().code = any();
    match pick(5) {
        0 => {
            r().fail = Fail::NonFatal;
            Some(121)
        }
        1 => {
            r().fail = Fail::Errno;
            Some(r().code)
        }
        2 => {
            r().fail = Fail::Io;
            Some(r().code)
        }
        3 => {
            r().fail = Fail::IoNone;
            Some(121)
        }
        _ => {
            r().fail = Fail::Fatal;
            None
        }
    }
}
/// does the selection made before still hold, and is everything else as if
/// the command had not been sent?
fn unchanged(s: &mut S<u32>, multi: bool) {
    r().fail_at = u32::MAX;
    r().ret = 2;
    s.sends("g");
    if multi {
        ck!(s.one(O_RREGS, 3, 0, 0, 0));
    } else {
        ck!(s.ops() == 1);
    }
    ck!(s.idle());
    s.sends("c");
    ck!(s.st() == St::Running);
    if multi {
        ck!(s.op_is(1, O_SETC, 4, NONE, 0, 0));
    }
    ck!(s.ops() == if multi { 3 } else { 1 });
}
fn is_file(k: u8) -> bool {
    k >= 47 && k <= 54
}
/// command `k` fails at its `at`-th call
fn target(lo: u8, hi: u8) {
    let k = lo + pick(hi - lo);
    let c = pick(2);
    let mut s = S::<u32>::new(caps(c), 160);
    let multi = c == 1;
    script();
    r().threads = [3, 4, 5, 6];
    if k == 72 {
        s.sends("qTfP");
    }
    if multi {
        s.sends("Hg3");
        s.sends("Hc4");
    }
    r().ret = 0;
    if k == 64 {
        r().sel = 11;
    }
    if k == 70 || k == 81 || k == 82 {
        r().sel = 4;
    }
    if k == 66 || k == 71 || k == 72 {
        r().sel = 0;
        tps().step = [0; 8];
    }
    r().calls = 0;
    let at = pick(3) as u32;
    let f = sym_kind(at);
    // (their own form of error: C21)
    assume(!is_file(k) || f.is_none());
    s.sends(CMDS[k as usize]);
    if r().calls <= at {
        // not that many calls
        ck!(s.err.is_none());
        return;
    }
    ck!(no_ok(s.mark));
    let f = if r().fatal_only { None } else { f };
    match f {
        Some(x) => {
            let mut e = Bs::new();
            e.b(b'E').h8(x);
            ck!(s.idle());
            ck!(s.replied(&e));
            unchanged(&mut s, multi);
            cov!();
        }
        None => {
            ck!(s.err == Some(Err::Target(r().code)));
            // nothing that could be taken for a response
            let mut i = s.mark;
            while i < r().nout {
                ck!(r().out[i] != b'#');
                i += 1;
            }
        }
    }
}
/// listing the threads, or naming the current process, fails
fn lists() {
    let multi = pick(2) == 1;
    let mut s = S::<u32>::new(caps(multi as u8), 160);
    script();
    s.sends("qSupported:multiprocess+");
    r().code = any();
    let k = pick(7) as usize;
    let l = pick(2) == 1;
    if l {
        r().lfail = true;
    } else {
        r().pfail = true;
    }
    s.sends(["?", "qC", "qfThreadInfo", "Hg0", "Hc0", "vRun;61", "vAttach;1"][k]);
    let uses = if l { multi && (k < 5 || k > 4) } else { k < 3 || k > 4 };
    if uses {
        ck!(s.err == Some(Err::Target(r().code)));
        ck!(no_ok(s.mark));
        let mut i = s.mark;
        while i < r().nout {
            ck!(r().out[i] != b'#');
            i += 1;
        }
    } else {
        ck!(s.err.is_none());
        ck!(s.idle());
    }
}
/// resuming fails: only ever fatally
fn resume_fails() {
    let multi = pick(2) == 1;
    let mut s = S::<u32>::new(caps(multi as u8), 160);
    script();
    let at = pick(4) as u32;
    r().fail_at = at;
    r().code = any();
    s.sends(["c", "s", "vCont;c:1", "vCont;s:1", "vCont;r1,2:1", "vCont;s:1;c", "bc", "bs"][pick(8) as usize]);
    if r().calls <= at {
        ck!(s.st() == St::Running);
    } else {
        ck!(s.err == Some(Err::Target(r().code)));
        ck!(s.acked_only());
        // and nothing was asked of the target afterwards
        ck!(r().calls == at + 1);
    }
}
/// a fatal error is not replaced by a later one
fn twice() {
    let mut s = S::<u32>::new(caps(pick(2)), 160);
    script();
    let f = sym_kind(0);
    r().fail2_at = 1;
    s.sends(["QTDP:-1:5:R03X1,00", "QTDP:1:5:E:1:1", "QTDP:-1:5:R03R04S"][pick(3) as usize]);
    ck!(no_ok(s.mark));
    ck!(s.ops() == 1);
    ck!(s.failed(f));
}
/// known: the status has been written by the time the explanations fail
fn status_info() {
    let mut s = S::<u32>::new(FULL, 160);
    script();
    r().sel = pick(3);
    r().num[1] = 0;
    let f = sym_kind(1);
    assume(f.is_some());
    s.sends("qTStatus");
    let mut e = Bs::new();
    e.b(b'E').h8(f.unwrap_or(0));
    ck!(s.replied(&e));
}
fn status_info_rest() {
    let mut s = S::<u32>::new(FULL, 160);
    script();
    r().sel = pick(3);
    r().num[1] = 0;
    let f = sym_kind(1);
    s.sends("qTStatus");
    ck!(no_ok(s.mark));
    ck!(s.ops() == 2);
    if f.is_some() {
        ck!(s.idle());
        // (what was answered: er_tstatus)
        s.sends("g");
        ck!(s.ops() == 1);
        ck!(s.idle());
    } else {
        ck!(s.err == Some(Err::Target(r().code)));
    }
}
harness! {
fn cn_a() { cmds(0, 30, false) }
fn cn_b() { cmds(30, 60, false) }
fn cn_c() { cmds(60, N, false) }
fn cn_rle() { cmds(0, N, true) }
fn cn_mon() { monitor() }
fn cn_mon_n() { monitor() }
fn cn_trace() { traces() }
fn cn_up() { uploads() }
fn cn_stop() { stops() }
fn cn_resume() { resumes() }
fn cn_running() { while_running() }
fn er_a() { target(0, 30) }
fn er_b() { target(30, 60) }
fn er_c() { target(60, N) }
fn er_lists() { lists() }
fn er_resume() { resume_fails() }
fn er_twice() { twice() }
fn er_tstatus() { status_info() }
fn er_tstatus2() { status_info_rest() }
}
