//! Whatever the client sends. What is checked here is what the executor checks
//! on every path: no panic, no overflow, no access out of bounds, no loop
//! without end. The packet buffer lies at the end of its object.
use crate::api::*;
use crate::err::{script, CMDS, N};
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::common::Signal;
use gdbstub::stub::*;
const FILE_ID: u32 = 2_100_000;

fn fresh<U: AddrW>(caps: u64, size: usize) -> S<U> {
    let b: &'static mut [u8] = unsafe { &mut PB[PBMAX - size..] };
    S::over(caps, b)
}
/// the session goes on, or has ended with an error value
fn sane<U: AddrW>(s: &S<U>) {
    ck!(s.sm.is_some() != s.err.is_some());
    ck!(r().nout <= NOUT);
}
/// a further exchange, whatever came before
fn further<U: AddrW>(s: &mut S<U>) {
    match s.st() {
        St::Idle => {
            s.sends("?");
        }
        St::Running => {
            s.stop_m(BaseStopReason::SwBreak(nz(2)));
        }
        St::CtrlC => {
            s.interrupt_handled(Some(BaseStopReason::Signal(Signal::SIGINT)));
        }
        St::Disc => {
            s.return_to_idle();
            s.sends("g");
        }
        St::Dead => {}
    }
    sane(s);
}
fn config(k: u8) -> u64 {
    [FULL | ARCHXML, FULL | MULTI, FULL | MULTI | XMLOV & !EXT | RLE, BARE, BARE | MULTI][k as usize]
}
/// arbitrary bytes on the wire
fn raw(n: usize, sizes: u8) {
    let size = pick(sizes) as usize;
    let mut s = fresh::<u32>(config(pick(2)), size);
    for i in 0..size {
        pb_end(size)[i] = any();
    }
    let running = size > 5 && pick(2) == 1;
    if running {
        s.sends("c");
        if s.st() != St::Running {
            return;
        }
    }
    for _ in 0..n {
        s.byte(any());
        if s.st() == St::CtrlC {
            s.interrupt_handled(None);
        }
    }
    sane(&s);
    further(&mut s);
    if s.st() == St::Idle {
        cov!();
    }
}
fn pb_end(size: usize) -> &'static mut [u8] {
    unsafe { &mut PB[PBMAX - size..] }
}
/// up to each field of each command
const OPEN: [&str; 113] = [
    // 0
    "", "?", "g", "G", "G01", "m", "m1", "m1,", "m1,2", "M", "M1", "M1,",
    "M1,1", "M1,1:", "M1,2:0", "X", "X1", "X1,", "X1,1:", "X1,1:}", "p", "p1", "P", "P1",
    // 24
    "P1=", "P1=0", "H", "Hg", "Hgp", "Hgp1.", "Hc", "Hc-", "T", "T1", "Tp1.", "D",
    "D;", "k", "vKill", "vKill;", "!", "R", "R0", "vRun", "vRun;", "vRun;6", "vRun;61;", "vAttach",
    // 48
    "vAttach;", "qAttached", "qAttached:", "QDisableRandomization", "QDisableRandomization:", "QEnvironmentHexEncoded", "QEnvironmentHexEncoded:", "QEnvironmentHexEncoded:61", "QEnvironmentHexEncoded:613d", "QEnvironmentUnset:", "QEnvironmentReset", "QSetWorkingDir:",
    "QStartupWithShell:", "qRcmd", "qRcmd,", "qRcmd,6", "qOffsets", "qSupported", "qSupported:", "qSupported:a;", "qSupported:a=", "qXfer:features:read:", "qXfer:features:read:target.xml:", "qXfer:features:read:target.xml:0,",
    // 72
    "qXfer:memory-map:read::", "qXfer:memory-map:read::0,", "qXfer:auxv:read::1,", "qXfer:exec-file:read:", "qXfer:exec-file:read:1:", "qXfer:libraries-svr4:read::", "vFile", "vFile:", "vFile:open:", "vFile:open:61,", "vFile:open:61,0,", "vFile:close:",
    "vFile:pread:", "vFile:pread:1,", "vFile:pread:1,4,", "vFile:pwrite:", "vFile:pwrite:1,", "vFile:pwrite:1,2,", "vFile:fstat:", "vFile:unlink:", "vFile:readlink:", "vFile:setfs:", "QCatchSyscalls:", "QCatchSyscalls:1;",
    // 96
    "qRegisterInfo", "qThreadExtraInfo,", "Z", "Z0,", "Z0,1,", "Z2,1,4", "z1,1,4", "vCont", "vCont;", "vCont;c", "vCont;c:", "vCont;C", "vCont;r1,", "vCont;r1,2:", "c", "s", "b",
];
/// the tracing commands
const OPEN_T: [&str; 31] = [
    "QT", "QTDP:", "QTDP:1:", "QTDP:1:5:", "QTDP:1:5:E:", "QTDP:1:5:E:1:", "QTDP:1:5:E:1:1", "QTDP:1:5:E:1:1:", "QTDP:-1:5:", "QTDP:-1:5:R", "QTDP:-1:5:M",
    "QTDP:-1:5:X", "QTDP:-1:5:X1,", "QTDP:-1:5:X1,00", "QTDP:-1:5:S", "QTDP:-1:5:R0M1,", "QTDPsrc:", "QTDPsrc:1:5:", "QTDPsrc:1:5:at:", "QTDPsrc:1:5:cmd:0:", "QTDPsrc:1:5:cond:0:1:",
    "qTP:", "qTP:1:", "qTBuffer:", "qTBuffer:1,", "QTBuffer:", "QTBuffer:size:", "QTBuffer:circular:", "QTFrame:", "QTFrame:pc:", "QTFrame:range:1:",
];
fn tail(open: &[&str], n: u8, caps: u64, after: bool) {
    let k = pick(open.len() as u8) as usize;
    let mut s = fresh::<u32>(caps, 64);
    script();
    let mut b = Bs::new();
    b.s(open[k]);
    for _ in 0..n {
        b.b(any());
    }
    s.send(b.sl());
    sane(&s);
    if after {
        further(&mut s);
    }
}
/// every command cut short anywhere
fn cut<U: AddrW>(lo: u8, hi: u8) {
    let k = lo + pick(hi - lo);
    let c = CMDS[k as usize].as_bytes();
    let mut s = fresh::<U>(config(pick(3)), 64);
    script();
    let n = pick(c.len() as u8 + 1) as usize;
    s.send(&c[..n]);
    sane(&s);
    further(&mut s);
}
/// every command with any one byte replaced by any other, or one more inserted
fn altered<U: AddrW>(lo: u8, hi: u8, cfgs: u8) {
    let k = lo + pick(hi - lo);
    let c = CMDS[k as usize].as_bytes();
    let mut s = fresh::<U>(config(pick(cfgs)), 64);
    script();
    let n = pick(c.len() as u8 + 1) as usize;
    let mut b = Bs::new();
    let insert = pick(2) == 1;
    for i in 0..c.len() {
        if i == n {
            b.b(any());
        }
        if i != n || insert {
            b.b(c[i]);
        }
    }
    if n == c.len() {
        b.b(any());
    }
    s.send(b.sl());
    sane(&s);
    further(&mut s);
}
/// very long fields and lists
fn filled(open: &[&str], caps: u64) {
    const F: [u8; 14] = *b"0f;:,-+.}*=\x00\x80A";
    let k = pick(open.len() as u8) as usize;
    let mut s = fresh::<u32>(caps, 200);
    script();
    let n = [3usize, 16, 17, 40, 150][pick(5) as usize];
    let f = F[pick(14) as usize];
    let two = pick(2) == 1;
    let mut b = Bs::new();
    b.s(open[k]);
    for i in 0..n {
        b.b(if two && i & 1 == 1 { b'1' } else { f });
    }
    s.send(b.sl());
    sane(&s);
    further(&mut s);
}
/// tiny packet buffers
fn tiny(lo: u8, hi: u8) {
    let k = lo + pick(hi - lo);
    let c = CMDS[k as usize].as_bytes();
    let mut s = fresh::<u32>(config(pick(3)), pick(36) as usize);
    script();
    s.send(c);
    sane(&s);
    further(&mut s);
}
/// no threads, one, four; ids at the edges
fn threads(lo: u8, hi: u8) {
    let k = lo + pick(hi - lo);
    let mut s = fresh::<u32>(config(1), 64);
    script();
    r().nthreads = [0, 1, 4][pick(3) as usize];
    r().threads = [usize::MAX, 1, 0x100, 2];
    if pick(2) == 1 {
        s.sends("qSupported:multiprocess+");
    }
    s.sends(CMDS[k as usize]);
    sane(&s);
    further(&mut s);
}
/// while the target runs, when interrupted, and after the end
fn states(lo: u8, hi: u8) {
    let k = lo + pick(hi - lo);
    let mut s = fresh::<u32>(config(pick(2)), 64);
    script();
    match pick(4) {
        0 => s.sends("vCont;c"),
        1 => s.byte(3),
        2 => {
            s.sends("D");
            s.return_to_idle();
        }
        _ => {
            s.sends("vCont;c");
            s.byte(3);
            if pick(2) == 1 {
                s.interrupt_handled(None);
            }
        }
    }
    s.sends(CMDS[k as usize]);
    sane(&s);
    further(&mut s);
    further(&mut s);
}
/// one command after another
fn pairs(lo: u8, hi: u8) {
    let k = lo + pick(hi - lo);
    let mut s = fresh::<u32>(config(pick(3)), 64);
    script();
    s.sends(CMDS[k as usize]);
    s.sends(CMDS[pick(N) as usize]);
    sane(&s);
    further(&mut s);
}
/// a target whose answers are arbitrary in size and number
fn answers(lo: u8, hi: u8) {
    let k = lo + pick(hi - lo);
    let size = [64, 24][pick(2) as usize];
    let mut s = fresh::<u32>(config(pick(3)), size);
    script();
    r().ret = [0usize, 3, 60, NSRC][pick(4) as usize];
    r().sel = pick(4);
    assume(r().ret > 0 || r().sel != 2);
    let v = [1, 0x100, u32::MAX as u64][pick(3) as usize];
    r().num[..8].copy_from_slice(&[v; 8]);
    assume(k != 58 || v == 1);
    if k == 58 {
        r().num[8] = pick(3) as u64;
        r().num[9] = 2 - r().num[8];
    }
    r().flag = any_bool();
    s.sends(CMDS[k as usize]);
    sane(&s);
}
/// every command while any one capability is missing
fn lacking(lo: u8, hi: u8) {
    let k = lo + pick(hi - lo);
    let all = FULL | MULTI | ARCHXML;
    let one = pick(46);
    let c = if pick(2) == 1 { all & !(1 << one) } else { BARE | 1 << one };
    let mut s = fresh::<u32>(c, 64);
    script();
    s.sends(CMDS[k as usize]);
    sane(&s);
    further(&mut s);
}
harness! {
fn ro_raw3() { raw(3, 9) }
fn ro_raw4() { raw(4, 9) }
fn ro_raw5() { raw(5, 9) }
fn ro_raw6() { raw(6, 9) }
fn ro_tail1() { tail(&OPEN, 1, FULL | ARCHXML, true) }
fn ro_tail1m() { tail(&OPEN, 1, FULL | MULTI | RLE, true) }
fn ro_tail1t() { tail(&OPEN_T, 1, FULL, true) }
fn ro_tail2() { tail(&OPEN, 2, FULL | ARCHXML, false) }
fn ro_tail2m() { tail(&OPEN, 2, FULL | MULTI, false) }
fn ro_tail2t() { tail(&OPEN_T, 2, FULL, false) }
fn ro_tail3() { tail(&OPEN, 3, FULL | MULTI, false) }
fn ro_tail3t() { tail(&OPEN_T, 3, FULL, false) }
fn ro_tail4() { tail(&OPEN, 4, FULL | MULTI, false) }
fn ro_tail4t() { tail(&OPEN_T, 4, FULL, false) }
fn ro_tail5() { tail(&OPEN, 5, FULL | ARCHXML, false) }
fn ro_cut() { cut::<u32>(0, N) }
fn ro_cut16() { cut::<u16>(0, N) }
fn ro_cut64() { cut::<u64>(0, N) }
fn ro_alt_a() { altered::<u32>(0, 30, 3) }
fn ro_alt_b() { altered::<u32>(30, 60, 3) }
fn ro_alt_c() { altered::<u32>(60, N, 3) }
fn ro_alt16_a() { altered::<u16>(0, 30, 1) }
fn ro_alt16_c() { altered::<u16>(60, N, 1) }
fn ro_alt64_a() { altered::<u64>(0, 30, 1) }
fn ro_alt64_c() { altered::<u64>(60, N, 1) }
fn ro_fill() { filled(&OPEN, FULL | ARCHXML) }
fn ro_fillm() { filled(&OPEN, FULL | MULTI) }
fn ro_fillt() { filled(&OPEN_T, FULL) }
fn ro_tiny() { tiny(0, N) }
fn ro_threads() { threads(0, N) }
fn ro_states() { states(0, N) }
fn ro_pairs() { pairs(0, N) }
fn ro_answers_a() { answers(0, 30) }
fn ro_answers_b() { answers(30, 60) }
fn ro_answers_c() { answers(60, N) }
fn ro_lack() { lacking(0, N) }
}
