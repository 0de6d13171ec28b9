//! What an exchange establishes lasts: the acknowledgement mode, the form of
//! thread ids and the selected threads change only through the exchanges that
//! are there to change them.
use crate::api::*;
use crate::err::{caps, script, CMDS, N};
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::common::*;
use gdbstub::stub::*;
const FILE_ID: u32 = 2_200_000;

#[derive(Clone, Copy)]
struct M {
    na: bool,
    mp: bool,
    mem: u64,
    res: Option<u64>,
}
/// a session in which some of it has been changed from its initial state
fn start(multi: bool) -> (S<u32>, M) {
    let mut s = S::<u32>::new(caps(multi as u8), 160);
    script();
    r().threads = [3, 4, 5, 6];
    let mut m = M { na: false, mp: false, mem: 1, res: Some(1) };
    let k = pick(4);
    if k == 1 || k == 2 {
        m.na = true;
    }
    if k == 1 || k == 3 {
        m.mp = true;
        m.mem = 5;
        m.res = Some(6);
    }
    let late = m.mp && pick(2) == 1;
    if m.na && late {
        s.sends("QStartNoAckMode");
        ck!(s.replied_s("OK"));
        s.na = true;
    }
    if m.mp {
        s.sends("qSupported:multiprocess+");
        s.sends("Hg5");
        ck!(s.replied_s("OK"));
        s.sends("Hcp7f.6");
        ck!(s.replied_s("OK"));
    }
    if m.na && !late {
        s.sends("QStartNoAckMode");
        ck!(s.replied_s("OK"));
        s.na = true;
    }
    (s, m)
}
/// is it all as the model says?
fn probe(s: &mut S<u32>, m: M, multi: bool) {
    r().fail_at = u32::MAX;
    s.na = m.na;
    r().src[0] = 0xa5;
    r().ret = 1;
    s.sends("m20,1");
    ck!(s.idle());
    ck!(s.replied_s("a5"));
    ck!(s.one(O_RADDR, 0x20, 1, if multi { m.mem } else { NONE }, 0));
    s.sends("?");
    let mut e = Bs::of("T05thread:");
    tid_str(&mut e, m.mp, 127, if multi { 3 } else { 1 });
    e.b(b';');
    ck!(s.replied(&e));
    ck!(s.ops() == 0);
    s.sends("s");
    match m.res {
        Some(v) if multi => {
            ck!(s.op_is(1, O_SETS, v, NONE, 0, 0));
            ck!(s.ops() == 3);
        }
        _ if !multi => {
            ck!(s.one(O_STEP, NONE, 0, 0, 0));
        }
        _ => {
            ck!(s.protocol_error());
            return;
        }
    }
    ck!(s.acked_only());
    ck!(s.st() == St::Running);
    s.stop_m(MultiThreadStopReason::SignalWithThread { tid: nz(7), signal: Signal(5) });
    let mut e = Bs::of("T05thread:");
    tid_str(&mut e, m.mp, 127, 7);
    e.b(b';');
    ck!(s.sent(&e));
}
/// a command, carried out or failed
fn command(lo: u8, hi: u8, multi: bool) {
    let k = lo + pick(hi - lo);
    let (mut s, mut m) = start(multi);
    if k == 72 || k == 74 {
        s.sends(if k == 72 { "qTfP" } else { "qTfV" });
    }
    if k == 66 || k == 71 || k == 72 {
        r().ret = 5;
    }
    if k == 70 || k == 81 || k == 82 {
        r().sel = 3;
    }
    r().calls = 0;
    let f = pick(2) == 1;
    if f {
        r().fail = Fail::NonFatal;
        r().fail_at = 0;
    }
    s.sends(CMDS[k as usize]);
    match k {
        9 => m.mem = 2,
        10 => m.mem = 3,
        11 => m.res = None,
        12 => m.res = Some(3),
        41 => m.mp = true,
        75 => m.na = true,
        25 | 26 | 27 => {
            // the end (of this debugging session; the connection may go on)
            if s.st() == St::Disc {
                s.return_to_idle();
            }
            assume(s.idle());
        }
        _ => {}
    }
    if r().fatal_only {
        assume(s.err.is_none());
    }
    ck!(s.idle());
    probe(&mut s, m, multi);
}
/// everything else a client or a target may do
fn event(multi: bool) {
    let (mut s, mut m) = start(multi);
    match pick(14) {
        0 => s.byte(b'+'),
        1 => {
            s.byte(3);
            s.interrupt_handled(None);
        }
        2 => {
            // reported by the next resumption
            s.byte(3);
            s.interrupt_handled(Some(MultiThreadStopReason::DoneStep));
            s.sends("c");
            ck!(s.replied_s("S05"));
        }
        3 => {
            s.byte(3);
            s.interrupt_handled(Some(MultiThreadStopReason::SignalWithThread { tid: nz(9), signal: Signal(2) }));
            // not reported yet
            s.sends("c");
            let mut e = Bs::of("T02thread:");
            tid_str(&mut e, m.mp, 127, 9);
            e.b(b';');
            ck!(s.replied(&e));
            m.mem = 9;
            m.res = Some(9);
        }
        4 => {
            s.sends("vCont;c");
            s.stop_m(MultiThreadStopReason::DoneStep);
        }
        5 => {
            s.sends("c");
            s.stop_m(MultiThreadStopReason::Signal(Signal(11)));
        }
        6 => {
            s.sends("vCont;s:1");
            let v = any16() as usize;
            assume(v != 0);
            s.stop_m(MultiThreadStopReason::HwBreak(nz(v)));
            m.mem = v as u64;
            m.res = Some(v as u64);
        }
        7 => {
            s.sends("vCont;c");
            s.byte(3);
            ck!(s.st() == St::CtrlC);
            s.interrupt_handled(None);
            ck!(s.st() == St::Running);
            s.byte(3);
            s.interrupt_handled(Some(MultiThreadStopReason::Signal(Signal(2))));
        }
        8 => {
            // a command while the target runs
            s.sends("vCont;c");
            s.sends(["m20,4", "?", "vMustReplyEmpty", "", "QTFrame:1"][pick(5) as usize]);
            s.stop_m(MultiThreadStopReason::DoneStep);
        }
        9 => {
            // the program ends; the debugger stays
            s.sends("c");
            let c = any();
            s.stop_m(MultiThreadStopReason::Exited(c));
            ck!(s.disc_reason() == Some(DisconnectReason::TargetExited(c)));
            s.return_to_idle();
        }
        10 => {
            s.sends("jUnknown");
            s.sends("qZ");
            assume(s.err.is_none());
        }
        11 => {
            // a stop names the thread for both, whatever was selected
            s.sends("Hc-1");
            s.sends("vCont;c");
            s.stop_m(MultiThreadStopReason::SwBreak(nz(9)));
            m.mem = 9;
            m.res = Some(9);
        }
        12 => {
            s.sends("Hc-1");
            s.sends("vCont;c");
            s.stop_m(MultiThreadStopReason::Signal(Signal(9)));
            m.res = None;
        }
        _ => {
            s.sends("vCont?");
            s.sends("vCtrlC");
        }
    }
    ck!(s.err.is_none());
    ck!(s.idle());
    probe(&mut s, m, multi);
}
harness! {
fn ps_a() { command(0, 30, true) }
fn ps_b() { command(30, 60, true) }
fn ps_c() { command(60, N, true) }
fn ps_s() { command(0, N, false) }
fn ps_ev() { event(true) }
fn ps_evs() { event(false) }
}
