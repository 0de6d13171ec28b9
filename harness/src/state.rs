//! The session state machine against a model of the protocol.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::common::*;
use gdbstub::stub::*;
const FILE_ID: u32 = 600_000;
const MC: u64 = FULL | MULTI;

fn reason(end: bool, code: u8) -> MultiThreadStopReason<u32> {
    if end {
        MultiThreadStopReason::Exited(code)
    } else {
        MultiThreadStopReason::Signal(Signal(code))
    }
}
/// `n` events, each any of those possible in the state the model is in
fn model(caps: u64, n: usize) {
    let mut s = S::<u32>::new(caps, 96);
    let mut st = St::Idle;
    let mut from_idle = false;
    let mut deferred: Option<(bool, u8)> = None;
    let mut end: Option<DisconnectReason> = None;
    r().num[0] = 0x10;
    r().src[0] = 0x5a;
    r().ret = 1;
    let mut i = 0;
    while i < n {
        match st {
            St::Idle => match pick(5) {
                0 => {
                    s.sends(if has(MULTI) { "vCont;s:2;c" } else { "vCont;s:1;c" });
                    match deferred.take() {
                        None => {
                            st = St::Running;
                            ck!(s.acked_only());
                        }
                        Some((e, c)) => {
                            let mut b = Bs::new();
                            b.b(if e { b'W' } else { b'S' }).h8(c);
                            ck!(s.replied(&b));
                            if e {
                                st = St::Disc;
                                end = Some(DisconnectReason::TargetExited(c));
                            }
                            cov!();
                        }
                    }
                    ck!(s.ops() == if has(MULTI) { 3 } else { 1 });
                }
                1 => {
                    s.sends("m10,1");
                    ck!(s.replied_s("5a"));
                    ck!(s.ops() == 1);
                }
                2 => {
                    s.begin();
                    s.byte(3);
                    ck!(s.silent());
                    from_idle = true;
                    st = St::CtrlC;
                }
                3 => {
                    s.sends("D");
                    ck!(s.replied_s("OK"));
                    deferred = None;
                    end = Some(DisconnectReason::Disconnect);
                    st = St::Disc;
                }
                _ => {
                    s.begin();
                    s.byte(b'+');
                    ck!(s.silent());
                }
            },
            St::Running => match pick(6) {
                0 => {
                    let c = any();
                    let e = pick(2) == 1;
                    s.stop_m(reason(e, c));
                    let mut b = Bs::new();
                    b.b(if e { b'W' } else { b'S' }).h8(c);
                    ck!(s.sent(&b));
                    if e {
                        end = Some(DisconnectReason::TargetExited(c));
                        st = St::Disc;
                    } else {
                        st = St::Idle;
                    }
                    cov!();
                }
                1 => {
                    s.sends("m10,1");
                    ck!(s.replied_s("5a"));
                    ck!(s.ops() == 1);
                }
                2 => {
                    s.begin();
                    s.byte(3);
                    ck!(s.silent());
                    from_idle = false;
                    st = St::CtrlC;
                }
                4 => {
                    // still only one report
                    s.sends("c");
                    ck!(s.acked_only());
                }
                3 => {
                    s.sends("k");
                    ck!(s.acked_only());
                    end = Some(DisconnectReason::Kill);
                    st = St::Disc;
                }
                _ => {
                    s.begin();
                    s.byte(b'+');
                    ck!(s.silent());
                }
            },
            St::CtrlC => {
                let k = pick(3);
                let c = any();
                let e = k == 2;
                if k == 0 {
                    s.interrupt_handled(None);
                } else {
                    s.interrupt_handled(Some(reason(e, c)));
                }
                ck!(s.ops() == 0);
                if from_idle {
                    ck!(s.silent());
                    if k != 0 {
                        deferred = Some((e, c));
                    }
                    st = St::Idle;
                } else if k == 0 {
                    ck!(s.silent());
                    st = St::Running;
                } else {
                    let mut b = Bs::new();
                    b.b(if e { b'W' } else { b'S' }).h8(c);
                    ck!(s.sent(&b));
                    st = St::Idle;
                    if e {
                        end = Some(DisconnectReason::TargetExited(c));
                        st = St::Disc;
                    }
                }
            }
            _ => {
                ck!(s.disc_reason() == end);
                cov!();
                s.return_to_idle();
                st = St::Idle;
            }
        }
        ck!(s.st() == st);
        i += 1;
    }
}
/// a packet whose bytes arrive partly before and partly after a stop report
/// or an interrupt outcome
fn split_stop() {
    let mut s = S::<u32>::new(MC, 96);
    r().num[0] = 0x10;
    r().src[0] = 0x5a;
    r().ret = 1;
    let p = b"$m10,1#2b";
    let cut = pick(9) as usize;
    let idle = pick(2) == 1;
    if !idle {
        s.sends("vCont;c");
        s.begin();
        s.feed(&p[..cut]);
        ck!(s.silent());
        s.stop_m(MultiThreadStopReason::Signal(Signal(2)));
        ck!(s.sent_s("S02"));
        s.begin();
        s.feed(&p[cut..]);
        ck!(s.replied_s("5a"));
        ck!(s.idle());
    } else {
        // an interrupt byte in front of a packet does not eat into it
        s.byte(3);
        ck!(s.st() == St::CtrlC);
        s.interrupt_handled(None);
        s.begin();
        s.feed(p);
        ck!(s.replied_s("5a"));
        ck!(s.idle());
    }
    ck!(s.ops() == 1);
}
harness! {
fn st_model4() { model(FULL & !EXT, 4) }
fn st_model5m() { model(MC & !EXT, 5) }
fn st_model6() { model(MC & !EXT, 6) }
fn st_split() { split_stop() }
}
