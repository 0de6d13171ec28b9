//! The blocking event loop.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::common::Signal;
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::run_blocking::*;
use gdbstub::stub::*;
const FILE_ID: u32 = 2_000_000;
type U = u32;
type Stop = MultiThreadStopReason<U>;

/// what the embedding program does when asked; chosen when first asked, and
/// repeated when the same script is run again
#[derive(Clone, Copy)]
struct Plan {
    what: [u8; 24],
    val: [u8; 24],
    n: usize,
    pos: usize,
    /// choices left
    left: usize,
    /// pass on bytes until the packet is complete
    until: bool,
    /// a long conversation: what to do follows from what has been read
    long: bool,
}
static mut PLAN: Plan = Plan { what: [0; 24], val: [0; 24], n: 0, pos: 0, left: 0, until: false, long: false };
#[allow(static_mut_refs)]
fn plan() -> &'static mut Plan {
    unsafe { &mut PLAN }
}
fn next(kinds: u8, last: u8) -> (u8, u8) {
    let p = plan();
    if p.pos == p.n && p.n < 24 {
        if p.left == 0 {
            p.what[p.n] = last;
        } else {
            p.left -= 1;
            p.what[p.n] = pick(kinds);
        }
        p.val[p.n] = any();
        p.n += 1;
    }
    p.pos += 1;
    (p.what[p.pos - 1], p.val[p.pos - 1])
}
/// the interrupt hook
enum Int {
    None,
    Stop(Stop),
    Fail(u8),
}
fn interrupt() -> Int {
    ev(O_INT, r().rpos as u64, r().nout as u64, 0, 0);
    if plan().long {
        return if r().rpos % 2 == 0 { Int::None } else { Int::Stop(BaseStopReason::Signal(Signal(r().rpos as u8))) };
    }
    match next(3, 2) {
        (0, _) => Int::None,
        (1, v) => Int::Stop(BaseStopReason::Signal(Signal(v))),
        (_, v) => Int::Fail(v),
    }
}
enum Wait {
    Stop(Stop),
    Byte,
    Fail(u8),
    Lost(u8),
}
fn wait() -> Wait {
    ev(O_WAIT, r().rpos as u64, r().nout as u64, 0, 0);
    if plan().until {
        return Wait::Byte;
    }
    if plan().long {
        // what was typed while running comes first
        if r().rpos < r().ninput && input(r().rpos) != b'$' {
            return Wait::Byte;
        }
        return Wait::Stop(BaseStopReason::Signal(Signal(plan().val[0])));
    }
    match next(6, 2) {
        (0, v) => Wait::Stop(BaseStopReason::Signal(Signal(v))),
        (1, v) => Wait::Stop(BaseStopReason::Exited(v)),
        (2, v) => Wait::Fail(v),
        (3, v) => Wait::Lost(v),
        (4, _) => {
            plan().until = true;
            Wait::Byte
        }
        (_, v) => Wait::Stop(BaseStopReason::SwBreak(nz(2))),
    }
}
/// was this the last byte of a packet?
fn ends(b: u8) {
    let p = r().rpos;
    if p >= 3 && input(p - 3) == b'#' || b == 3 || b == b'+' {
        plan().until = false;
    }
}
struct Loop;
impl BlockingEventLoop for Loop {
    type Target = Mock<U>;
    type Connection = Conn;
    type StopReason = Stop;
    fn wait_for_stop_reason(_t: &mut Mock<U>, c: &mut Conn) -> Result<Event<Stop>, WaitForStopReasonError<u8, u8>> {
        match wait() {
            Wait::Stop(s) => Ok(Event::TargetStopped(s)),
            Wait::Byte => match c.read() {
                Ok(b) => {
                    ends(b);
                    Ok(Event::IncomingData(b))
                }
                Err(e) => Err(WaitForStopReasonError::Connection(e)),
            },
            Wait::Fail(e) => Err(WaitForStopReasonError::Target(e)),
            Wait::Lost(e) => Err(WaitForStopReasonError::Connection(e)),
        }
    }
    fn on_interrupt(_t: &mut Mock<U>) -> Result<Option<Stop>, u8> {
        match interrupt() {
            Int::None => Ok(None),
            Int::Stop(s) => Ok(Some(s)),
            Int::Fail(e) => Err(e),
        }
    }
}
fn looped(caps: u64) -> Result<DisconnectReason, Err> {
    r().caps = caps;
    let mut t = Mock::<U>::new();
    match GdbStubBuilder::new(Conn).with_packet_buffer(pb(64)).build() {
        Ok(g) => match g.run_blocking::<Loop>(&mut t) {
            Ok(d) => Ok(d),
            Err(e) => Err(classify(e)),
        },
        Err(_) => Err(Err::Other),
    }
}
/// what the loop has to do, one step at a time
fn stepped(caps: u64) -> Result<DisconnectReason, Err> {
    let mut s = S::<U>::over(caps, pb(64));
    loop {
        match s.st() {
            St::Dead => return Err(s.err.unwrap_or(Err::Other)),
            St::Disc => {
                return match s.disc_reason() {
                    Some(d) => Ok(d),
                    None => Err(Err::Other),
                }
            }
            St::Idle => {
                if r().rpos >= r().ninput || r().rpos == r().rfail_at {
                    return Err(Err::Conn(r().code, b'R'));
                }
                let b = input(r().rpos);
                r().rpos += 1;
                s.byte(b);
            }
            St::CtrlC => match interrupt() {
                Int::None => s.interrupt_handled(None),
                Int::Stop(x) => s.interrupt_handled(Some(x)),
                Int::Fail(e) => return Err(Err::Target(e)),
            },
            St::Running => match wait() {
                Wait::Stop(x) => s.stop_m(x),
                Wait::Fail(e) => return Err(Err::Target(e)),
                Wait::Lost(e) => return Err(Err::Conn(e, b'R')),
                Wait::Byte => {
                    if r().rpos >= r().ninput || r().rpos == r().rfail_at {
                        return Err(Err::Conn(r().code, b'R'));
                    }
                    let b = input(r().rpos);
                    r().rpos += 1;
                    ends(b);
                    s.byte(b);
                }
            },
        }
    }
}
fn queue(p: &[u8]) {
    for b in p {
        if big().on {
            big().cmd[r().ninput] = *b;
        } else {
            r().input[r().ninput] = *b;
        }
        r().ninput += 1;
    }
}
fn pkt(body: &[u8]) {
    let mut sum = 0u8;
    queue(b"$");
    for b in body {
        sum = sum.wrapping_add(*b);
    }
    queue(body);
    queue(&[b'#', hx(sum >> 4), hx(sum & 15)]);
}
/// one step of what the client sends
fn client(kinds: u8) {
    match pick(kinds) {
        0 => pkt(b"vCont;c"),
        1 => queue(&[3]),
        2 => pkt(b"?"),
        3 => pkt(b"D"),
        4 => pkt(b"k"),
        5 => pkt(b"m1,2"),
        // an arbitrary byte
        6 => {
            let b = any();
            assume(b != b'$');
            queue(&[b])
        }
        // an incomplete packet
        7 => queue(b"$g"),
        _ => pkt(&[b'g', any()]),
    }
}
fn compare(caps: u64) -> (Result<DisconnectReason, Err>, Rec) {
    let rec = unsafe { REC };
    let a = looped(caps);
    let ra = unsafe { REC };
    unsafe { REC = rec };
    plan().pos = 0;
    plan().until = false;
    let b = stepped(caps);
    let rb = r();
    // the same questions were asked of the embedding program
    ck!(plan().pos == plan().n);
    ck!(a == b);
    ck!(ra.starts == 1 && rb.starts == 1);
    ck!(ra.rpos == rb.rpos);
    ck!(ra.nout == rb.nout && ra.nout <= NOUT);
    ck!(ra.nflush == rb.nflush && ra.flushed == rb.flushed);
    ck!(ra.nev == rb.nev && ra.ndata == rb.ndata);
    let mut ok = true;
    let mut i = 0;
    while i < ra.nout {
        ok &= ra.out[i] == rb.out[i];
        trace(rb.out[i] as u64);
        i += 1;
    }
    let mut i = 0;
    while i < ra.nev && i < NEV {
        let (x, y) = (ra.ev[i], rb.ev[i]);
        ok &= (x.op == y.op) & (x.a == y.a) & (x.b == y.b) & (x.c == y.c) & (x.d == y.d) & (x.len == y.len);
        i += 1;
    }
    ck!(ok);
    (a, ra)
}
/// any conversation
fn any_script(steps: usize, choices: usize, multi: bool, kinds: u8) {
    for _ in 0..steps {
        client(kinds);
    }
    plan().left = choices;
    r().code = any();
    r().ret = 2;
    let (a, _) = compare(if multi { FULL | MULTI } else { FULL });
    if a.is_ok() {
        cov!();
    }
}
/// a long conversation
fn long(multi: bool, n: usize) {
    big().on = true;
    plan().long = true;
    plan().val[0] = any();
    r().ret = 2;
    let at = [0, n / 2, n - 1][pick(3) as usize];
    for i in 0..n {
        match i % 7 {
            0 => pkt(b"vCont;c"),
            // typed while running: an interrupt, or something else
            1 => queue(&[if i % 2 == 0 { 3 } else { b'+' }]),
            2 => pkt(b"?"),
            3 => pkt(&[b'm', b'1', b'0' + (i % 10) as u8, b',', b'2']),
            4 => queue(b"+"),
            5 => pkt(b"s"),
            _ => pkt(b"vCont?"),
        }
        if i == at {
            pkt(&[b'q', any_but_hash()]);
        }
    }
    pkt(b"D");
    queue(b"$g");
    let (a, ra) = compare(if multi { FULL | MULTI } else { FULL });
    ck!(a == Ok(DisconnectReason::Disconnect));
    ck!(ra.rpos + 2 == ra.ninput);
    ck!(ra.nflush > n / 2);
}
fn any_but_hash() -> u8 {
    let v = any();
    assume((v != b'#') & (v != b'C'));
    v
}
/// reading fails anywhere, or writing does
fn failures(steps: usize) {
    for _ in 0..steps {
        client(7);
    }
    plan().left = 2;
    r().code = any();
    match pick(4) {
        0 => r().rfail_at = any() as usize,
        1 => r().wfail_at = any() as usize,
        2 => r().ffail_at = any() as usize,
        _ => {
            r().fail_at = any() as u32;
            r().fail = Fail::Fatal;
        }
    }
    let (a, _) = compare(FULL | MULTI);
    if a.is_err() {
        cov!();
    }
}
/// a session never started
fn refused() {
    r().sfail = true;
    r().code = any();
    r().caps = FULL;
    queue(b"$?#3f");
    let a = looped(FULL);
    ck!(a == Err(Err::Conn(r().code, b'I')));
    ck!(r().rpos == 0);
    ck!(r().nout == 0);
    let b = looped(FULL & !(SWB | GUARD));
    ck!(b == Err(Err::Other));
    ck!(r().rpos == 0);
    ck!(r().nout == 0);
}
/// spelled out, for a few conversations
fn literal() {
    r().code = any();
    match pick(6) {
        0 => {
            pkt(b"D");
            queue(b"$?#3f");
            ck!(looped(FULL) == Ok(DisconnectReason::Disconnect));
            ck!(r().rpos == 5);
        }
        1 => {
            pkt(b"k");
            ck!(looped(FULL & !EXT) == Ok(DisconnectReason::Kill));
            ck!(r().rpos == 5);
        }
        2 => {
            pkt(b"vCont;c");
            plan().what[0] = 1;
            plan().val[0] = any();
            plan().n = 1;
            ck!(looped(FULL) == Ok(DisconnectReason::TargetExited(plan().val[0])));
            ck!(plan().pos == 1);
        }
        3 => {
            queue(&[3]);
            plan().what[0] = 2;
            plan().val[0] = any();
            plan().n = 1;
            ck!(looped(FULL) == Err(Err::Target(plan().val[0])));
            ck!(plan().pos == 1);
        }
        4 => {
            ck!(looped(FULL) == Err(Err::Conn(r().code, b'R')));
        }
        _ => {
            pkt(b"vCont;c");
            queue(&[3]);
            pkt(b"D");
            // a byte; the hook has nothing to report; then the target stops
            plan().what[0] = 4;
            plan().what[1] = 0;
            plan().what[2] = 5;
            plan().n = 3;
            ck!(looped(FULL) == Ok(DisconnectReason::Disconnect));
            ck!(plan().pos == 3);
            ck!(r().rpos == r().ninput);
        }
    }
}
harness! {
fn bl_any2() { any_script(2, 2, true, 9) }
fn bl_any3() { any_script(3, 2, false, 7) }
fn bl_any4() { any_script(4, 3, true, 6) }
fn bl_fail() { failures(2) }
fn bl_fail3() { failures(3) }
fn bl_refused() { refused() }
fn bl_long() { long(pick(2) == 1, 100) }
fn bl_literal() { literal() }
}
