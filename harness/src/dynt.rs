//! A target or connection behind `&mut dyn` or in a box behaves like itself.
use crate::api::*;
use crate::err::{caps, script, CMDS, N};
use crate::feat::{subset, G};
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::state_machine::GdbStubStateMachine as Gsm;
use gdbstub::stub::*;
use gdbstub::target::Target;
const FILE_ID: u32 = 1_900_000;

/// a connection that writes several bytes at once by itself
pub struct Wide;
impl Connection for Wide {
    type Error = u8;
    fn write(&mut self, b: u8) -> Result<(), u8> {
        Conn.write(b)
    }
    fn write_all(&mut self, b: &[u8]) -> Result<(), u8> {
        r().after += 1;
        Conn.write_all(b)
    }
    fn flush(&mut self) -> Result<(), u8> {
        Conn.flush()
    }
    fn on_session_start(&mut self) -> Result<(), u8> {
        Conn.on_session_start()
    }
}
impl ConnectionExt for Wide {
    fn read(&mut self) -> Result<u8, u8> {
        Conn.read()
    }
    fn peek(&mut self) -> Result<Option<u8>, u8> {
        Conn.peek()
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct End {
    pub st: St,
    pub err: Option<Err>,
}
struct D<T: Target<Error = u8>, C: Connection<Error = u8>> {
    sm: Option<Gsm<'static, T, C>>,
    t: T,
    err: Option<Err>,
}
impl<T: Target<Error = u8>, C: Connection<Error = u8>> D<T, C>
where
    T::Arch: gdbstub::arch::Arch<Usize = u32>,
{
    fn new(mut t: T, c: C) -> Self {
        let (sm, err) = match GdbStubBuilder::new(c).with_packet_buffer(pb(160)).build() {
            Ok(g) => match g.run_state_machine(&mut t) {
                Ok(m) => (Some(m), None),
                Err(e) => (None, Some(classify(e))),
            },
            Err(_) => (None, Some(Err::Other)),
        };
        D { sm, t, err }
    }
    fn put(&mut self, x: Result<Gsm<'static, T, C>, GdbStubError<u8, u8>>) {
        match x {
            Ok(m) => self.sm = Some(m),
            Err(e) => self.err = Some(classify(e)),
        }
    }
    #[inline(never)]
    fn byte(&mut self, b: u8) {
        match self.sm.take() {
            Some(Gsm::Idle(g)) => {
                let x = g.incoming_data(&mut self.t, b);
                self.put(x)
            }
            Some(Gsm::Running(g)) => {
                let x = g.incoming_data(&mut self.t, b);
                self.put(x)
            }
            o => self.sm = o,
        }
    }
    #[inline(never)]
    fn send(&mut self, body: &[u8]) {
        let mut sum = 0u8;
        self.byte(b'$');
        for b in body {
            sum = sum.wrapping_add(*b);
            self.byte(*b)
        }
        self.byte(b'#');
        self.byte(hx(sum >> 4));
        self.byte(hx(sum & 15));
    }
    fn report(&mut self, reason: MultiThreadStopReason<u32>) {
        match self.sm.take() {
            Some(Gsm::Running(g)) => {
                let x = g.report_stop(&mut self.t, reason);
                self.put(x)
            }
            o => self.sm = o,
        }
    }
    fn outcome(&self) -> End {
        End {
            st: match &self.sm {
                None => St::Dead,
                Some(Gsm::Idle(_)) => St::Idle,
                Some(Gsm::Running(_)) => St::Running,
                Some(Gsm::CtrlCInterrupt(_)) => St::CtrlC,
                Some(Gsm::Disconnected(_)) => St::Disc,
            },
            err: self.err,
        }
    }
}
pub fn exchange<T: Target<Error = u8>, C: Connection<Error = u8>>(t: T, c: C, what: &[&[u8]]) -> End
where
    T::Arch: gdbstub::arch::Arch<Usize = u32>,
{
    let mut d = D::new(t, c);
    for w in what {
        d.send(w);
    }
    if !what.is_empty() && what[0] == b"vCont;c" {
        d.report(BaseStopReason::SwBreak(nz(2)));
    }
    d.outcome()
}
/// run it over the mock itself and over the mock behind a pointer, with the
/// same script; everything observable must agree
pub fn same(direct: impl FnOnce() -> End, other: impl FnOnce() -> End) {
    let rec = unsafe { REC };
    let tp = unsafe { TPS };
    let a = direct();
    let ra = unsafe { REC };
    unsafe {
        REC = rec;
        TPS = tp;
    }
    let b = other();
    let rb = r();
    ck!(a == b);
    ck!(ra.nout == rb.nout && ra.nout <= NOUT);
    ck!(ra.nflush == rb.nflush && ra.flushed == rb.flushed);
    ck!(ra.starts == rb.starts);
    ck!(ra.nev == rb.nev);
    ck!(ra.ndata == rb.ndata);
    ck!(ra.after == rb.after);
    ck!(ra.rpos == rb.rpos);
    let mut ok = true;
    let mut i = 0;
    while i < ra.nout {
        ok &= ra.out[i] == rb.out[i];
        trace(rb.out[i] as u64);
        i += 1;
    }
    let mut i = 0;
    while i < ra.nev && i < NEV {
        let (x, y) = (ra.ev[i], rb.ev[i]);
        ok &= (x.op == y.op) & (x.a == y.a) & (x.b == y.b) & (x.c == y.c) & (x.d == y.d) & (x.len == y.len) & (x.off == y.off);
        i += 1;
    }
    let mut i = 0;
    while i < ra.ndata && i < NDATA {
        ok &= ra.data[i] == rb.data[i];
        i += 1;
    }
    ck!(ok);
}
static mut MOCK: core::mem::MaybeUninit<Mock<u32>> = core::mem::MaybeUninit::uninit();
fn borrowed() -> &'static mut dyn Target<Arch = Ar<u32>, Error = u8> {
    unsafe {
        MOCK = core::mem::MaybeUninit::new(Mock::new());
        MOCK.assume_init_mut()
    }
}
fn target(boxed: bool, what: &[&[u8]]) {
    same(
        || exchange(Mock::<u32>::new(), Conn, what),
        || {
            #[cfg(feature = "std")]
            if boxed {
                let t: Box<dyn Target<Arch = Ar<u32>, Error = u8>> = Box::new(Mock::<u32>::new());
                return exchange(t, Conn, what);
            }
            exchange(borrowed(), Conn, what)
        },
    );
}
/// the capabilities a command may depend on, each given or not
fn flip(c: u64, k: u8) -> u64 {
    let one = pick(46);
    if one == 45 {
        c
    } else {
        c ^ 1 << one
    }
}
fn cmds(lo: u8, hi: u8) {
    let k = lo + pick(hi - lo);
    let bx = pick(2) == 1;
    r().caps = flip(caps(pick(2)), k);
    script();
    r().threads = [1, 2, 3, 4];
    for i in 0..2 {
        r().src[i] = any();
        assume(r().src[i] < 128);
    }
    if k == 72 {
        target(bx, &[b"qTfP", CMDS[k as usize].as_bytes()]);
    } else {
        target(bx, &[CMDS[k as usize].as_bytes()]);
    }
}
/// everything advertised
fn features(base: u64, g: u64) {
    r().caps = subset(base, g) | GUARD;
    target(pick(2) == 1, &[b"qSupported:multiprocess+"]);
}
/// resuming, and reporting the stop
fn running() {
    let bx = pick(2) == 1;
    r().caps = flip(caps(pick(2)), 0);
    script();
    match pick(4) {
        0 => {
            let mut b = Bs::new();
            b.s("m");
            sym_hex(&mut b, 2);
            b.s(",");
            sym_hex(&mut b, 1);
            target(bx, &[b"vCont;c", b.sl()])
        }
        1 => target(bx, &[b"vCont;s:1", b"m20,4"]),
        2 => target(bx, &[b"bc"]),
        _ => target(bx, &[b"c"]),
    }
}
/// a target that fails
fn failing() {
    let bx = pick(2) == 1;
    let k = pick(N);
    r().caps = caps(pick(2));
    script();
    r().fail_at = pick(2) as u32;
    r().fail = if pick(2) == 1 { Fail::Errno } else { Fail::Fatal };
    r().code = any();
    target(bx, &[CMDS[k as usize].as_bytes()]);
}
fn conn(kind: u8, what: &[&[u8]]) {
    static mut W: Wide = Wide;
    same(
        || exchange(Mock::<u32>::new(), Wide, what),
        || match kind {
            0 => {
                let c: &'static mut dyn Connection<Error = u8> = unsafe { &mut W };
                exchange(Mock::<u32>::new(), c, what)
            }
            1 => {
                let c: &'static mut dyn ConnectionExt<Error = u8> = unsafe { &mut W };
                exchange(Mock::<u32>::new(), c, what)
            }
            #[cfg(feature = "std")]
            2 => {
                let c: Box<dyn Connection<Error = u8>> = Box::new(Wide);
                exchange(Mock::<u32>::new(), c, what)
            }
            #[cfg(feature = "std")]
            _ => {
                let c: Box<dyn ConnectionExt<Error = u8>> = Box::new(Wide);
                exchange(Mock::<u32>::new(), c, what)
            }
            #[cfg(not(feature = "std"))]
            _ => exchange(Mock::<u32>::new(), Wide, what),
        },
    );
}
/// over a connection behind a pointer, which may fail at any point
fn conns() {
    let kind = pick(4);
    let k = pick(N);
    r().caps = caps(pick(2));
    script();
    r().code = any();
    match pick(4) {
        0 => r().sfail = true,
        1 => r().wfail_at = any() as usize,
        2 => r().ffail_at = any() as usize,
        _ => {}
    }
    conn(kind, &[CMDS[k as usize].as_bytes()]);
}
/// used directly
fn calls<C: ConnectionExt<Error = u8>>(mut c: C) -> End {
    let mut b = Bs::new();
    let mut e = None;
    let mut i = 0;
    while i < 4 {
        match c.peek() {
            Ok(Some(v)) => ev(O_ARG, 1, v as u64, 0, 0),
            Ok(None) => ev(O_ARG, 2, 0, 0, 0),
            Err(x) => ev(O_ARG, 3, x as u64, 0, 0),
        }
        match c.read() {
            Ok(v) => ev(O_ARG, 4, v as u64, 0, 0),
            Err(x) => ev(O_ARG, 5, x as u64, 0, 0),
        }
        i += 1;
    }
    if let Err(x) = c.write(b'a') {
        e = Some(Err::Conn(x, 1));
    }
    if let Err(x) = c.write_all(b"bcd") {
        e = Some(Err::Conn(x, 2));
    }
    if let Err(x) = c.flush() {
        e = Some(Err::Conn(x, 3));
    }
    if let Err(x) = c.on_session_start() {
        e = Some(Err::Conn(x, 4));
    }
    End { st: St::Idle, err: e }
}
fn by_hand() {
    static mut W: Wide = Wide;
    r().code = any();
    r().ninput = pick(4) as usize;
    for i in 0..3 {
        r().input[i] = any();
    }
    r().rfail_at = pick(4) as usize;
    match pick(4) {
        0 => r().sfail = true,
        1 => r().wfail_at = pick(4) as usize,
        2 => r().ffail_at = 0,
        _ => {}
    }
    let bx = pick(2) == 1;
    same(
        || calls(Wide),
        || {
            #[cfg(feature = "std")]
            if bx {
                let c: Box<dyn ConnectionExt<Error = u8>> = Box::new(Wide);
                return calls(c);
            }
            let c: &'static mut dyn ConnectionExt<Error = u8> = unsafe { &mut W };
            calls(c)
        },
    );
    ck!(r().after == 1);
}
harness! {
fn dy_a() { cmds(0, 30) }
fn dy_b() { cmds(30, 60) }
fn dy_c() { cmds(60, N) }
fn dy_f0() { features(FULL | ARCHXML, G[0] | G[1]) }
fn dy_f1() { features(FULL | ARCHXML, G[2] | G[3]) }
fn dy_f2() { features(FULL | ARCHXML, G[4] | G[5]) }
fn dy_f3() { features(FULL | ARCHXML, G[6]) }
fn dy_run() { running() }
fn dy_fail() { failing() }
fn dy_conn() { conns() }
fn dy_calls() { by_hand() }
}
