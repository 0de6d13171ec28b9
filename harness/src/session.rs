//! Driving a debug session through the public state-machine API, building the
//! client's packets, and stating what the stub must send back.

use crate::api::*;
use crate::mock::*;
use gdbstub::common::*;
use gdbstub::stub::state_machine::GdbStubStateMachine as Gsm;
use gdbstub::stub::*;

pub const PBMAX: usize = 320;
pub static mut PB: [u8; PBMAX] = [0; PBMAX];
/// the packet buffer handed to the stub
pub fn pb(n: usize) -> &'static mut [u8] {
    unsafe { &mut PB[..n] }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Err {
    Conn(u8, u8),
    Target(u8),
    Other,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum St {
    Idle,
    Running,
    CtrlC,
    Disc,
    Dead,
}

pub struct S<U: AddrW> {
    pub sm: Option<Gsm<'static, Mock<U>, Conn>>,
    pub t: Mock<U>,
    pub err: Option<Err>,
    /// acknowledgements are off
    pub na: bool,
    /// positions before the last command
    pub mark: usize,
    pub emark: usize,
}

/// the text of the last error, if it is wanted
pub struct Said {
    pub on: bool,
    pub b: [u8; 400],
    pub n: usize,
    pub target: bool,
    pub conn: bool,
}
pub static mut SAID: Said = Said { on: false, b: [0; 400], n: 0, target: false, conn: false };
#[allow(static_mut_refs)]
pub fn said() -> &'static mut Said {
    unsafe { &mut SAID }
}
impl core::fmt::Write for Said {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.as_bytes() {
            if self.n < 400 {
                self.b[self.n] = *c;
            }
            self.n += 1;
        }
        Ok(())
    }
}
pub fn classify(e: GdbStubError<u8, u8>) -> Err {
    if said().on {
        said().n = 0;
        said().target = e.is_target_error();
        said().conn = e.is_connection_error();
        let _ = core::fmt::write(said(), format_args!("{}", e));
    }
    if e.is_connection_error() {
        match e.into_connection_error() {
            Some((c, k)) => Err::Conn(
                c,
                match format_kind(&k) {
                    k => k,
                },
            ),
            None => Err::Other,
        }
    } else if e.is_target_error() {
        match e.into_target_error() {
            Some(c) => Err::Target(c),
            None => Err::Other,
        }
    } else {
        Err::Other
    }
}
fn format_kind<K: core::fmt::Debug>(k: &K) -> u8 {
    // ConnectionErrorKind is not exported by name: tell the kinds apart by
    // their Debug name
    struct W(u8);
    impl core::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            if self.0 == 0 && !s.is_empty() {
                self.0 = s.as_bytes()[0];
            }
            Ok(())
        }
    }
    let mut w = W(0);
    let _ = core::fmt::write(&mut w, format_args!("{:?}", k));
    w.0
}

impl<U: AddrW> S<U> {
    /// a fresh session over a target with the given capabilities and a packet
    /// buffer of `size` bytes whose initial contents are arbitrary
    #[allow(static_mut_refs)]
    pub fn new(caps: u64, size: usize) -> S<U> {
        let pb: &'static mut [u8] = unsafe { &mut PB[..size] };
        let mut i = 0;
        while i < size && i < 24 {
            pb[i] = any();
            i += 1;
        }
        S::over(caps, pb)
    }
    pub fn over(caps: u64, pb: &'static mut [u8]) -> S<U> {
        S::begun(caps, GdbStubBuilder::new(Conn).with_packet_buffer(pb).build())
    }
    /// a session over a stub already built
    pub fn begun(caps: u64, g: Result<GdbStub<'static, Mock<U>, Conn>, GdbStubBuilderError>) -> S<U> {
        r().caps = caps;
        let mut t = Mock::new();
        let (sm, err) = match g {
            Ok(g) => match g.run_state_machine(&mut t) {
                Ok(m) => (Some(m), None),
                Err(e) => (None, Some(classify(e))),
            },
            Err(_) => (None, Some(Err::Other)),
        };
        S { sm, t, err, na: false, mark: 0, emark: 0 }
    }
    pub fn st(&self) -> St {
        match &self.sm {
            None => St::Dead,
            Some(Gsm::Idle(_)) => St::Idle,
            Some(Gsm::Running(_)) => St::Running,
            Some(Gsm::CtrlCInterrupt(_)) => St::CtrlC,
            Some(Gsm::Disconnected(_)) => St::Disc,
        }
    }
    fn put(&mut self, res: Result<Gsm<'static, Mock<U>, Conn>, GdbStubError<u8, u8>>) {
        match res {
            Ok(m) => self.sm = Some(m),
            Err(e) => self.err = Some(classify(e)),
        }
    }
    /// deliver one byte; ignored (like a closed connection) when the session
    /// is over
    #[inline(never)]
    pub fn byte(&mut self, b: u8) {
        match self.sm.take() {
            Some(Gsm::Idle(g)) => {
                let x = g.incoming_data(&mut self.t, b);
                self.put(x)
            }
            Some(Gsm::Running(g)) => {
                let x = g.incoming_data(&mut self.t, b);
                self.put(x)
            }
            o => self.sm = o,
        }
    }
    pub fn feed(&mut self, p: &[u8]) {
        for b in p {
            self.byte(*b)
        }
    }
    #[inline(never)]
    pub fn begin(&mut self) {
        self.mark = r().nout;
        self.emark = r().nev;
    }
    /// frame `body` and deliver it
    #[inline(never)]
    pub fn send(&mut self, body: &[u8]) {
        self.begin();
        let mut sum = 0u8;
        self.byte(b'$');
        for b in body {
            sum = sum.wrapping_add(*b);
            self.byte(*b)
        }
        self.byte(b'#');
        self.byte(hx(sum >> 4));
        self.byte(hx(sum & 15));
    }
    pub fn sends(&mut self, body: &str) {
        self.send(body.as_bytes())
    }
    pub fn stop_m(&mut self, reason: MultiThreadStopReason<U>) {
        self.begin();
        match self.sm.take() {
            Some(Gsm::Running(g)) => {
                let x = g.report_stop(&mut self.t, reason);
                self.put(x)
            }
            o => self.sm = o,
        }
    }
    pub fn stop_s(&mut self, reason: SingleThreadStopReason<U>) {
        self.begin();
        match self.sm.take() {
            Some(Gsm::Running(g)) => {
                let x = g.report_stop(&mut self.t, reason);
                self.put(x)
            }
            o => self.sm = o,
        }
    }
    pub fn interrupt_handled(&mut self, reason: Option<MultiThreadStopReason<U>>) {
        self.begin();
        match self.sm.take() {
            Some(Gsm::CtrlCInterrupt(g)) => {
                let x = g.interrupt_handled(&mut self.t, reason);
                self.put(x)
            }
            o => self.sm = o,
        }
    }
    pub fn disc_reason(&self) -> Option<DisconnectReason> {
        match &self.sm {
            Some(Gsm::Disconnected(g)) => Some(g.get_reason()),
            _ => None,
        }
    }
    pub fn return_to_idle(&mut self) {
        match self.sm.take() {
            Some(Gsm::Disconnected(g)) => self.sm = Some(g.return_to_idle()),
            o => self.sm = o,
        }
    }
    // ---- what came back -------------------------------------------------
    /// since `begin`: an ack if the mode calls for one, then exactly one
    /// well-formed packet carrying `e`, everything flushed
    #[inline(never)]
    pub fn replied(&self, e: &Bs) -> bool {
        self.tail(!self.na, &[e])
    }
    pub fn replied_s(&self, e: &str) -> bool {
        let mut b = Bs::new();
        b.s(e);
        self.replied(&b)
    }
    /// a packet without an acknowledgement (asynchronous stop reply)
    #[inline(never)]
    pub fn sent(&self, e: &Bs) -> bool {
        self.tail(false, &[e])
    }
    pub fn sent_s(&self, e: &str) -> bool {
        let mut b = Bs::new();
        b.s(e);
        self.sent(&b)
    }
    #[inline(never)]
    pub fn tail(&self, ack: bool, es: &[&Bs]) -> bool {
        let r = r();
        for i in self.mark..r.nout {
            trace(r.out[i] as u64);
        }
        let mut p = self.mark;
        let mut ok = r.nout <= NOUT && r.flushed == r.nout;
        if ack {
            if p >= r.nout {
                return false;
            }
            ok &= r.out[p] == b'+';
            p += 1;
        }
        for e in es {
            if p + e.n + 4 > r.nout {
                return false;
            }
            ok &= r.out[p] == b'$';
            p += 1;
            // the checksum is computed over what was sent; what was sent is
            // compared with what was expected
            let mut sum = 0u8;
            let mut i = 0;
            while i < e.n {
                sum = sum.wrapping_add(r.out[p + i]);
                ok &= r.out[p + i] == e.d[i];
                i += 1;
            }
            p += e.n;
            ok &= (r.out[p] == b'#') & (r.out[p + 1] == hx(sum >> 4)) & (r.out[p + 2] == hx(sum & 15));
            p += 3;
        }
        ok & (p == r.nout)
    }
    /// exactly these bytes since `begin`
    #[inline(never)]
    pub fn raw(&self, x: &Bs) -> bool {
        let r = r();
        for i in self.mark..r.nout {
            trace(r.out[i] as u64);
        }
        if r.nout - self.mark != x.n || r.nout > NOUT {
            return false;
        }
        let mut ok = true;
        let mut i = 0;
        while i < x.n {
            ok &= r.out[self.mark + i] == x.d[i];
            i += 1;
        }
        ok
    }
    pub fn acked_only(&self) -> bool {
        let mut x = Bs::new();
        if !self.na {
            x.b(b'+');
        }
        self.raw(&x)
    }
    pub fn silent(&self) -> bool {
        r().nout == self.mark
    }
    /// number of target operations since `begin`
    pub fn ops(&self) -> usize {
        r().nev - self.emark
    }
    pub fn op(&self, i: usize) -> Ev {
        let e = r().ev[self.emark + i];
        trace(e.op as u64);
        trace(e.a);
        trace(e.b);
        trace(e.c);
        trace(e.d);
        e
    }
    #[inline(never)]
    pub fn op_is(&self, i: usize, op: u8, a: u64, b: u64, c: u64, d: u64) -> bool {
        if i >= self.ops() || self.emark + i >= NEV {
            return false;
        }
        let e = self.op(i);
        (e.op == op) & (e.a == a) & (e.b == b) & (e.c == c) & (e.d == d)
    }
    #[inline(never)]
    pub fn op_data(&self, i: usize, p: &[u8]) -> bool {
        if i >= self.ops() || self.emark + i >= NEV {
            return false;
        }
        let e = r().ev[self.emark + i];
        if e.len != p.len() || e.off + e.len > NDATA {
            return false;
        }
        let mut ok = true;
        let mut k = 0;
        while k < p.len() {
            trace(r().data[e.off + k] as u64);
            ok &= r().data[e.off + k] == p[k];
            k += 1;
        }
        ok
    }
    /// exactly one operation with these arguments
    #[inline(never)]
    pub fn one(&self, op: u8, a: u64, b: u64, c: u64, d: u64) -> bool {
        self.ops() == 1 && self.op_is(0, op, a, b, c, d)
    }
    /// the session is over because of an error that is neither the target's
    /// nor the connection's
    pub fn protocol_error(&self) -> bool {
        self.err == Some(Err::Other)
    }
    /// the outcome of a failed target call
    #[inline(never)]
    pub fn failed(&self, f: Option<u8>) -> bool {
        match f {
            Some(c) => {
                let mut e = Bs::new();
                e.b(b'E').h8(c);
                self.idle() & self.replied(&e)
            }
            None => self.err == Some(Err::Target(r().code)),
        }
    }
    /// run the target until it reports a stop: leaves the session idle
    pub fn idle(&self) -> bool {
        self.st() == St::Idle
    }
}

// ---- byte strings ---------------------------------------------------------
pub const BSMAX: usize = 640;
pub struct Bs {
    pub d: [u8; BSMAX],
    pub n: usize,
}
pub fn hx(n: u8) -> u8 {
    if n < 10 {
        b'0' + n
    } else {
        b'a' + (n - 10)
    }
}
pub fn hxu(n: u8) -> u8 {
    if n < 10 {
        b'0' + n
    } else {
        b'A' + (n - 10)
    }
}
impl Bs {
    pub fn new() -> Bs {
        Bs { d: [0; BSMAX], n: 0 }
    }
    pub fn of(s: &str) -> Bs {
        let mut b = Bs::new();
        b.s(s);
        b
    }
    #[inline(always)]
    pub fn b(&mut self, v: u8) -> &mut Self {
        if self.n < BSMAX {
            self.d[self.n] = v;
        }
        self.n += 1;
        self
    }
    #[inline(never)]
    pub fn s(&mut self, v: &str) -> &mut Self {
        for c in v.as_bytes() {
            self.b(*c);
        }
        self
    }
    #[inline(never)]
    pub fn bytes(&mut self, v: &[u8]) -> &mut Self {
        for c in v {
            self.b(*c);
        }
        self
    }
    /// two lowercase hex digits
    #[inline(never)]
    pub fn h8(&mut self, v: u8) -> &mut Self {
        self.b(hx(v >> 4));
        self.b(hx(v & 15))
    }
    pub fn hexs(&mut self, v: &[u8]) -> &mut Self {
        for c in v {
            self.h8(*c);
        }
        self
    }
    /// `n` hex digits of `v`, most significant first
    #[inline(never)]
    pub fn hn(&mut self, v: u64, n: u32) -> &mut Self {
        let mut i = n;
        while i > 0 {
            i -= 1;
            self.b(hx((v >> (4 * i)) as u8 & 15));
        }
        self
    }
    /// the stub's number format: the fewest whole bytes, at least one
    #[inline(never)]
    pub fn num(&mut self, v: u64) -> &mut Self {
        let mut k = 1;
        while k < 8 && v >> (8 * k) != 0 {
            k += 1;
        }
        self.hn(v, 2 * k as u32)
    }
    /// binary escaping of the remote protocol
    #[inline(never)]
    pub fn esc(&mut self, v: u8) -> &mut Self {
        match v {
            b'#' | b'$' | b'}' | b'*' => {
                self.b(b'}');
                self.b(v ^ 0x20)
            }
            _ => self.b(v),
        }
    }
    pub fn sl(&self) -> &[u8] {
        &self.d[..self.n]
    }
}
/// a thread id as the stub writes it
pub fn tid_str(b: &mut Bs, mp: bool, pid: u64, tid: u64) {
    if mp {
        b.s("p").num(pid).s(".");
    }
    b.num(tid);
}
pub fn nz(v: usize) -> Tid {
    Tid::new(v).unwrap()
}

// ---- symbolic pieces of client input --------------------------------------
/// an arbitrary hex digit, of either case: appended to `b`; its value
#[inline(never)]
pub fn sym_digit(b: &mut Bs) -> u8 {
    let c = any();
    assume((c >= b'0') & (c <= b'9') | (c >= b'a') & (c <= b'f') | (c >= b'A') & (c <= b'F'));
    b.b(c);
    hexval(c)
}
pub fn hexval(c: u8) -> u8 {
    if c <= b'9' {
        c.wrapping_sub(b'0')
    } else {
        (c | 0x20).wrapping_sub(b'a' - 10)
    }
}
/// `n` symbolic hex digits appended to `b`; their value
pub fn sym_hex(b: &mut Bs, n: u32) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < n {
        v = v << 4 | sym_digit(b) as u64;
        i += 1;
    }
    v
}
/// one path per digit count in 1..=max; the value
pub fn sym_num(b: &mut Bs, max: u8) -> u64 {
    let n = pick(max) + 1;
    sym_hex(b, n as u32)
}
/// a number of up to 64 bits of which up to four digits are arbitrary: every
/// digit count up to 4, then longer ones with zeros in between
pub fn sym_long(b: &mut Bs) -> u64 {
    let n = [1u32, 2, 3, 4, 8, 9, 16, 18][pick(8) as usize];
    if n <= 4 {
        return sym_hex(b, n);
    }
    if n == 18 {
        b.s("000000000000000");
        return sym_hex(b, 3);
    }
    let v = sym_digit(b) as u64;
    let mut i = 0;
    while i < n - 3 {
        b.b(b'0');
        i += 1;
    }
    v << (4 * (n - 1)) | sym_hex(b, 2)
}
/// `n` hex digits, the first and the last two arbitrary
pub fn sym_ends(b: &mut Bs, n: u32) -> u64 {
    if n < 5 {
        return sym_hex(b, n);
    }
    let v = sym_digit(b) as u64;
    let mut i = 0;
    while i < n - 3 {
        b.b(b'0');
        i += 1;
    }
    v << (4 * (n - 1)) | sym_hex(b, 2)
}
/// an address of the target: every digit count up to its width, the value
/// sometimes preceded by zeros
pub fn sym_addr<U: AddrW>(b: &mut Bs) -> u64 {
    let w = 2 * core::mem::size_of::<U>() as u8;
    let n = pick(w + 1);
    if n == w {
        b.s("000");
        sym_hex(b, w as u32)
    } else {
        sym_hex(b, n as u32 + 1)
    }
}
/// an address wider than the target's: what the client names does not exist
pub fn big_addr<U: AddrW>(b: &mut Bs) {
    let w = 2 * core::mem::size_of::<U>() as u32;
    let d = sym_digit(b);
    assume(d != 0);
    if any_bool() {
        b.b(b'0');
    }
    sym_hex(b, w);
}
/// a scripted failure of the first target call, of any kind; the reply it
/// must cause, or None if it must end the session
pub fn sym_fail() -> Option<u8> {
    let k = pick(4);
    r().code = any();
    r().fail_at = 0;
    match k {
        0 => {
            r().fail = Fail::NonFatal;
            Some(121)
        }
        1 => {
            r().fail = Fail::Errno;
            Some(r().code)
        }
        2 => {
            r().fail = Fail::Io;
            Some(r().code)
        }
        _ => {
            r().fail = Fail::Fatal;
            None
        }
    }
}
/// `n` symbolic bytes, hex-encoded
pub fn sym_hexbytes(b: &mut Bs, out: &mut [u8]) {
    for o in out {
        *o = sym_hex(b, 2) as u8;
    }
}
/// arbitrary target-supplied bytes
pub fn sym_src(n: usize) {
    let mut i = 0;
    while i < n {
        r().src[i] = any();
        i += 1;
    }
    r().ret = n;
}

/// a history: some exchange that precedes the command under test and must not
/// influence it. Leaves the session idle.
pub fn history<U: AddrW>(s: &mut S<U>) {
    match pick(9) {
        0 => {}
        // a long packet the stub does not know: fills the buffer
        1 => s.sends("qZzzzzzzzzzzzzzzzzzzzzzzzzzzzzz,1234567890abcdef"),
        // acknowledgement
        2 => s.feed(b"+"),
        // a command that failed
        3 => {
            let (f, a) = (r().fail, r().fail_at);
            r().fail = Fail::NonFatal;
            r().fail_at = r().calls;
            s.sends("mfedcba98,3");
            r().fail = f;
            r().fail_at = a;
            r().calls = 0;
        }
        // acknowledgements off
        4 => {
            if has(NOACK) {
                s.sends("QStartNoAckMode");
                s.na = true;
            }
        }
        // empty packet
        5 => s.sends(""),
        // a write whose payload filled the buffer with hex digits
        6 => {
            s.sends("M8,9:0123456789abcdef01");
            r().calls = 0;
        }
        7 => s.sends("?"),
        // interrupted while idle
        _ => {
            s.byte(3);
            s.interrupt_handled(None);
        }
    }
    s.begin();
}
