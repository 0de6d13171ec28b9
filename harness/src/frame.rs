//! Packet framing, checksums, acknowledgements, run-length encoding.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 200_000;
const MC: u64 = FULL | MULTI;

fn is_digit(c: u8) -> bool {
    (c >= b'0') & (c <= b'9') | (c >= b'a') & (c <= b'f') | (c >= b'A') & (c <= b'F')
}

// ---- checksum gate ------------------------------------------------------------
/// deliver `body` with two arbitrary bytes in place of the checksum; was it right?
fn send_any_sum<U: AddrW>(s: &mut S<U>, c: &Bs) -> bool {
    s.begin();
    let mut sum = 0u8;
    s.byte(b'$');
    let mut i = 0;
    while i < c.n {
        sum = sum.wrapping_add(c.d[i]);
        s.byte(c.d[i]);
        i += 1;
    }
    s.byte(b'#');
    let (h, l) = (any(), any());
    // 'x' is not a checksum digit; what it is taken for is left open
    assume((h | 0x20 != b'x') & (l | 0x20 != b'x'));
    ck!(s.silent() & (s.ops() == 0));
    s.byte(h);
    ck!(s.silent() & (s.ops() == 0));
    let good = is_digit(h) & is_digit(l) & (hexval(h) << 4 | hexval(l) & 15 == sum);
    s.byte(l);
    conc(good as u8) == 1
}
/// an unknown command with arbitrary bytes
fn ck_unknown(n: u8, running: bool) {
    let mut s = S::<u64>::new(MC, 64);
    if running {
        s.sends("vCont;c");
        ck!(s.st() == St::Running); // opt:
    }
    let mut c = Bs::new();
    c.b(b'y');
    let k = pick(n + 1);
    for _ in 0..k {
        let v = any();
        assume(v != b'#');
        c.b(v);
    }
    let good = send_any_sum(&mut s, &c);
    if good {
        ck!(s.replied_s(""));
        ck!(s.st() == if running { St::Running } else { St::Idle });
    } else {
        ck!(s.silent());
        ck!(s.protocol_error());
    }
    ck!(s.ops() == 0);
}
/// a command with an effect, and a payload long enough for the sum to wrap
/// many times
fn ck_write(n: usize) {
    let mut s = S::<u64>::new(FULL, 128);
    let mut c = Bs::new();
    c.s("M10,2:");
    let v = sym_hex(&mut c, 2);
    let mut i = 1;
    while i < n {
        c.s("fF");
        i += 1;
    }
    let good = send_any_sum(&mut s, &c);
    if good {
        ck!(s.replied_s("OK"));
        ck!(s.ops() == 1 && s.op(0).op == O_WADDR && s.op(0).b == n as u64);
    } else {
        ck!(s.silent());
        ck!(s.ops() == 0);
        ck!(s.protocol_error());
    }
    let _ = v;
}
harness! {
fn ck_short() { ck_unknown(4, false) }
fn ck_running() { ck_unknown(2, true) }
fn ck_effect() { ck_write(1) }
fn ck_long() { ck_write(40) }
fn ck_deep() { ck_unknown(10, false) }
}

// ---- framing: only the body between '$' and the first '#' matters ---------------
const NPROBE: u8 = 14;
/// send one of several commands of different kinds and require exactly its own
/// effect and reply, whatever happened before
fn probe<U: AddrW>(s: &mut S<U>, k: u8) {
    let mut e = Bs::new();
    let tid = if has(MULTI) { 1 } else { NONE };
    r().calls = 0;
    r().num[0] = 0x20;
    sym_src(4);
    match k {
        0 => {
            s.sends("m20,3");
            e.hexs(&r().src[..3]);
            ck!(s.replied(&e) & s.one(O_RADDR, 0x20, 3, tid, 0));
        }
        1 => {
            s.sends("M1c,2:0aFf");
            ck!(s.replied_s("OK") & s.one(O_WADDR, 0x1c, 2, tid, 0) & s.op_data(0, &[10, 255]));
        }
        2 => {
            r().ret = 2;
            s.sends("p0");
            e.hexs(&r().src[..2]);
            ck!(s.replied(&e) & s.one(O_RREG, tid, 0, 0, 0));
        }
        3 => {
            s.sends("P1=01020304");
            ck!(s.replied_s("OK") & s.one(O_WREG, tid, 1, 0, 0) & s.op_data(0, &[1, 2, 3, 4]));
        }
        4 => {
            s.sends("Z0,77,2");
            ck!(s.replied_s("OK") & s.one(O_ADDSW, 0x77, 2, 0, 0));
        }
        5 => {
            s.sends("qXfer:auxv:read::3,9");
            e.b(b'm');
            for i in 0..4 {
                e.esc(r().src[i]);
            }
            ck!(s.replied(&e) & s.one(O_AUXV, 3, 9, 0, 0));
        }
        6 => {
            r().num[0] = 7;
            s.sends("vFile:open:2f61,0,1b6");
            ck!(s.replied_s("F07") & s.one(O_OPEN, 0, 0x1b6, 0, 0) & s.op_data(0, b"/a"));
        }
        7 => {
            s.sends("vFile:pread:2,4,9");
            e.s("F04;");
            for i in 0..4 {
                e.esc(r().src[i]);
            }
            ck!(s.replied(&e) & s.one(O_PREAD, 2, 4, 9, 0));
        }
        8 => {
            s.sends("g");
            e.hexs(&r().src[..4]);
            ck!(s.replied(&e) & s.one(O_RREGS, tid, 0, 0, 0));
        }
        9 => {
            s.sends("G00112233");
            ck!(s.replied_s("OK") & s.one(O_WREGS, tid, 0, 0, 0) & s.op_data(0, &[0, 0x11, 0x22, 0x33]));
        }
        10 => {
            s.sends("yzz");
            ck!(s.replied_s("") & (s.ops() == 0));
        }
        11 => {
            s.sends("QEnvironmentHexEncoded:413d42");
            ck!(s.replied_s("OK") & (s.ops() == 2) & s.op_is(0, O_SETENV, 1, 0, 0, 0) & s.op_data(0, b"A") & s.op_data(1, b"B"));
        }
        12 => {
            r().sel = 3;
            s.sends("qOffsets");
            e.s("TextSeg=20");
            ck!(s.replied(&e) & s.one(O_OFFS, 0, 0, 0, 0)); // opt:
        }
        _ => {
            s.sends("X5,2:\x7d\x03Q");
            ck!(s.replied_s("OK") & s.one(O_WADDR, 5, 2, tid, 0) & s.op_data(0, b"#Q"));
        }
    }
    ck!(s.idle());
    trace(k as u64);
}
fn fr_history<U: AddrW>(caps: u64, n: u32) {
    let mut s = S::<U>::new(caps, 72);
    for _ in 0..n {
        history(&mut s);
    }
    let k = pick(NPROBE);
    if k == 12 {
        return;
    }
    probe(&mut s, k);
}
/// arbitrary leftovers all over the packet buffer, and several buffer sizes
fn fr_stale<U: AddrW>(caps: u64) {
    let k = pick(NPROBE);
    if k == 12 {
        return;
    }
    let size = [44usize, 45, 52, 64][pick(4) as usize];
    let pb = pb(size);
    let mut i = 0;
    while i < size {
        pb[i] = any();
        i += 1;
    }
    let mut s = S::<U>::over(caps, pb);
    probe(&mut s, k);
}
/// a command is not acted upon before its last byte, and acknowledgements from
/// the client between commands change nothing
fn fr_partial<U: AddrW>(caps: u64) {
    let mut s = S::<U>::new(caps, 72);
    for _ in 0..pick(3) {
        s.byte(b'+');
    }
    ck!(s.silent() & s.idle());
    let body = b"M1c,2:0aFf";
    let cut = pick(14) as usize;
    s.begin();
    let mut sum = 0u8;
    let mut all = Bs::new();
    all.b(b'$');
    for b in body {
        sum = sum.wrapping_add(*b);
        all.b(*b);
    }
    all.b(b'#').h8(sum);
    s.feed(&all.d[..cut]);
    ck!(s.silent() & (s.ops() == 0) & s.idle());
    s.feed(&all.d[cut..all.n]);
    ck!(s.replied_s("OK"));
    ck!(s.one(O_WADDR, 0x1c, 2, if has(MULTI) { 1 } else { NONE }, 0));
    // two commands back to back
    s.begin();
    s.feed(all.sl());
    s.feed(all.sl());
    let mut e = Bs::new();
    e.s("+$OK#9a+$OK#9a");
    ck!(s.raw(&e));
    ck!(s.ops() == 2);
}
/// a packet is taken in as long as it fits the buffer, byte for byte
fn fr_fit<U: AddrW>(caps: u64) {
    let size = 16 + pick(8) as usize;
    let pb = pb(size);
    let mut s = S::<U>::over(caps, pb);
    // $ M 1 , n : hh.. # x x
    let n = 3 + pick(8) as usize;
    let mut c = Bs::new();
    c.s("M1,1:");
    let mut d = [0u8; 16];
    for i in 0..n {
        d[i] = sym_hex(&mut c, 2) as u8;
    }
    s.send(c.sl());
    if c.n + 4 <= size {
        ck!(s.replied_s("OK"));
        ck!(s.op_data(0, &d[..n]) & (s.ops() == 1));
    } else {
        ck!(s.silent() & (s.ops() == 0));
        ck!(s.protocol_error());
    }
}
harness! {
fn fr_hist1() { fr_history::<u64>(FULL, 1) }
fn fr_hist2() { fr_history::<u32>(MC, 2) }
fn fr_hist3() { fr_history::<u64>(MC, 3) }
fn fr_stale_s() { fr_stale::<u32>(FULL) }
fn fr_stale_m() { fr_stale::<u64>(MC) }
fn fr_part() { fr_partial::<u64>(MC) }
fn fr_size() { fr_fit::<u64>(FULL) }
}

// ---- acknowledgements -------------------------------------------------------------
/// a session of a few commands: `+` exactly once per command while
/// acknowledgements are on, never afterwards, and one response per command
fn ack_seq(caps: u64, n: u32) {
    let mut s = S::<u64>::new(caps, 64);
    for _ in 0..n {
        match pick(6) {
            0 => {
                s.sends("QStartNoAckMode");
                if has(NOACK) {
                    // acknowledged under the rules in force when it arrived
                    ck!(s.replied_s("OK")); // opt:
                    s.na = true;
                } else {
                    ck!(s.replied_s("")); // opt:
                }
            }
            1 => {
                s.sends("qfThreadInfo");
                ck!(s.replied_s(if has(MULTI) { "m01,02" } else { "m01" }));
            }
            2 => {
                s.sends("yyy");
                ck!(s.replied_s(""));
            }
            3 => {
                s.begin();
                s.byte(b'+');
                ck!(s.silent());
            }
            4 => {
                r().fail_at = 0;
                r().calls = 0;
                r().fail = Fail::Errno;
                r().code = any();
                s.sends("m1,1");
                r().fail_at = u32::MAX;
                ck!(s.failed(Some(r().code)));
            }
            _ => {
                s.sends("vCont;c");
                ck!(s.st() == St::Running);
                ck!(s.acked_only());
                s.stop_m(gdbstub::stub::MultiThreadStopReason::DoneStep);
                ck!(s.sent_s("S05"));
            }
        }
        ck!(s.idle());
    }
}
/// a negative acknowledgement ends the session, without any reply
fn ack_nack() {
    let mut s = S::<u64>::new(MC, 64);
    if pick(2) == 1 {
        s.sends("QStartNoAckMode");
    }
    let running = pick(2) == 1;
    if running {
        s.sends("vCont;c");
    }
    s.begin();
    s.byte(b'-');
    ck!(s.protocol_error());
    ck!(s.silent() & (s.ops() == 0));
}
harness! {
fn ack_seq3() { ack_seq(MC, 3) }
fn ack_seq3s() { ack_seq(FULL & !NOACK, 3) }
fn ack_seq4() { ack_seq(MC, 4) }
fn ack_neg() { ack_nack() }
}

// ---- run-length encoding -------------------------------------------------------------
/// parse one packet from `at`; decode into `b`; the position after it, or 0
#[inline(never)]
pub fn rle_packet(at: usize, b: &mut Bs) -> usize {
    let r = r();
    if r.nout > NOUT || at + 4 > r.nout || r.out[at] != b'$' {
        return 0;
    }
    let mut p = at + 1;
    let mut sum = 0u8;
    let mut last = 0u8;
    let mut have = false;
    while p < r.nout && r.out[p] != b'#' {
        let c = r.out[p];
        sum = sum.wrapping_add(c);
        if c == b'$' || c > 126 {
            return 0;
        }
        if c == b'*' {
            if !have || p + 1 >= r.nout {
                return 0;
            }
            let n = r.out[p + 1];
            sum = sum.wrapping_add(n);
            // repeat counts are 3 and up; '#' and '$' cannot stand for one
            if n < 32 || n > 126 || n == b'#' || n == b'$' {
                return 0;
            }
            for _ in 0..n - 29 {
                b.b(last);
            }
            p += 2;
            have = false;
        } else {
            b.b(c);
            last = c;
            have = true;
            p += 1;
        }
    }
    if p + 3 > r.nout || r.out[p + 1] != hx(sum >> 4) || r.out[p + 2] != hx(sum & 15) {
        return 0;
    }
    p + 3
}
fn rle_is(s: &S<u64>, e: &Bs) -> bool {
    let r = r();
    for i in s.mark..r.nout {
        trace(r.out[i] as u64);
    }
    let mut d = Bs::new();
    let end = if r.out[s.mark] == b'+' { rle_packet(s.mark + 1, &mut d) } else { 0 };
    if end != r.nout || r.flushed != r.nout || d.n != e.n || d.n > BSMAX {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < e.n {
        ok &= d.d[i] == e.d[i];
        i += 1;
    }
    ok
}
/// arbitrary data
fn rle_any(n: usize) {
    let mut s = S::<u64>::over(FULL | RLE, pb(64));
    let k = pick(n as u8 + 1) as usize;
    r().num[0] = 0x20;
    sym_src(k);
    s.sends("m20,10");
    let mut e = Bs::new();
    e.hexs(&r().src[..k]);
    ck!(rle_is(&s, &e));
    ck!(s.idle());
}
/// a run of every length, between arbitrary neighbours
fn rle_run(lo: u8, hi: u8) {
    let mut s = S::<u64>::over(FULL | RLE, pb(200));
    let k = (lo + pick(hi - lo)) as usize;
    r().num[0] = 0x20;
    let d = any() & 15;
    let fill = d << 4 | d;
    r().src[0] = any();
    let mut i = 1;
    while i < k {
        r().src[i] = fill;
        i += 1;
    }
    r().src[k] = any();
    r().ret = k + 1;
    s.sends("m20,60");
    let mut e = Bs::new();
    e.hexs(&r().src[..k + 1]);
    ck!(rle_is(&s, &e));
    ck!(s.idle());
}
/// binary replies: escaped characters within and next to runs
fn rle_bin(n: usize) {
    let mut s = S::<u64>::over(FULL | RLE, pb(64));
    // runs of any character: positions take one of two arbitrary values
    let (a, b) = (any(), any());
    assume(a < 0x7f && b < 0x7f);
    let k = 1 + pick(n as u8) as usize;
    let mut i = 0;
    let cut = pick(k as u8) as usize;
    while i < k {
        r().src[i] = if i < cut { a } else { b };
        i += 1;
    }
    r().ret = k;
    s.sends("qXfer:auxv:read::0,20");
    let mut e = Bs::new();
    e.b(b'm');
    for i in 0..k {
        e.esc(r().src[i]);
    }
    ck!(rle_is(&s, &e));
    ck!(s.idle());
}
/// other replies keep their content too
fn rle_misc() {
    let mut s = S::<u64>::over(MC | RLE, pb(64));
    let mut e = Bs::new();
    match pick(4) {
        0 => {
            s.sends("QDisableRandomization:1");
            e.s("OK");
        }
        1 => {
            let t = any16() as u64;
            assume(t != 0);
            r().threads[0] = t as usize;
            r().nthreads = 1;
            s.sends("qfThreadInfo");
            e.s("m");
            e.num(t);
        }
        2 => {
            s.sends("yy");
        }
        _ => {
            r().regs_n = 3;
            r().regs_none = any() as u32 & 7;
            sym_src(3);
            s.sends("g");
            for i in 0..3 {
                if r().regs_none >> i & 1 == 1 {
                    e.s("xx");
                } else {
                    e.h8(r().src[i]);
                }
            }
        }
    }
    ck!(rle_is(&s, &e));
}
harness! {
fn rle_any4() { rle_any(4) }
fn rle_any5() { rle_any(5) }
fn rle_runs1() { rle_run(1, 20) }
fn rle_runs2() { rle_run(40, 60) }
fn rle_runs3() { rle_run(60, 80) }
fn rle_bins() { rle_bin(12) }
fn rle_other() { rle_misc() }
}
