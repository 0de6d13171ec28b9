//! Long lists, long histories: quantities far above the handful the other
//! harnesses use, with the arbitrary element anywhere among them.
use crate::api::*;
use crate::big::*;
use crate::err::{script, CMDS, N};
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::common::*;
use gdbstub::stub::*;
const FILE_ID: u32 = 2_800_000;
const MC: u64 = FULL | MULTI;

/// the `i`th operation since `begin`
fn o<U: AddrW>(s: &S<U>, i: usize) -> Ev {
    big().ev[s.emark + i]
}
fn is<U: AddrW>(s: &S<U>, i: usize, op: u8, a: u64, b: u64, x: u64) -> bool {
    let e = o(s, i);
    (e.op == op) & (e.a == a) & (e.b == b) & (e.c == x)
}
/// forget what was recorded
fn fresh() {
    let r = r();
    r.nout = 0;
    r.flushed = 0;
    r.nev = 0;
    r.ndata = 0;
    r.calls = 0;
}
/// one of the first, the last, a middle one, or one at a power of two
fn place(n: usize) -> usize {
    match pick(4) {
        0 => 0,
        1 => n - 1,
        2 => n / 2,
        _ => {
            if n > 33 {
                32
            } else {
                n / 3
            }
        }
    }
}
fn reply_is<U: AddrW>(s: &S<U>, e: &str) -> bool {
    let b = big();
    b.n = 0;
    reply(s, || cs(e))
}
// ---- threads ---------------------------------------------------------------------
/// payload of the reply in the output area: from, to
fn payload<U: AddrW>(s: &S<U>) -> (usize, usize) {
    let r = r();
    let b = big();
    let p = s.mark;
    ck!(r.nout <= NBOUT && r.nout >= p + 5 && r.flushed == r.nout);
    ck!(b.out[p] == b'+');
    ck!(b.out[p + 1] == b'$');
    ck!(b.out[r.nout - 3] == b'#');
    let mut sum = 0u8;
    let mut i = p + 2;
    while i < r.nout - 3 {
        sum = sum.wrapping_add(b.out[i]);
        i += 1;
    }
    ck!((b.out[i + 1] == hx(sum >> 4)) & (b.out[i + 2] == hx(sum & 15)));
    (p + 2, r.nout - 3)
}
/// every thread is listed once, in order, however many replies that takes
fn list(mp: bool) {
    let n = [5usize, 40, 41, 127, 300][pick(5) as usize];
    let mut s = start::<u64>(MC, false);
    let b = big();
    if mp {
        s.sends("qSupported:multiprocess+");
        s.begin();
    }
    r().num[1] = 9;
    b.nthr = n;
    b.base = [1, 0xf0, 0x7fff_ff00][pick(3) as usize];
    b.odd = place(n);
    let v = any64();
    assume(v != 0);
    b.oddid = v as usize;
    let mut k = 0;
    let mut rounds = 0;
    let mut done = false;
    while !done && rounds < 12 {
        fresh();
        s.sends(if rounds == 0 { "qfThreadInfo" } else { "qsThreadInfo" });
        rounds += 1;
        ck!(s.idle());
        let (mut i, e) = payload(&s);
        ck!(i < e);
        if b.out[i] == b'l' {
            ck!(e == i + 1);
            done = true;
            continue;
        }
        ck!(b.out[i] == b'm');
        i += 1;
        while i < e {
            if mp {
                ck!(i + 4 < e);
                ck!(b.out[i] == b'p');
                i += 1;
                let mut pid = 0u64;
                while i < e && b.out[i] != b'.' {
                    pid = pid << 4 | hexval(b.out[i]) as u64;
                    i += 1;
                }
                ck!(pid == 9);
                ck!(i < e);
                i += 1;
            }
            let mut id = 0u64;
            let from = i;
            while i < e && conc((b.out[i] == b',') as u8) == 0 {
                id = id << 4 | hexval(b.out[i]) as u64;
                i += 1;
            }
            ck!((i > from) & (i <= from + 16));
            ck!(k < n);
            ck!(id == (if k == b.odd { b.oddid } else { b.base + k }) as u64);
            k += 1;
            if i < e {
                i += 1;
                ck!(i < e);
            }
        }
    }
    ck!(done);
    ck!(k == n);
}
/// asking whether a thread is alive
fn alive() {
    let n = [40usize, 120][pick(2) as usize];
    let mut s = start::<u64>(MC, false);
    let b = big();
    b.nthr = n;
    b.base = 0x100;
    b.odd = n - 1;
    b.oddid = 7;
    let v = (pick(3) as usize) << 8 | any() as usize;
    assume(v != 0);
    cs("T");
    for k in 0..4 {
        ch_(v >> (12 - 4 * k));
    }
    go(&mut s);
    ck!(s.idle());
    let there = v == 7 || v >= 0x100 && v < 0x100 + n - 1;
    ck!(reply_is(&s, if there { "OK" } else { "E01" }));
}
fn ch_(v: usize) {
    let d = v as u8 & 15;
    let b = big();
    // (no fork on which digit it is)
    b.cmd[b.n] = if d < 10 { b'0' + d } else { b'a' + (d - 10) };
    b.n += 1;
}
// ---- actions ---------------------------------------------------------------------
fn vcont() {
    let n = [4usize, 17, 64, 100][pick(4) as usize];
    let mut s = start::<u64>(MC, false);
    let at = place(n);
    let t = any16() as usize;
    assume(t != 0);
    let sg = any();
    cs("vCont");
    for i in 0..n {
        if i == at {
            cs(";C");
            ch_((sg >> 4) as usize);
            ch_(sg as usize);
            cs(":");
            for k in 0..4 {
                ch_(t >> (12 - 4 * k));
            }
            continue;
        }
        cs([";c:", ";s:", ";C0b:", ";S05:p1.", ";r1000,1010:"][i % 5]);
        cn(i + 1);
    }
    let last = pick(2) == 1;
    if last {
        cs(";c");
    }
    go(&mut s);
    ck!(s.st() == St::Running);
    ck!(s.ops() == n + 2);
    ck!(is(&s, 0, O_CLEAR, 0, 0, 0));
    for i in 0..n {
        if i == at {
            ck!(is(&s, 1 + i, O_SETC, t as u64, sg as u64, 0));
            continue;
        }
        let t = i as u64 + 1;
        ck!(match i % 5 {
            0 => is(&s, 1 + i, O_SETC, t, NONE, 0),
            1 => is(&s, 1 + i, O_SETS, t, NONE, 0),
            2 => is(&s, 1 + i, O_SETC, t, 0x0b, 0),
            3 => is(&s, 1 + i, O_SETS, t, 5, 0),
            _ => is(&s, 1 + i, O_SETR, t, 0x1000, 0x1010),
        });
    }
    ck!(is(&s, n + 1, O_RESUME, NONE, 0, 0));
    ck!(r().nout == s.mark + 1);
}
// ---- arguments -------------------------------------------------------------------
fn arg(i: usize, j: usize) -> u8 {
    pat(i * 5 + j)
}
fn run() {
    let n = [1usize, 20, 64, 200][pick(4) as usize];
    let mut s = start::<u64>(if pick(2) == 1 { FULL } else { MC }, false);
    let (at, v) = (place(n), any());
    cs("vRun;2f");
    for i in 0..n {
        cs(";");
        for j in 0..i % 5 + 1 {
            ch(if i == at && j == 0 { v } else { arg(i, j) });
        }
    }
    r().num[0] = 1;
    go(&mut s);
    ck!(s.idle());
    ck!(s.ops() == n + 1);
    ck!(o(&s, 0).op == O_RUN);
    ck!(o(&s, 0).len == 1);
    let b = big();
    ck!(b.data[o(&s, 0).off] == b'/');
    for i in 0..n {
        let e = o(&s, i + 1);
        ck!(e.op == O_ARG);
        ck!(e.len == i % 5 + 1);
        for j in 0..e.len {
            ck!(b.data[e.off + j] == if i == at && j == 0 { v } else { arg(i, j) });
        }
    }
}
fn catch() {
    let n = [5usize, 21, 100, 300][pick(4) as usize];
    let mut s = start::<u64>(FULL, false);
    let at = place(n);
    let v = any16() as usize;
    cs("QCatchSyscalls:1");
    for i in 0..n {
        cs(";");
        if i == at {
            for k in 0..4 {
                ch_(v >> (12 - 4 * k));
            }
        } else {
            cn(i * 3);
        }
    }
    go(&mut s);
    ck!(s.idle());
    ck!(reply_is(&s, "OK"));
    ck!(s.ops() == n + 1);
    ck!(is(&s, 0, O_CATCHEN, 1, 0, 0));
    for i in 0..n {
        ck!(is(&s, i + 1, O_ARG, (if i == at { v } else { i * 3 }) as u64, 0, 0));
    }
}
/// a tracepoint with many actions, in several packets
fn actions() {
    let n = [5usize, 40, 120][pick(3) as usize];
    let mut s = start::<u64>(FULL, false);
    let (at, v) = (place(n), any());
    let packets = 1 + pick(3) as usize;
    let b = big();
    let mut i = 0;
    for q in 0..packets {
        let e = if q + 1 == packets { n } else { (q + 1) * n / packets };
        let from = i;
        fresh();
        cs("QTDP:-a:1000:");
        while i < e {
            if i % 3 == 0 {
                cs("R");
            } else {
                cs("X2,");
            }
            ch(if i == at { v } else { pat(i) });
            ch(i as u8);
            i += 1;
        }
        if q + 1 < packets {
            cs("-");
        }
        go(&mut s);
        ck!(s.idle());
        ck!(reply_is(&s, "OK"));
        ck!(s.ops() == e - from + (q + 1 == packets) as usize);
        for k in from..e {
            let x = o(&s, k - from);
            ck!((x.op == O_TPCONT) & (x.a == 10) & (x.b == if k % 3 == 0 { 1 } else { 3 }));
            ck!(x.len == 2);
            ck!(b.data[x.off] == if k == at { v } else { pat(k) });
            ck!(b.data[x.off + 1] == k as u8);
        }
        if q + 1 == packets {
            ck!(o(&s, e - from).op == O_TPDONE);
        }
    }
}
/// many features the stub has never heard of, around the one it has
fn features() {
    let n = [3usize, 40, 256][pick(3) as usize];
    let mut s = start::<u64>(MC, false);
    let at = place(n);
    let on = pick(2) == 1;
    let x = any();
    assume((x != b'#') & (x != b';') & (x != b'+') & (x != b'='));
    cs("qSupported:");
    for i in 0..n {
        if i > 0 {
            cs(";");
        }
        if i == at {
            cs(if on { "multiprocess+" } else { "multiprocess-" });
            continue;
        }
        cs("feat");
        cn(i);
        match i % 3 {
            0 => c(if i == (at + 3) % n { x } else { b'?' }),
            1 => cs("-"),
            _ => cs("=1;"),
        }
        if i % 3 == 2 {
            big().n -= 1;
        }
    }
    go(&mut s);
    ck!(s.idle());
    fresh();
    r().num[1] = 9;
    s.sends("Hg2");
    s.sends("qC");
    ck!(reply_is(&s, if on { "QCp09.02" } else { "QC02" }));
}
/// a monitor command that prints very often, very little
fn prints() {
    let n = [64usize, 255, 256][pick(3) as usize];
    let k = 1 + pick(2) as usize;
    let mut s = start::<u64>(FULL, false);
    src(n);
    r().ret = n;
    r().regs_n = k;
    cs("qRcmd,61");
    go(&mut s);
    ck!(s.idle());
    let (b, r) = (big(), r());
    ck!(r.nout <= NBOUT);
    ck!(r.flushed == r.nout);
    let mut p = s.mark;
    ck!(b.out[p] == b'+');
    p += 1;
    let mut i = 0;
    let mut ok = true;
    while ok && p + 2 < r.nout && b.out[p + 2] != b'K' {
        ok &= (b.out[p] == b'$') & (b.out[p + 1] == b'O');
        let mut sum = b'O';
        p += 2;
        while p + 1 < r.nout && b.out[p] != b'#' {
            ok &= i < n && (b.out[p] == hx(b.src[i] >> 4)) & (b.out[p + 1] == hx(b.src[i] & 15));
            sum = sum.wrapping_add(b.out[p]).wrapping_add(b.out[p + 1]);
            i += 1;
            p += 2;
        }
        ok &= p + 3 <= r.nout && (b.out[p + 1] == hx(sum >> 4)) & (b.out[p + 2] == hx(sum & 15));
        p += 3;
    }
    ck!(ok);
    ck!(i == n);
    ck!(p + 6 == r.nout);
}
// ---- histories -------------------------------------------------------------------
/// commands that leave the session idle and their own reply unchanged
fn steady(k: usize) -> bool {
    !matches!(k, 9..=12 | 25..=31 | 41 | 71..=75)
}
pub static mut FIRST: [[u8; 260]; N as usize] = [[0; 260]; N as usize];
pub static mut FLEN: [usize; N as usize] = [0; N as usize];
/// hundreds of commands: each gets the reply it got the first time, and the
/// target is asked as often
#[allow(static_mut_refs)]
fn session(lo: usize, hi: usize, stride: usize) {
    let mut s = start::<u64>(if pick(2) == 1 { MC } else { FULL }, false);
    script();
    let b = big();
    let v = any();
    b.src[0] = v;
    r().src[0] = v & 0x0f | 0x60;
    let n = hi - lo;
    let mut ops = [0usize; N as usize];
    for round in 0..6 {
        let mut k = 0;
        for _ in 0..n {
            let j = lo + k;
            k = (k + if round == 0 { 1 } else { stride }) % n;
            if !steady(j) {
                continue;
            }
            fresh();
            s.sends(CMDS[j]);
            ck!(s.idle());
            let w = r().nout;
            ck!(w <= 260);
            let first = unsafe { &mut FIRST };
            if round == 0 {
                first[j][..w].copy_from_slice(&r().out[..w]);
                unsafe { FLEN[j] = w };
                ops[j] = s.ops();
            } else {
                ck!(unsafe { FLEN[j] } == w);
                ck!(ops[j] == s.ops());
                let mut same = true;
                for i in 0..w {
                    same &= first[j][i] == r().out[i];
                }
                ck!(same);
            }
        }
    }
}
/// resumed and stopped hundreds of times, in every way
fn cycles() {
    let multi = pick(2) == 1;
    let mut s = start::<u64>(if multi { MC } else { FULL }, false);
    let n = 120;
    let at = place(n);
    let v = any();
    for i in 0..n {
        fresh();
        s.sends(["c", "vCont;c", "s", "vCont;s:1", "bc", "c"][i % 6]);
        ck!(s.st() == St::Running);
        ck!(s.ops() > 0);
        ck!(r().nout == 1);
        if i % 3 == 2 {
            // interrupted, with what was typed meanwhile not lost
            s.byte(3);
            ck!(s.st() == St::CtrlC);
            s.interrupt_handled(if i % 2 == 0 { Some(MultiThreadStopReason::Signal(Signal(2))) } else { None });
            if i % 2 == 0 {
                ck!(s.idle());
                ck!(s.sent_s("S02"));
                continue;
            }
            ck!(s.st() == St::Running);
            ck!(s.silent());
        }
        let g = if i == at { v } else { i as u8 };
        if multi {
            s.stop_m(MultiThreadStopReason::Signal(Signal(g)));
        } else {
            s.stop_s(SingleThreadStopReason::Signal(Signal(g)));
        }
        let mut e = Bs::new();
        e.b(b'S').h8(g);
        ck!(s.idle());
        ck!(s.sent(&e));
        let nev = r().nev;
        s.sends("m10,0");
        ck!(r().nev >= nev);
        ck!(s.idle());
    }
}
/// a description read piece by piece is the description
fn xml(caps: u64) {
    let n = [1usize, 100, 500, 2000][pick(4) as usize];
    let step = [1usize, 7, 64, 255, 0x800][pick(5) as usize];
    if n / step > 100 {
        return;
    }
    let mut s = start::<u64>(caps, false);
    let b = big();
    for i in 0..n {
        b.data[i] = 0x21 + (pat(i) % 0x5d);
    }
    let at = place(n);
    let v = any();
    assume((v > 0x20) & (v < 0x80));
    b.data[at] = v;
    r().xml = ascii(&big().data[..n]);
    let mut k = 0;
    let mut last = false;
    while !last {
        ck!(k <= n);
        fresh();
        // (nothing is recorded as data: the description is what is read)
        cs("qXfer:features:read:target.xml:");
        cn(k);
        cs(",");
        cn(step);
        go(&mut s);
        ck!(s.idle());
        let (mut i, e) = payload(&s);
        ck!(i < e);
        last = b.out[i] == b'l';
        ck!(last || b.out[i] == b'm');
        i += 1;
        let from = k;
        while i < e {
            let mut x = b.out[i];
            i += 1;
            if conc((x == b'}') as u8) == 1 {
                ck!(i < e);
                x = b.out[i] ^ 0x20;
                i += 1;
            } else {
                ck!((x != b'#') & (x != b'$') & (x != b'*'));
            }
            ck!(k < n);
            ck!(x == b.data[k]);
            k += 1;
        }
        ck!(k - from <= step);
        ck!(last || k > from);
    }
    ck!(k == n);
}
/// hundreds of selections: each operation is on the thread last selected
fn select() {
    let mut s = start::<u32>(MC, false);
    let n = 150;
    let at = place(n);
    let v = any() as usize;
    assume(v != 0);
    let mut t = 1;
    r().ret = 4;
    for i in 0..n {
        fresh();
        match i % 5 {
            0 => {
                t = if i == at { v } else { i + 1 };
                cs("Hg");
                ch_(t >> 4);
                ch_(t);
                go(&mut s);
                ck!(reply_is(&s, "OK"));
            }
            1 => {
                // (not about memory)
                s.sends("Hc7");
                ck!(reply_is(&s, "OK"));
            }
            2 => {
                s.sends("m0,1");
                ck!(s.ops() == 1);
                ck!(is(&s, 0, O_RADDR, 0, 1, t as u64));
            }
            3 => {
                s.sends("g");
                ck!(s.ops() == 1);
                ck!(o(&s, 0).op == O_RREGS);
                ck!(o(&s, 0).a == t as u64);
            }
            _ => {
                s.sends("M0,1:11");
                ck!(s.ops() == 1);
                ck!(is(&s, 0, O_WADDR, 0, 1, t as u64));
            }
        }
        ck!(s.idle());
    }
}
/// hundreds of exchanges without acknowledgements, or with the client
/// acknowledging every one, sometimes twice
fn acks() {
    let mut s = start::<u64>(FULL, false);
    let na = pick(2) == 1;
    if na {
        s.sends("QStartNoAckMode");
        ck!(reply_is(&s, "OK"));
        s.na = true;
    }
    let at = place(200);
    let v = any();
    for i in 0..200 {
        fresh();
        let mut e = Bs::new();
        if i % 3 == 0 {
            s.sends("vMustReplyEmpty");
        } else {
            big().src[0] = if i == at { v } else { i as u8 };
            r().num[0] = i as u64;
            r().ret = 1;
            cs("m");
            cn(i);
            cs(",1");
            go(&mut s);
            e.h8(big().src[0]);
            ck!(s.ops() == 1);
            ck!(is(&s, 0, O_RADDR, i as u64, 1, NONE));
        }
        ck!(s.idle());
        ck!(s.replied(&e));
        s.begin();
        for _ in 0..i % 3 {
            s.byte(b'+');
        }
        ck!(s.silent());
        ck!(s.ops() == 0);
    }
}
/// hundreds of breakpoints
fn points() {
    let mut s = start::<u64>(if pick(2) == 1 { FULL } else { MC }, false);
    let at = place(256);
    let v = any();
    for i in 0..256 {
        fresh();
        let k = i % 5;
        let add = i / 5 % 2 == 0;
        cs(if add { "Z" } else { "z" });
        c(b'0' + k as u8);
        cs(",");
        ch(if i == at { v } else { i as u8 });
        ch(0x40);
        cs(",4");
        r().flag = i % 3 != 0;
        go(&mut s);
        ck!(s.idle());
        ck!(reply_is(&s, if r().flag { "OK" } else { "E16" }));
        ck!(s.ops() == 1);
        let e = o(&s, 0);
        ck!(e.op == if add { [O_ADDSW, O_ADDHW, O_ADDWP, O_ADDWP, O_ADDWP] } else { [O_REMSW, O_REMHW, O_REMWP, O_REMWP, O_REMWP] }[k]);
        ck!(e.a == (if i == at { v as u64 } else { i as u64 & 0xff }) << 8 | 0x40);
        ck!(e.b == 4);
        ck!(e.c == [0, 0, 0, 1, 2][k]);
    }
}
harness! {
fn mn_xml() { xml(FULL & !XMLOV | ARCHXML) }
fn mn_sel() { select() }
fn mn_ack() { acks() }
fn mn_brk() { points() }
fn mn_list() { list(false) }
fn mn_listp() { list(true) }
fn mn_alive() { alive() }
fn mn_vcont() { vcont() }
fn mn_run() { run() }
fn mn_catch() { catch() }
fn mn_acts() { actions() }
fn mn_feat() { features() }
fn mn_con() { prints() }
fn mn_ses_a() { session(0, 43, 5) }
fn mn_ses_b() { session(43, 86, 7) }
fn mn_cyc() { cycles() }
}
