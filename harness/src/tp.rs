//! Tracepoints: definitions (t_*) and experiments, buffers, frames, uploads (tx_*).
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 1_200_000;
fn hist<U: AddrW>(s: &mut S<U>, on: bool) {
    if on {
        history(s);
        r().calls = 0;
    }
}
fn hexd(x: u8) -> bool {
    (x >= b'0') & (x <= b'9') | (x | 0x20 >= b'a') & (x | 0x20 <= b'f')
}
fn addr<U: AddrW>(c: &mut Bs, wide: bool) -> u64 {
    if !wide {
        sym_hex(c, 2)
    } else if core::mem::size_of::<U>() == 8 {
        sym_long(c)
    } else {
        sym_addr::<U>(c)
    }
}
/// field `k` at full width, the others short
fn create<U: AddrW>(k: u8, h: bool) {
    let mut s = S::<U>::new(if pick(2) == 1 { FULL } else { FULL | MULTI }, 160);
    hist(&mut s, h);
    let mut c = Bs::of("QTDP:");
    let num = |c: &mut Bs, j: u8| if k == j { sym_long(c) } else { sym_hex(c, 1) };
    let n = num(&mut c, 0);
    c.b(b':');
    let a = addr::<U>(&mut c, k == 1);
    c.b(b':');
    let e = pick(2) == 1;
    c.b(if e { b'E' } else { b'D' }).b(b':');
    let st = num(&mut c, 2);
    c.b(b':');
    let pa = num(&mut c, 3);
    let more = pick(2) == 1;
    if more {
        c.b(b'-');
    }
    s.send(c.sl());
    ck!(s.op_is(0, O_TPBEGIN, n, a, st, pa));
    ck!(s.op_data(0, &[e as u8]));
    if more {
        ck!(s.ops() == 1);
    } else {
        ck!(s.ops() == 2);
        ck!(s.op_is(1, O_TPDONE, n, 0, 0, 0));
    }
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
/// an action; checks it against event `i`
fn action(c: &mut Bs, max: u8, p: &mut [u8; 8]) -> (u64, usize) {
    let n;
    if pick(2) == 0 {
        c.b(b'R');
        // a mask of any number of digits
        let d = pick(2 * max + 1) as usize;
        n = (d + 1) / 2;
        for i in 0..n {
            p[i] = if i == 0 && d % 2 == 1 { sym_hex(c, 1) as u8 } else { sym_hex(c, 2) as u8 };
        }
        (1, n)
    } else {
        c.b(b'X');
        n = pick(max + 1) as usize;
        if pick(2) == 0 {
            c.b(b'0');
        }
        c.b(hx(n as u8)).b(b',');
        for o in &mut p[..n] {
            *o = sym_hex(c, 2) as u8;
        }
        (3, n)
    }
}
fn extend<U: AddrW>(na: u8, max: u8, wide: bool, h: bool) {
    let mut s = S::<U>::new(FULL, 160);
    hist(&mut s, h);
    let mut c = Bs::of("QTDP:-");
    let n = if wide { sym_long(&mut c) } else { sym_hex(&mut c, 1) };
    c.b(b':');
    addr::<U>(&mut c, wide);
    c.b(b':');
    let k = pick(na + 1) as usize;
    let mut p = [[0u8; 8]; 3];
    let mut a = [(0u64, 0usize); 3];
    for i in 0..k {
        a[i] = action(&mut c, max, &mut p[i]);
    }
    let more = pick(2) == 1;
    if more {
        c.b(b'-');
    }
    s.send(c.sl());
    for i in 0..k {
        ck!(s.op_is(i, O_TPCONT, n, a[i].0, 0, 0)); // opt: none when na == 0
        ck!(s.op_data(i, &p[i][..a[i].1])); // opt:
    }
    if more {
        ck!(s.ops() == k);
    } else {
        ck!(s.ops() == k + 1);
        ck!(s.op_is(k, O_TPDONE, n, 0, 0, 0));
    }
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
/// a long expression
fn extend_long() {
    let mut s = S::<u32>::new(FULL, 300);
    let mut c = Bs::of("QTDP:-1:10:");
    if pick(2) == 1 {
        c.s("Rff00");
    }
    let r0 = c.n > 11;
    let n = [15usize, 16, 17, 31, 63][pick(5) as usize];
    c.s("X").num(n as u64).b(b',');
    let at = pick(3) as usize;
    let mut p = [0u8; 64];
    for i in 0..n {
        if i == [0, n / 2, n - 1][at] {
            p[i] = sym_hex(&mut c, 2) as u8;
        } else {
            p[i] = 0x52 + (i as u8 & 7);
            c.h8(p[i]);
        }
    }
    c.s("R03");
    s.send(c.sl());
    let i = r0 as usize;
    ck!(s.ops() == 3 + i);
    ck!(!r0 || s.op_data(0, &[0xff, 0]));
    ck!(s.op_is(i, O_TPCONT, 1, 3, 0, 0));
    ck!(s.op_data(i, &p[..n]));
    ck!(s.op_is(i + 1, O_TPCONT, 1, 1, 0, 0));
    ck!(s.op_data(i + 1, &[3]));
    ck!(s.op_is(i + 2, O_TPDONE, 1, 0, 0, 0));
    ck!(s.replied_s("OK"));
}
fn source<U: AddrW>(k: u8, h: bool) {
    let mut s = S::<U>::new(FULL, 160);
    hist(&mut s, h);
    let mut c = Bs::of("QTDPsrc:");
    let n = if k == 0 { sym_long(&mut c) } else { sym_hex(&mut c, 1) };
    c.b(b':');
    let a = addr::<U>(&mut c, k == 1);
    c.b(b':');
    let t = pick(3) as u64;
    c.s(["at:", "cond:", "cmd:"][t as usize]);
    let n32 = |c: &mut Bs, j: u8| {
        if k != j {
            return sym_hex(c, 1);
        }
        match pick(3) {
            0 => sym_num(c, 4),
            1 => sym_ends(c, 8),
            _ => {
                c.s("00000000");
                sym_hex(c, 2)
            }
        }
    };
    let st = n32(&mut c, 2);
    c.b(b':');
    let sl = n32(&mut c, 3);
    c.b(b':');
    let m = pick(if k == 4 { 5 } else { 2 }) as usize;
    let mut p = [0u8; 8];
    for o in &mut p[..m] {
        *o = sym_hex(&mut c, 2) as u8;
    }
    s.send(c.sl());
    ck!(s.one(O_TPSRC, n, a, t, st | sl << 32));
    ck!(s.op_data(0, &p[..m]));
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
/// what the library does not implement is refused as a whole
fn unsupported() {
    let mut s = S::<u32>::new(FULL, 160);
    let more = pick(2) == 1;
    let mut c = Bs::new();
    let mut partial = false;
    if pick(2) == 0 {
        c.s("QTDP:1:10:E:0:0:");
        match pick(3) {
            0 => {
                c.b(b'F');
                sym_num(&mut c, 2);
            }
            1 => {
                c.b(b'S');
            }
            _ => {
                c.s("X1,");
                sym_hex(&mut c, 2);
            }
        }
    } else {
        c.s("QTDP:-1:10:");
        if pick(2) == 1 {
            partial = true;
            c.s("R01");
        }
        match pick(3) {
            0 => {
                c.b(b'S');
            }
            1 => {
                c.s("M-1,0,4");
            }
            _ => {
                c.s("S").s("R01");
            }
        }
    }
    if more {
        c.b(b'-');
    }
    s.send(c.sl());
    ck!(s.protocol_error());
    if partial {
        ck!(s.ops() == 1);
        ck!(s.op(0).op == O_TPCONT);
    } else {
        ck!(s.ops() == 0);
    }
}
/// malformed definitions
fn bad<U: AddrW>() {
    let mut s = S::<U>::new(FULL, 160);
    let mut c = Bs::new();
    let junk = |c: &mut Bs| {
        let x = any();
        assume(!hexd(x) & (x != b'#') & (x | 0x20 != b'x') & (x != b':') & (x != b'-'));
        c.b(x);
    };
    match pick(10) {
        0 => {
            // a number that is none
            c.s(["QTDP:", "QTDP:-", "QTDPsrc:"][pick(3) as usize]);
            junk(&mut c);
            c.s(":1:E:0:0");
        }
        1 => {
            c.s(["QTDP:1:", "QTDP:-1:", "QTDPsrc:1:"][pick(3) as usize]);
            junk(&mut c);
            c.s("2:E:0:0");
        }
        2 => {
            // neither enabled nor disabled
            c.s("QTDP:1:2:");
            let n = pick(3);
            for _ in 0..n {
                let x = any();
                assume((x != b'#') & (x != b':') & (n != 1 || (x != b'E') & (x != b'D')));
                c.b(x);
            }
            c.s(":0:0");
        }
        3 => {
            c.s("QTDP:1:2:E:");
            if pick(2) == 1 {
                c.s("1:");
            }
            junk(&mut c);
            if pick(2) == 1 {
                c.s(":1");
            }
        }
        4 => {
            // something missing
            c.s(["QTDP:1:2:E:1", "QTDP:1:2:E", "QTDP:1:2", "QTDP:1", "QTDP:", "QTDP", "QTDP:-", "QTDP:-1", "QTDP:-1:2", "QTDPsrc:1:2:at:0:1", "QTDPsrc:1:2:at:0", "QTDPsrc:1:2:at", "QTDPsrc:1:2", "QTDPsrc", "QTDP1:2:E:1:1", "QTDP:1:2:E:1:-", "QTDP:1:2:E::1"][pick(17) as usize]);
        }
        5 => {
            // an option there is none of
            c.s("QTDP:1:2:E:1:1:");
            let x = any();
            assume((x != b'#') & (x != b'F') & (x != b'X') & (x != b'S') & (x != b':') & (x != b'-'));
            c.b(x);
        }
        6 => {
            // an address wider than the target's
            c.s(["QTDP:1:", "QTDP:-1:", "QTDPsrc:1:"][pick(3) as usize]);
            let long = c.n == 10;
            big_addr::<U>(&mut c);
            c.s(if c.d[5] == b'-' {
                ":R01"
            } else if long {
                ":at:0:1:61"
            } else {
                ":E:0:0"
            });
        }
        7 => {
            // an unknown kind of source, numbers of more than 32 bits
            c.s("QTDPsrc:1:2:");
            match pick(4) {
                0 => {
                    c.s("a");
                    let x = any();
                    assume((x != b't') & (x != b'#') & (x != b':'));
                    c.b(x);
                    c.s(":0:1:61");
                }
                1 => {
                    c.s(["atx:0:1:61", "con:0:1:61", ":0:1:61", "cmdd:0:1:61"][pick(4) as usize]);
                }
                2 => {
                    c.s("at:");
                    let d = sym_digit(&mut c);
                    assume(d != 0);
                    c.s("00000000:1:61");
                }
                _ => {
                    c.s("cmd:0:");
                    let d = sym_digit(&mut c);
                    assume(d != 0);
                    c.s("00000000:61");
                }
            }
        }
        8 => {
            c.s("QTDPsrc:1:2:at:0:1:6");
            junk(&mut c);
        }
        _ => {
            // numbers of more than 64 bits
            c.s(["QTDP:", "QTDP:1:2:E:", "QTDP:1:2:E:1:", "QTDPsrc:", "QTDP:-"][pick(5) as usize]);
            let d = sym_digit(&mut c);
            assume(d != 0);
            c.s("0000000000000000");
            c.s([":1:E:1:1", ":1", "", ":1:at:0:0:61", ":1:R1"][match c.n {
                22 if c.d[5] == b'-' => 4,
                22 => 0,
                _ => 1,
            }]);
        }
    }
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(s.ops() == 0);
}
/// malformed actions, also behind proper ones: the definition is never
/// completed
fn bad_actions() {
    let mut s = S::<u32>::new(FULL, 160);
    let mut c = Bs::of("QTDP:-5:2:");
    let k = pick(3);
    for i in 0..k {
        c.s(if i == 0 { "R05" } else { "X1,22" });
    }
    match pick(8) {
        0 => {
            let x = any();
            assume((x != b'#') & (x != b':') & (x != b'R') & (x != b'M') & (x != b'X') & (x != b'S') & (x != b'-'));
            assume(k != 1 || !hexd(x) & (x | 0x20 != b'x'));
            c.b(x);
        }
        1 => {
            c.b(b'R');
            let x = any();
            assume((x != b'#') & (x != b':') & (x != b'R') & (x != b'M') & (x != b'X') & (x != b'S') & (x != b'-') & !hexd(x) & (x != b'x'));
            c.b(x);
            c.b(b'1');
        }
        2 => {
            // less than announced
            let v = sym_num_x(&mut c);
            let n = pick(3);
            assume(v > n as u64);
            for _ in 0..n {
                sym_hex(&mut c, 2);
            }
            if pick(2) == 1 {
                sym_hex(&mut c, 1);
            }
        }
        3 => {
            c.s("X2,1122");
            let x = any();
            assume((x != b'#') & (x != b':') & (x != b'R') & (x != b'M') & (x != b'X') & (x != b'S') & (x != b'-'));
            c.b(x);
        }
        4 => {
            c.s(["X", "X1", "X,", "X11"][pick(4) as usize]);
        }
        5 => {
            c.b(b'X');
            let x = any();
            assume((x != b'#') & (x != b':') & (x != b',') & !hexd(x) & (x | 0x20 != b'x') & (x != b'-'));
            c.b(x).s(",11");
        }
        6 => {
            c.s("X1,1");
            let x = any();
            assume((x != b'#') & (x != b':') & !hexd(x) & (x | 0x20 != b'x') & (x != b'-'));
            c.b(x);
        }
        _ => {
            // a length of more than 64 bits
            c.b(b'X');
            let d = sym_digit(&mut c);
            assume(d != 0);
            c.s("0000000000000000,11");
        }
    }
    if pick(2) == 1 {
        c.b(b'-');
    }
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(s.ops() <= 3);
    let mut i = 0;
    while i < s.ops() {
        ck!(s.op(i).op == O_TPCONT && s.op(i).a == 5);
        i += 1;
    }
}
fn sym_num_x(c: &mut Bs) -> u64 {
    c.b(b'X');
    let v = sym_long(c);
    c.b(b',');
    v
}
/// every operation fails in turn
fn def_fails() {
    let mut s = S::<u32>::new(FULL, 160);
    let k = pick(4) as usize;
    let f = sym_fail();
    let at = pick(3) as usize;
    r().fail_at = at as u32;
    s.sends(["QTDP:1:2:E:0:0", "QTDP:-1:2:R1X1,22R3-", "QTDP:-1:2:R1", "QTDPsrc:1:2:at:0:1:61"][k]);
    // how many calls there are if none fails
    let n = [2, 3, 2, 1][k];
    if at < n {
        ck!(s.failed(f));
        let mut i = 0;
        while i < s.ops() {
            // never completed, unless that is what failed
            ck!(s.op(i).op != O_TPDONE || i == at);
            i += 1;
        }
    } else {
        ck!(s.replied_s("OK"));
    }
}
/// a whole definition
fn whole() {
    let mut s = S::<u32>::new(if pick(2) == 1 { FULL } else { FULL | MULTI }, 160);
    let n = any();
    let nh = |c: &mut Bs| {
        c.h8(n);
    };
    let mut c = Bs::of("QTDP:");
    nh(&mut c);
    c.s(":1000:E:0:0-");
    s.send(c.sl());
    ck!(s.one(O_TPBEGIN, n as u64, 0x1000, 0, 0));
    ck!(s.replied_s("OK"));
    let mut c = Bs::of("QTDP:-");
    nh(&mut c);
    c.s(":1000:R");
    let m = sym_hex(&mut c, 2) as u8;
    c.b(b'-');
    s.send(c.sl());
    ck!(s.one(O_TPCONT, n as u64, 1, 0, 0));
    ck!(s.op_data(0, &[m]));
    ck!(s.replied_s("OK"));
    let src = pick(2) == 1;
    if src {
        let mut c = Bs::of("QTDPsrc:");
        nh(&mut c);
        c.s(":1000:cmd:0:3:616263");
        s.send(c.sl());
        ck!(s.one(O_TPSRC, n as u64, 0x1000, 2, 3 << 32));
        ck!(s.op_data(0, b"abc"));
    }
    let mut c = Bs::of("QTDP:-");
    nh(&mut c);
    c.s(":1000:X1,");
    let m = sym_hex(&mut c, 2) as u8;
    s.send(c.sl());
    ck!(s.ops() == 2);
    ck!(s.op_is(0, O_TPCONT, n as u64, 3, 0, 0));
    ck!(s.op_data(0, &[m]));
    ck!(s.op_is(1, O_TPDONE, n as u64, 0, 0, 0));
    ck!(s.replied_s("OK"));
}
harness! {
fn t_num() { create::<u32>(0, false) }
fn t_addr16() { create::<u16>(1, false) }
fn t_addr32() { create::<u32>(1, false) }
fn t_addr64() { create::<u64>(1, false) }
fn t_step() { create::<u32>(2, false) }
fn t_pass() { create::<u32>(3, false) }
fn t_hist() { create::<u32>(4, true) }
fn t_act1() { extend::<u32>(1, 3, false, false) }
fn t_act2() { extend::<u64>(2, 1, false, false) }
fn t_act3() { extend::<u32>(3, 2, false, false) }
fn t_act_wide16() { extend::<u16>(0, 0, true, false) }
fn t_act_wide32() { extend::<u32>(0, 0, true, false) }
fn t_act_wide64() { extend::<u64>(0, 0, true, false) }
fn t_act_hist() { extend::<u32>(1, 1, false, true) }
fn t_act_long() { extend_long() }
fn t_src_n() { source::<u32>(0, false) }
fn t_src_a16() { source::<u16>(1, false) }
fn t_src_a32() { source::<u32>(1, false) }
fn t_src_a64() { source::<u64>(1, false) }
fn t_src_st() { source::<u32>(2, false) }
fn t_src_len() { source::<u32>(3, false) }
fn t_src_data() { source::<u32>(4, false) }
fn t_src_hist() { source::<u32>(9, true) }
fn t_unsup() { unsupported() }
fn t_bad16() { bad::<u16>() }
fn t_bad64() { bad::<u64>() }
fn t_bad_act() { bad_actions() }
fn t_fail() { def_fails() }
fn t_whole() { whole() }
}
