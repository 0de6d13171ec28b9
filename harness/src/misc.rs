//! Monitor commands, system-call catching, section offsets.
use crate::api::*;
use crate::frame::rle_packet;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 1_400_000;
fn caps(need: u64) -> u64 {
    match pick(4) {
        0 => FULL,
        1 => FULL | MULTI,
        2 => BARE | need,
        _ => BARE | RESUME | MULTI | need,
    }
}
fn hexd(x: u8) -> bool {
    (x >= b'0') & (x <= b'9') | (x | 0x20 >= b'a') & (x | 0x20 <= b'f')
}
// ---- monitor commands ---------------------------------------------------------------
/// what arrived: an acknowledgement if due, console packets, none of them
/// empty, and the final OK; their text, or None
#[inline(never)]
fn console<U: AddrW>(s: &S<U>, end: bool) -> Option<Bs> {
    let r = r();
    for i in s.mark..r.nout {
        trace(r.out[i] as u64);
    }
    let mut t = Bs::new();
    let mut p = s.mark;
    if r.flushed != r.nout {
        return None;
    }
    if !s.na {
        if p >= r.nout || r.out[p] != b'+' {
            return None;
        }
        p += 1;
    }
    while p < r.nout {
        let mut d = Bs::new();
        p = rle_packet(p, &mut d);
        if p == 0 || d.n < 2 || d.d[0] != b'O' {
            return None;
        }
        if p == r.nout && end {
            return if d.n == 2 && d.d[1] == b'K' { Some(t) } else { None };
        }
        if d.n < 3 || d.n & 1 == 0 {
            return None;
        }
        let mut i = 1;
        let mut ok = true;
        while i < d.n {
            let (h, l) = (d.d[i], d.d[i + 1]);
            ok &= hexd(h) & hexd(l);
            t.b(hexval(h) << 4 | hexval(l));
            i += 2;
        }
        if !ok {
            return None;
        }
    }
    if end {
        None
    } else {
        Some(t)
    }
}
#[inline(never)]
fn same(t: Option<Bs>, e: &Bs) -> bool {
    match t {
        None => false,
        Some(t) => {
            let mut ok = t.n == e.n && t.n <= BSMAX;
            let mut i = 0;
            while i < e.n && ok {
                ok = ok & (t.d[i] == e.d[i]);
                i += 1;
            }
            ok
        }
    }
}
/// every command of up to `n` bytes reaches the target as it is
fn mon_cmd(hist: bool, n: u8) {
    let mut s = S::<u32>::new(caps(MON), 160);
    if hist {
        history(&mut s);
        r().calls = 0;
    }
    r().ret = 0;
    let mut c = Bs::of("qRcmd");
    let mut p = [0u8; 8];
    let mut k = 0;
    if pick(2) == 1 {
        c.b(b',');
        k = pick(n + 1) as usize;
        for o in &mut p[..k] {
            *o = sym_hex(&mut c, 2) as u8;
        }
    }
    s.send(c.sl());
    ck!(s.one(O_MON, 0, 0, 0, 0));
    ck!(s.op_data(0, &p[..k]));
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
/// a long command, one byte of it arbitrary
fn mon_long() {
    let mut s = S::<u32>::new(caps(MON), 140);
    r().ret = 0;
    let n = 60 + pick(8) as usize;
    let at = [0, 1, n / 2, n - 1][pick(4) as usize];
    let mut c = Bs::of("qRcmd,");
    let mut p = [0u8; 80];
    for i in 0..n {
        if i == at {
            p[i] = sym_hex(&mut c, 2) as u8;
        } else {
            p[i] = i as u8;
            c.h8(i as u8);
        }
    }
    s.send(c.sl());
    if c.n <= 136 {
        ck!(s.one(O_MON, 0, 0, 0, 0));
        ck!(s.op_data(0, &p[..n]));
        ck!(s.replied_s("OK"));
    } else {
        ck!(s.protocol_error());
        ck!(s.ops() == 0);
    }
}
fn mon_bad() {
    let mut s = S::<u32>::new(FULL, 160);
    let x = any();
    assume((x != b'#') & !hexd(x) & (x | 0x20 != b'x'));
    let mut c = Bs::of("qRcmd");
    match pick(5) {
        0 => {
            c.s(",6").b(x);
        }
        1 => {
            c.b(b',').b(x).s("1");
        }
        2 => {
            c.s(",6162").b(x).s("163");
        }
        3 => {
            assume(x != b',');
            c.b(x).s("61");
        }
        _ => {
            c.s(",61,");
            sym_hex(&mut c, 1);
        }
    }
    s.send(c.sl());
    ck!(s.ops() == 0);
    ck!(s.protocol_error());
}
/// up to `n` bytes printed in writes of any size, each flushed or none
fn mon_out(n: u8, rle: bool) {
    let mut s = S::<u32>::new(caps(MON) | if rle { RLE } else { 0 }, 160);
    sym_src(pick(n + 1) as usize);
    r().flag = pick(2) == 1;
    r().sel = pick(n);
    s.sends("qRcmd,61");
    let mut e = Bs::new();
    e.bytes(&r().src[..r().ret]);
    ck!(s.one(O_MON, 0, 0, 0, 0));
    ck!(same(console(&s, true), &e));
    ck!(s.idle());
}
fn mon_out_hist() {
    let mut s = S::<u32>::new(caps(MON), 160);
    history(&mut s);
    r().calls = 0;
    sym_src(2);
    r().flag = pick(2) == 1;
    r().sel = pick(2);
    for _ in 0..2 {
        s.sends("qRcmd,6162");
        let mut e = Bs::new();
        e.bytes(&r().src[..r().ret]);
        ck!(s.one(O_MON, 0, 0, 0, 0));
        ck!(same(console(&s, true), &e));
        ck!(s.idle());
        s.begin();
        r().src[0] = any();
    }
}
/// more than fits the packet buffer, one byte of it arbitrary
fn mon_out_long() {
    let mut s = S::<u32>::new(FULL, 40);
    let n = [17, 18, 19, 38, 64, 96][pick(6) as usize];
    for i in 0..n {
        r().src[i] = i as u8;
    }
    r().src[[0, n / 2, n - 1][pick(3) as usize]] = any();
    r().ret = n;
    r().flag = pick(2) == 1;
    r().sel = [0, 1, 7, 64][pick(4) as usize];
    s.sends("qRcmd");
    let mut e = Bs::new();
    e.bytes(&r().src[..n]);
    ck!(same(console(&s, true), &e));
    ck!(s.idle());
}
/// the formatting macros, and empty writes
fn mon_fmt(k: u8) {
    let mut s = S::<u32>::new(FULL, 160);
    let n = pick(4) as usize;
    sym_src(n);
    for i in 0..n {
        assume(r().src[i] < 128);
    }
    r().sel = k;
    s.sends("qRcmd,61");
    let mut e = Bs::new();
    let t = &r().src[..n];
    match k {
        250 => {
            e.bytes(t);
        }
        251 => {
            e.bytes(t).b(10);
        }
        252 => {
            e.b(b'a').bytes(t).s("b\n").bytes(t).b(10);
        }
        253 => {
            e.b(10).bytes(t).bytes(t).bytes(t);
        }
        _ => {
            e.bytes(t);
        }
    }
    ck!(same(console(&s, true), &e));
    ck!(s.idle());
}
/// the command fails after printing
fn mon_fail() {
    let mut s = S::<u32>::new(caps(MON), 160);
    sym_src(pick(3) as usize);
    r().flag = pick(2) == 1;
    r().fail_at = 0;
    r().code = any();
    s.sends("qRcmd,61");
    let mut e = Bs::new();
    e.bytes(&r().src[..r().ret]);
    ck!(s.err == Some(Err::Target(r().code)));
    // (the acknowledgement need not have been flushed)
    if r().ret > 0 {
        ck!(same(console(&s, false), &e));
    } else {
        ck!(s.acked_only());
    }
}
// ---- system calls -------------------------------------------------------------------
fn catch_list<U: AddrW>(hist: bool, n: u8, wide: bool) {
    let mut s = S::<U>::new(caps(CATCH), 160);
    if hist {
        history(&mut s);
        r().calls = 0;
    }
    let mut c = Bs::of("QCatchSyscalls:1");
    let k = pick(n + 1) as usize;
    let mut v = [0u64; 8];
    for i in 0..k {
        c.b(b';');
        let w = 2 * core::mem::size_of::<U>() as u32;
        v[i] = if wide && i == k - 1 {
            match pick(3) {
                0 => sym_ends(&mut c, w),
                1 => {
                    c.s("0000");
                    sym_ends(&mut c, w)
                }
                _ => sym_ends(&mut c, w - 1),
            }
        } else if wide {
            sym_hex(&mut c, 1)
        } else {
            sym_num(&mut c, 3)
        };
    }
    s.send(c.sl());
    ck!(s.op_is(0, O_CATCHEN, (k > 0) as u64, 0, 0, 0));
    ck!(s.ops() == 1 + k);
    for i in 0..k {
        ck!(s.op_is(1 + i, O_ARG, v[i], 0, 0, 0));
    }
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
/// as many as fit
fn catch_many() {
    let mut s = S::<u64>::new(caps(CATCH), 160);
    let mut c = Bs::of("QCatchSyscalls:1");
    let at = pick(20);
    let mut v = 0;
    for i in 0..20 {
        c.b(b';');
        if i == at {
            v = sym_hex(&mut c, 3);
        } else {
            c.h8(i);
        }
    }
    s.send(c.sl());
    ck!(s.op_is(0, O_CATCHEN, 1, 0, 0, 0));
    ck!(s.ops() == 21);
    for i in 0..20 {
        ck!(s.op_is(1 + i as usize, O_ARG, if i == at { v } else { i as u64 }, 0, 0, 0));
    }
    ck!(s.replied_s("OK"));
}
fn catch_off() {
    let mut s = S::<u32>::new(caps(CATCH), 160);
    history(&mut s);
    r().calls = 0;
    s.sends("QCatchSyscalls:0");
    ck!(s.one(O_CATCHDIS, 0, 0, 0, 0));
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
/// several settings in a row
fn catch_seq() {
    let mut s = S::<u32>::new(caps(CATCH), 160);
    for _ in 0..3 {
        match pick(3) {
            0 => {
                s.sends("QCatchSyscalls:0");
                ck!(s.one(O_CATCHDIS, 0, 0, 0, 0));
            }
            1 => {
                s.sends("QCatchSyscalls:1");
                ck!(s.one(O_CATCHEN, 0, 0, 0, 0));
            }
            _ => {
                let mut c = Bs::of("QCatchSyscalls:1;");
                let v = sym_num(&mut c, 2);
                s.send(c.sl());
                ck!(s.ops() == 2);
                ck!(s.op_is(0, O_CATCHEN, 1, 0, 0, 0));
                ck!(s.op_is(1, O_ARG, v, 0, 0, 0));
            }
        }
        ck!(s.idle());
        ck!(s.replied_s("OK"));
    }
}
fn catch_bad<U: AddrW>() {
    let mut s = S::<U>::new(FULL, 160);
    let x = any();
    assume((x != b'#') & !hexd(x) & (x | 0x20 != b'x') & (x != b';'));
    let mut c = Bs::of("QCatchSyscalls");
    match pick(8) {
        0 => {}
        1 => {
            c.b(b':');
        }
        2 => {
            let y = any();
            assume((y != b'0') & (y != b'1') & (y != b'#'));
            c.b(b':').b(y);
        }
        3 => {
            c.s(":1").b(x);
        }
        4 => {
            let y = any();
            assume(y != b'#');
            c.s(":0").b(y);
        }
        5 => {
            c.s(":1;").b(x);
        }
        6 => {
            c.s(":1;1;2").b(x).s(";3");
        }
        _ => {
            // a number the target's word cannot hold, among others
            c.s(":1;");
            let k = pick(3);
            if k > 0 {
                c.s("1;");
            }
            big_addr::<U>(&mut c);
            if k > 1 {
                c.s(";2");
            }
        }
    }
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(s.ops() == 0);
}
fn catch_fail() {
    let mut s = S::<u32>::new(caps(CATCH), 160);
    let f = sym_fail();
    let k = pick(3);
    s.sends(["QCatchSyscalls:0", "QCatchSyscalls:1", "QCatchSyscalls:1;3;4"][k as usize]);
    ck!(s.ops() == [1, 1, 3][k as usize]);
    ck!(s.failed(f));
}
// ---- offsets ------------------------------------------------------------------------
fn offs<U: AddrW>(hist: bool) {
    let mut s = S::<U>::new(caps(OFFS), 160);
    if hist {
        history(&mut s);
        r().calls = 0;
    }
    r().sel = pick(4);
    let n = if hist {
        [any() as u64, 7, 9]
    } else {
        let m = u64::MAX >> (64 - 8 * core::mem::size_of::<U>());
        let x = any64() & m;
        let y = (any() as u64) << (8 * pick(core::mem::size_of::<U>() as u8));
        match pick(3) {
            0 => [x, y, 1],
            1 => [y, x, 0x1234],
            _ => [m, y, x],
        }
    };
    r().num[..3].copy_from_slice(&n);
    s.sends("qOffsets");
    ck!(s.one(O_OFFS, 0, 0, 0, 0));
    ck!(s.idle());
    let mut e = Bs::new();
    match r().sel {
        0 => {
            e.s("Text=").num(n[0]).s(";Data=").num(n[1]).s(";Bss=").num(n[2]);
        }
        1 => {
            e.s("Text=").num(n[0]).s(";Data=").num(n[1]).s(";Bss=").num(n[1]);
        }
        2 => {
            e.s("TextSeg=").num(n[0]).s(";DataSeg=").num(n[1]);
        }
        _ => {
            e.s("TextSeg=").num(n[0]);
        }
    }
    ck!(s.replied(&e));
}
fn offs_fail() {
    let mut s = S::<u32>::new(caps(OFFS), 160);
    r().fail_at = 0;
    r().code = any();
    s.sends("qOffsets");
    ck!(s.ops() == 1);
    ck!(s.err == Some(Err::Target(r().code)));
}
harness! {
fn mo_cmd() { mon_cmd(false, 3) }
fn mo_cmd_hist() { mon_cmd(true, 1) }
fn mo_cmd_deep() { mon_cmd(false, 6) }
fn mo_long() { mon_long() }
fn mo_bad() { mon_bad() }
fn mo_out() { mon_out(4, false) }
fn mo_out_n() { mon_out(4, false) }
fn mo_out_rle() { mon_out(3, true) }
fn mo_out_deep() { mon_out(8, false) }
fn mo_out_hist() { mon_out_hist() }
fn mo_out_long() { mon_out_long() }
fn mo_out_longn() { mon_out_long() }
fn mo_fmt() { mon_fmt(250 + pick(5)) }
fn mo_fmt_n() { mon_fmt(250 + pick(5)) }
fn mo_fail() { mon_fail() }
fn ca_list() { catch_list::<u32>(false, 3, false) }
fn ca_hist() { catch_list::<u32>(true, 2, true) }
fn ca_w16() { catch_list::<u16>(false, 3, true) }
fn ca_w32() { catch_list::<u32>(false, 3, true) }
fn ca_w64() { catch_list::<u64>(false, 3, true) }
fn ca_many() { catch_many() }
fn ca_off() { catch_off() }
fn ca_seq() { catch_seq() }
fn ca_bad16() { catch_bad::<u16>() }
fn ca_bad32() { catch_bad::<u32>() }
fn ca_bad64() { catch_bad::<u64>() }
fn ca_fail() { catch_fail() }
fn of_16() { offs::<u16>(false) }
fn of_32() { offs::<u32>(false) }
fn of_64() { offs::<u64>(false) }
fn of_hist() { offs::<u32>(true) }
fn of_fail() { offs_fail() }
}
