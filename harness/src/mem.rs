//! Memory access commands.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 100_000;

const MC: u64 = FULL | MULTI;

/// selects a thread for memory access; what the target must be told
pub fn sel<U: AddrW>(s: &mut S<U>) -> u64 {
    if !has(MULTI) {
        return NONE;
    }
    if pick(2) == 0 {
        return 1;
    }
    let mut c = Bs::new();
    c.s("Hg");
    let t = sym_num(&mut c, 2);
    assume(t != 0);
    s.send(c.sl());
    ck!(s.replied_s("OK"));
    t
}

fn m_addr<U: AddrW>(caps: u64) {
    let mut s = S::<U>::new(caps, 64);
    let tid = sel(&mut s);
    let mut c = Bs::new();
    c.b(b'm');
    let addr = sym_addr::<U>(&mut c);
    c.s(",1");
    r().num[0] = addr;
    sym_src(1);
    s.send(c.sl());
    let mut e = Bs::new();
    e.hexs(&r().src[..1]);
    ck!(s.idle());
    ck!(s.replied(&e));
    ck!(s.one(O_RADDR, addr, 1, tid, 0));
}
/// every length and every short count, arbitrary contents
fn m_len<U: AddrW>(caps: u64, max: u8, hist: bool) {
    let mut s = S::<U>::new(caps, 96);
    if hist {
        history(&mut s);
    }
    let mut c = Bs::new();
    c.b(b'm');
    let addr = sym_hex(&mut c, 2);
    c.b(b',');
    let len = conc(any_below(max + 1));
    if len >= 16 || any_bool() {
        c.b(hx(len >> 4));
    }
    c.b(if len & 15 >= 10 && any_bool() { hxu(len & 15) } else { hx(len & 15) });
    r().num[0] = addr;
    sym_src(len as usize);
    r().ret = conc(any_below(len + 1)) as usize;
    s.send(c.sl());
    let mut e = Bs::new();
    let n = r().ret;
    e.hexs(&r().src[..n]);
    ck!(s.idle());
    ck!(s.replied(&e));
    if len > 0 {
        ck!(s.one(O_RADDR, addr, len as u64, if has(MULTI) { 1 } else { NONE }, 0));
    } else {
        ck!(s.ops() == 0);
    }
}
/// longer than the free space of the packet buffer: the reply is what the
/// target holds from the address on, cut at the first byte it cannot read
fn m_long<U: AddrW>(caps: u64, sizes: u8, nl: u8) {
    let mut s = S::<U>::new(caps, 0);
    let _ = &s;
    r().nout = 0;
    s = S::<U>::over(caps, pb(28 + pick(sizes) as usize));
    let mut tid = NONE;
    if has(MULTI) {
        s.sends("Hg5");
        tid = 5;
    }
    let mut c = Bs::new();
    c.b(b'm');
    let nd = 2 * core::mem::size_of::<U>() as u32;
    let near_end = pick(2) == 1;
    let addr = if near_end {
        let v = if nd == 16 { u64::MAX - 39 } else { (1u64 << (4 * nd)) - 40 };
        c.hn(v, nd);
        v
    } else {
        sym_hex(&mut c, 2)
    };
    c.b(b',');
    let lens = [41u8, 57, 29, 80];
    let len = lens[pick(nl) as usize];
    c.h8(len);
    r().num[0] = addr;
    let mut i = 0;
    while i < NSRC {
        r().src[i] = i as u8 ^ 0x5a;
        i += 1;
    }
    r().ret = conc(any_below(if near_end { 41 } else { len + 1 })) as usize;
    let f = pick(4);
    if f > 0 {
        r().fail_at = f as u32 - 1;
        r().fail = Fail::Errno;
        r().code = any();
    }
    s.send(c.sl());
    ck!(s.idle());
    // the operations partition a prefix of the range
    let mut at = addr;
    let n = s.ops();
    let mut i = 0;
    while i < n {
        let e = s.op(i);
        ck!(e.op == O_RADDR && e.a == at && e.b > 0 && e.c == tid);
        at = at.wrapping_add(e.b);
        i += 1;
    }
    ck!(at.wrapping_sub(addr) <= len as u64);
    // what was sent: an error, or a prefix of the readable bytes
    let mut e = Bs::new();
    if f == 1 {
        e.b(b'E').h8(r().code);
        ck!(s.replied(&e));
        return;
    }
    let got = r().nout - s.mark;
    ck!(got >= 5 && (got - 5) % 2 == 0);
    let k = (got - 5) / 2;
    let mut want = if r().ret < len as usize { r().ret } else { len as usize };
    if f == 0 {
        ck!(k == want);
        cov!();
    } else {
        ck!(k <= want);
    }
    want = k;
    e.hexs(&r().src[..want]);
    ck!(s.replied(&e));
}
/// any length, of which the target has little
fn m_wide<U: AddrW>(caps: u64) {
    let mut s = S::<U>::new(caps, 96);
    let mut tid = NONE;
    if has(MULTI) {
        s.sends("Hg5");
        tid = 5;
    }
    let mut c = Bs::of("m");
    let addr = sym_hex(&mut c, 2);
    c.b(b',');
    let len = match pick(4) {
        0 => sym_num(&mut c, 4),
        1 => sym_ends(&mut c, [5, 8, 9, 12][pick(4) as usize]),
        2 => sym_ends(&mut c, 16),
        _ => {
            c.s("00000");
            sym_hex(&mut c, 4)
        }
    };
    r().num[0] = addr;
    sym_src(4);
    r().ret = pick(5) as usize;
    s.send(c.sl());
    ck!(s.idle());
    let n = conc(if len < r().ret as u64 { len as u8 } else { r().ret as u8 }) as usize;
    let mut e = Bs::new();
    e.hexs(&r().src[..n]);
    ck!(s.replied(&e));
    let mut at = 0;
    for i in 0..s.ops() {
        let e = s.op(i);
        ck!((e.op == O_RADDR) & (e.a == addr + at) & (e.c == tid));
        ck!((e.b > 0) & (e.b <= len - at));
        at += e.b;
    }
    ck!(at >= n as u64);
    ck!((len == 0) == (s.ops() == 0));
}
fn m_big<U: AddrW>(caps: u64) {
    let mut s = S::<U>::new(caps, 64);
    let mut c = Bs::new();
    c.b(b'm');
    big_addr::<U>(&mut c);
    c.s(",2");
    sym_src(2);
    s.send(c.sl());
    ck!(s.ops() == 0);
    ck!(s.protocol_error());
}
fn m_fail<U: AddrW>(caps: u64) {
    let mut s = S::<U>::new(caps, 64);
    let f = sym_fail();
    r().num[0] = 0x10;
    sym_src(3);
    s.sends("m10,3");
    ck!(s.one(O_RADDR, 0x10, 3, if has(MULTI) { 1 } else { NONE }, 0));
    ck!(s.failed(f));
}
harness! {
fn m_addr16() { m_addr::<u16>(MC) }
fn m_addr32() { m_addr::<u32>(MC) }
fn m_addr64() { m_addr::<u64>(MC) }
fn m_addr32s() { m_addr::<u32>(FULL) }
fn m_len_s() { m_len::<u64>(FULL, 12, false) }
fn m_len_m() { m_len::<u32>(MC, 12, false) }
fn m_len_deep() { m_len::<u32>(MC, 40, false) }
fn m_hist() { m_len::<u64>(FULL, 3, true) }
fn m_hist_m() { m_len::<u64>(MC, 3, true) }
fn m_long32() { m_long::<u32>(MC, 1, 2) }
fn m_long16() { m_long::<u16>(MC, 2, 4) }
fn m_long64() { m_long::<u64>(FULL, 2, 4) }
fn m_big16() { m_big::<u16>(FULL) }
fn m_big32() { m_big::<u32>(MC) }
fn m_big64() { m_big::<u64>(FULL) }
fn m_fail_s() { m_fail::<u32>(FULL) }
fn m_fail_m() { m_fail::<u32>(MC) }
}

// ---- writes -----------------------------------------------------------------
fn wr<U: AddrW>(caps: u64, x: bool, full_addr: bool, max: u8, hist: bool) {
    let mut s = S::<U>::new(caps, 128);
    if hist {
        history(&mut s);
    }
    let tid = if full_addr { sel(&mut s) } else if has(MULTI) { 1 } else { NONE };
    let mut c = Bs::new();
    c.b(if x { b'X' } else { b'M' });
    let addr = if full_addr { sym_addr::<U>(&mut c) } else { sym_hex(&mut c, 3) };
    c.b(b',');
    let n = if max == 0 { 1 } else { pick(max + 1) } as usize;
    c.hn(n as u64, if n >= 16 { 2 } else { 1 });
    c.b(b':');
    let mut d = [0u8; 64];
    let mut i = 0;
    while i < n {
        if x {
            d[i] = any();
            let v = d[i];
            // the client escapes these (and may escape others); '*' needs no
            // escape in this direction
            if conc((v == b'#' || v == b'$' || v == b'}') as u8) == 1 {
                c.b(b'}').b(v ^ 0x20);
            } else {
                c.b(v);
            }
        } else {
            d[i] = sym_hex(&mut c, 2) as u8;
        }
        i += 1;
    }
    s.send(c.sl());
    ck!(s.idle());
    ck!(s.replied_s("OK"));
    ck!(s.one(O_WADDR, addr, n as u64, tid, 0));
    ck!(s.op_data(0, &d[..n]));
}
/// a client may escape any byte it likes
fn wx_esc<U: AddrW>(caps: u64, max: u8) {
    let mut s = S::<U>::new(caps, 128);
    let tid = sel(&mut s);
    let mut c = Bs::of("X1f0,");
    let n = pick(max + 1) as usize;
    c.b(hx(n as u8)).b(b':');
    let mut d = [0u8; 8];
    for o in &mut d[..n] {
        let x = any();
        if pick(2) == 1 {
            assume(x != b'#' && x != b'$');
            c.b(b'}').b(x);
            *o = x ^ 0x20;
        } else {
            assume(x != b'#' && x != b'$' && x != b'}');
            c.b(x);
            *o = x;
        }
    }
    s.send(c.sl());
    ck!(s.idle());
    ck!(s.replied_s("OK"));
    ck!(s.one(O_WADDR, 0x1f0, n as u64, tid, 0));
    ck!(s.op_data(0, &d[..n]));
}
fn wr_big<U: AddrW>(caps: u64, x: bool) {
    let mut s = S::<U>::new(caps, 64);
    let mut c = Bs::new();
    c.b(if x { b'X' } else { b'M' });
    big_addr::<U>(&mut c);
    c.s(",1:");
    if x {
        c.b(b'A');
    } else {
        c.s("41");
    }
    s.send(c.sl());
    ck!(s.ops() == 0);
    ck!(s.protocol_error());
}
fn wr_fail<U: AddrW>(caps: u64, x: bool) {
    let mut s = S::<U>::new(caps, 64);
    let f = sym_fail();
    s.sends(if x { "X10,2:ab" } else { "M10,2:6162" });
    ck!(s.one(O_WADDR, 0x10, 2, if has(MULTI) { 1 } else { NONE }, 0));
    ck!(s.op_data(0, b"ab"));
    ck!(s.failed(f));
}
/// long payloads that nearly fill the buffer, with a few arbitrary bytes
fn wr_long<U: AddrW>(caps: u64, x: bool) {
    let mut s = S::<U>::over(caps, pb(160));
    let mut c = Bs::new();
    c.b(if x { b'X' } else { b'M' });
    let addr = sym_hex(&mut c, 4);
    let n = [15usize, 16, 17, 31, 32, 33, 47, 48, 63, 64][pick(10) as usize];
    c.b(b',').h8(n as u8).b(b':');
    let mut d = [0u8; 64];
    let at = [0, 1, n / 2, n - 1][pick(4) as usize];
    let mut i = 0;
    while i < n {
        d[i] = 0x80 + i as u8;
        if i == at {
            d[i] = any();
            if x {
                assume(d[i] != b'#' && d[i] != b'$' && d[i] != b'}');
            }
        }
        if x {
            c.b(d[i]);
        } else {
            c.h8(d[i]);
        }
        i += 1;
    }
    s.send(c.sl());
    ck!(s.idle());
    ck!(s.replied_s("OK"));
    ck!(s.one(O_WADDR, addr, n as u64, if has(MULTI) { 1 } else { NONE }, 0));
    ck!(s.op_data(0, &d[..n]));
}
harness! {
fn m_wide_s() { m_wide::<u64>(FULL) }
fn m_wide_m() { m_wide::<u32>(MC) }
fn wm_addr16() { wr::<u16>(MC, false, true, 0, false) }
fn wm_addr32() { wr::<u32>(FULL, false, true, 0, false) }
fn wm_addr64() { wr::<u64>(MC, false, true, 0, false) }
fn wx_addr16() { wr::<u16>(FULL, true, true, 0, false) }
fn wx_addr32() { wr::<u32>(MC, true, true, 0, false) }
fn wx_addr64() { wr::<u64>(MC, true, true, 0, false) }
fn wm_data() { wr::<u32>(FULL, false, false, 6, false) }
fn wx_data() { wr::<u32>(FULL, true, false, 5, false) }
fn wm_data_deep() { wr::<u64>(MC, false, false, 16, false) }
fn wx_data_deep() { wr::<u64>(MC, true, false, 9, false) }
fn wm_hist() { wr::<u64>(FULL, false, false, 2, true) }
fn wx_hist() { wr::<u64>(FULL, true, false, 2, true) }
fn wm_long() { wr_long::<u32>(MC, false) }
fn wx_esc3() { wx_esc::<u64>(FULL | MULTI, 3) }
fn wx_esc5() { wx_esc::<u32>(FULL, 5) }
fn wx_long() { wr_long::<u64>(FULL, true) }
fn wm_big() { wr_big::<u16>(FULL, false); }
fn wx_big() { wr_big::<u32>(FULL, true); }
fn wm_big64() { wr_big::<u64>(MC, false); }
fn wm_fail() { wr_fail::<u32>(FULL, false) }
fn wx_fail() { wr_fail::<u32>(MC, true) }
}
