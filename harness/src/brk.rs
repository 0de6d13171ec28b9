//! Breakpoint commands.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 400_000;

/// one `Z`/`z` packet of any type against a target with any subset of the
/// three kinds of support
fn brk<U: AddrW>(mode: u8) {
    let sup = pick(8) as u64;
    let caps = (FULL & !(SWB | HWB | HWW))
        | if sup & 1 != 0 { SWB } else { 0 }
        | if sup & 2 != 0 { HWB } else { 0 }
        | if sup & 4 != 0 { HWW } else { 0 };
    let mut s = S::<U>::new(caps, 96);
    if mode == 2 {
        history(&mut s);
    }
    r().flag = pick(2) == 1;
    let add = pick(2) == 1;
    let mut c = Bs::new();
    c.b(if add { b'Z' } else { b'z' });
    let ty = sym_hex(&mut c, if mode == 1 { 2 } else { 1 }) as u8;
    c.b(b',');
    let addr = if mode == 0 { sym_addr::<U>(&mut c) } else { sym_hex(&mut c, 2) };
    c.b(b',');
    // (numbers wider than 64 bits: see brk_big)
    let kind = if mode == 1 { sym_num(&mut c, if core::mem::size_of::<U>() == 2 { 6 } else { 10 }) } else { sym_hex(&mut c, 2) };
    if mode == 2 {
        // conditions and commands that follow are not part of the arguments
        c.s(";X2,2aff;cmds:1,X1,ff");
    }
    s.send(c.sl());
    let (op, k) = match ty {
        0 if sup & 1 != 0 => (if add { O_ADDSW } else { O_REMSW }, 0),
        1 if sup & 2 != 0 => (if add { O_ADDHW } else { O_REMHW }, 0),
        2 if sup & 4 != 0 => (if add { O_ADDWP } else { O_REMWP }, 0),
        3 if sup & 4 != 0 => (if add { O_ADDWP } else { O_REMWP }, 1),
        4 if sup & 4 != 0 => (if add { O_ADDWP } else { O_REMWP }, 2),
        _ => {
            ck!(s.idle());
            ck!(s.replied_s(""));
            ck!(s.ops() == 0);
            return;
        }
    };
    if ty < 2 && kind >= BK_LIMIT as u64 {
        ck!(s.ops() == 0);
        ck!(s.protocol_error());
        return;
    }
    let w = 8 * core::mem::size_of::<U>() as u32;
    if ty >= 2 && w < 64 && kind >> (w & 63) != 0 {
        ck!(s.ops() == 0);
        ck!(s.protocol_error());
        return;
    }
    ck!(s.idle());
    ck!(s.one(op, addr, kind, k, 0));
    if r().flag {
        ck!(s.replied_s("OK"));
    } else {
        ck!(s.replied_s("E16"));
    }
}
/// an address the target does not have
fn brk_big<U: AddrW>() {
    let mut s = S::<U>::new(FULL, 96);
    let mut c = Bs::new();
    c.b(if pick(2) == 1 { b'Z' } else { b'z' });
    c.b(b'0' + pick(5));
    c.b(b',');
    big_addr::<U>(&mut c);
    c.s(",4");
    s.send(c.sl());
    ck!(s.ops() == 0);
    ck!(s.protocol_error());
}
fn brk_fail<U: AddrW>() {
    let mut s = S::<U>::new(FULL, 96);
    let f = sym_fail();
    let add = pick(2) == 1;
    let ty = pick(5);
    let mut c = Bs::new();
    c.b(if add { b'Z' } else { b'z' });
    c.b(b'0' + ty);
    c.s(",1234,4");
    s.send(c.sl());
    let (op, k) = match ty {
        0 => (if add { O_ADDSW } else { O_REMSW }, 0),
        1 => (if add { O_ADDHW } else { O_REMHW }, 0),
        t => (if add { O_ADDWP } else { O_REMWP }, t as u64 - 2),
    };
    ck!(s.one(op, 0x1234, 4, k, 0));
    ck!(s.failed(f));
}
/// no breakpoint support at all
fn brk_none() {
    let mut s = S::<u32>::new((FULL & !BRKALL) | GUARD | [0, SWB, HWB, HWW][pick(4) as usize], 96);
    let mut c = Bs::new();
    c.b(if pick(2) == 1 { b'Z' } else { b'z' });
    let ty = sym_num(&mut c, 2) as u8;
    c.s(",1234,4");
    s.send(c.sl());
    ck!(s.idle());
    ck!(s.replied_s(""));
    ck!(s.ops() == 0);
}
/// two in a row: the second is not affected by the first
fn brk_seq() {
    let mut s = S::<u32>::new(FULL, 96);
    let mut i = 0;
    while i < 2 {
        r().flag = pick(2) == 1;
        let add = pick(2) == 1;
        let ty = pick(3);
        let mut c = Bs::new();
        c.b(if add { b'Z' } else { b'z' });
        c.b(b'0' + ty);
        c.b(b',');
        let a = sym_hex(&mut c, 4);
        c.b(b',');
        let k = sym_hex(&mut c, 1);
        s.send(c.sl());
        let op = match ty {
            0 => if add { O_ADDSW } else { O_REMSW },
            1 => if add { O_ADDHW } else { O_REMHW },
            _ => if add { O_ADDWP } else { O_REMWP },
        };
        ck!(s.idle());
        ck!(s.one(op, a, k, 0, 0));
        ck!(s.replied_s(if r().flag { "OK" } else { "E16" }));
        i += 1;
    }
}
harness! {
fn z_addr16() { brk::<u16>(0) }
fn z_addr32() { brk::<u32>(0) }
fn z_addr64() { brk::<u64>(0) }
fn z_kind16() { brk::<u16>(1) }
fn z_kind32() { brk::<u32>(1) }
fn z_kind64() { brk::<u64>(1) }
fn z_hist() { brk::<u32>(2) }
fn z_big16() { brk_big::<u16>() }
fn z_big32() { brk_big::<u32>() }
fn z_big64() { brk_big::<u64>() }
fn z_fail() { brk_fail::<u32>() }
fn z_none() { brk_none() }
fn z_seq() { brk_seq() }
}
