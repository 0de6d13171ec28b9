//! LLDB register descriptions.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 1_500_000;
fn dec8(b: &mut Bs, v: u8) {
    if v >= 100 {
        b.b(b'0' + v / 100);
    }
    if v >= 10 {
        b.b(b'0' + v / 10 % 10);
    }
    b.b(b'0' + v % 10);
}
/// a field value: one of some wide ones, as the decimal it must appear as
const WIDE: [(u64, &str); 10] = [
    (0, "0"),
    (9, "9"),
    (10, "10"),
    (99, "99"),
    (100, "100"),
    (101, "101"),
    (65536, "65536"),
    (u32::MAX as u64 + 1, "4294967296"),
    (10_000_000_000_000_000_000, "10000000000000000000"),
    (u64::MAX, "18446744073709551615"),
];
const ENC: [&str; 4] = ["uint", "sint", "ieee754", "vector"];
const FMT: [&str; 12] = [
    "binary", "decimal", "hex", "float", "vector-sint8", "vector-uint8", "vector-sint16", "vector-uint16", "vector-sint32",
    "vector-uint32", "vector-float32", "vector-uint128",
];
const GEN: [&str; 13] = ["pc", "sp", "fp", "ra", "flags", "arg1", "arg2", "arg3", "arg4", "arg5", "arg6", "arg7", "arg8"];
/// the description, with `dec` telling how the n-th decimal appears
fn desc(dec: &mut dyn FnMut(&mut Bs, usize)) -> Bs {
    let r = r();
    let mut e = Bs::of("name:");
    e.bytes(&r.src[..r.num[10] as usize]);
    if r.num[0] & 1 != 0 {
        e.s(";alt-name:").bytes(&r.src[1..1 + r.num[11] as usize]);
    }
    e.s(";bitsize:");
    dec(&mut e, 0);
    e.s(";offset:");
    dec(&mut e, 1);
    e.s(";encoding:").s(ENC[r.num[3] as usize]).s(";format:").s(FMT[r.num[4] as usize]);
    e.s(";set:").bytes(&r.src[2..2 + r.num[12] as usize]);
    if r.num[0] & 2 != 0 {
        e.s(";gcc:");
        dec(&mut e, 2);
    }
    if r.num[0] & 4 != 0 {
        e.s(";dwarf:");
        dec(&mut e, 3);
    }
    if r.num[7] != 0 {
        e.s(";generic:").s(GEN[r.num[7] as usize - 1]);
    }
    for k in 0..2 {
        let n = r.num[8 + k];
        if n > 0 {
            e.s([";container-regs:", ";invalidate-regs:"][k]);
            for i in 0..n as usize - 1 {
                if i > 0 {
                    e.b(b',');
                }
                e.num(if k == 0 { r.cregs[i] } else { r.iregs[i] } as u64);
            }
        }
    }
    e.b(b';');
    e
}
fn base() {
    let r = r();
    r.sel = 2;
    r.num = [0; 13];
    r.num[1] = 64;
    r.num[2] = 8;
    r.num[5] = 3;
    r.num[6] = 4;
    r.num[10] = 2;
    r.num[12] = 1;
    r.src[..4].copy_from_slice(b"r0gp");
}
fn plain(e: &mut Bs, i: usize) {
    e.s(["64", "8", "3", "4"][i]);
}
/// the architecture's descriptions, or the target's own
fn lcaps() -> (u64, u64) {
    match pick(4) {
        0 => (FULL, 0),
        1 => (FULL & !LLDB | MULTI, 1),
        2 => (BARE | USELLDB | LLDB, 0),
        _ => (BARE | USELLDB, 1),
    }
}
fn session(size: usize) -> (S<u32>, u64) {
    let (c, arch) = lcaps();
    base();
    (S::<u32>::new(c, size), arch)
}
/// which register is asked for
fn reg_no(hist: bool) {
    let (mut s, arch) = session(160);
    if hist {
        history(&mut s);
        r().calls = 0;
    }
    r().sel = 1 + pick(2);
    let mut c = Bs::of("qRegisterInfo");
    let v = if hist { sym_hex(&mut c, 2) } else { sym_long(&mut c) };
    assume(v != u64::MAX);
    s.send(c.sl());
    ck!(s.one(O_LLDB, v, arch, 0, 0));
    ck!(s.idle());
    if r().sel == 1 {
        ck!(s.replied_s("E45"));
    } else {
        ck!(s.replied(&desc(&mut plain)));
    }
}
/// every combination of present and absent fields
fn fields() {
    let (mut s, arch) = session(160);
    r().num[0] = pick(8) as u64;
    r().num[7] = [0, 1][pick(2) as usize];
    r().num[8] = [0, 1, 2, 4][pick(4) as usize];
    r().num[9] = [0, 1, 3][pick(3) as usize];
    r().num[11] = 2;
    s.sends("qRegisterInfo0");
    ck!(s.one(O_LLDB, 0, arch, 0, 0));
    ck!(s.replied(&desc(&mut plain)));
    ck!(s.idle());
}
fn enums() {
    let (mut s, _) = session(160);
    match pick(3) {
        0 => r().num[3] = pick(4) as u64,
        1 => r().num[4] = pick(12) as u64,
        _ => r().num[7] = pick(14) as u64,
    }
    s.sends("qRegisterInfo1f");
    ck!(s.replied(&desc(&mut plain)));
    ck!(s.idle());
}
fn names() {
    let (mut s, _) = session(160);
    for i in 0..5 {
        r().src[i] = any();
        assume((r().src[i] >= b'0') & (r().src[i] <= b'z'));
    }
    r().num[0] = pick(2) as u64;
    r().num[10] = pick(4) as u64;
    r().num[11] = pick(3) as u64;
    r().num[12] = pick(4) as u64;
    s.sends("qRegisterInfo2");
    ck!(s.replied(&desc(&mut plain)));
    ck!(s.idle());
}
/// each of the four decimals, 8 bits arbitrary
fn dec_any() {
    let (mut s, _) = session(160);
    let i = pick(4) as usize;
    let v = any();
    r().num[0] = 6;
    r().num[[1, 2, 5, 6][i]] = v as u64;
    s.sends("qRegisterInfo2");
    let e = desc(&mut |e, k| {
        if k == i {
            dec8(e, v)
        } else {
            plain(e, k)
        }
    });
    ck!(s.replied(&e));
}
fn dec_wide() {
    let (mut s, _) = session(160);
    let i = pick(4) as usize;
    let w = WIDE[pick(10) as usize];
    r().num[0] = 6;
    r().num[[1, 2, 5, 6][i]] = w.0;
    s.sends("qRegisterInfo2");
    let e = desc(&mut |e, k| {
        if k == i {
            e.s(w.1);
        } else {
            plain(e, k)
        }
    });
    ck!(s.replied(&e));
}
/// lists of registers with arbitrary numbers
fn lists() {
    let (mut s, _) = session(160);
    r().num[8] = pick(5) as u64;
    r().num[9] = pick(5) as u64;
    match pick(3) {
        0 => r().cregs[0] = any64() as usize,
        1 => r().iregs[1] = any64() as usize,
        _ => {
            r().cregs[2] = any16() as usize;
            r().iregs[0] = any16() as usize;
        }
    }
    s.sends("qRegisterInfo2");
    ck!(s.replied(&desc(&mut plain)));
    ck!(s.idle());
}
/// asked for one after the other, up to the end
fn walk() {
    let (mut s, arch) = session(160);
    let n = pick(4);
    for i in 0..4 {
        r().sel = if i < n { 2 } else { 1 };
        let mut c = Bs::of("qRegisterInfo");
        c.hn(i as u64, 1);
        s.send(c.sl());
        ck!(s.one(O_LLDB, i as u64, arch, 0, 0));
        if i < n {
            ck!(s.replied(&desc(&mut plain)));
        } else {
            ck!(s.replied_s("E45"));
        }
    }
}
fn bad() {
    let (mut s, _) = session(160);
    let x = any();
    assume(!((x >= b'0') & (x <= b'9') | (x | 0x20 >= b'a') & (x | 0x20 <= b'f')) & (x != b'#') & (x | 0x20 != b'x'));
    let mut c = Bs::of("qRegisterInfo");
    match pick(4) {
        0 => {}
        1 => {
            c.b(x).b(b'1');
        }
        2 => {
            c.b(b'1').b(x);
        }
        _ => {
            let d = sym_digit(&mut c);
            assume(d != 0);
            c.s("0000000000000000");
        }
    }
    s.send(c.sl());
    ck!(s.ops() == 0);
    ck!(s.protocol_error());
}
/// not supported in one of three ways
fn none() {
    base();
    let k = pick(3);
    let mut s = S::<u32>::new([FULL & !USELLDB, FULL & !LLDB & !USELLDB, FULL & !LLDB][k as usize], 160);
    if k == 2 {
        r().sel = 0;
    }
    s.sends("qRegisterInfo2");
    ck!(s.ops() == 0);
    ck!(s.replied_s(""));
    ck!(s.idle());
}
fn fails() {
    let mut s = S::<u32>::new([FULL, BARE | LLDB | USELLDB][pick(2) as usize], 160);
    base();
    r().fail_at = 0;
    r().code = any();
    s.sends("qRegisterInfo1");
    ck!(s.ops() == 1);
    ck!(s.err == Some(Err::Target(r().code)));
    ck!(s.acked_only());
}
harness! {
fn ll_no() { reg_no(false) }
fn ll_hist() { reg_no(true) }
fn ll_fields() { fields() }
fn ll_enums() { enums() }
fn ll_names() { names() }
fn ll_dec() { dec_any() }
fn ll_wide() { dec_wide() }
fn ll_lists() { lists() }
fn ll_walk() { walk() }
fn ll_bad() { bad() }
fn ll_none() { none() }
fn ll_fail() { fails() }
}
