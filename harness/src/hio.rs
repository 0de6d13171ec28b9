//! Host file requests (vFile).
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 1_000_000;
const FLAGS: u64 = 0x1 | 0x2 | 0x8 | 0x200 | 0x400 | 0x800 | 0xf << 28;
const MODES: u64 = 0o100000 | 0o40000 | 0o777;
/// a path of arbitrary bytes, hex encoded
fn path(c: &mut Bs, n: usize, p: &mut [u8; 8]) {
    for o in &mut p[..n] {
        *o = sym_hex(c, 2) as u8;
    }
}
fn hist(s: &mut S<u64>, on: bool) {
    if on {
        history(s);
        r().calls = 0;
    }
}
fn f_num(v: u64) -> Bs {
    let mut e = Bs::of("F");
    e.num(v);
    e
}
fn f_data(n: usize) -> Bs {
    let mut e = f_num(n as u64);
    e.b(b';');
    let mut i = 0;
    while i < n {
        e.esc(r().src[i]);
        i += 1;
    }
    e
}
/// a descriptor: 32 bits
fn fd(c: &mut Bs, wide: bool) -> u64 {
    if !wide {
        return sym_hex(c, 1);
    }
    match pick(4) {
        0 => sym_num(c, 4),
        1 => sym_ends(c, 8),
        2 => sym_hex(c, 8),
        _ => {
            c.s("0000000");
            sym_hex(c, 3)
        }
    }
}
/// any result a target can give
fn result(w: u8) -> u64 {
    let v = match w {
        2 => any16() as u64,
        4 => any32() as u64,
        _ => any() as u64 | (any16() as u64) << 48 | (any() as u64) << 24,
    };
    r().num[0] = v;
    v
}
fn conc_num(v: u64) -> u64 {
    // the number of digits of a number decides the shape of the reply
    let mut k = 0u8;
    let mut x = v;
    while x != 0 {
        x >>= 8;
        k += 1;
    }
    conc(k);
    v
}
fn open(flags: u8) {
    let mut s = S::<u64>::new(FULL, 128);
    let mut p = [0u8; 8];
    let mut c = Bs::of("vFile:open:");
    let n = if flags == 0 { pick(5) as usize } else { 1 };
    path(&mut c, n, &mut p);
    c.b(b',');
    let (f, m);
    match flags {
        0 => {
            c.s("a01,1ff");
            f = 0xa01;
            m = 0o777;
        }
        1 => {
            f = if pick(2) == 0 { sym_num(&mut c, 4) } else { sym_ends(&mut c, 8) };
            c.s(",1b6");
            m = 0o666;
        }
        2 => {
            c.s("2,");
            f = 2;
            m = if pick(2) == 0 { sym_num(&mut c, 5) } else { sym_ends(&mut c, 8) };
        }
        _ => {
            f = sym_hex(&mut c, 8);
            c.s(",0");
            m = 0;
        }
    }
    let v = result(4);
    s.send(c.sl());
    if (f & !FLAGS == 0) & (m & !MODES == 0) {
        ck!(s.one(O_OPEN, f, m, 0, 0));
        ck!(s.op_data(0, &p[..n]));
        ck!(s.idle());
        ck!(s.replied(&f_num(conc_num(v))));
    } else if flags > 0 {
        ck!(s.ops() == 0); // opt:
        ck!(s.protocol_error()); // opt:
    } else {
        fail!(); // opt:
    }
}
fn simple(k: u8, wide: bool) {
    let mut s = S::<u64>::new(if pick(2) == 1 { FULL | MULTI } else { FULL }, 128);
    hist(&mut s, !wide);
    let mut c = Bs::of("vFile:");
    c.s(["close:", "setfs:", "unlink:"][k as usize]);
    let mut p = [0u8; 8];
    if k == 2 {
        let n = if wide { pick(5) as usize } else { 1 };
        path(&mut c, n, &mut p);
        s.send(c.sl());
        ck!(s.one(O_UNLINK, 0, 0, 0, 0));
        ck!(s.op_data(0, &p[..n]));
    } else if k == 1 {
        let v = if wide { sym_long(&mut c) } else { sym_hex(&mut c, 1) };
        s.send(c.sl());
        ck!(s.one(O_SETFS, if v == 0 { NONE } else { v }, 0, 0, 0));
    } else {
        let v = fd(&mut c, wide);
        s.send(c.sl());
        ck!(s.one(O_CLOSE, v, 0, 0, 0));
    }
    ck!(s.idle());
    ck!(s.replied_s("F0"));
}
fn pread(k: u8) {
    let mut s = S::<u64>::new(FULL, 128);
    hist(&mut s, k == 0);
    let mut c = Bs::of("vFile:pread:");
    let d = fd(&mut c, k == 1);
    c.b(b',');
    let n = if k == 2 { sym_long(&mut c) } else { sym_hex(&mut c, 2) };
    c.b(b',');
    let off = if k == 3 { sym_long(&mut c) } else { sym_hex(&mut c, 1) };
    sym_src(if k == 0 { 1 } else if k == 4 { pick(6) as usize } else { 2 });
    s.send(c.sl());
    ck!(s.one(O_PREAD, d, n, off, 0));
    ck!(s.idle());
    ck!(r().filled == r().ret);
    ck!(s.replied(&f_data(r().ret)));
}
/// as much as there is room for
fn room() {
    let mut s = S::<u64>::new(FULL, 48 + pick(40) as usize);
    let x = any();
    let mut i = 0;
    while i < NSRC {
        r().src[i] = if i == 2 { x } else { 0x60 + (i as u8 & 7) };
        i += 1;
    }
    r().ret = NSRC;
    if pick(2) == 0 {
        s.sends("vFile:pread:5,ffff,0");
        ck!(s.one(O_PREAD, 5, 0xffff, 0, 0));
    } else {
        s.sends("vFile:readlink:2f70");
        ck!(s.one(O_READLINK, 0, 0, 0, 0));
        ck!(s.op_data(0, b"/p"));
    }
    ck!(s.idle());
    ck!(s.replied(&f_data(r().filled)));
}
fn readlink() {
    let mut s = S::<u64>::new(FULL, 128);
    hist(&mut s, pick(2) == 1);
    let mut c = Bs::of("vFile:readlink:");
    let mut p = [0u8; 8];
    let n = pick(4) as usize;
    path(&mut c, n, &mut p);
    sym_src(pick(3) as usize);
    s.send(c.sl());
    ck!(s.one(O_READLINK, 0, 0, 0, 0));
    ck!(s.op_data(0, &p[..n]));
    ck!(s.idle());
    ck!(s.replied(&f_data(r().ret)));
}
/// writes: descriptors, offsets and results of every width
fn pwrite<U: AddrW>(k: u8) {
    let mut s = S::<U>::new(FULL, 128);
    let mut c = Bs::of("vFile:pwrite:");
    let d = fd(&mut c, k == 0);
    c.b(b',');
    let off = if k == 1 { if core::mem::size_of::<U>() == 8 { sym_long(&mut c) } else { sym_addr::<U>(&mut c) } } else { sym_hex(&mut c, 2) };
    c.b(b',');
    let x = any();
    assume(x != b'#' && x != b'}');
    c.b(x);
    let v = result(if k == 2 { core::mem::size_of::<U>() as u8 } else { 2 });
    s.send(c.sl());
    ck!(s.one(O_PWRITE, d, off, 0, 0));
    ck!(s.op_data(0, &[x]));
    ck!(s.idle());
    ck!(s.replied(&f_num(conc_num(v))));
}
/// writes of arbitrary data
fn pwrite_data(max: u8, hi: bool) {
    let mut s = S::<u64>::new(FULL, 128);
    hist(&mut s, hi);
    let mut c = Bs::of("vFile:pwrite:7,1f0,");
    let mut p = [0u8; 8];
    let n = pick(max + 1) as usize;
    for o in &mut p[..n] {
        if pick(2) == 1 {
            // escaped: any byte can be
            let x = any();
            assume(x != b'#');
            c.b(b'}').b(x);
            *o = x ^ 0x20;
        } else {
            let x = any();
            assume(x != b'#' && x != b'}');
            c.b(x);
            *o = x;
        }
    }
    r().num[0] = n as u64;
    s.send(c.sl());
    ck!(s.one(O_PWRITE, 7, 0x1f0, 0, 0));
    ck!(s.op_data(0, &p[..n]));
    ck!(s.idle());
    ck!(s.replied(&f_num(n as u64)));
}
/// a long payload, one arbitrary byte in it
fn pwrite_long() {
    let mut s = S::<u64>::new(FULL, 128);
    let mut c = Bs::of("vFile:pwrite:7,0,");
    let n = 2 + pick(60) as usize;
    let at = pick(2) as usize * (n - 1);
    let x = any();
    assume(x != b'#' && x != b'}');
    let from = c.n;
    for i in 0..n {
        c.b(if i == at { x } else { b',' + (i as u8 & 15) });
    }
    s.send(c.sl());
    ck!(s.one(O_PWRITE, 7, 0, 0, 0));
    ck!(s.op_data(0, &c.d[from..c.n]));
    ck!(s.idle());
}
/// the status structure; `k`: which fields are arbitrary
fn fstat(k: u8) {
    let mut s = S::<u64>::new(FULL, 128);
    let mut c = Bs::of("vFile:fstat:");
    let d = fd(&mut c, k == 0);
    const W: [u8; 13] = [4, 4, 4, 4, 4, 4, 4, 8, 8, 8, 4, 4, 4];
    for i in 0..13 {
        let j = i as u64 + 1;
        r().num[i] = if W[i] == 8 { j * 0x0101_0203_0405_0607 } else { j * 0x0102_0304 };
    }
    // one arbitrary byte of one arbitrary field
    let i = if k == 0 { 0 } else { pick(13) as usize };
    let b = if k == 0 { 0 } else { pick(W[i]) };
    r().num[i] = r().num[i] & !(0xffu64 << (8 * b)) | (any() as u64) << (8 * b);
    r().num[2] &= MODES;
    s.send(c.sl());
    ck!(s.one(O_FSTAT, d, 0, 0, 0));
    ck!(s.idle());
    let mut e = Bs::of("F40;");
    for i in 0..13 {
        let mut j = W[i];
        while j > 0 {
            j -= 1;
            e.esc((r().num[i] >> (8 * j)) as u8);
        }
    }
    ck!(s.replied(&e));
}
/// the whole range of error numbers, and I/O errors turned into them
fn errs(io: bool) {
    let mut s = S::<u64>::new(FULL, 128);
    sym_src(2);
    r().fail_at = 0;
    r().code = any();
    r().fail = if io { Fail::Io } else if pick(4) == 0 { Fail::Fatal } else { Fail::Errno };
    let fatal = r().fail == Fail::Fatal;
    r().sel = if io { pick(8) } else if fatal { 0 } else { pick(20) };
    let k = if io { 2 } else { pick(8) as usize };
    const C: [&str; 8] = ["open:2f,0,0", "close:3", "pread:3,10,0", "pwrite:3,0,abc", "fstat:3", "unlink:2f", "readlink:2f", "setfs:0"];
    const O: [u8; 8] = [O_OPEN, O_CLOSE, O_PREAD, O_PWRITE, O_FSTAT, O_UNLINK, O_READLINK, O_SETFS];
    let mut c = Bs::of("vFile:");
    c.s(C[k]);
    s.send(c.sl());
    ck!(s.ops() == 1);
    ck!(s.op(0).op == O[k]);
    if fatal {
        ck!(s.err == Some(Err::Target(r().code))); // opt:
    } else {
        let no = if io { [1u16, 2, 4, 17, 22, 9999, 9999, 9999][r().sel as usize] } else { ERRNOS[r().sel as usize] };
        let mut e = Bs::of("F-1,");
        e.num(no as u64);
        ck!(s.idle());
        ck!(s.replied(&e));
        // the session goes on
        s.sends("vFile:close:4");
        ck!(s.one(O_CLOSE, 4, 0, 0, 0));
        ck!(s.replied_s("F0"));
    }
}
/// requests that make no sense do not reach the target
fn bad() {
    let mut s = S::<u64>::new(FULL, 128);
    let mut c = Bs::of("vFile:");
    let not_hex = |c: &mut Bs| {
        let x = any();
        assume((x != b'#') & (x < b'0' || x > b'9') & (x | 0x20 < b'a' || x | 0x20 > b'f') & (x | 0x20 != b'x') & (x != b','));
        c.b(x);
    };
    match pick(10) {
        0 => {
            // a descriptor of more than 32 bits
            c.s(["close:", "fstat:", "pread:", "pwrite:"][pick(4) as usize]);
            let d = sym_digit(&mut c);
            assume(d != 0);
            c.s("00000000");
            if c.d[6] == b'p' {
                c.s(",0,1");
            }
        }
        1 => {
            c.s(["close:", "fstat:", "setfs:"][pick(3) as usize]);
            not_hex(&mut c);
        }
        2 => {
            // offset or count of more than 64 bits
            c.s("pread:1,");
            if pick(2) == 0 {
                c.s("1,");
            }
            let d = sym_digit(&mut c);
            assume(d != 0);
            c.s("0000000000000000");
            if pick(2) == 0 {
                c.s(",1");
            }
        }
        3 => {
            c.s("open:2");
            not_hex(&mut c);
            c.s(",0,0");
        }
        4 => {
            c.s(["unlink:", "readlink:"][pick(2) as usize]);
            c.b(b'2');
            not_hex(&mut c);
        }
        5 => {
            // too few arguments
            c.s(["open:2f", "open:2f,0", "pread:1", "pread:1,2", "pwrite:1", "pwrite:1,2", "open:", "open:2f,", "open:2f,0,"][pick(9) as usize]);
        }
        6 => {
            // an escape with nothing behind it
            c.s("pwrite:1,2,a}");
        }
        7 => {
            c.s("pwrite:");
            match pick(2) {
                0 => not_hex(&mut c),
                _ => {
                    c.s("1,");
                    not_hex(&mut c);
                }
            }
            c.s(",2,a");
        }
        8 => {
            // an offset the target cannot have
            c.s("pwrite:1,");
            let d = sym_digit(&mut c);
            assume(d != 0);
            c.s("0000000000000000,abc");
        }
        _ => {
            // no colon
            c.n -= 1;
            c.s([":close", ":fstat", ":open", ":pread", ":pwrite", ":unlink", ":readlink", ":setfs"][pick(8) as usize]);
            if pick(2) == 0 {
                let x = any();
                assume((x != b'#') & (x != b':'));
                c.b(x);
            }
        }
    }
    s.send(c.sl());
    ck!(s.ops() == 0);
    // either an error that ends the session or no reply but an empty one
    if !s.protocol_error() {
        ck!(s.idle()); // opt:
        ck!(s.replied_s("")); // opt:
    }
}
harness! {
fn io_open_p() { open(0) }
fn io_open_f() { open(1) }
fn io_open_m() { open(2) }
fn io_open_deep() { open(3) }
fn io_close() { simple(0, pick(2) == 1) }
fn io_setfs() { simple(1, pick(2) == 1) }
fn io_unlink() { simple(2, pick(2) == 1) }
fn io_pread_h() { pread(0) }
fn io_pread_fd() { pread(1) }
fn io_pread_n() { pread(2) }
fn io_pread_off() { pread(3) }
fn io_pread_data() { pread(4) }
fn io_room() { room() }
fn io_readlink() { readlink() }
fn io_pw_fd() { pwrite::<u64>(0) }
fn io_pw_off16() { pwrite::<u16>(1) }
fn io_pw_off32() { pwrite::<u32>(1) }
fn io_pw_off64() { pwrite::<u64>(1) }
fn io_pw_ret16() { pwrite::<u16>(2) }
fn io_pw_ret32() { pwrite::<u32>(2) }
fn io_pw_ret64() { pwrite::<u64>(2) }
fn io_pw_data() { pwrite_data(3, false) }
fn io_pw_hist() { pwrite_data(1, true) }
fn io_pw_deep() { pwrite_data(5, false) }
fn io_pw_long() { pwrite_long() }
fn io_fstat() { fstat(pick(2)) }
fn io_errs() { errs(false) }
fn io_errs_io() { errs(true) }
fn io_bad() { bad() }
}
