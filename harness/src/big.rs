//! Packets of realistic size: around the powers of two and at the limits of a
//! 4096-byte buffer.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 2_400_000;
pub static mut PB4K: [u8; 4096] = [0x5a; 4096];
/// lengths of what is carried
const LENS: [usize; 13] = [2, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2038];
const MC: u64 = FULL | MULTI;
pub fn pat(i: usize) -> u8 {
    (i as u8).wrapping_mul(7).wrapping_add((i >> 8) as u8).wrapping_add(0x1d)
}
/// script of `n` bytes with an arbitrary one at either end or in the middle
pub fn src(n: usize) {
    let b = big();
    let mut i = 0;
    while i < n {
        b.src[i] = pat(i);
        i += 1;
    }
    if n > 0 {
        let p = match pick(4) {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => {
                if n > 256 {
                    256
                } else {
                    n / 3
                }
            }
        };
        b.src[p] = any();
    }
}
pub fn c(v: u8) {
    let b = big();
    b.cmd[b.n] = v;
    b.n += 1;
}
pub fn cs(v: &str) {
    for x in v.as_bytes() {
        c(*x);
    }
}
/// lower-case hexadecimal without leading zeros
pub fn cn(v: usize) {
    let mut k = 4;
    let mut on = false;
    while k > 0 {
        k -= 1;
        let d = (v >> (4 * k)) as u8 & 15;
        on |= d != 0 || k == 0;
        if on {
            c(hx(d));
        }
    }
}
pub fn ch(v: u8) {
    c(hx(v >> 4));
    c(hx(v & 15));
}
pub fn special(v: u8, reply: bool) -> bool {
    conc(((v == b'#') | (v == b'$') | (v == b'}') | (reply & (v == b'*'))) as u8) == 1
}
pub fn cx(v: u8) {
    if special(v, false) {
        c(b'}');
        c(v ^ 0x20);
    } else {
        c(v);
    }
}
pub fn start<U: AddrW>(caps: u64, owned: bool) -> S<U> {
    big().on = true;
    #[cfg(feature = "std")]
    if owned {
        return S::begun(caps, Ok(gdbstub::stub::GdbStub::new(Conn)));
    }
    S::over(caps, unsafe { &mut PB4K[..] })
}
pub fn go<U: AddrW>(s: &mut S<U>) {
    let b = big();
    s.send(&b.cmd[..b.n]);
    b.n = 0;
}
/// the reply is exactly what `f` appends to the command area
pub fn reply<U: AddrW>(s: &S<U>, f: impl Fn()) -> bool {
    let b = big();
    b.n = 0;
    f();
    let r = r();
    let mut p = s.mark;
    if r.nout > NBOUT || r.nout != p + b.n + 5 || r.flushed != r.nout {
        return false;
    }
    let mut ok = (b.out[p] == b'+') & (b.out[p + 1] == b'$');
    p += 2;
    let mut sum = 0u8;
    let mut i = 0;
    while i < b.n {
        ok &= b.out[p + i] == b.cmd[i];
        sum = sum.wrapping_add(b.cmd[i]);
        i += 1;
    }
    p += b.n;
    b.n = 0;
    ok & (b.out[p] == b'#') & (b.out[p + 1] == hx(sum >> 4)) & (b.out[p + 2] == hx(sum & 15))
}
/// the recorded bytes from `off` are the first `n` of the script
pub fn got(off: usize, n: usize) -> bool {
    let b = big();
    let mut ok = off + n <= NBIG;
    let mut i = 0;
    while ok && i < n {
        if b.data[off + i] != b.src[i] {
            ok = false;
        }
        i += 1;
    }
    ok
}
fn len() -> usize {
    LENS[pick(13) as usize]
}
/// memory read
fn read<U: AddrW>(caps: u64) {
    let n = len();
    let mut s = start::<U>(caps, false);
    src(n);
    r().num[0] = 0x10;
    r().ret = n;
    cs("m10,");
    cn(n);
    go(&mut s);
    ck!(s.idle());
    ck!(reply(&s, || {
        for x in &big().src[..n] {
            ch(*x);
        }
    }));
}
/// memory write, in hexadecimal or binary
fn write<U: AddrW>(caps: u64, x: bool, owned: bool) {
    let n = len();
    let mut s = start::<U>(caps, owned);
    src(n);
    cs(if x { "X10," } else { "M10," });
    cn(n);
    c(b':');
    for v in &big().src[..n] {
        if x {
            cx(*v);
        } else {
            ch(*v);
        }
    }
    go(&mut s);
    ck!(s.idle());
    ck!(s.replied_s("OK"));
    ck!(s.one(O_WADDR, 0x10, n as u64, if has(MULTI) { 1 } else { NONE }, 0));
    ck!(got(0, n));
}
/// bulk object reads, with everything after the first byte escaped as needed
fn bulk() {
    let n = len();
    let k = pick(6) as usize;
    let mut s = start::<u64>(FULL, false);
    src(n);
    r().ret = n;
    cs(["qXfer:features:read:target.xml:0,", "qXfer:memory-map:read::0,", "qXfer:auxv:read::0,", "qXfer:exec-file:read:1:0,", "qXfer:libraries-svr4:read::0,", "vFile:pread:5,"][k]);
    cn(n);
    if k == 5 {
        cs(",0");
    }
    go(&mut s);
    ck!(s.idle());
    ck!(s.ops() == 1);
    ck!(reply(&s, || {
        if k == 5 {
            c(b'F');
            if n > 255 {
                ch((n >> 8) as u8);
            }
            ch(n as u8);
            c(b';');
        } else {
            c(b'm');
        }
        for v in &big().src[..n] {
            if special(*v, true) {
                c(b'}');
                c(*v ^ 0x20);
            } else {
                c(*v);
            }
        }
    }));
}
/// host file write
fn pwrite() {
    let n = len();
    let mut s = start::<u64>(FULL, false);
    src(n);
    r().num[0] = n as u64;
    cs("vFile:pwrite:5,0,");
    for v in &big().src[..n] {
        cx(*v);
    }
    go(&mut s);
    ck!(s.idle());
    ck!(s.ops() == 1);
    ck!(s.op(0).op == O_PWRITE);
    ck!(s.op(0).len == n);
    ck!(got(0, n));
}
/// commands that carry hexadecimal text: `n` bytes of it
fn text() {
    let n = len();
    let n = if n > 2000 { 2000 } else { n };
    let k = pick(5) as usize;
    let mut s = start::<u64>(FULL, false);
    src(n);
    // a filename may not be followed by one, a variable ends at '='
    let b = big();
    if k == 3 {
        for v in &mut b.src[..n] {
            assume(*v != b'=');
            if conc((*v == b'=') as u8) == 1 {
                *v = 0;
            }
        }
    }
    cs(["qRcmd,", "vRun;", "QSetWorkingDir:", "QEnvironmentUnset:", "vFile:unlink:"][k]);
    for v in &b.src[..n] {
        ch(*v);
    }
    r().num[0] = 1;
    r().ret = 0;
    go(&mut s);
    ck!(s.idle());
    ck!(s.ops() == 1);
    ck!(s.op(0).len == n);
    ck!(s.op(0).op == [O_MON, O_RUN, O_CWD, O_REMENV, O_UNLINK][k]);
    ck!(got(0, n));
}
/// what a monitor command prints, in parts
fn console() {
    let n = len();
    let n = if n > 1100 { 1100 } else { n };
    let mut s = start::<u64>(FULL, false);
    src(n);
    r().ret = n;
    r().regs_n = [1200, 64, 255][pick(3) as usize];
    cs("qRcmd,61");
    go(&mut s);
    ck!(s.idle());
    // the hexadecimal of all `O` packets together
    let (b, r) = (big(), r());
    let mut p = s.mark;
    ck!(b.out[p] == b'+');
    p += 1;
    let mut k = 0;
    let mut ok = r.nout <= NBOUT;
    while ok && p + 2 < r.nout && b.out[p + 1] == b'O' && b.out[p + 2] != b'K' {
        ok &= b.out[p] == b'$';
        let mut sum = b'O';
        p += 2;
        while p + 1 < r.nout && b.out[p] != b'#' {
            ok &= k < n && (b.out[p] == hx(b.src[k] >> 4)) & (b.out[p + 1] == hx(b.src[k] & 15));
            sum = sum.wrapping_add(b.out[p]).wrapping_add(b.out[p + 1]);
            k += 1;
            p += 2;
        }
        ok &= p + 3 <= r.nout && (b.out[p + 1] == hx(sum >> 4)) & (b.out[p + 2] == hx(sum & 15));
        p += 3;
    }
    ck!(ok);
    ck!(k == n);
    ck!(p + 6 == r.nout);
    ck!(b.out[p + 1] == b'O');
    ck!(b.out[p + 2] == b'K');
}
/// a long command the stub does not know, then short ones
fn unknown(owned: bool) {
    let n = if owned { [300, 4093, 5000][pick(3) as usize] } else { [255, 256, 1024, 4092][pick(4) as usize] };
    let mut s = start::<u64>(MC, owned);
    cs("qZ");
    let mut i = 2;
    while i < n {
        c(if i == n / 2 { any_but_hash() } else { b'a' + (i % 26) as u8 });
        i += 1;
    }
    go(&mut s);
    ck!(s.idle());
    ck!(s.replied_s(""));
    ck!(s.ops() == 0);
    s.sends("z1,10,4");
    ck!(s.replied_s("OK"));
    ck!(s.ops() == 1);
    ck!((s.op(0).op == O_REMHW) & (s.op(0).a == 0x10));
}
fn any_but_hash() -> u8 {
    let v = any();
    assume(v != b'#');
    v
}
/// long runs under run-length encoding: what the client decodes is what was sent
fn rle() {
    let n = len();
    let mut s = start::<u64>(MC | RLE, false);
    src(n);
    let b = big();
    // runs whose length grows, between the arbitrary byte's neighbours
    let p = match pick(3) {
        0 => 0,
        1 => n / 2,
        _ => n,
    };
    for v in &mut b.src[..p] {
        *v = 0xaa;
    }
    for v in &mut b.src[p..n] {
        *v = 0;
    }
    if n > 4 {
        b.src[n - 3] = any();
    }
    r().num[0] = 0x10;
    r().ret = n;
    cs("m10,");
    cn(n);
    go(&mut s);
    ck!(s.idle());
    let r = r();
    ck!(r.nout <= NBOUT);
    ck!(r.flushed == r.nout);
    let mut i = s.mark;
    ck!(b.out[i] == b'+');
    ck!(b.out[i + 1] == b'$');
    i += 2;
    let mut sum = 0u8;
    let mut k = 0;
    let mut last = 0u8;
    let mut ok = true;
    while ok && i < r.nout && conc((b.out[i] == b'#') as u8) == 0 {
        let v = b.out[i];
        sum = sum.wrapping_add(v);
        i += 1;
        let mut times = 1;
        if conc((v == b'*') as u8) == 1 {
            let t = conc(b.out[i]);
            ok &= (t > 31) & (t < 127) & (t != b'#') & (t != b'$');
            sum = sum.wrapping_add(t);
            i += 1;
            times = t.wrapping_sub(29);
        } else {
            last = v;
        }
        while ok && times > 0 {
            let x = if k / 2 < n { b.src[k / 2] } else { 0 };
            ok &= k < 2 * n && last == hx(if k & 1 == 0 { x >> 4 } else { x & 15 });
            k += 1;
            times -= 1;
        }
    }
    ck!(ok);
    ck!(k == 2 * n);
    ck!(i + 3 == r.nout);
    ck!((b.out[i + 1] == hx(sum >> 4)) & (b.out[i + 2] == hx(sum & 15)));
}
harness! {
fn bg_rle() { rle() }
fn bg_reads() { read::<u64>(FULL) }
fn bg_readm() { read::<u32>(MC) }
fn bg_wm() { write::<u64>(MC, false, false) }
fn bg_wx() { write::<u32>(FULL, true, false) }
fn bg_wmo() { write::<u64>(FULL, false, true) }
fn bg_wxo() { write::<u32>(MC, true, true) }
fn bg_bulk() { bulk() }
fn bg_pwrite() { pwrite() }
fn bg_text() { text() }
fn bg_con() { console() }
fn bg_unk() { unknown(false) }
fn bg_unko() { unknown(true) }
}
