//! Setting up a session: packet buffers, the connection's start hook, the
//! guard rail.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::stub::{GdbStub, GdbStubBuilder, GdbStubBuilderError};
const FILE_ID: u32 = 1_800_000;
type B = GdbStubBuilder<'static, Mock<u32>, Conn>;
type G = GdbStub<'static, Mock<u32>, Conn>;

fn start(caps: u64, g: G) -> S<u32> {
    S::begun(caps, Ok(g))
}
const MARK: u8 = 0xa5;
fn prepare() {
    let b = pb(PBMAX);
    for i in 0..PBMAX {
        b[i] = MARK;
    }
}
fn untouched_from(n: usize) -> bool {
    let b = pb(PBMAX);
    let mut ok = true;
    let mut i = 0;
    while i < 70 {
        ok &= (i < n) | (b[i] == MARK);
        i += 1;
    }
    ok & (b[300] == MARK)
}
/// configure in either order, or with an earlier size that is replaced
fn configure(l: usize, size: usize) -> B {
    let b: B = if pick(2) == 1 { GdbStubBuilder::new(Conn) } else { GdbStub::builder(Conn) };
    match pick(3) {
        0 => b.with_packet_buffer(pb(l)).packet_buffer_size(size),
        1 => b.packet_buffer_size(size).with_packet_buffer(pb(l)),
        _ => b.packet_buffer_size(any16() as usize).with_packet_buffer(pb(l)).packet_buffer_size(size),
    }
}
/// the reply to qSupported starts with this size
fn advertises(s: &S<u32>, size: u64) -> bool {
    let mut e = Bs::new();
    if !s.na {
        e.b(b'+');
    }
    e.s("$PacketSize=").num(size).b(b';');
    if r().nout < s.mark + e.n {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < e.n {
        trace(r().out[s.mark + i] as u64);
        ok &= r().out[s.mark + i] == e.d[i];
        i += 1;
    }
    ok
}
/// a buffer of l bytes of which `size` are to be used
fn borrowed(l: usize) {
    prepare();
    let size = any64() as usize;
    match configure(l, size).build() {
        Err(e) => {
            ck!(size > l);
            ck!(matches!(e, GdbStubBuilderError::PacketBufSizeMismatch));
            ck!(r().nout == 0 && r().starts == 0);
        }
        Ok(g) => {
            ck!(size <= l);
            let mut s = start(FULL, g);
            // 16 bytes in all
            s.sends("qSupported:a");
            if size >= 16 {
                ck!(s.idle());
                ck!(advertises(&s, size as u64));
                // and once more
                s.sends("qSupported:a");
                ck!(advertises(&s, size as u64));
            } else {
                ck!(s.protocol_error());
                ck!(s.silent());
            }
            ck!(l > 24 || untouched_from(size));
        }
    }
}
/// a packet of exactly the size is taken, one of one byte more is not
fn fits() {
    prepare();
    let size = 4 + pick(45) as usize;
    let l = if pick(2) == 1 { size } else { 64 };
    let g = match l == size {
        // (no size given)
        true => {
            let b: B = GdbStubBuilder::new(Conn);
            b.with_packet_buffer(pb(size)).build()
        }
        _ => configure(l, size).build(),
    };
    let mut s = match g {
        Ok(g) => start(FULL, g),
        Err(_) => {
            fail!(); // opt: must not happen
            return;
        }
    };
    let k = size - 4;
    let mut b = Bs::new();
    for i in 0..k {
        b.b(if i + 1 < k { b'y' } else { b'y' - (any() & 1) });
    }
    s.send(b.sl());
    ck!(s.idle());
    ck!(s.replied_s(""));
    b.b(b'y');
    s.send(b.sl());
    ck!(s.protocol_error());
    ck!(s.silent());
    ck!(untouched_from(size));
}
#[cfg(feature = "std")]
const OWNED: [usize; 12] = [0, 1, 15, 16, 17, 255, 256, 4095, 4096, 4097, 65536, 70001];
/// a buffer on the heap
fn owned() {
    #[cfg(feature = "std")]
    {
        let k = pick(14);
        let (g, size): (G, usize) = match k {
            0 => (GdbStub::new(Conn), 4096),
            1 => {
                let b: B = GdbStubBuilder::new(Conn);
                match b.build() {
                    Ok(g) => (g, 4096),
                    Err(_) => {
                        fail!(); // opt: must not happen
                        return;
                    }
                }
            }
            _ => {
                let n = OWNED[k as usize - 2];
                let b: B = if pick(2) == 1 { GdbStubBuilder::new(Conn) } else { GdbStub::builder(Conn) };
                match b.packet_buffer_size(n).build() {
                    Ok(g) => (g, n),
                    Err(_) => {
                        fail!(); // opt: must not happen
                        return;
                    }
                }
            }
        };
        let mut s = start(FULL, g);
        s.sends("qSupported:a");
        ck!(s.idle());
        // (it grows to hold the packet)
        ck!(advertises(&s, if size < 16 { 16 } else { size } as u64) || size < 16);
        // up to that size at least, packets are taken whole
        s.sends("M1234,2:abcd");
        ck!(s.replied_s("OK"));
        ck!(s.one(O_WADDR, 0x1234, 2, NONE, 0));
        ck!(s.op_data(0, &[0xab, 0xcd]));
    }
}
fn no_buffer() {
    let b: B = if pick(2) == 1 { GdbStubBuilder::new(Conn) } else { GdbStub::builder(Conn) };
    let b = if pick(2) == 1 { b.packet_buffer_size(if cfg!(feature = "std") { 9 } else { any64() as usize }) } else { b };
    let res = b.build();
    #[cfg(not(feature = "std"))]
    ck!(matches!(res, Err(GdbStubBuilderError::MissingPacketBuffer)));
    #[cfg(feature = "std")]
    let _ = res;
    ck!(r().starts == 0);
}
/// what starting a session does
fn starting() {
    let g = match GdbStub::<Mock<u32>, Conn>::builder(Conn).with_packet_buffer(pb(64)).build() {
        Ok(g) => g,
        Err(_) => {
            fail!(); // opt: must not happen
            return;
        }
    };
    ck!(r().starts == 0);
    let mut c = FULL & !(GUARD | BRK | SWB);
    if pick(2) == 1 {
        c |= GUARD;
    }
    if pick(2) == 1 {
        c |= BRK;
    }
    if pick(2) == 1 {
        c |= SWB;
    }
    if pick(2) == 1 {
        c &= !(HWB | HWW);
    }
    if pick(2) == 1 {
        c |= MULTI;
    }
    r().sfail = pick(2) == 1;
    r().code = any();
    let mut s = start(c, g);
    // nothing was said, nothing asked
    ck!(r().nout == 0);
    ck!(r().nev == 0);
    ck!(r().nflush == 0);
    let sw = c & (BRK | SWB) == BRK | SWB;
    if !sw && c & GUARD == 0 {
        ck!(s.protocol_error());
        ck!(r().starts <= 1);
    } else if r().sfail {
        ck!(r().starts == 1);
        ck!(s.err == Some(Err::Conn(r().code, b'I')));
    } else {
        ck!(r().starts == 1);
        ck!(s.idle());
        s.sends("vMustReplyEmpty");
        ck!(s.replied_s(""));
        s.sends("g");
        s.sends("D");
        s.return_to_idle();
        s.sends("?");
        ck!(r().starts == 1);
    }
}
harness! {
fn set_b0() { borrowed(0) }
fn set_b24() { borrowed(24) }
fn set_b72() { borrowed(72) }
fn set_b300() { borrowed(300) }
fn set_fits() { fits() }
fn set_owned() { owned() }
fn set_none() { no_buffer() }
fn set_start() { starting() }
}
