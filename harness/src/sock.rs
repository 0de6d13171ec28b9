//! The connections the library supplies: TCP and Unix sockets. The system
//! calls their code ends in are defined here, over a kernel whose choices -
//! what has arrived, how much it takes, interruptions, errors - are symbolic.
use crate::api::*;
use crate::*;
use core::ffi::{c_int, c_void};
use core::mem::ManuallyDrop;
use gdbstub::conn::{Connection, ConnectionExt};
use std::net::TcpStream;
use std::os::fd::FromRawFd;
use std::os::unix::net::UnixStream;
const FILE_ID: u32 = 2_300_000;

const FD: c_int = 1000;
const EINTR: c_int = 4;
const EAGAIN: c_int = 11;
struct Kern {
    /// the stream the peer sends, how much of it has arrived, how much of
    /// that has been taken
    q: [u8; 8],
    total: usize,
    got: usize,
    pos: usize,
    /// after `total`: end of stream, or nothing more for ever
    eof: bool,
    nb: bool,
    /// interruptions still to come
    intr: u8,
    sent: [u8; 64],
    nsent: usize,
    nodelay: bool,
    /// the system call that fails, and how
    calls: usize,
    fail_at: usize,
    errno: c_int,
    failed: bool,
    /// a call had to wait
    waited: bool,
    /// something no socket code should do
    bad: bool,
    /// partial transfers happen
    short: bool,
    /// large transfers: what passes is compared with `DATA` on the way
    large: bool,
    parts: usize,
}
static mut K: Kern = Kern {
    q: [0; 8],
    total: 0,
    got: 0,
    pos: 0,
    eof: false,
    nb: false,
    intr: 0,
    sent: [0; 64],
    nsent: 0,
    nodelay: false,
    calls: 0,
    fail_at: usize::MAX,
    errno: 0,
    failed: false,
    waited: false,
    bad: false,
    short: false,
    large: false,
    parts: 0,
};
pub static mut DATA: [u8; 70000] = [0; 70000];
fn k() -> &'static mut Kern {
    unsafe { &mut K }
}

#[cfg(not(feature = "native"))]
mod errno {
    static mut ERRNO: i32 = 0;
    #[no_mangle]
    pub extern "C" fn __errno_location() -> *mut i32 {
        &raw mut ERRNO
    }
}
#[cfg(not(feature = "native"))]
use errno::__errno_location;
#[cfg(feature = "native")]
extern "C" {
    fn __errno_location() -> *mut i32;
    fn syscall(n: i64, a: i64, b: i64, c: i64) -> i64;
}
fn fails(e: c_int) -> isize {
    unsafe { *__errno_location() = e };
    -1
}
/// is this the call that fails?
fn failing() -> bool {
    let k = k();
    let f = k.calls == k.fail_at;
    k.calls += 1;
    k.failed |= f;
    f
}
fn receive(fd: c_int, buf: *mut u8, len: usize, peek: bool, dontwait: bool) -> isize {
    let k = k();
    k.bad |= fd != FD || len == 0;
    if failing() {
        return fails(k.errno);
    }
    if k.pos == k.got {
        if k.got == k.total && k.eof {
            return 0;
        }
        if k.nb || dontwait {
            return fails(EAGAIN);
        }
        k.waited = true;
        if k.intr > 0 {
            k.intr -= 1;
            return fails(EINTR);
        }
        // (waiting for ever)
        assume(k.got < k.total);
        k.got += 1;
    }
    let mut n = 0;
    while n < len && k.pos + n < k.got {
        unsafe { *buf.add(n) = if k.large { DATA[k.pos + n] } else { k.q[k.pos + n] } };
        n += 1;
    }
    if !peek {
        k.pos += n;
    }
    n as isize
}
fn transmit(fd: c_int, buf: *const u8, len: usize) -> isize {
    let k = k();
    k.bad |= fd != FD || len == 0;
    if failing() {
        return fails(k.errno);
    }
    // no room in the kernel's buffer: wait, or say so
    if k.nb && pick(2) == 1 {
        return fails(EAGAIN);
    }
    if k.intr > 0 && pick(2) == 1 {
        k.intr -= 1;
        return fails(EINTR);
    }
    if k.large {
        let n = if k.parts == 0 {
            len
        } else {
            k.parts -= 1;
            [len, 1, len / 2 + 1, if len > 4096 { 4096 } else { len }, len - (len > 1) as usize][pick(5) as usize]
        };
        let mut ok = k.nsent + n <= 70000;
        let mut i = 0;
        while ok && i < n {
            ok &= unsafe { *buf.add(i) == DATA[k.nsent + i] };
            i += 1;
        }
        k.bad |= !ok;
        k.nsent += n;
        return n as isize;
    }
    let n = if k.short && len > 1 { 1 + pick(len as u8) as usize } else { len };
    let mut i = 0;
    while i < n {
        if k.nsent < 64 {
            k.sent[k.nsent] = unsafe { *buf.add(i) };
        }
        k.nsent += 1;
        i += 1;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> isize {
    // (MSG_PEEK, MSG_DONTWAIT)
    k().bad |= flags & !(2 | 0x40) != 0;
    receive(fd, buf as *mut u8, len, flags & 2 != 0, flags & 0x40 != 0)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: usize, flags: c_int) -> isize {
    // (MSG_NOSIGNAL)
    k().bad |= flags & !0x4000 != 0;
    transmit(fd, buf as *const u8, len)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    #[cfg(feature = "native")]
    if fd != FD {
        return syscall(0, fd as i64, buf as i64, len as i64) as isize;
    }
    receive(fd, buf as *mut u8, len, false, false)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    #[cfg(feature = "native")]
    if fd != FD {
        return syscall(1, fd as i64, buf as i64, len as i64) as isize;
    }
    transmit(fd, buf as *const u8, len)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: usize, arg: *mut c_int) -> c_int {
    #[cfg(feature = "native")]
    if fd != FD {
        return syscall(16, fd as i64, req as i64, arg as i64) as c_int;
    }
    k().bad |= fd != FD || req != 0x5421;
    if failing() {
        return fails(k().errno) as c_int;
    }
    k().nb = *arg != 0;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    #[cfg(feature = "native")]
    if fd != FD {
        return syscall(72, fd as i64, cmd as i64, arg as i64) as c_int;
    }
    k().bad |= fd != FD;
    if failing() {
        return fails(k().errno) as c_int;
    }
    match cmd {
        3 => 2 | if k().nb { 0x800 } else { 0 },
        4 => {
            k().nb = arg & 0x800 != 0;
            0
        }
        _ => {
            k().bad = true;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, opt: c_int, val: *const c_int, len: u32) -> c_int {
    k().bad |= fd != FD || level != 6 || opt != 1 || len != 4;
    if failing() {
        return fails(k().errno) as c_int;
    }
    k().nodelay = *val != 0;
    0
}

/// an error is the one the kernel reported, or the end of the stream
fn right_error(e: &std::io::Error, may_end: bool) -> bool {
    let k = k();
    if k.failed {
        e.raw_os_error() == Some(k.errno)
    } else {
        may_end && k.eof && k.pos == k.total && e.kind() == std::io::ErrorKind::UnexpectedEof
    }
}
/// `n` uses of a connection
fn uses<C: Connection<Error = std::io::Error> + ConnectionExt>(c: &mut C, n: usize, tcp: bool, faulty: bool, long: u8) {
    let k = k();
    for b in &mut k.q[..3] {
        *b = any();
    }
    k.total = pick(4) as usize;
    k.eof = pick(2) == 1;
    k.short = true;
    if faulty {
        k.fail_at = pick(8) as usize;
        k.errno = any() as c_int;
        assume(k.errno != 0 && k.errno != EINTR && k.errno != EAGAIN);
    } else {
        k.intr = pick(2) * 2;
    }
    let mut want = [0u8; 64];
    let mut w = 0;
    let mut i = 0;
    while i < n {
        // some of it arrives
        if k.got < k.total && pick(2) == 1 {
            k.got += 1;
        }
        k.waited = false;
        let (pos, got) = (k.pos, k.got);
        let mut over = false;
        match pick(6) {
            0 => {
                match c.peek() {
                    Ok(Some(b)) => {
                        ck!(pos < got);
                        ck!(b == k.q[pos]);
                    }
                    Ok(None) => {
                        ck!(pos == got);
                        ck!(!(k.eof && k.pos == k.total));
                        ck!(!k.failed);
                    }
                    Err(e) => {
                        ck!(right_error(&e, true));
                        over = true;
                    }
                }
                ck!(!k.waited);
                ck!(k.pos == pos);
            }
            1 => match c.read() {
                Ok(b) => {
                    ck!(k.pos == pos + 1);
                    ck!(b == k.q[pos]);
                }
                Err(e) => {
                    ck!(right_error(&e, true));
                    ck!(k.pos == pos);
                    over = true;
                }
            },
            2 => {
                let b = any();
                want[w] = b;
                match c.write(b) {
                    Ok(()) => w += 1,
                    Err(e) => {
                        ck!(right_error(&e, false));
                        over = true;
                    }
                }
            }
            3 => {
                let m = 1 + pick(long) as usize;
                for b in &mut want[w..w + m] {
                    *b = any();
                }
                match c.write_all(&want[w..w + m]) {
                    Ok(()) => w += m,
                    Err(e) => {
                        ck!(right_error(&e, false));
                        over = true;
                        // some of it may have been taken
                        ck!(k.nsent >= w && k.nsent < w + m);
                        w = k.nsent;
                    }
                }
            }
            4 => ck!(c.flush().is_ok()),
            _ => {
                match c.on_session_start() {
                    Ok(()) => ck!(k.nodelay == tcp),
                    Err(e) => {
                        ck!(right_error(&e, false));
                        over = true;
                    }
                }
            }
        }
        ck!(!k.bad);
        ck!(k.nsent == w);
        let mut j = 0;
        while j < w {
            ck!(k.sent[j] == want[j]);
            j += 1;
        }
        if over {
            return;
        }
        ck!(!k.failed);
        i += 1;
    }
}
fn tcp(n: usize, faulty: bool, long: u8) {
    let mut c = ManuallyDrop::new(unsafe { TcpStream::from_raw_fd(FD) });
    uses(&mut *c, n, true, faulty, long)
}
fn unix(n: usize, faulty: bool, long: u8) {
    let mut c = ManuallyDrop::new(unsafe { UnixStream::from_raw_fd(FD) });
    uses(&mut *c, n, false, faulty, long)
}
/// large transfers, taken in several parts, and streams of hundreds of bytes
#[allow(static_mut_refs)]
fn large<C: Connection<Error = std::io::Error> + ConnectionExt>(c: &mut C) {
    let k = k();
    k.large = true;
    let n = [255usize, 256, 5000, 65535, 65536, 70000][pick(6) as usize];
    let d = unsafe { &mut DATA };
    for i in 0..n {
        d[i] = (i as u8).wrapping_mul(5).wrapping_add((i >> 8) as u8);
    }
    d[[0, n - 1, n / 2][pick(3) as usize]] = any();
    if pick(2) == 1 {
        k.parts = 2;
        k.intr = pick(2);
        ck!(c.write_all(&d[..n]).is_ok());
        ck!(k.nsent == n);
    } else {
        let n = if n > 300 { 300 } else { n };
        k.total = n;
        k.got = n;
        k.eof = true;
        let mut ok = true;
        for i in 0..n {
            if i % 3 != 1 {
                ok &= matches!(c.peek(), Ok(Some(b)) if b == d[i]);
            }
            ok &= matches!(c.read(), Ok(b) if b == d[i]);
            // and back
            ok &= c.write(d[i]).is_ok();
        }
        ck!(ok);
        ck!(k.pos == n);
        ck!(k.nsent == n);
        ck!(c.read().is_err());
    }
    ck!(!k.bad);
}
fn sk_large_tcp() {
    large(&mut *ManuallyDrop::new(unsafe { TcpStream::from_raw_fd(FD) }))
}
fn sk_large_unix() {
    large(&mut *ManuallyDrop::new(unsafe { UnixStream::from_raw_fd(FD) }))
}
harness! {
fn sk_big_tcp() { sk_large_tcp() }
fn sk_big_unix() { sk_large_unix() }
fn sk_tcp() { tcp(3, false, 2) }
fn sk_tcp_f() { tcp(3, true, 2) }
fn sk_unix() { unix(3, false, 2) }
fn sk_unix_f() { unix(3, true, 2) }
fn sk_tcp_l() { tcp(1, false, 6) }
fn sk_unix_l() { unix(1, true, 6) }
fn sk_tcp_d() { tcp(4, false, 2) }
fn sk_unix_d() { unix(4, true, 2) }
}
