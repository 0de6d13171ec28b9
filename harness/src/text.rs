//! Names the library gives to what travels as a number, and the texts of errors.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::common::Signal as S_;
use gdbstub::stub::*;
use gdbstub::target::ext::host_io::{HostIoErrno, HostIoOpenFlags, HostIoOpenMode};
const FILE_ID: u32 = 2_700_000;
type S = S_;
/// GDB's include/gdb/signals.def, in order
#[rustfmt::skip]
static SIGNALS: [(Signal, &str); 152] = [
    (S::SIGZERO, "SIGZERO - Signal 0"),
    (S::SIGHUP, "SIGHUP - Hangup"),
    (S::SIGINT, "SIGINT - Interrupt"),
    (S::SIGQUIT, "SIGQUIT - Quit"),
    (S::SIGILL, "SIGILL - Illegal instruction"),
    (S::SIGTRAP, "SIGTRAP - Trace/breakpoint trap"),
    (S::SIGABRT, "SIGABRT - Aborted"),
    (S::SIGEMT, "SIGEMT - Emulation trap"),
    (S::SIGFPE, "SIGFPE - Arithmetic exception"),
    (S::SIGKILL, "SIGKILL - Killed"),
    (S::SIGBUS, "SIGBUS - Bus error"),
    (S::SIGSEGV, "SIGSEGV - Segmentation fault"),
    (S::SIGSYS, "SIGSYS - Bad system call"),
    (S::SIGPIPE, "SIGPIPE - Broken pipe"),
    (S::SIGALRM, "SIGALRM - Alarm clock"),
    (S::SIGTERM, "SIGTERM - Terminated"),
    (S::SIGURG, "SIGURG - Urgent I/O condition"),
    (S::SIGSTOP, "SIGSTOP - Stopped (signal)"),
    (S::SIGTSTP, "SIGTSTP - Stopped (user)"),
    (S::SIGCONT, "SIGCONT - Continued"),
    (S::SIGCHLD, "SIGCHLD - Child status changed"),
    (S::SIGTTIN, "SIGTTIN - Stopped (tty input)"),
    (S::SIGTTOU, "SIGTTOU - Stopped (tty output)"),
    (S::SIGIO, "SIGIO - I/O possible"),
    (S::SIGXCPU, "SIGXCPU - CPU time limit exceeded"),
    (S::SIGXFSZ, "SIGXFSZ - File size limit exceeded"),
    (S::SIGVTALRM, "SIGVTALRM - Virtual timer expired"),
    (S::SIGPROF, "SIGPROF - Profiling timer expired"),
    (S::SIGWINCH, "SIGWINCH - Window size changed"),
    (S::SIGLOST, "SIGLOST - Resource lost"),
    (S::SIGUSR1, "SIGUSR1 - User defined signal 1"),
    (S::SIGUSR2, "SIGUSR2 - User defined signal 2"),
    (S::SIGPWR, "SIGPWR - Power fail/restart"),
    (S::SIGPOLL, "SIGPOLL - Pollable event occurred"),
    (S::SIGWIND, "SIGWIND - SIGWIND"),
    (S::SIGPHONE, "SIGPHONE - SIGPHONE"),
    (S::SIGWAITING, "SIGWAITING - Process's LWPs are blocked"),
    (S::SIGLWP, "SIGLWP - Signal LWP"),
    (S::SIGDANGER, "SIGDANGER - Swap space dangerously low"),
    (S::SIGGRANT, "SIGGRANT - Monitor mode granted"),
    (S::SIGRETRACT, "SIGRETRACT - Need to relinquish monitor mode"),
    (S::SIGMSG, "SIGMSG - Monitor mode data available"),
    (S::SIGSOUND, "SIGSOUND - Sound completed"),
    (S::SIGSAK, "SIGSAK - Secure attention"),
    (S::SIGPRIO, "SIGPRIO - SIGPRIO"),
    (S::SIG33, "SIG33 - Real-time event 33"),
    (S::SIG34, "SIG34 - Real-time event 34"),
    (S::SIG35, "SIG35 - Real-time event 35"),
    (S::SIG36, "SIG36 - Real-time event 36"),
    (S::SIG37, "SIG37 - Real-time event 37"),
    (S::SIG38, "SIG38 - Real-time event 38"),
    (S::SIG39, "SIG39 - Real-time event 39"),
    (S::SIG40, "SIG40 - Real-time event 40"),
    (S::SIG41, "SIG41 - Real-time event 41"),
    (S::SIG42, "SIG42 - Real-time event 42"),
    (S::SIG43, "SIG43 - Real-time event 43"),
    (S::SIG44, "SIG44 - Real-time event 44"),
    (S::SIG45, "SIG45 - Real-time event 45"),
    (S::SIG46, "SIG46 - Real-time event 46"),
    (S::SIG47, "SIG47 - Real-time event 47"),
    (S::SIG48, "SIG48 - Real-time event 48"),
    (S::SIG49, "SIG49 - Real-time event 49"),
    (S::SIG50, "SIG50 - Real-time event 50"),
    (S::SIG51, "SIG51 - Real-time event 51"),
    (S::SIG52, "SIG52 - Real-time event 52"),
    (S::SIG53, "SIG53 - Real-time event 53"),
    (S::SIG54, "SIG54 - Real-time event 54"),
    (S::SIG55, "SIG55 - Real-time event 55"),
    (S::SIG56, "SIG56 - Real-time event 56"),
    (S::SIG57, "SIG57 - Real-time event 57"),
    (S::SIG58, "SIG58 - Real-time event 58"),
    (S::SIG59, "SIG59 - Real-time event 59"),
    (S::SIG60, "SIG60 - Real-time event 60"),
    (S::SIG61, "SIG61 - Real-time event 61"),
    (S::SIG62, "SIG62 - Real-time event 62"),
    (S::SIG63, "SIG63 - Real-time event 63"),
    (S::SIGCANCEL, "SIGCANCEL - LWP internal signal"),
    (S::SIG32, "SIG32 - Real-time event 32"),
    (S::SIG64, "SIG64 - Real-time event 64"),
    (S::SIG65, "SIG65 - Real-time event 65"),
    (S::SIG66, "SIG66 - Real-time event 66"),
    (S::SIG67, "SIG67 - Real-time event 67"),
    (S::SIG68, "SIG68 - Real-time event 68"),
    (S::SIG69, "SIG69 - Real-time event 69"),
    (S::SIG70, "SIG70 - Real-time event 70"),
    (S::SIG71, "SIG71 - Real-time event 71"),
    (S::SIG72, "SIG72 - Real-time event 72"),
    (S::SIG73, "SIG73 - Real-time event 73"),
    (S::SIG74, "SIG74 - Real-time event 74"),
    (S::SIG75, "SIG75 - Real-time event 75"),
    (S::SIG76, "SIG76 - Real-time event 76"),
    (S::SIG77, "SIG77 - Real-time event 77"),
    (S::SIG78, "SIG78 - Real-time event 78"),
    (S::SIG79, "SIG79 - Real-time event 79"),
    (S::SIG80, "SIG80 - Real-time event 80"),
    (S::SIG81, "SIG81 - Real-time event 81"),
    (S::SIG82, "SIG82 - Real-time event 82"),
    (S::SIG83, "SIG83 - Real-time event 83"),
    (S::SIG84, "SIG84 - Real-time event 84"),
    (S::SIG85, "SIG85 - Real-time event 85"),
    (S::SIG86, "SIG86 - Real-time event 86"),
    (S::SIG87, "SIG87 - Real-time event 87"),
    (S::SIG88, "SIG88 - Real-time event 88"),
    (S::SIG89, "SIG89 - Real-time event 89"),
    (S::SIG90, "SIG90 - Real-time event 90"),
    (S::SIG91, "SIG91 - Real-time event 91"),
    (S::SIG92, "SIG92 - Real-time event 92"),
    (S::SIG93, "SIG93 - Real-time event 93"),
    (S::SIG94, "SIG94 - Real-time event 94"),
    (S::SIG95, "SIG95 - Real-time event 95"),
    (S::SIG96, "SIG96 - Real-time event 96"),
    (S::SIG97, "SIG97 - Real-time event 97"),
    (S::SIG98, "SIG98 - Real-time event 98"),
    (S::SIG99, "SIG99 - Real-time event 99"),
    (S::SIG100, "SIG100 - Real-time event 100"),
    (S::SIG101, "SIG101 - Real-time event 101"),
    (S::SIG102, "SIG102 - Real-time event 102"),
    (S::SIG103, "SIG103 - Real-time event 103"),
    (S::SIG104, "SIG104 - Real-time event 104"),
    (S::SIG105, "SIG105 - Real-time event 105"),
    (S::SIG106, "SIG106 - Real-time event 106"),
    (S::SIG107, "SIG107 - Real-time event 107"),
    (S::SIG108, "SIG108 - Real-time event 108"),
    (S::SIG109, "SIG109 - Real-time event 109"),
    (S::SIG110, "SIG110 - Real-time event 110"),
    (S::SIG111, "SIG111 - Real-time event 111"),
    (S::SIG112, "SIG112 - Real-time event 112"),
    (S::SIG113, "SIG113 - Real-time event 113"),
    (S::SIG114, "SIG114 - Real-time event 114"),
    (S::SIG115, "SIG115 - Real-time event 115"),
    (S::SIG116, "SIG116 - Real-time event 116"),
    (S::SIG117, "SIG117 - Real-time event 117"),
    (S::SIG118, "SIG118 - Real-time event 118"),
    (S::SIG119, "SIG119 - Real-time event 119"),
    (S::SIG120, "SIG120 - Real-time event 120"),
    (S::SIG121, "SIG121 - Real-time event 121"),
    (S::SIG122, "SIG122 - Real-time event 122"),
    (S::SIG123, "SIG123 - Real-time event 123"),
    (S::SIG124, "SIG124 - Real-time event 124"),
    (S::SIG125, "SIG125 - Real-time event 125"),
    (S::SIG126, "SIG126 - Real-time event 126"),
    (S::SIG127, "SIG127 - Real-time event 127"),
    (S::SIGINFO, "SIGINFO - Information request"),
    (S::UNKNOWN, "UNKNOWN - Unknown signal"),
    (S::INTERNAL_DEFAULT, "INTERNAL_DEFAULT - Internal error: printing GDB_SIGNAL_DEFAULT"),
    (S::EXC_BAD_ACCESS, "EXC_BAD_ACCESS - Could not access memory"),
    (S::EXC_BAD_INSTRUCTION, "EXC_BAD_INSTRUCTION - Illegal instruction/operand"),
    (S::EXC_ARITHMETIC, "EXC_ARITHMETIC - Arithmetic exception"),
    (S::EXC_EMULATION, "EXC_EMULATION - Emulation instruction"),
    (S::EXC_SOFTWARE, "EXC_SOFTWARE - Software generated exception"),
    (S::EXC_BREAKPOINT, "EXC_BREAKPOINT - Breakpoint"),
    (S::SIGLIBRT, "SIGLIBRT - librt internal signal"),
];

struct Text {
    b: [u8; 200],
    n: usize,
}
impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.as_bytes() {
            if self.n < 200 {
                self.b[self.n] = *c;
            }
            self.n += 1;
        }
        Ok(())
    }
}
fn is(t: &[u8], w: &str) -> bool {
    if t.len() != w.len() {
        return false;
    }
    let w = w.as_bytes();
    let mut ok = true;
    let mut i = 0;
    while i < w.len() {
        ok &= t[i] == w[i];
        i += 1;
    }
    ok
}
fn ends(t: &[u8], w: &str) -> bool {
    t.len() >= w.len() && is(&t[t.len() - w.len()..], w)
}
/// every signal has GDB's number, and is shown under GDB's name
fn signals() {
    let n = any();
    let s = Signal(n);
    let mut t = Text { b: [0; 200], n: 0 };
    let _ = core::fmt::write(&mut t, format_args!("{}", s));
    let k = conc(n) as usize;
    if k < SIGNALS.len() {
        ck!(SIGNALS[k].0 == s && SIGNALS[k].0 .0 == n);
        ck!(is(&t.b[..t.n], SIGNALS[k].1));
    } else {
        let mut k = 0;
        while k < SIGNALS.len() {
            ck!(!is(&t.b[..t.n], SIGNALS[k].1));
            k += 1;
        }
        ck!(t.n > 0);
    }
}
/// host file flags, modes and errors have the File-I/O protocol's values
fn files() {
    use HostIoErrno as E;
    use HostIoOpenFlags as F;
    use HostIoOpenMode as M;
    let f = any32();
    let fl = F::from_bits_truncate(f);
    for (x, v) in [
        (F::O_WRONLY, 1u32),
        (F::O_RDWR, 2),
        (F::O_APPEND, 8),
        (F::O_CREAT, 0x200),
        (F::O_TRUNC, 0x400),
        (F::O_EXCL, 0x800),
        (F::O_NONBLOCK, 0x1000_0000),
        (F::O_DONT_FOLLOW_SYMLINKS, 0x2000_0000),
        (F::O_CLOSE_ON_EXEC, 0x4000_0000),
        (F::O_INVALID, 0x8000_0000),
    ] {
        ck!(x.bits() == v);
        ck!(fl.contains(x) == (f & v != 0));
    }
    ck!(F::O_RDONLY.bits() == 0);
    ck!(F::from_bits(f).is_some() == (f & !0xf000_0e0b == 0));
    let m = any32();
    let ml = M::from_bits_truncate(m);
    for (x, v) in [
        (M::S_IFREG, 0o100000u32),
        (M::S_IFDIR, 0o40000),
        (M::S_IRUSR, 0o400),
        (M::S_IWUSR, 0o200),
        (M::S_IXUSR, 0o100),
        (M::S_IRGRP, 0o40),
        (M::S_IWGRP, 0o20),
        (M::S_IXGRP, 0o10),
        (M::S_IROTH, 0o4),
        (M::S_IWOTH, 0o2),
        (M::S_IXOTH, 0o1),
    ] {
        ck!(x.bits() == v);
        ck!(ml.contains(x) == (m & v != 0));
    }
    ck!(M::from_bits(m).is_some() == (m & !0o140777 == 0));
    for (x, v) in [
        (E::EPERM, 1),
        (E::ENOENT, 2),
        (E::EINTR, 4),
        (E::EBADF, 9),
        (E::EACCES, 13),
        (E::EFAULT, 14),
        (E::EBUSY, 16),
        (E::EEXIST, 17),
        (E::ENODEV, 19),
        (E::ENOTDIR, 20),
        (E::EISDIR, 21),
        (E::EINVAL, 22),
        (E::ENFILE, 23),
        (E::EMFILE, 24),
        (E::EFBIG, 27),
        (E::ENOSPC, 28),
        (E::ESPIPE, 29),
        (E::EROFS, 30),
        (E::ENAMETOOLONG, 91),
        (E::EUNKNOWN, 9999),
    ] {
        ck!(x as u32 == v);
    }
}

// ---- errors -----------------------------------------------------------------------------
const KINDS: u8 = 14;
/// a session that ends with an error of kind `k`; the text is in `said()`
#[inline(never)]
fn fails(k: u8) -> Option<Err> {
    let mut c = FULL | if k == 11 || k == 9 { MULTI } else { 0 };
    match k {
        2 => r().sfail = true,
        3 => c &= !(GUARD | BRK),
        8 => c &= !BRK,
        9 => c &= !STEP,
        10 => c &= !CURPID,
        _ => {}
    }
    crate::err::script();
    let mut s = Sess::new(c, 64);
    match k {
        0 => {
            r().fail_at = r().calls;
            r().fail = Fail::Fatal;
            s.sends("g")
        }
        1 => {
            r().wfail_at = r().nout + pick(6) as usize;
            s.sends("?")
        }
        2 | 3 => {}
        4 => s.byte(b'-'),
        5 => {
            s.byte(b'$');
            let mut i = 0;
            while i < 70 {
                s.byte(b'0');
                i += 1;
            }
        }
        6 => s.sends("m12"),
        7 => s.feed(b"$g#00"),
        8 => {
            s.sends("vCont;c");
            s.stop_s(BaseStopReason::HwBreak(()));
        }
        9 => s.sends("vCont;s:1"),
        10 => s.sends("vAttach;1"),
        11 => s.sends("Hg-1"),
        12 => s.sends("QTDP:1:5:E:1:1:S"),
        _ => s.sends("m111111111,1"),
    }
    s.err
}
type Sess = crate::session::S<u32>;
/// whose failure it was, and what it was
fn errors() {
    said().on = true;
    r().code = any();
    let k = pick(KINDS);
    let e = fails(k);
    let t = &said().b[..said().n];
    ck!(e.is_some());
    ck!(said().n > 0 && said().n <= 400);
    ck!(said().target == (k == 0));
    ck!(said().conn == (k == 1 || k == 2));
    match k {
        0 => ck!(e == Some(Err::Target(r().code))),
        1 => ck!(e == Some(Err::Conn(r().code, b'W'))),
        2 => ck!(e == Some(Err::Conn(r().code, b'I'))),
        _ => ck!(e == Some(Err::Other)),
    }
    if k < 3 {
        // the error's own text is in it
        let mut d = Text { b: [0; 200], n: 0 };
        let _ = core::fmt::write(&mut d, format_args!(": {}", r().code));
        ck!(said().n >= d.n);
        let mut ok = true;
        let mut i = 0;
        while i < d.n {
            ok &= t[said().n - d.n + i] == d.b[i];
            i += 1;
        }
        ck!(ok);
    }
}
/// different failures are told apart
fn apart() {
    said().on = true;
    r().code = 7;
    let fresh = *r();
    let k = pick(KINDS);
    let mut first = [0u8; 400];
    fails(k);
    let n = said().n;
    first.copy_from_slice(&said().b);
    let j = pick(KINDS);
    assume(j != k);
    *r() = fresh;
    fails(j);
    let mut same = n == said().n;
    let mut i = 0;
    while i < n && i < 400 {
        same &= first[i] == said().b[i];
        i += 1;
    }
    ck!(!same);
}
/// errors in setting up
fn setup() {
    let mut a = Text { b: [0; 200], n: 0 };
    let mut b = Text { b: [0; 200], n: 0 };
    let _ = core::fmt::write(&mut a, format_args!("{}", GdbStubBuilderError::MissingPacketBuffer));
    let _ = core::fmt::write(&mut b, format_args!("{}", GdbStubBuilderError::PacketBufSizeMismatch));
    ck!(a.n > 0 && b.n > 0);
    let mut same = a.n == b.n;
    let mut i = 0;
    while i < a.n && i < 200 {
        same &= a.b[i] == b.b[i];
        i += 1;
    }
    ck!(!same);
}
harness! {
fn nm_signals() { signals() }
fn nm_files() { files() }
fn ex_errors() { errors() }
fn ex_apart() { apart() }
fn ex_setup() { setup() }
}
