//! A recording target and connection. Every trait method of the target logs
//! its arguments and answers from a script held in the global `Rec`.

use crate::api::*;
use core::marker::PhantomData;
use core::num::NonZeroUsize;
use gdbstub::arch::lldb::*;
use gdbstub::arch::*;
use gdbstub::common::*;
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::target::ext::auxv::*;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::reverse_exec::*;
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::catch_syscalls::*;
use gdbstub::target::ext::exec_file::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::libraries::*;
use gdbstub::target::ext::lldb_register_info_override::*;
use gdbstub::target::ext::memory_map::*;
use gdbstub::target::ext::monitor_cmd::*;
use gdbstub::target::ext::section_offsets::*;
use gdbstub::target::ext::target_description_xml_override::*;
use gdbstub::target::ext::thread_extra_info::*;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::{Target, TargetError, TargetResult};
use num_traits::PrimInt;

// ---- capabilities ---------------------------------------------------------
macro_rules! caps { ($($n:ident)*) => { caps!(@ 0u32; $($n)*); };
    (@ $i:expr; $n:ident $($r:ident)*) => { pub const $n: u64 = 1u64 << ($i); caps!(@ $i + 1; $($r)*); };
    (@ $i:expr;) => {} }
caps! {
    MULTI SREG RESUME STEP RANGE RSTEP RCONT BRK SWB HWB HWW MON EXT ASLR ENV SHELL CWD CURPID
    OFFS TP TPSRC XMLOV ARCHXML USEXML LLDB USELLDB MMAP CATCH HIO EXECF AUXV LIBS NOACK XUP RSTUB RLE
    GUARD EXTRA HOPEN HCLOSE HPREAD HPWRITE HFSTAT HUNLINK HREADLINK HSETFS QSTART
}
pub const HALL: u64 = HIO | HOPEN | HCLOSE | HPREAD | HPWRITE | HFSTAT | HUNLINK | HREADLINK | HSETFS;
pub const EXTALL: u64 = EXT | ASLR | ENV | SHELL | CWD | CURPID;
pub const BRKALL: u64 = BRK | SWB | HWB | HWW;
pub const RESALL: u64 = RESUME | STEP | RANGE | RSTEP | RCONT;
pub const XFERALL: u64 = XMLOV | USEXML | MMAP | EXECF | AUXV | LIBS;
/// everything on except run-length encoding, the multi-thread base, and the
/// override that shadows the architecture's own description
pub const FULL: u64 = SREG | RESALL | BRKALL | MON | EXTALL | OFFS | TP | TPSRC | XFERALL | LLDB | USELLDB
    | CATCH | HALL | NOACK | XUP | RSTUB | GUARD | EXTRA;
/// nothing optional, but a session can start
pub const BARE: u64 = GUARD;

// ---- recorded operations --------------------------------------------------
macro_rules! ops { ($($n:ident)*) => { ops!(@ 1u8; $($n)*); };
    (@ $i:expr; $n:ident $($r:ident)*) => { pub const $n: u8 = $i; ops!(@ $i + 1; $($r)*); };
    (@ $i:expr;) => {} }
ops! {
    O_RREGS O_WREGS O_RADDR O_WADDR O_RREG O_WREG O_RESUME O_STEP O_RANGE O_RCONT O_RSTEP
    O_CLEAR O_SETC O_SETS O_SETR O_LIST O_EXTRA O_ADDSW O_REMSW O_ADDHW O_REMHW O_ADDWP O_REMWP
    O_MON O_RUN O_ATTACH O_QATT O_KILL O_RESTART O_ONSTART O_ASLR O_SETENV O_REMENV O_RSTENV O_SHELL O_CWD
    O_CURPID O_OFFS O_XML O_LLDB O_MMAP O_CATCHEN O_CATCHDIS O_OPEN O_CLOSE O_PREAD O_PWRITE O_FSTAT
    O_UNLINK O_READLINK O_SETFS O_EXECF O_AUXV O_LIBS
    O_TPINIT O_TPBEGIN O_TPCONT O_TPDONE O_TPSTAT O_TPESTART O_TPEACT O_TBCFG O_TBREQ O_TXSTAT O_TXINFO
    O_TXSTART O_TXSTOP O_TFRAME O_TPSRC O_TPESRC O_ARG
    O_WAIT O_INT
}

pub const NONE: u64 = 0xffff_ffff_ffff_fff0;
pub const NEV: usize = 24;
pub const NDATA: usize = 160;
pub const NOUT: usize = 1600;
pub const NSRC: usize = 96;

#[derive(Clone, Copy)]
pub struct Ev {
    pub op: u8,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub d: u64,
    pub off: usize,
    pub len: usize,
}
const EV0: Ev = Ev { op: 0, a: 0, b: 0, c: 0, d: 0, off: 0, len: 0 };

#[derive(Clone, Copy, PartialEq)]
pub enum Fail {
    NonFatal,
    Errno,
    Io,
    /// an I/O error without an OS error number
    IoNone,
    Fatal,
}

#[derive(Clone, Copy)]
pub struct Rec {
    pub caps: u64,
    pub ev: [Ev; NEV],
    pub nev: usize,
    pub data: [u8; NDATA],
    pub ndata: usize,
    pub out: [u8; NOUT],
    pub nout: usize,
    pub flushed: usize,
    pub nflush: usize,
    pub starts: usize,
    // script
    pub src: [u8; NSRC],
    pub ret: usize,
    /// how many bytes more than it wrote a bulk read claims (contract violation)
    pub over: usize,
    /// how many bytes it wrote
    pub filled: usize,
    pub num: [u64; 13],
    pub flag: bool,
    pub sel: u8,
    pub calls: u32,
    pub fail_at: u32,
    pub fail: Fail,
    pub code: u8,
    pub wfail_at: usize,
    pub ffail_at: usize,
    pub sfail: bool,
    /// listing the threads / asking for the current process fails
    pub lfail: bool,
    pub pfail: bool,
    pub threads: [usize; 4],
    pub nthreads: usize,
    pub regs_n: usize,
    pub regs_none: u32,
    pub xml: &'static str,
    pub cregs: [usize; 3],
    pub iregs: [usize; 3],
    /// the call that failed can only fail fatally
    pub fatal_only: bool,
    /// a second call that fails, non-fatally
    pub fail2_at: u32,
    /// the attempt to write or flush that fails, once; attempts so far, and
    /// those made after the failure
    pub cfail_at: usize,
    pub natt: usize,
    pub after: usize,
    pub cflush: bool,
    /// target operations at the time the connection failed
    pub cnev: usize,
    pub input: [u8; 64],
    pub ninput: usize,
    pub rpos: usize,
    pub rfail_at: usize,
}
pub static mut REC: Rec = Rec {
    caps: 0,
    ev: [EV0; NEV],
    nev: 0,
    data: [0; NDATA],
    ndata: 0,
    out: [0; NOUT],
    nout: 0,
    flushed: 0,
    nflush: 0,
    starts: 0,
    src: [0; NSRC],
    ret: 0,
    over: 0,
    filled: 0,
    num: [0; 13],
    flag: true,
    sel: 0,
    calls: 0,
    fail_at: u32::MAX,
    fail: Fail::NonFatal,
    code: 0,
    wfail_at: usize::MAX,
    ffail_at: usize::MAX,
    sfail: false,
    lfail: false,
    pfail: false,
    threads: [1, 2, 3, 4],
    nthreads: 2,
    regs_n: 4,
    regs_none: 0,
    xml: "<t/>",
    cregs: [1, 0x1f, 0x1234],
    iregs: [2, 0, 0xfe],
    fatal_only: false,
    fail2_at: u32::MAX,
    cfail_at: usize::MAX,
    natt: 0,
    after: 0,
    cflush: false,
    cnev: 0,
    input: [0; 64],
    ninput: 0,
    rpos: 0,
    rfail_at: usize::MAX,
};
/// room for packets of realistic size, used by some harnesses only
pub const NBIG: usize = 2400;
pub const NBOUT: usize = 5200;
/// operations recorded in long sessions, and threads in long lists
pub const NBEV: usize = 420;
pub struct Big {
    pub on: bool,
    pub ev: [Ev; NBEV],
    pub nthr: usize,
    pub base: usize,
    pub odd: usize,
    pub oddid: usize,
    pub data: [u8; NBIG],
    pub out: [u8; NBOUT],
    pub src: [u8; NBIG],
    pub cmd: [u8; NBOUT],
    pub n: usize,
}
pub static mut BIG: Big = Big { on: false, ev: [EV0; NBEV], nthr: 0, base: 0, odd: 0, oddid: 0, data: [0; NBIG], out: [0; NBOUT], src: [0; NBIG], cmd: [0; NBOUT], n: 0 };
#[allow(static_mut_refs)]
#[inline(always)]
pub fn big() -> &'static mut Big {
    unsafe { &mut BIG }
}
#[allow(static_mut_refs)]
#[inline(always)]
pub fn r() -> &'static mut Rec {
    unsafe { &mut REC }
}
#[inline(always)]
pub fn has(c: u64) -> bool {
    r().caps & c == c
}

#[inline(never)]
pub fn ev(op: u8, a: u64, b: u64, c: u64, d: u64) {
    let r = r();
    if r.nev < NEV {
        r.ev[r.nev] = Ev { op, a, b, c, d, off: r.ndata, len: 0 };
    }
    if big().on && r.nev < NBEV {
        big().ev[r.nev] = Ev { op, a, b, c, d, off: r.ndata, len: 0 };
    }
    r.nev += 1;
}
#[inline(never)]
pub fn ev_data(p: &[u8]) {
    let r = r();
    if r.nev == 0 || r.nev > NEV && !big().on {
        return;
    }
    if r.nev <= NEV {
        r.ev[r.nev - 1].len = p.len();
    }
    if big().on && r.nev <= NBEV {
        big().ev[r.nev - 1].len = p.len();
    }
    let mut i = 0;
    while i < p.len() {
        if r.ndata < NDATA {
            r.data[r.ndata] = p[i];
        }
        if big().on && r.ndata < NBIG {
            big().data[r.ndata] = p[i];
        }
        r.ndata += 1;
        i += 1;
    }
}
pub fn evd(op: u8, a: u64, b: u64, c: u64, d: u64, p: &[u8]) {
    ev(op, a, b, c, d);
    ev_data(p);
}
fn due() -> bool {
    let r = r();
    let n = r.calls;
    r.calls += 1;
    n == r.fail_at
}
/// a method with the full error type
fn go<T>(v: T) -> Result<T, TargetError<u8>> {
    if r().calls == r().fail2_at {
        r().calls += 1;
        return Err(TargetError::NonFatal);
    }
    if due() {
        return Err(match r().fail {
            Fail::NonFatal => TargetError::NonFatal,
            Fail::Errno => TargetError::Errno(r().code),
            #[cfg(feature = "std")]
            Fail::Io => TargetError::Io(std::io::Error::from_raw_os_error(r().code as i32)),
            #[cfg(not(feature = "std"))]
            Fail::Io => TargetError::Errno(r().code),
            #[cfg(feature = "std")]
            Fail::IoNone => TargetError::Io(std::io::Error::from(std::io::ErrorKind::InvalidData)),
            #[cfg(not(feature = "std"))]
            Fail::IoNone => TargetError::NonFatal,
            Fail::Fatal => TargetError::Fatal(r().code),
        });
    }
    Ok(v)
}
/// a method that can only fail fatally
fn gof<T>(v: T) -> Result<T, u8> {
    if due() {
        r().fatal_only = true;
        return Err(r().code);
    }
    Ok(v)
}
pub const ERRNOS: [u16; 20] = [1, 2, 4, 9, 13, 14, 16, 17, 19, 20, 21, 22, 23, 24, 27, 28, 29, 30, 91, 9999];
fn gio<T>(v: T) -> Result<T, HostIoError<u8>> {
    if due() {
        return Err(match r().fail {
            Fail::Fatal => HostIoError::Fatal(r().code),
            #[cfg(feature = "std")]
            Fail::Io => {
                use std::io::ErrorKind::*;
                let k = [PermissionDenied, NotFound, Interrupted, AlreadyExists, InvalidInput, UnexpectedEof, Other, ConnectionReset];
                HostIoError::from(std::io::Error::from(k[r().sel as usize]))
            }
            _ => HostIoError::Errno(match r().sel {
                0 => HostIoErrno::EPERM,
                1 => HostIoErrno::ENOENT,
                2 => HostIoErrno::EINTR,
                3 => HostIoErrno::EBADF,
                4 => HostIoErrno::EACCES,
                5 => HostIoErrno::EFAULT,
                6 => HostIoErrno::EBUSY,
                7 => HostIoErrno::EEXIST,
                8 => HostIoErrno::ENODEV,
                9 => HostIoErrno::ENOTDIR,
                10 => HostIoErrno::EISDIR,
                11 => HostIoErrno::EINVAL,
                12 => HostIoErrno::ENFILE,
                13 => HostIoErrno::EMFILE,
                14 => HostIoErrno::EFBIG,
                15 => HostIoErrno::ENOSPC,
                16 => HostIoErrno::ESPIPE,
                17 => HostIoErrno::EROFS,
                18 => HostIoErrno::ENAMETOOLONG,
                _ => HostIoErrno::EUNKNOWN,
            }),
        });
    }
    Ok(v)
}
/// the target's answer to a bulk read: `ret` bytes of the script
fn fill(buf: &mut [u8]) -> usize {
    let r = r();
    let n = if r.ret < buf.len() { r.ret } else { buf.len() };
    if big().on {
        let mut i = 0;
        while i < n && i < NBIG {
            buf[i] = big().src[i];
            i += 1;
        }
        return n;
    }
    let mut i = 0;
    while i < n && i < NSRC {
        buf[i] = r.src[i];
        i += 1;
    }
    r.filled = n;
    n.wrapping_add(r.over)
}

pub trait AddrW: PrimInt + Default + num_traits::FromPrimitive + num_traits::Unsigned + core::fmt::Debug + gdbstub::internal::BeBytes + gdbstub::internal::LeBytes + 'static {}
impl AddrW for u64 {}
impl AddrW for u32 {}
impl AddrW for u16 {}

pub fn w<U: AddrW>(u: U) -> u64 {
    u.to_u64().unwrap()
}
pub fn uw<U: AddrW>(v: u64) -> U {
    U::from_u64(v).unwrap()
}

// ---- architecture ---------------------------------------------------------
#[derive(Debug, Clone, PartialEq)]
pub struct Regs<U>(pub [u8; 16], PhantomData<U>);
impl<U> Default for Regs<U> {
    fn default() -> Self {
        Regs([0; 16], PhantomData)
    }
}
impl<U: AddrW> Registers for Regs<U> {
    type ProgramCounter = U;
    fn pc(&self) -> U {
        U::zero()
    }
    fn gdb_serialize(&self, mut f: impl FnMut(Option<u8>)) {
        let mut i = 0;
        while i < r().regs_n {
            f(if r().regs_none >> i & 1 == 1 { None } else { Some(self.0[i]) });
            i += 1;
        }
    }
    fn gdb_deserialize(&mut self, b: &[u8]) -> Result<(), ()> {
        if b.len() < r().regs_n {
            return Err(());
        }
        let mut i = 0;
        while i < r().regs_n {
            self.0[i] = b[i];
            i += 1;
        }
        Ok(())
    }
}
/// register ids 0 (2 bytes), 1 (4 bytes), 2 (variable), 0x10 (1 byte)
#[derive(Debug)]
pub struct RId(pub usize);
pub fn rid_size(id: usize) -> Option<usize> {
    match id {
        0 => Some(2),
        1 => Some(4),
        2 => Some(0),
        0x10 => Some(1),
        _ => None,
    }
}
impl RegId for RId {
    fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
        rid_size(id).map(|s| (RId(id), NonZeroUsize::new(s)))
    }
}
#[derive(Debug)]
pub struct BK(usize);
pub const BK_LIMIT: usize = 0x80;
impl BreakpointKind for BK {
    fn from_usize(k: usize) -> Option<Self> {
        if k < BK_LIMIT {
            Some(BK(k))
        } else {
            None
        }
    }
}
pub struct Ar<U>(PhantomData<U>);
impl<U: AddrW> Arch for Ar<U> {
    type Usize = U;
    type Registers = Regs<U>;
    type BreakpointKind = BK;
    type RegId = RId;
    fn target_description_xml() -> Option<&'static str> {
        if has(ARCHXML) {
            Some(r().xml)
        } else {
            None
        }
    }
    fn lldb_register_info(reg_id: usize) -> Option<RegisterInfo<'static>> {
        // (asking about register usize::MAX is how the stub probes for support)
        if reg_id != usize::MAX {
            ev(O_LLDB, reg_id as u64, 1, 0, 0);
        }
        match r().sel {
            0 => None,
            1 => Some(RegisterInfo::Done),
            _ => Some(RegisterInfo::Register(lldb_reg())),
        }
    }
}
/// text of the script (ASCII by assumption)
pub fn ascii(p: &'static [u8]) -> &'static str {
    unsafe { core::str::from_utf8_unchecked(p) }
}
/// script for a described register: `num` selects every field
pub fn lldb_reg() -> Register<'static> {
    let r = r();
    Register {
        name: ascii(&r.src[..r.num[10] as usize]),
        alt_name: if r.num[0] & 1 != 0 { Some(ascii(&r.src[1..1 + r.num[11] as usize])) } else { None },
        bitsize: r.num[1] as usize,
        offset: r.num[2] as usize,
        encoding: match r.num[3] {
            0 => Encoding::Uint,
            1 => Encoding::Sint,
            2 => Encoding::IEEE754,
            _ => Encoding::Vector,
        },
        format: match r.num[4] {
            0 => Format::Binary,
            1 => Format::Decimal,
            2 => Format::Hex,
            3 => Format::Float,
            4 => Format::VectorSInt8,
            5 => Format::VectorUInt8,
            6 => Format::VectorSInt16,
            7 => Format::VectorUInt16,
            8 => Format::VectorSInt32,
            9 => Format::VectorUInt32,
            10 => Format::VectorFloat32,
            _ => Format::VectorUInt128,
        },
        set: ascii(&r.src[2..2 + r.num[12] as usize]),
        gcc: if r.num[0] & 2 != 0 { Some(r.num[5] as usize) } else { None },
        dwarf: if r.num[0] & 4 != 0 { Some(r.num[6] as usize) } else { None },
        generic: match r.num[7] {
            0 => None,
            1 => Some(Generic::Pc),
            2 => Some(Generic::Sp),
            3 => Some(Generic::Fp),
            4 => Some(Generic::Ra),
            5 => Some(Generic::Flags),
            6 => Some(Generic::Arg1),
            7 => Some(Generic::Arg2),
            8 => Some(Generic::Arg3),
            9 => Some(Generic::Arg4),
            10 => Some(Generic::Arg5),
            11 => Some(Generic::Arg6),
            12 => Some(Generic::Arg7),
            _ => Some(Generic::Arg8),
        },
        // num[8], num[9]: 0 for none, else one more than the number of entries
        container_regs: if r.num[8] > 0 { Some(&r.cregs[..r.num[8] as usize - 1]) } else { None },
        invalidate_regs: if r.num[9] > 0 { Some(&r.iregs[..r.num[9] as usize - 1]) } else { None },
    }
}

// ---- connection -----------------------------------------------------------
pub struct Conn;
#[inline(always)]
fn attempt(flush: bool) -> Result<(), u8> {
    let r = r();
    if r.cfail_at != usize::MAX {
        if r.natt == r.cfail_at {
            r.natt += 1;
            r.cflush = flush;
            r.cnev = r.nev;
            return Err(r.code);
        }
        if r.natt > r.cfail_at {
            r.after += 1;
        }
        r.natt += 1;
    }
    Ok(())
}
impl Connection for Conn {
    type Error = u8;
    fn write(&mut self, b: u8) -> Result<(), u8> {
        let r = r();
        attempt(false)?;
        if r.nout == r.wfail_at {
            return Err(r.code);
        }
        if r.nout < NOUT {
            r.out[r.nout] = b;
        }
        if big().on && r.nout < NBOUT {
            big().out[r.nout] = b;
        }
        r.nout += 1;
        Ok(())
    }
    fn flush(&mut self) -> Result<(), u8> {
        let r = r();
        attempt(true)?;
        if r.nflush == r.ffail_at {
            return Err(r.code);
        }
        r.nflush += 1;
        r.flushed = r.nout;
        Ok(())
    }
    fn on_session_start(&mut self) -> Result<(), u8> {
        let r = r();
        r.starts += 1;
        if r.sfail {
            return Err(r.code);
        }
        Ok(())
    }
}
/// what the client has sent
pub fn input(i: usize) -> u8 {
    if big().on {
        big().cmd[i]
    } else {
        r().input[i]
    }
}
impl ConnectionExt for Conn {
    fn read(&mut self) -> Result<u8, u8> {
        let r = r();
        if r.rpos >= r.ninput || r.rpos == r.rfail_at {
            return Err(r.code);
        }
        r.rpos += 1;
        Ok(input(r.rpos - 1))
    }
    fn peek(&mut self) -> Result<Option<u8>, u8> {
        let r = r();
        Ok(if r.rpos < r.ninput { Some(input(r.rpos)) } else { None })
    }
}

// ---- target ---------------------------------------------------------------
pub struct Mock<U> {
    pub tps: TracepointEnumerateState<U>,
}
impl<U: AddrW> Mock<U> {
    pub fn new() -> Self {
        Mock { tps: Default::default() }
    }
}
type TR<T> = Result<T, TargetError<u8>>;
type HR<T> = Result<T, HostIoError<u8>>;
macro_rules! opt { ($self:ident, $c:expr) => { if has($c) { Some($self) } else { None } }; }

impl<U: AddrW> Target for Mock<U> {
    type Arch = Ar<U>;
    type Error = u8;
    fn base_ops(&mut self) -> BaseOps<'_, Ar<U>, u8> {
        if has(MULTI) {
            BaseOps::MultiThread(self)
        } else {
            BaseOps::SingleThread(self)
        }
    }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool {
        has(GUARD)
    }
    fn use_no_ack_mode(&self) -> bool {
        has(NOACK)
    }
    fn use_x_upcase_packet(&self) -> bool {
        has(XUP)
    }
    fn use_resume_stub(&self) -> bool {
        has(RSTUB)
    }
    fn use_rle(&self) -> bool {
        has(RLE)
    }
    fn use_target_description_xml(&self) -> bool {
        has(USEXML)
    }
    fn use_lldb_register_info(&self) -> bool {
        has(USELLDB)
    }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> {
        opt!(self, BRK)
    }
    fn support_monitor_cmd(&mut self) -> Option<MonitorCmdOps<'_, Self>> {
        opt!(self, MON)
    }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> {
        opt!(self, EXT)
    }
    fn support_section_offsets(&mut self) -> Option<SectionOffsetsOps<'_, Self>> {
        opt!(self, OFFS)
    }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> {
        opt!(self, TP)
    }
    fn support_target_description_xml_override(&mut self) -> Option<TargetDescriptionXmlOverrideOps<'_, Self>> {
        opt!(self, XMLOV)
    }
    fn support_lldb_register_info_override(&mut self) -> Option<LldbRegisterInfoOverrideOps<'_, Self>> {
        opt!(self, LLDB)
    }
    fn support_memory_map(&mut self) -> Option<MemoryMapOps<'_, Self>> {
        opt!(self, MMAP)
    }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> {
        opt!(self, CATCH)
    }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> {
        opt!(self, HIO)
    }
    fn support_exec_file(&mut self) -> Option<ExecFileOps<'_, Self>> {
        opt!(self, EXECF)
    }
    fn support_auxv(&mut self) -> Option<AuxvOps<'_, Self>> {
        opt!(self, AUXV)
    }
    fn support_libraries_svr4(&mut self) -> Option<LibrariesSvr4Ops<'_, Self>> {
        opt!(self, LIBS)
    }
}

fn rregs<U: AddrW>(regs: &mut Regs<U>, tid: u64) -> TR<()> {
    ev(O_RREGS, tid, 0, 0, 0);
    go(())?;
    let mut i = 0;
    while i < 16 {
        regs.0[i] = r().src[i];
        i += 1;
    }
    Ok(())
}
fn wregs<U: AddrW>(regs: &Regs<U>, tid: u64) -> TR<()> {
    evd(O_WREGS, tid, 0, 0, 0, &regs.0[..r().regs_n]);
    go(())
}
/// memory: byte at address a is src[(a - num[0]) % NSRC]-like; reads are served
/// from `src` at the offset from the first address read in this command
fn raddr(addr: u64, data: &mut [u8], tid: u64) -> TR<usize> {
    ev(O_RADDR, addr, data.len() as u64, tid, 0);
    go(())?;
    let r = r();
    let base = addr.wrapping_sub(r.num[0]) as usize;
    let mut i = 0;
    if big().on {
        while i < data.len() && base + i < r.ret {
            data[i] = big().src[base + i];
            i += 1;
        }
        return Ok(i);
    }
    while i < data.len() && base + i < r.ret {
        data[i] = r.src[base + i];
        i += 1;
    }
    Ok(i)
}
fn waddr(addr: u64, data: &[u8], tid: u64) -> TR<()> {
    evd(O_WADDR, addr, data.len() as u64, tid, 0, data);
    go(())
}
fn sig(s: Option<Signal>) -> u64 {
    match s {
        None => NONE,
        Some(s) => s.0 as u64,
    }
}

impl<U: AddrW> SingleThreadBase for Mock<U> {
    fn read_registers(&mut self, regs: &mut Regs<U>) -> TR<()> {
        rregs(regs, NONE)
    }
    fn write_registers(&mut self, regs: &Regs<U>) -> TR<()> {
        wregs(regs, NONE)
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> {
        opt!(self, SREG)
    }
    fn read_addrs(&mut self, a: U, d: &mut [u8]) -> TR<usize> {
        raddr(w(a), d, NONE)
    }
    fn write_addrs(&mut self, a: U, d: &[u8]) -> TR<()> {
        waddr(w(a), d, NONE)
    }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> {
        opt!(self, RESUME)
    }
}
impl<U: AddrW> SingleThreadResume for Mock<U> {
    fn resume(&mut self, s: Option<Signal>) -> Result<(), u8> {
        ev(O_RESUME, sig(s), 0, 0, 0);
        gof(())
    }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> {
        opt!(self, STEP)
    }
    fn support_range_step(&mut self) -> Option<SingleThreadRangeSteppingOps<'_, Self>> {
        opt!(self, RANGE)
    }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> {
        opt!(self, RSTEP)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> {
        opt!(self, RCONT)
    }
}
impl<U: AddrW> SingleThreadSingleStep for Mock<U> {
    fn step(&mut self, s: Option<Signal>) -> Result<(), u8> {
        ev(O_STEP, sig(s), 0, 0, 0);
        gof(())
    }
}
impl<U: AddrW> SingleThreadRangeStepping for Mock<U> {
    fn resume_range_step(&mut self, a: U, b: U) -> Result<(), u8> {
        ev(O_RANGE, w(a), w(b), NONE, 0);
        gof(())
    }
}
impl<U: AddrW> MultiThreadBase for Mock<U> {
    fn read_registers(&mut self, regs: &mut Regs<U>, tid: Tid) -> TR<()> {
        rregs(regs, tid.get() as u64)
    }
    fn write_registers(&mut self, regs: &Regs<U>, tid: Tid) -> TR<()> {
        wregs(regs, tid.get() as u64)
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> {
        opt!(self, SREG)
    }
    fn read_addrs(&mut self, a: U, d: &mut [u8], tid: Tid) -> TR<usize> {
        raddr(w(a), d, tid.get() as u64)
    }
    fn write_addrs(&mut self, a: U, d: &[u8], tid: Tid) -> TR<()> {
        waddr(w(a), d, tid.get() as u64)
    }
    fn list_active_threads(&mut self, f: &mut dyn FnMut(Tid)) -> Result<(), u8> {
        // (not an observable effect: not recorded)
        if big().nthr > 0 {
            let mut i = 0;
            while i < big().nthr {
                f(Tid::new(if i == big().odd { big().oddid } else { big().base + i }).unwrap());
                i += 1;
            }
            return Ok(());
        }
        let mut i = 0;
        while i < r().nthreads {
            if let Some(t) = Tid::new(r().threads[i]) {
                f(t);
            }
            i += 1;
        }
        if r().lfail {
            return Err(r().code);
        }
        Ok(())
    }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> {
        opt!(self, RESUME)
    }
    fn support_thread_extra_info(&mut self) -> Option<ThreadExtraInfoOps<'_, Self>> {
        opt!(self, EXTRA)
    }
}
impl<U: AddrW> MultiThreadResume for Mock<U> {
    fn resume(&mut self) -> Result<(), u8> {
        ev(O_RESUME, NONE, 0, 0, 0);
        gof(())
    }
    fn clear_resume_actions(&mut self) -> Result<(), u8> {
        ev(O_CLEAR, 0, 0, 0, 0);
        gof(())
    }
    fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), u8> {
        ev(O_SETC, t.get() as u64, sig(s), 0, 0);
        gof(())
    }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> {
        opt!(self, STEP)
    }
    fn support_range_step(&mut self) -> Option<MultiThreadRangeSteppingOps<'_, Self>> {
        opt!(self, RANGE)
    }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> {
        opt!(self, RSTEP)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> {
        opt!(self, RCONT)
    }
}
impl<U: AddrW> MultiThreadSingleStep for Mock<U> {
    fn set_resume_action_step(&mut self, t: Tid, s: Option<Signal>) -> Result<(), u8> {
        ev(O_SETS, t.get() as u64, sig(s), 0, 0);
        gof(())
    }
}
impl<U: AddrW> MultiThreadRangeStepping for Mock<U> {
    fn set_resume_action_range_step(&mut self, t: Tid, a: U, b: U) -> Result<(), u8> {
        ev(O_SETR, t.get() as u64, w(a), w(b), 0);
        gof(())
    }
}
impl<U: AddrW> ThreadExtraInfo for Mock<U> {
    fn thread_extra_info(&self, t: Tid, buf: &mut [u8]) -> Result<usize, u8> {
        ev(O_EXTRA, t.get() as u64, 0, 0, 0);
        gof(fill(buf))
    }
}
fn tid64(t: Option<Tid>) -> u64 {
    t.map(|t| t.get() as u64).unwrap_or(NONE)
}
macro_rules! tid_impls { ($tid:ty, $t:ident => $e:expr) => {
    impl<U: AddrW> ReverseCont<$tid> for Mock<U> {
        fn reverse_cont(&mut self) -> Result<(), u8> {
            ev(O_RCONT, 0, 0, 0, 0);
            gof(())
        }
    }
    impl<U: AddrW> ReverseStep<$tid> for Mock<U> {
        fn reverse_step(&mut self, $t: $tid) -> Result<(), u8> {
            ev(O_RSTEP, tid64($e), 0, 0, 0);
            gof(())
        }
    }
    impl<U: AddrW> SingleRegisterAccess<$tid> for Mock<U> {
        fn read_register(&mut self, $t: $tid, reg: RId, buf: &mut [u8]) -> TR<usize> {
            ev(O_RREG, tid64($e), reg.0 as u64, 0, 0);
            go(())?;
            Ok(fill(buf))
        }
        fn write_register(&mut self, $t: $tid, reg: RId, val: &[u8]) -> TR<()> {
            evd(O_WREG, tid64($e), reg.0 as u64, 0, 0, val);
            go(())
        }
    }
}; }
tid_impls!((), t => { let _ = t; None });
tid_impls!(Tid, t => Some(t));

// breakpoints
impl<U: AddrW> Breakpoints for Mock<U> {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> {
        opt!(self, SWB)
    }
    fn support_hw_breakpoint(&mut self) -> Option<HwBreakpointOps<'_, Self>> {
        opt!(self, HWB)
    }
    fn support_hw_watchpoint(&mut self) -> Option<HwWatchpointOps<'_, Self>> {
        opt!(self, HWW)
    }
}
impl<U: AddrW> SwBreakpoint for Mock<U> {
    fn add_sw_breakpoint(&mut self, a: U, k: BK) -> TR<bool> {
        ev(O_ADDSW, w(a), k.0 as u64, 0, 0);
        go(r().flag)
    }
    fn remove_sw_breakpoint(&mut self, a: U, k: BK) -> TR<bool> {
        ev(O_REMSW, w(a), k.0 as u64, 0, 0);
        go(r().flag)
    }
}
impl<U: AddrW> HwBreakpoint for Mock<U> {
    fn add_hw_breakpoint(&mut self, a: U, k: BK) -> TR<bool> {
        ev(O_ADDHW, w(a), k.0 as u64, 0, 0);
        go(r().flag)
    }
    fn remove_hw_breakpoint(&mut self, a: U, k: BK) -> TR<bool> {
        ev(O_REMHW, w(a), k.0 as u64, 0, 0);
        go(r().flag)
    }
}
fn wk(k: WatchKind) -> u64 {
    match k {
        WatchKind::Write => 0,
        WatchKind::Read => 1,
        WatchKind::ReadWrite => 2,
    }
}
impl<U: AddrW> HwWatchpoint for Mock<U> {
    fn add_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TR<bool> {
        ev(O_ADDWP, w(a), w(l), wk(k), 0);
        go(r().flag)
    }
    fn remove_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TR<bool> {
        ev(O_REMWP, w(a), w(l), wk(k), 0);
        go(r().flag)
    }
}
// monitor: emits `ret` bytes of src, in writes of `sel` bytes, flushing after
// each if `flag`; or through the formatting macros
impl<U: AddrW> MonitorCmd for Mock<U> {
    fn handle_monitor_cmd(&mut self, cmd: &[u8], mut out: ConsoleOutput<'_>) -> Result<(), u8> {
        evd(O_MON, 0, 0, 0, 0, cmd);
        let r = r();
        if big().on {
            let mut i = 0;
            while i < r.ret {
                let e = if i + r.regs_n < r.ret { i + r.regs_n } else { r.ret };
                out.write_raw(&big().src[i..e]);
                i = e;
            }
            return gof(());
        }
        if r.sel >= 250 {
            let t = core::str::from_utf8(&r.src[..r.ret]).unwrap_or("?");
            match r.sel {
                250 => {
                    gdbstub::output!(out, "{}", t);
                }
                251 => {
                    gdbstub::outputln!(out, "{}", t);
                }
                252 => {
                    gdbstub::output!(out, "a{}b", t);
                    gdbstub::outputln!(out);
                    gdbstub::outputln!(out, "{}", t);
                }
                253 => {
                    gdbstub::outputln!(out,);
                    out.write_raw(&r.src[..r.ret]);
                    gdbstub::output!(out, "{}{}", t, t);
                }
                _ => {
                    let mut i = 0;
                    while i < r.ret {
                        out.write_raw(&[]);
                        out.write_raw(&r.src[i..i + 1]);
                        i += 1;
                    }
                    gdbstub::output!(out, "{}", "");
                }
            }
            return gof(());
        }
        let step = if r.sel == 0 { r.ret.max(1) } else { r.sel as usize };
        let mut i = 0;
        while i < r.ret {
            let e = if i + step < r.ret { i + step } else { r.ret };
            out.write_raw(&r.src[i..e]);
            #[cfg(feature = "std")]
            if r.flag {
                out.flush();
            }
            i = e;
        }
        #[cfg(feature = "std")]
        if r.flag {
            out.flush();
        }
        gof(())
    }
}
// extended mode
impl<U: AddrW> ExtendedMode for Mock<U> {
    fn run(&mut self, filename: Option<&[u8]>, args: Args<'_, '_>) -> TR<Pid> {
        match filename {
            None => ev(O_RUN, 0, 0, 0, 0),
            Some(f) => evd(O_RUN, 1, 0, 0, 0, f),
        }
        for a in args {
            evd(O_ARG, 0, 0, 0, 0, a);
        }
        go(Pid::new(r().num[0] as usize).unwrap())
    }
    fn attach(&mut self, pid: Pid) -> TR<()> {
        ev(O_ATTACH, pid.get() as u64, 0, 0, 0);
        go(())
    }
    fn query_if_attached(&mut self, pid: Pid) -> TR<AttachKind> {
        ev(O_QATT, pid.get() as u64, 0, 0, 0);
        go(if r().flag { AttachKind::Attach } else { AttachKind::Run })
    }
    fn kill(&mut self, pid: Option<Pid>) -> TR<ShouldTerminate> {
        ev(O_KILL, pid.map(|p| p.get() as u64).unwrap_or(NONE), 0, 0, 0);
        go(if r().flag { ShouldTerminate::Yes } else { ShouldTerminate::No })
    }
    fn restart(&mut self) -> Result<(), u8> {
        ev(O_RESTART, 0, 0, 0, 0);
        gof(())
    }
    fn on_start(&mut self) -> Result<(), u8> {
        if !has(QSTART) {
            ev(O_ONSTART, 0, 0, 0, 0);
        }
        gof(())
    }
    fn support_configure_aslr(&mut self) -> Option<ConfigureAslrOps<'_, Self>> {
        opt!(self, ASLR)
    }
    fn support_configure_env(&mut self) -> Option<ConfigureEnvOps<'_, Self>> {
        opt!(self, ENV)
    }
    fn support_configure_startup_shell(&mut self) -> Option<ConfigureStartupShellOps<'_, Self>> {
        opt!(self, SHELL)
    }
    fn support_configure_working_dir(&mut self) -> Option<ConfigureWorkingDirOps<'_, Self>> {
        opt!(self, CWD)
    }
    fn support_current_active_pid(&mut self) -> Option<CurrentActivePidOps<'_, Self>> {
        opt!(self, CURPID)
    }
}
impl<U: AddrW> ConfigureAslr for Mock<U> {
    fn cfg_aslr(&mut self, e: bool) -> TR<()> {
        ev(O_ASLR, e as u64, 0, 0, 0);
        go(())
    }
}
impl<U: AddrW> ConfigureStartupShell for Mock<U> {
    fn cfg_startup_with_shell(&mut self, e: bool) -> TR<()> {
        ev(O_SHELL, e as u64, 0, 0, 0);
        go(())
    }
}
impl<U: AddrW> ConfigureEnv for Mock<U> {
    fn set_env(&mut self, k: &[u8], v: Option<&[u8]>) -> TR<()> {
        evd(O_SETENV, v.is_some() as u64, 0, 0, 0, k);
        if let Some(v) = v {
            evd(O_ARG, 0, 0, 0, 0, v);
        }
        go(())
    }
    fn remove_env(&mut self, k: &[u8]) -> TR<()> {
        evd(O_REMENV, 0, 0, 0, 0, k);
        go(())
    }
    fn reset_env(&mut self) -> TR<()> {
        ev(O_RSTENV, 0, 0, 0, 0);
        go(())
    }
}
impl<U: AddrW> ConfigureWorkingDir for Mock<U> {
    fn cfg_working_dir(&mut self, d: Option<&[u8]>) -> TR<()> {
        match d {
            None => ev(O_CWD, 0, 0, 0, 0),
            Some(d) => evd(O_CWD, 1, 0, 0, 0, d),
        }
        go(())
    }
}
impl<U: AddrW> CurrentActivePid for Mock<U> {
    fn current_active_pid(&mut self) -> Result<Pid, u8> {
        // a pure query: not recorded
        if r().pfail {
            return Err(r().code);
        }
        Ok(Pid::new(r().num[1] as usize).unwrap_or(Pid::new(1).unwrap()))
    }
}
// section offsets: sel 0 = sections with bss, 1 = sections without, 2 = both segments, 3 = text only
impl<U: AddrW> SectionOffsets for Mock<U> {
    fn get_section_offsets(&mut self) -> Result<Offsets<U>, u8> {
        let n = |i: usize| uw::<U>(r().num[i]);
        ev(O_OFFS, 0, 0, 0, 0);
        gof(match r().sel {
            0 => Offsets::Sections { text: n(0), data: n(1), bss: Some(n(2)) },
            1 => Offsets::Sections { text: n(0), data: n(1), bss: None },
            2 => Offsets::Segments { text_seg: n(0), data_seg: Some(n(1)) },
            _ => Offsets::Segments { text_seg: n(0), data_seg: None },
        })
    }
}
// bulk transfers
impl<U: AddrW> TargetDescriptionXmlOverride for Mock<U> {
    fn target_description_xml(&self, annex: &[u8], off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        evd(O_XML, off, len as u64, 0, 0, annex);
        go(fill(buf))
    }
}
impl<U: AddrW> MemoryMap for Mock<U> {
    fn memory_map_xml(&self, off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        ev(O_MMAP, off, len as u64, 0, 0);
        go(fill(buf))
    }
}
impl<U: AddrW> ExecFile for Mock<U> {
    fn get_exec_file(&self, pid: Option<Pid>, off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        ev(O_EXECF, off, len as u64, pid.map(|p| p.get() as u64).unwrap_or(NONE), 0);
        go(fill(buf))
    }
}
impl<U: AddrW> Auxv for Mock<U> {
    fn get_auxv(&self, off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        ev(O_AUXV, off, len as u64, 0, 0);
        go(fill(buf))
    }
}
impl<U: AddrW> LibrariesSvr4 for Mock<U> {
    fn get_libraries_svr4(&self, off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        ev(O_LIBS, off, len as u64, 0, 0);
        go(fill(buf))
    }
}
impl<U: AddrW> LldbRegisterInfoOverride for Mock<U> {
    fn lldb_register_info<'a>(&mut self, reg_id: usize, cb: Callback<'a>) -> Result<CallbackToken<'a>, u8> {
        ev(O_LLDB, reg_id as u64, 0, 0, 0);
        gof(())?;
        Ok(match r().sel {
            0 | 1 => cb.done(),
            _ => cb.write(lldb_reg()),
        })
    }
}
impl<U: AddrW> CatchSyscalls for Mock<U> {
    fn enable_catch_syscalls(&mut self, filter: Option<SyscallNumbers<'_, U>>) -> TR<()> {
        match filter {
            None => ev(O_CATCHEN, 0, 0, 0, 0),
            Some(f) => {
                ev(O_CATCHEN, 1, 0, 0, 0);
                for n in f {
                    ev(O_ARG, w(n), 0, 0, 0);
                }
            }
        }
        go(())
    }
    fn disable_catch_syscalls(&mut self) -> TR<()> {
        ev(O_CATCHDIS, 0, 0, 0, 0);
        go(())
    }
}
// host I/O
impl<U: AddrW> HostIo for Mock<U> {
    fn support_open(&mut self) -> Option<HostIoOpenOps<'_, Self>> {
        opt!(self, HOPEN)
    }
    fn support_close(&mut self) -> Option<HostIoCloseOps<'_, Self>> {
        opt!(self, HCLOSE)
    }
    fn support_pread(&mut self) -> Option<HostIoPreadOps<'_, Self>> {
        opt!(self, HPREAD)
    }
    fn support_pwrite(&mut self) -> Option<HostIoPwriteOps<'_, Self>> {
        opt!(self, HPWRITE)
    }
    fn support_fstat(&mut self) -> Option<HostIoFstatOps<'_, Self>> {
        opt!(self, HFSTAT)
    }
    fn support_unlink(&mut self) -> Option<HostIoUnlinkOps<'_, Self>> {
        opt!(self, HUNLINK)
    }
    fn support_readlink(&mut self) -> Option<HostIoReadlinkOps<'_, Self>> {
        opt!(self, HREADLINK)
    }
    fn support_setfs(&mut self) -> Option<HostIoSetfsOps<'_, Self>> {
        opt!(self, HSETFS)
    }
}
impl<U: AddrW> HostIoOpen for Mock<U> {
    fn open(&mut self, f: &[u8], flags: HostIoOpenFlags, mode: HostIoOpenMode) -> HR<u32> {
        evd(O_OPEN, flags.bits() as u64, mode.bits() as u64, 0, 0, f);
        gio(r().num[0] as u32)
    }
}
impl<U: AddrW> HostIoClose for Mock<U> {
    fn close(&mut self, fd: u32) -> HR<()> {
        ev(O_CLOSE, fd as u64, 0, 0, 0);
        gio(())
    }
}
impl<U: AddrW> HostIoPread for Mock<U> {
    fn pread(&mut self, fd: u32, count: usize, off: u64, buf: &mut [u8]) -> HR<usize> {
        ev(O_PREAD, fd as u64, count as u64, off, 0);
        gio(fill(buf))
    }
}
impl<U: AddrW> HostIoPwrite for Mock<U> {
    fn pwrite(&mut self, fd: u32, off: U, data: &[u8]) -> HR<U> {
        evd(O_PWRITE, fd as u64, w(off), 0, 0, data);
        gio(uw(r().num[0]))
    }
}
impl<U: AddrW> HostIoFstat for Mock<U> {
    fn fstat(&mut self, fd: u32) -> HR<HostIoStat> {
        ev(O_FSTAT, fd as u64, 0, 0, 0);
        let n = &r().num;
        gio(HostIoStat {
            st_dev: n[0] as u32,
            st_ino: n[1] as u32,
            st_mode: HostIoOpenMode::from_bits_truncate(n[2] as u32),
            st_nlink: n[3] as u32,
            st_uid: n[4] as u32,
            st_gid: n[5] as u32,
            st_rdev: n[6] as u32,
            st_size: n[7],
            st_blksize: n[8],
            st_blocks: n[9],
            st_atime: n[10] as u32,
            st_mtime: n[11] as u32,
            st_ctime: n[12] as u32,
        })
    }
}
impl<U: AddrW> HostIoUnlink for Mock<U> {
    fn unlink(&mut self, f: &[u8]) -> HR<()> {
        evd(O_UNLINK, 0, 0, 0, 0, f);
        gio(())
    }
}
impl<U: AddrW> HostIoReadlink for Mock<U> {
    fn readlink(&mut self, f: &[u8], buf: &mut [u8]) -> HR<usize> {
        evd(O_READLINK, 0, 0, 0, 0, f);
        gio(fill(buf))
    }
}
impl<U: AddrW> HostIoSetfs for Mock<U> {
    fn setfs(&mut self, fs: FsKind) -> HR<()> {
        match fs {
            FsKind::Stub => ev(O_SETFS, NONE, 0, 0, 0),
            FsKind::Pid(p) => ev(O_SETFS, p.get() as u64, 0, 0, 0),
        }
        gio(())
    }
}
// tracepoints
pub static mut TPS: Script = Script { step: [0; 8], n: 0, tp: [0; 8], addr: [0; 8] };
/// enumeration script: what each enumerate_* call reports and which step it
/// moves to. low nibble of `step`: 0 Done, 1 Action, 2 Source, 3 Next; high
/// nibble: what it emits (0 nothing, 1 registers, 2 memory, 3 expression,
/// 4 memory without base register)
#[derive(Clone, Copy)]
pub struct Script {
    pub step: [u8; 8],
    pub tp: [usize; 8],
    pub addr: [u64; 8],
    pub n: usize,
}
#[allow(static_mut_refs)]
pub fn tps() -> &'static mut Script {
    unsafe { &mut TPS }
}
fn next_step<U: AddrW>(i: usize) -> TracepointEnumerateStep<U> {
    match tps().step[i] & 15 {
        0 => TracepointEnumerateStep::Done,
        1 => TracepointEnumerateStep::Action,
        2 => TracepointEnumerateStep::Source,
        _ => TracepointEnumerateStep::Next { tp: Tracepoint(tps().tp[i]), addr: uw(tps().addr[i]) },
    }
}
fn src_kind(k: TracepointSourceType) -> u64 {
    match k {
        TracepointSourceType::At => 0,
        TracepointSourceType::Cond => 1,
        TracepointSourceType::Cmd => 2,
    }
}
impl<U: AddrW> Tracepoints for Mock<U> {
    fn tracepoints_init(&mut self) -> TR<()> {
        ev(O_TPINIT, 0, 0, 0, 0);
        go(())
    }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<U>) -> TR<()> {
        evd(O_TPBEGIN, t.number.0 as u64, w(t.addr), t.step_count, t.pass_count, &[t.enabled as u8]);
        go(())
    }
    fn tracepoint_create_continue(&mut self, tp: Tracepoint, a: &TracepointAction<'_, U>) -> TR<()> {
        // what a target does that keeps the actions
        #[cfg(feature = "std")]
        let a = &a.get_owned();
        match a {
            TracepointAction::Registers { mask } => evd(O_TPCONT, tp.0 as u64, 1, 0, 0, mask),
            TracepointAction::Memory { basereg, offset, length } => {
                ev(O_TPCONT, tp.0 as u64, 2 | basereg.unwrap_or(NONE) << 4, w(*offset), *length)
            }
            TracepointAction::Expression { expr } => evd(O_TPCONT, tp.0 as u64, 3, 0, 0, expr),
        }
        go(())
    }
    fn tracepoint_create_complete(&mut self, tp: Tracepoint) -> TR<()> {
        ev(O_TPDONE, tp.0 as u64, 0, 0, 0);
        go(())
    }
    fn tracepoint_status(&self, tp: Tracepoint, addr: U) -> TR<TracepointStatus> {
        ev(O_TPSTAT, tp.0 as u64, w(addr), 0, 0);
        go(TracepointStatus { hit_count: r().num[0], bytes_used: r().num[1] })
    }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<U> {
        &mut self.tps
    }
    fn tracepoint_enumerate_start(
        &mut self,
        tp: Option<Tracepoint>,
        f: &mut dyn FnMut(&NewTracepoint<U>),
    ) -> TR<TracepointEnumerateStep<U>> {
        ev(O_TPESTART, tp.map(|t| t.0 as u64).unwrap_or(NONE), 0, 0, 0);
        let i = tps().n;
        tps().n += 1;
        if tps().step[i] >> 4 != 0 {
            let n = &r().num;
            f(&NewTracepoint {
                number: Tracepoint(n[2] as usize),
                enabled: r().flag,
                addr: uw(n[3]),
                step_count: n[4],
                pass_count: n[5],
            });
        }
        go(next_step(i))
    }
    fn tracepoint_enumerate_action(
        &mut self,
        tp: Tracepoint,
        step: u64,
        f: &mut dyn FnMut(&TracepointAction<'_, U>),
    ) -> TR<TracepointEnumerateStep<U>> {
        ev(O_TPEACT, tp.0 as u64, step, 0, 0);
        let i = tps().n;
        tps().n += 1;
        let r = r();
        let bytes = &mut r.src[..r.ret];
        match tps().step[i] >> 4 {
            0 => {}
            1 => f(&TracepointAction::Registers { mask: bytes.into() }),
            2 => f(&TracepointAction::Memory { basereg: Some(r.num[4]), offset: uw(r.num[5]), length: r.num[6] }),
            3 => f(&TracepointAction::Expression { expr: bytes.into() }),
            _ => f(&TracepointAction::Memory { basereg: None, offset: uw(r.num[5]), length: r.num[6] }),
        }
        go(next_step(i))
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TR<()> {
        match c {
            TraceBufferConfig::Shape(BufferShape::Circular) => ev(O_TBCFG, 0, 0, 0, 0),
            TraceBufferConfig::Shape(BufferShape::Linear) => ev(O_TBCFG, 1, 0, 0, 0),
            TraceBufferConfig::Size(s) => ev(O_TBCFG, 2, s.unwrap_or(NONE), 0, 0),
        }
        go(())
    }
    fn trace_buffer_request(&mut self, off: u64, len: usize, f: &mut dyn FnMut(&mut [u8])) -> TR<()> {
        ev(O_TBREQ, off, len as u64, 0, 0);
        let r = crate::mock::r();
        if r.sel == 1 {
            f(&mut r.src[..r.ret]);
        } else if r.sel == 2 {
            let (a, b) = r.src[..r.ret].split_at_mut(1);
            f(a);
            f(b);
        }
        go(())
    }
    fn trace_experiment_status(&self, f: &mut dyn FnMut(ExperimentStatus<'_>)) -> TR<()> {
        ev(O_TXSTAT, 0, 0, 0, 0);
        let r = crate::mock::r();
        let t = &r.src[..r.ret];
        match r.sel {
            0 => f(ExperimentStatus::Running),
            1 => f(ExperimentStatus::NotRunning),
            2 => f(ExperimentStatus::NotRun),
            3 => f(ExperimentStatus::Stop(None)),
            4 => f(ExperimentStatus::Stop(Some(t))),
            5 => f(ExperimentStatus::Full),
            6 => f(ExperimentStatus::Disconnected),
            7 => f(ExperimentStatus::PassCount(Tracepoint(r.num[0] as usize))),
            8 => f(ExperimentStatus::Error(t, Tracepoint(r.num[0] as usize))),
            9 => f(ExperimentStatus::Unknown),
            10 => {
                f(ExperimentStatus::Full);
                f(ExperimentStatus::Running);
            }
            _ => {}
        }
        go(())
    }
    fn trace_experiment_info(&self, f: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TR<()> {
        ev(O_TXINFO, 0, 0, 0, 0);
        let n = &r().num;
        // num[1]: bitmask of the explanations volunteered
        let m = n[1];
        if m & 1 != 0 {
            f(ExperimentExplanation::Frames(n[2] as usize))
        }
        if m & 2 != 0 {
            f(ExperimentExplanation::Created(n[3] as usize))
        }
        if m & 4 != 0 {
            f(ExperimentExplanation::Size(n[4] as usize))
        }
        if m & 8 != 0 {
            f(ExperimentExplanation::Free(n[5] as usize))
        }
        if m & 16 != 0 {
            f(ExperimentExplanation::Circular(r().flag))
        }
        if m & 32 != 0 {
            f(ExperimentExplanation::DisconnectedTracing(!r().flag))
        }
        if m & 64 != 0 {
            f(ExperimentExplanation::Other("ab"))
        }
        go(())
    }
    fn trace_experiment_start(&mut self) -> TR<()> {
        ev(O_TXSTART, 0, 0, 0, 0);
        go(())
    }
    fn trace_experiment_stop(&mut self) -> TR<()> {
        ev(O_TXSTOP, 0, 0, 0, 0);
        go(())
    }
    fn select_frame(&mut self, fr: FrameRequest<U>, f: &mut dyn FnMut(FrameDescription)) -> TR<()> {
        match fr {
            FrameRequest::Select(n) => ev(O_TFRAME, 0, n, 0, 0),
            FrameRequest::AtPC(a) => ev(O_TFRAME, 1, w(a), 0, 0),
            FrameRequest::Hit(t) => ev(O_TFRAME, 2, t.0 as u64, 0, 0),
            FrameRequest::Between(a, b) => ev(O_TFRAME, 3, w(a), w(b), 0),
            FrameRequest::Outside(a, b) => ev(O_TFRAME, 4, w(a), w(b), 0),
        }
        let r = r();
        if r.sel & 1 != 0 {
            f(FrameDescription::FrameNumber(r.num[0]));
        }
        if r.sel & 2 != 0 {
            f(FrameDescription::Hit(Tracepoint(r.num[1] as usize)));
        }
        go(())
    }
    fn support_tracepoint_source(&mut self) -> Option<TracepointSourceOps<'_, Self>> {
        opt!(self, TPSRC)
    }
}
impl<U: AddrW> TracepointSource for Mock<U> {
    fn tracepoint_attach_source(&mut self, s: SourceTracepoint<'_, U>) -> TR<()> {
        #[cfg(feature = "std")]
        let s = s.get_owned();
        evd(
            O_TPSRC,
            s.number.0 as u64,
            w(s.addr),
            src_kind(s.kind),
            s.start as u64 | (s.slen as u64) << 32,
            &s.bytes,
        );
        go(())
    }
    fn tracepoint_enumerate_source(
        &mut self,
        tp: Tracepoint,
        step: u64,
        f: &mut dyn FnMut(&SourceTracepoint<'_, U>),
    ) -> TR<TracepointEnumerateStep<U>> {
        ev(O_TPESRC, tp.0 as u64, step, 0, 0);
        let i = tps().n;
        tps().n += 1;
        let r = r();
        if tps().step[i] >> 4 != 0 {
            f(&SourceTracepoint {
                number: Tracepoint(r.num[7] as usize),
                addr: uw(r.num[8]),
                kind: match tps().step[i] >> 4 {
                    1 => TracepointSourceType::At,
                    2 => TracepointSourceType::Cond,
                    _ => TracepointSourceType::Cmd,
                },
                start: r.num[9] as u32,
                slen: r.num[10] as u32,
                bytes: (&mut r.src[..r.ret]).into(),
            });
        }
        go(next_step(i))
    }
}
