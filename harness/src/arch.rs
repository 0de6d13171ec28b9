//! The register files, register numbers and breakpoint kinds of gdbstub_arch,
//! and the integer conversions they rest on.
use crate::api::*;
use crate::*;
use core::num::NonZeroUsize;
use gdbstub::arch::*;
use gdbstub::internal::{BeBytes, LeBytes};
use gdbstub_arch as ga;
use num_traits::PrimInt;
const FILE_ID: u32 = 1_700_000;
const MAX: usize = 960;

/// a whole-register block; `no[i]`: byte i is unavailable
struct Block {
    b: [u8; MAX],
    no: [bool; MAX],
    n: usize,
}
impl Block {
    fn new() -> Block {
        Block { b: [0; MAX], no: [false; MAX], n: 0 }
    }
    fn put(&mut self, x: Option<u8>) {
        if self.n < MAX {
            self.b[self.n] = x.unwrap_or(0);
            self.no[self.n] = x.is_none();
        }
        self.n += 1;
    }
    fn le(&mut self, v: u128, n: usize) {
        let mut i = 0;
        while i < n {
            self.put(Some((v >> (8 * i)) as u8));
            i += 1;
        }
    }
    fn be(&mut self, v: u128, n: usize) {
        let mut i = n;
        while i > 0 {
            i -= 1;
            self.put(Some((v >> (8 * i)) as u8));
        }
    }
    fn none(&mut self, n: usize) {
        for _ in 0..n {
            self.put(None)
        }
    }
    fn of<R: Registers>(r: &R) -> Block {
        let mut b = Block::new();
        r.gdb_serialize(|x| b.put(x));
        b
    }
    fn same(&self, o: &Block) -> bool {
        if self.n != o.n || self.n > MAX {
            return false;
        }
        let mut ok = true;
        let mut i = 0;
        while i < self.n {
            if self.no[i] != o.no[i] {
                return false;
            }
            ok &= self.b[i] == o.b[i];
            i += 1;
        }
        ok
    }
}
fn any128() -> u128 {
    any64() as u128 | (any64() as u128) << 64
}
/// register files with arbitrary contents, and the block they stand for
trait File: Registers {
    fn arb() -> (Self, Block);
    /// the block may not be shorter
    fn least() -> usize;
    /// the block may not be longer
    fn exact() -> bool {
        false
    }
    fn pc64(&self) -> u64;
    /// unavailable bytes that must be sent as zero
    fn zero() -> bool {
        false
    }
}
fn seg(x: &mut ga::x86::reg::X86SegmentRegs, b: &mut Block) {
    for r in [&mut x.cs, &mut x.ss, &mut x.ds, &mut x.es, &mut x.fs, &mut x.gs] {
        *r = any32();
        b.le(*r as u128, 4);
    }
}
fn st(x: &mut [[u8; 10]; 8], b: &mut Block) {
    for r in x.iter_mut() {
        for y in r.iter_mut() {
            *y = any();
            b.put(Some(*y));
        }
    }
}
fn fpu(x: &mut ga::x86::reg::X87FpuInternalRegs, b: &mut Block) {
    for r in [&mut x.fctrl, &mut x.fstat, &mut x.ftag, &mut x.fiseg, &mut x.fioff, &mut x.foseg, &mut x.fooff, &mut x.fop] {
        *r = any32();
        b.le(*r as u128, 4);
    }
}
fn v128(x: &mut [u128], b: &mut Block) {
    for r in x.iter_mut() {
        *r = any128();
        b.le(*r, 16);
    }
}
type X64 = ga::x86::reg::X86_64CoreRegs;
impl File for X64 {
    fn arb() -> (X64, Block) {
        let mut r = X64::default();
        let mut b = Block::new();
        for x in r.regs.iter_mut() {
            *x = any64();
            b.le(*x as u128, 8);
        }
        r.rip = any64();
        b.le(r.rip as u128, 8);
        r.eflags = any32();
        b.le(r.eflags as u128, 4);
        seg(&mut r.segments, &mut b);
        st(&mut r.st, &mut b);
        fpu(&mut r.fpu, &mut b);
        v128(&mut r.xmm, &mut b);
        r.mxcsr = any32();
        b.le(r.mxcsr as u128, 4);
        b.none(0x18);
        (r, b)
    }
    fn least() -> usize {
        0x218
    }
    fn pc64(&self) -> u64 {
        self.rip
    }
}
type X32 = ga::x86::reg::X86CoreRegs;
impl File for X32 {
    fn arb() -> (X32, Block) {
        let mut r = X32::default();
        let mut b = Block::new();
        for x in [&mut r.eax, &mut r.ecx, &mut r.edx, &mut r.ebx, &mut r.esp, &mut r.ebp, &mut r.esi, &mut r.edi, &mut r.eip, &mut r.eflags] {
            *x = any32();
            b.le(*x as u128, 4);
        }
        seg(&mut r.segments, &mut b);
        st(&mut r.st, &mut b);
        fpu(&mut r.fpu, &mut b);
        v128(&mut r.xmm, &mut b);
        r.mxcsr = any32();
        b.le(r.mxcsr as u128, 4);
        b.none(4);
        (r, b)
    }
    fn least() -> usize {
        0x134
    }
    fn pc64(&self) -> u64 {
        self.eip as u64
    }
}
type Arm = ga::arm::reg::ArmCoreRegs;
impl File for Arm {
    fn arb() -> (Arm, Block) {
        let mut r = Arm::default();
        let mut b = Block::new();
        for x in r.r.iter_mut().chain([&mut r.sp, &mut r.lr, &mut r.pc]) {
            *x = any32();
            b.le(*x as u128, 4);
        }
        // f0-f7 of 12 bytes, fps of 4
        b.none(8 * 12 + 4);
        r.cpsr = any32();
        b.le(r.cpsr as u128, 4);
        (r, b)
    }
    fn least() -> usize {
        168
    }
    fn exact() -> bool {
        true
    }
    fn pc64(&self) -> u64 {
        self.pc as u64
    }
}
type A64 = ga::aarch64::reg::AArch64CoreRegs;
impl File for A64 {
    fn arb() -> (A64, Block) {
        let mut r = A64::default();
        let mut b = Block::new();
        for x in r.x.iter_mut().chain([&mut r.sp, &mut r.pc]) {
            *x = any64();
            b.le(*x as u128, 8);
        }
        r.cpsr = any32();
        b.le(r.cpsr as u128, 4);
        v128(&mut r.v, &mut b);
        r.fpsr = any32();
        b.le(r.fpsr as u128, 4);
        r.fpcr = any32();
        b.le(r.fpcr as u128, 4);
        (r, b)
    }
    fn least() -> usize {
        33 * 8 + 4 + 32 * 16 + 8
    }
    fn pc64(&self) -> u64 {
        self.pc
    }
}
/// 16-, 32- and 64-bit words
trait Wd: PrimInt + LeBytes + Default + core::fmt::Debug {
    const W: usize;
    fn warb() -> Self;
    fn w(self) -> u64;
}
macro_rules! wd { ($($t:ty)*) => { $(impl Wd for $t {
    const W: usize = core::mem::size_of::<$t>();
    fn warb() -> $t {
        if Self::W == 2 { any16() as $t } else if Self::W == 4 { any32() as $t } else { any64() as $t }
    }
    fn w(self) -> u64 { self as u64 }
})* } }
wd! { u16 u32 u64 }
fn word<U: Wd>(x: &mut U, b: &mut Block) {
    *x = U::warb();
    b.le(x.w() as u128, U::W);
}
impl<U: Wd> File for ga::riscv::reg::RiscvCoreRegs<U> {
    fn arb() -> (Self, Block) {
        let mut r = Self::default();
        let mut b = Block::new();
        for x in r.x.iter_mut() {
            word(x, &mut b);
        }
        word(&mut r.pc, &mut b);
        (r, b)
    }
    fn least() -> usize {
        33 * U::W
    }
    fn exact() -> bool {
        true
    }
    fn pc64(&self) -> u64 {
        self.pc.w()
    }
}
impl<U: Wd> File for ga::msp430::reg::Msp430Regs<U> {
    fn arb() -> (Self, Block) {
        let mut r = Self::default();
        let mut b = Block::new();
        word(&mut r.pc, &mut b);
        word(&mut r.sp, &mut b);
        word(&mut r.sr, &mut b);
        b.none(U::W);
        for x in r.r.iter_mut() {
            word(x, &mut b);
        }
        (r, b)
    }
    fn least() -> usize {
        16 * U::W
    }
    fn pc64(&self) -> u64 {
        self.pc.w()
    }
    fn zero() -> bool {
        true
    }
}
fn mips_core<U: Wd>(r: &mut ga::mips::reg::MipsCoreRegs<U>, b: &mut Block) {
    for x in r.r.iter_mut() {
        word(x, b);
    }
    word(&mut r.cp0.status, b);
    word(&mut r.lo, b);
    word(&mut r.hi, b);
    word(&mut r.cp0.badvaddr, b);
    word(&mut r.cp0.cause, b);
    word(&mut r.pc, b);
    for x in r.fpu.r.iter_mut() {
        word(x, b);
    }
    word(&mut r.fpu.fcsr, b);
    word(&mut r.fpu.fir, b);
}
impl<U: Wd> File for ga::mips::reg::MipsCoreRegs<U> {
    fn arb() -> (Self, Block) {
        let mut r = Self::default();
        let mut b = Block::new();
        mips_core(&mut r, &mut b);
        (r, b)
    }
    fn least() -> usize {
        72 * U::W
    }
    fn pc64(&self) -> u64 {
        self.pc.w()
    }
}
impl<U: Wd> File for ga::mips::reg::MipsCoreRegsWithDsp<U> {
    fn arb() -> (Self, Block) {
        let mut r = Self::default();
        let mut b = Block::new();
        mips_core(&mut r.core, &mut b);
        let d = &mut r.dsp;
        for x in [&mut d.hi1, &mut d.lo1, &mut d.hi2, &mut d.lo2, &mut d.hi3, &mut d.lo3] {
            word(x, &mut b);
        }
        d.dspctl = any32();
        b.le(d.dspctl as u128, 4);
        word(&mut d.restart, &mut b);
        (r, b)
    }
    fn least() -> usize {
        79 * U::W + 4
    }
    fn pc64(&self) -> u64 {
        self.core.pc.w()
    }
}
type Ppc = ga::ppc::reg::PowerPcCommonRegs;
impl File for Ppc {
    fn arb() -> (Ppc, Block) {
        let mut r = Ppc::default();
        let mut b = Block::new();
        for x in r.r.iter_mut() {
            *x = any32();
            b.be(*x as u128, 4);
        }
        for x in r.f.iter_mut() {
            let v = any64();
            *x = f64::from_bits(v);
            b.be(v as u128, 8);
        }
        for x in [&mut r.pc, &mut r.msr, &mut r.cr, &mut r.lr, &mut r.ctr, &mut r.xer, &mut r.fpscr] {
            *x = any32();
            b.be(*x as u128, 4);
        }
        for x in r.vr.iter_mut() {
            *x = any128();
            b.be(*x, 16);
        }
        for x in [&mut r.vscr, &mut r.vrsave] {
            *x = any32();
            b.be(*x as u128, 4);
        }
        (r, b)
    }
    fn least() -> usize {
        0x3a4
    }
    fn pc64(&self) -> u64 {
        self.pc as u64
    }
}
/// out, and back in over whatever was there before
fn round<R: File>()
where
    R::ProgramCounter: num_traits::ToPrimitive,
{
    use num_traits::ToPrimitive;
    let (r, want) = R::arb();
    let got = Block::of(&r);
    ck!(got.same(&want));
    ck!(r.pc().to_u64() == Some(r.pc64()));
    let mut sent = want.b;
    let extra = if R::exact() { 0 } else { pick(2) as usize };
    let mut i = 0;
    while i < want.n + extra {
        if i >= want.n || want.no[i] && !R::zero() {
            sent[i] = any();
        }
        i += 1;
    }
    let mut back = R::arb().0;
    let ok = back.gdb_deserialize(&sent[..want.n + extra]);
    if extra == 0 {
        ck!(ok.is_ok());
    }
    if ok.is_ok() {
        ck!(Block::of(&back).same(&want));
        ck!(back.pc().to_u64() == Some(r.pc64()));
        cov!();
    }
}
/// every block that is too short (or, for some, too long) is refused
fn short<R: File>() {
    let mut sent = [0u8; MAX];
    for b in sent.iter_mut() {
        *b = any();
    }
    let mut n = 0;
    while n < R::least() {
        let mut back = R::default();
        ck!(back.gdb_deserialize(&sent[..n]).is_err());
        n += 1;
    }
    if R::exact() {
        for k in 1..10 {
            let mut back = R::default();
            ck!(back.gdb_deserialize(&sent[..n + k]).is_err());
        }
    }
}
/// the constant generator is not a register
fn msp_zero<U: Wd>() {
    let mut sent = [0u8; 64];
    for b in sent.iter_mut() {
        *b = any();
    }
    let mut v = 0u64;
    for i in 0..U::W {
        v |= sent[3 * U::W + i] as u64;
    }
    assume(v != 0);
    ck!(ga::msp430::reg::Msp430Regs::<U>::default().gdb_deserialize(&sent[..16 * U::W]).is_err());
}

// ---- register numbers ---------------------------------------------------------------
const X: usize = usize::MAX;
/// what the register with a number stands for: the number it should have, its
/// place in the block (X: not in it) and its size
type Place = (usize, usize, usize);
fn x86seg(s: ga::x86::reg::id::X86SegmentRegId) -> usize {
    use ga::x86::reg::id::X86SegmentRegId::*;
    match s {
        CS => 0,
        SS => 1,
        DS => 2,
        ES => 3,
        FS => 4,
        GS => 5,
    }
}
fn x87(f: ga::x86::reg::id::X87FpuInternalRegId) -> usize {
    use ga::x86::reg::id::X87FpuInternalRegId::*;
    match f {
        Fctrl => 0,
        Fstat => 1,
        Ftag => 2,
        Fiseg => 3,
        Fioff => 4,
        Foseg => 5,
        Fooff => 6,
        Fop => 7,
    }
}
trait Ids: RegId {
    fn place(self) -> Option<Place>;
    fn known(id: usize) -> bool;
}
impl Ids for ga::x86::reg::id::X86CoreRegId {
    fn place(self) -> Option<Place> {
        use ga::x86::reg::id::X86CoreRegId::*;
        let k = match self {
            Eax => 0,
            Ecx => 1,
            Edx => 2,
            Ebx => 3,
            Esp => 4,
            Ebp => 5,
            Esi => 6,
            Edi => 7,
            Eip => 8,
            Eflags => 9,
            Segment(s) => 10 + x86seg(s),
            St(n) if n < 8 => return Some((16 + n as usize, 0x40 + 10 * n as usize, 10)),
            Fpu(f) => {
                let k = x87(f);
                return Some((24 + k, 0x90 + 4 * k, 4));
            }
            Xmm(n) if n < 8 => return Some((32 + n as usize, 0xb0 + 16 * n as usize, 16)),
            Mxcsr => return Some((40, 0x130, 4)),
            _ => return None,
        };
        Some((k, 4 * k, 4))
    }
    fn known(id: usize) -> bool {
        id <= 40
    }
}
impl Ids for ga::x86::reg::id::X86_64CoreRegId {
    fn place(self) -> Option<Place> {
        use ga::x86::reg::id::X86_64CoreRegId::*;
        Some(match self {
            Gpr(n) if n < 16 => (n as usize, 8 * n as usize, 8),
            Rip => (16, 0x80, 8),
            Eflags => (17, 0x88, 4),
            Segment(s) => {
                let k = x86seg(s);
                (18 + k, 0x8c + 4 * k, 4)
            }
            St(n) if n < 8 => (24 + n as usize, 0xa4 + 10 * n as usize, 10),
            Fpu(f) => {
                let k = x87(f);
                (32 + k, 0xf4 + 4 * k, 4)
            }
            Xmm(n) if n < 16 => (40 + n as usize, 0x114 + 16 * n as usize, 16),
            Mxcsr => (56, 0x214, 4),
            _ => return None,
        })
    }
    fn known(id: usize) -> bool {
        id <= 56
    }
}
impl Ids for ga::arm::reg::id::ArmCoreRegId {
    fn place(self) -> Option<Place> {
        use ga::arm::reg::id::ArmCoreRegId::*;
        Some(match self {
            Gpr(n) if n < 13 => (n as usize, 4 * n as usize, 4),
            Sp => (13, 52, 4),
            Lr => (14, 56, 4),
            Pc => (15, 60, 4),
            Fpr(n) if n < 8 => (16 + n as usize, 64 + 12 * n as usize, 12),
            Fps => (24, 160, 4),
            Cpsr => (25, 164, 4),
            _ => return None,
        })
    }
    fn known(id: usize) -> bool {
        id <= 25
    }
}
impl Ids for ga::aarch64::reg::id::AArch64RegId {
    fn place(self) -> Option<Place> {
        use ga::aarch64::reg::id::AArch64RegId as R;
        Some(match self {
            R::X(n) if n < 31 => (n as usize, 8 * n as usize, 8),
            R::Sp => (31, 248, 8),
            R::Pc => (32, 256, 8),
            R::Pstate => (33, 264, 4),
            R::V(n) if n < 32 => (34 + n as usize, 268 + 16 * n as usize, 16),
            // (66 and 67: a64_fp)
            R::System(n) if n >= 0x8000 => (n as usize, X, 8),
            _ => return None,
        })
    }
    fn known(id: usize) -> bool {
        id <= 65 || id >= 0x8000 && id <= 0xffff
    }
}
impl<U: Wd> Ids for ga::riscv::reg::id::RiscvRegId<U>
where
    Self: RegId,
{
    fn place(self) -> Option<Place> {
        use ga::riscv::reg::id::RiscvRegId::*;
        Some(match self {
            Gpr(n) if n < 32 => (n as usize, U::W * n as usize, U::W),
            Pc => (32, 32 * U::W, U::W),
            Fpr(n) if n < 32 => (33 + n as usize, X, U::W),
            Csr(n) if n < 4096 => (65 + n as usize, X, U::W),
            Priv => (4161, X, 1),
            _ => return None,
        })
    }
    fn known(id: usize) -> bool {
        id <= 4161
    }
}
impl<U: Wd> Ids for ga::msp430::reg::id::Msp430RegId<U>
where
    Self: RegId,
{
    fn place(self) -> Option<Place> {
        use ga::msp430::reg::id::Msp430RegId::*;
        let k = match self {
            Pc => 0,
            Sp => 1,
            Sr => 2,
            Cg => 3,
            Gpr(n) if n < 12 => 4 + n as usize,
            _ => return None,
        };
        Some((k, k * U::W, U::W))
    }
    fn known(id: usize) -> bool {
        id <= 15
    }
}
impl<U: Wd> Ids for ga::mips::reg::id::MipsRegId<U>
where
    Self: RegId,
{
    fn place(self) -> Option<Place> {
        use ga::mips::reg::id::MipsRegId::*;
        let k = match self {
            Gpr(n) if n < 32 => n as usize,
            Status => 32,
            Lo => 33,
            Hi => 34,
            Badvaddr => 35,
            Cause => 36,
            Pc => 37,
            Fpr(n) if n < 32 => 38 + n as usize,
            Fcsr => 70,
            Fir => 71,
            Hi1 => 72,
            Lo1 => 73,
            Hi2 => 74,
            Lo2 => 75,
            Hi3 => 76,
            Lo3 => 77,
            Dspctl => return Some((78, 78 * U::W, 4)),
            Restart => return Some((79, 78 * U::W + 4, U::W)),
            _ => return None,
        };
        Some((k, k * U::W, U::W))
    }
    fn known(id: usize) -> bool {
        id <= 79
    }
}
/// every number, in full width
fn ids<A: Arch>()
where
    A::RegId: Ids,
{
    let id = any64() as usize;
    // (a64_fp)
    assume(!(core::any::type_name::<A>().ends_with("AArch64") && (id == 66 || id == 67)));
    match A::RegId::from_raw_id(id) {
        None => {
            ck!(!A::RegId::known(id));
            cov!();
        }
        Some((r, size)) => {
            ck!(A::RegId::known(id));
            match r.place() {
                None => fail!(), // opt: never
                Some((k, _, n)) => {
                    ck!(k == id);
                    ck!(size == NonZeroUsize::new(n));
                    cov!();
                }
            }
        }
    }
}
/// the numbers in turn, each with its size, cover the block
fn order<A: Arch>(n: usize)
where
    A::RegId: Ids,
    A::Registers: File,
{
    let b = Block::of(&A::Registers::default());
    let mut pos = 0;
    let mut id = 0;
    while id < n {
        match A::RegId::from_raw_id(id) {
            Some((r, Some(size))) => match r.place() {
                Some((_, at, len)) => {
                    ck!(at == pos);
                    ck!(size.get() == len);
                    pos += len;
                }
                None => fail!(), // opt: never
            },
            _ => fail!(), // opt: never
        }
        id += 1;
    }
    // all that follows is padding
    while pos < b.n {
        ck!(b.no[pos]); // opt: most have none
        pos += 1;
    }
    ck!(pos == b.n);
}
/// known: FPSR and FPCR are given 8 bytes, and have 4 in the block and in the description
fn a64_sizes() {
    use ga::aarch64::reg::id::AArch64RegId as R;
    let id = 66 + pick(2) as usize;
    match R::from_raw_id(id) {
        Some((_, size)) => ck!(size == NonZeroUsize::new(4)),
        None => fail!(), // opt: never
    }
}
fn a64_names() {
    use ga::aarch64::reg::id::AArch64RegId as R;
    ck!(matches!(R::from_raw_id(66), Some((r, _)) if r == R::FPSR));
    ck!(matches!(R::from_raw_id(67), Some((r, _)) if r == R::FPCR));
    ck!(R::FPSR == R::System(0xda21));
    ck!(R::FPCR == R::System(0xda20));
}
/// the number and the size in the description served to clients
fn described<A: Arch>(all: usize)
where
    A::RegId: Ids,
{
    let t = A::target_description_xml().unwrap_or("").as_bytes();
    let mut num = 0;
    let mut regs = 0;
    let mut i = 0;
    while i + 5 < t.len() {
        if t[i] == b'<' && &t[i..i + 5] == b"<reg " {
            let mut bits = 0;
            i += 5;
            while i < t.len() && t[i] != b'>' {
                if t[i] == b' ' && t[i + 1..].starts_with(b"bitsize=\"") {
                    bits = dec(&t[i + 10..]);
                }
                if t[i] == b' ' && t[i + 1..].starts_with(b"regnum=\"") {
                    num = dec(&t[i + 9..]);
                }
                i += 1;
            }
            if !(core::any::type_name::<A>().ends_with("AArch64") && (num == 66 || num == 67)) {
                match A::RegId::from_raw_id(num) {
                    Some((r, Some(size))) => {
                        ck!(size.get() * 8 == bits);
                        ck!(matches!(r.place(), Some((k, _, _)) if k == num));
                    }
                    _ => fail!(), // opt: never
                }
            }
            regs += 1;
            num += 1;
        }
        i += 1;
    }
    ck!(regs == all);
}
fn dec(t: &[u8]) -> usize {
    let mut v = 0;
    for c in t {
        if *c < b'0' || *c > b'9' {
            break;
        }
        v = v * 10 + (*c - b'0') as usize;
    }
    v
}
fn kinds() {
    use ga::arm::ArmBreakpointKind as A;
    use ga::mips::MipsBreakpointKind as M;
    let k = any64() as usize;
    let a = match A::from_usize(k) {
        Some(A::Thumb16) => 2,
        Some(A::Thumb32) => 3,
        Some(A::Arm32) => 4,
        None => 0,
    };
    ck!(a == if k >= 2 && k <= 4 { k } else { 0 });
    let m = match M::from_usize(k) {
        Some(M::Mips16) => 2,
        Some(M::MicroMips16) => 3,
        Some(M::Mips32) => 4,
        Some(M::MicroMips32) => 5,
        None => 0,
    };
    ck!(m == if k >= 2 && k <= 5 { k } else { 0 });
    ck!(<usize as BreakpointKind>::from_usize(k) == Some(k));
    ck!(<() as BreakpointKind>::from_usize(k).is_some() == (k == 0));
    ck!(<() as RegId>::from_raw_id(k).is_none());
}

// ---- integers -------------------------------------------------------------------------
trait Int: BeBytes + LeBytes + Copy + PartialEq {
    const N: usize;
    fn arb() -> Self;
    /// the low bits of `v`
    fn low(v: u128) -> Self;
    fn bits(self) -> u128;
}
macro_rules! ints { ($($t:ty, $u:ty;)*) => { $(impl Int for $t {
    const N: usize = core::mem::size_of::<$t>();
    fn arb() -> $t {
        any128() as $t
    }
    fn low(v: u128) -> $t { v as $t }
    fn bits(self) -> u128 { self as $u as u128 }
})* } }
ints! { u8, u8; u16, u16; u32, u32; u64, u64; u128, u128; usize, usize; i8, u8; i16, u16; i32, u32; i64, u64; i128, u128; isize, usize; }
const B: usize = 20;
fn conv<I: Int>() {
    let v = I::arb();
    let n = pick(B as u8) as usize;
    let mut be = [0u8; B];
    let mut le = [0u8; B];
    for i in 0..B {
        be[i] = any();
        le[i] = be[i];
    }
    let old = be;
    let x = v.to_be_bytes(&mut be[..n]);
    let y = v.to_le_bytes(&mut le[..n]);
    if n < I::N {
        ck!(x.is_none() && y.is_none()); // opt: not for bytes
    } else {
        ck!(x == Some(I::N) && y == Some(I::N));
        for i in 0..I::N {
            ck!(le[i] == (v.bits() >> (8 * i)) as u8);
            ck!(be[i] == le[I::N - 1 - i]);
        }
        ck!(I::from_be_bytes(&be[..I::N]) == Some(v));
        ck!(I::from_le_bytes(&le[..I::N]) == Some(v));
    }
    let mut i = if n < I::N { 0 } else { I::N };
    while i < B {
        ck!(be[i] == old[i] && le[i] == old[i]);
        i += 1;
    }
}
/// any string of bytes
fn parse<I: Int>(le: bool) {
    let n = pick(B as u8) as usize;
    let mut b = [0u8; B];
    for i in 0..n {
        b[i] = any();
    }
    // the value: the bytes in ascending order of significance
    let at = |i: usize| if le { b[i] } else { b[n - 1 - i] };
    let mut v = 0u128;
    let mut high = 0u8;
    for i in 0..n {
        if i < I::N {
            v |= (at(i) as u128) << (8 * i);
        } else {
            high |= at(i);
        }
    }
    let got = if le { I::from_le_bytes(&b[..n]) } else { I::from_be_bytes(&b[..n]) };
    if high == 0 {
        ck!(got == Some(I::low(v)));
    } else {
        ck!(got.is_none()); // opt: not for u128
    }
}
macro_rules! each { ($f:ident, $($t:ty)*) => {{
    let all: &[fn()] = &[$($f::<$t>),*];
    all[pick(all.len() as u8) as usize]()
}} }
fn p_be<I: Int>() { parse::<I>(false) }
fn p_le<I: Int>() { parse::<I>(true) }
harness! {
fn ar_x64() { round::<<ga::x86::X86_64_SSE as Arch>::Registers>() }
fn ar_x32() { round::<<ga::x86::X86_SSE as Arch>::Registers>() }
fn ar_arm() { round::<<ga::arm::Armv4t as Arch>::Registers>() }
fn ar_a64() { round::<<ga::aarch64::AArch64 as Arch>::Registers>() }
fn ar_rv32() { round::<<ga::riscv::Riscv32 as Arch>::Registers>() }
fn ar_rv64() { round::<<ga::riscv::Riscv64 as Arch>::Registers>() }
fn ar_msp() { round::<<ga::msp430::Msp430 as Arch>::Registers>() }
fn ar_mspx() { round::<<ga::msp430::Msp430X as Arch>::Registers>() }
fn ar_mips() { round::<<ga::mips::Mips as Arch>::Registers>() }
fn ar_mips64() { round::<<ga::mips::Mips64 as Arch>::Registers>() }
fn ar_dsp() { round::<<ga::mips::MipsWithDsp as Arch>::Registers>() }
fn ar_dsp64() { round::<<ga::mips::Mips64WithDsp as Arch>::Registers>() }
fn ar_ppc() { round::<<ga::ppc::PowerPcAltivec32<()> as Arch>::Registers>() }
fn ar_s_x64() { short::<X64>() }
fn ar_s_x32() { short::<X32>() }
fn ar_s_arm() { short::<Arm>() }
fn ar_s_a64() { short::<A64>() }
fn ar_s_rv32() { short::<<ga::riscv::Riscv32 as Arch>::Registers>() }
fn ar_s_rv64() { short::<<ga::riscv::Riscv64 as Arch>::Registers>() }
fn ar_s_msp() { short::<<ga::msp430::Msp430 as Arch>::Registers>() }
fn ar_s_mspx() { short::<<ga::msp430::Msp430X as Arch>::Registers>() }
fn ar_s_mips() { short::<<ga::mips::Mips as Arch>::Registers>() }
fn ar_s_mips64() { short::<<ga::mips::Mips64 as Arch>::Registers>() }
fn ar_s_dsp() { short::<<ga::mips::MipsWithDsp as Arch>::Registers>() }
fn ar_s_dsp64() { short::<<ga::mips::Mips64WithDsp as Arch>::Registers>() }
fn ar_s_ppc() { short::<Ppc>() }
fn ar_cg() { msp_zero::<u16>() }
fn ar_cgx() { msp_zero::<u32>() }
fn id_x64() { ids::<ga::x86::X86_64_SSE>() }
fn id_x32() { ids::<ga::x86::X86_SSE>() }
fn id_arm() { ids::<ga::arm::Armv4t>() }
fn id_a64() { ids::<ga::aarch64::AArch64>() }
fn id_rv32() { ids::<ga::riscv::Riscv32>() }
fn id_rv64() { ids::<ga::riscv::Riscv64>() }
fn id_msp() { ids::<ga::msp430::Msp430>() }
fn id_mspx() { ids::<ga::msp430::Msp430X>() }
fn id_mips() { ids::<ga::mips::MipsWithDsp>() }
fn id_mips64() { ids::<ga::mips::Mips64WithDsp>() }
fn id_o_x64() { order::<ga::x86::X86_64_SSE>(57) }
fn id_o_x32() { order::<ga::x86::X86_SSE>(41) }
fn id_o_arm() { order::<ga::arm::Armv4t>(26) }
fn id_o_rv32() { order::<ga::riscv::Riscv32>(33) }
fn id_o_rv64() { order::<ga::riscv::Riscv64>(33) }
fn id_o_msp() { order::<ga::msp430::Msp430>(16) }
fn id_o_mspx() { order::<ga::msp430::Msp430X>(16) }
fn id_o_mips() { order::<ga::mips::Mips>(72) }
fn id_o_mips64() { order::<ga::mips::Mips64>(72) }
fn id_o_dsp() { order::<ga::mips::MipsWithDsp>(80) }
fn id_o_dsp64() { order::<ga::mips::Mips64WithDsp>(80) }
fn id_a64_names() { a64_names() }
fn id_a64_sizes() { a64_sizes() }
fn id_d_rv32() { described::<ga::riscv::Riscv32>(33) }
fn id_d_rv64() { described::<ga::riscv::Riscv64>(33) }
fn id_d_a64() { described::<ga::aarch64::AArch64>(940) }
fn id_kinds() { kinds() }
fn in_conv() { each!(conv, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize) }
fn in_be() { each!(p_be, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize) }
fn in_le() { each!(p_le, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize) }
}
