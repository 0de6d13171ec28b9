//! The target descriptions that come with the architectures.
use crate::api::*;
use crate::*;
use core::num::NonZeroUsize;
use gdbstub::arch::{Arch, RegId, Registers};
use gdbstub_arch as ga;
const FILE_ID: u32 = 2_600_000;
const NREG: usize = 960;
const NTY: usize = 48;

#[derive(Clone, Copy)]
struct Span(usize, usize);
#[derive(Clone, Copy)]
struct Reg {
    name: Span,
    num: usize,
    bits: usize,
    feature: u8,
}
/// what an XML reader makes of a description
struct Doc {
    t: &'static [u8],
    i: usize,
    arch: Span,
    feat: [Span; 8],
    nfeat: usize,
    reg: [Reg; NREG],
    nreg: usize,
    /// the types a feature defines: name and size in bits (0: not fixed)
    ty: [(Span, usize); NTY],
    nty: usize,
    /// registers by name
    seen: [u16; 4093],
    next: usize,
}
#[derive(Clone, Copy, PartialEq)]
enum El {
    Target,
    Arch,
    Feature,
    Reg,
    Vector,
    Union,
    Flags,
    Field,
}
struct Tag {
    el: El,
    /// name, id, type, bitsize, regnum, size, start, end, count, version, group
    a: [Option<Span>; 11],
    empty: bool,
}
const ATTRS: [&[u8]; 11] = [b"name", b"id", b"type", b"bitsize", b"regnum", b"size", b"start", b"end", b"count", b"version", b"group"];
const PREDEF: [&[u8]; 24] = [
    b"bool", b"int8", b"int16", b"int32", b"int64", b"int128", b"uint8", b"uint16", b"uint32", b"uint64", b"uint128", b"code_ptr", b"data_ptr",
    b"ieee_half", b"ieee_single", b"ieee_double", b"bfloat16", b"arm_fpa_ext", b"i387_ext", b"i386_eflags", b"i386_mxcsr", b"int", b"float", b"long",
];
const WIDTH: [usize; 24] = [0, 8, 16, 32, 64, 128, 8, 16, 32, 64, 128, 0, 0, 16, 32, 64, 16, 96, 80, 32, 32, 0, 0, 0];

impl Doc {
    #[inline(always)]
    fn at(&self, k: usize) -> u8 {
        if self.i + k < self.t.len() {
            self.t[self.i + k]
        } else {
            0
        }
    }
    fn sees(&self, w: &[u8]) -> bool {
        let mut k = 0;
        while k < w.len() {
            if self.at(k) != w[k] {
                return false;
            }
            k += 1;
        }
        true
    }
    fn is(&self, s: Span, w: &[u8]) -> bool {
        s.1 == w.len() && {
            let mut k = 0;
            while k < w.len() && self.t[s.0 + k] == w[k] {
                k += 1;
            }
            k == w.len()
        }
    }
    fn same(&self, a: Span, b: Span) -> bool {
        a.1 == b.1 && {
            let mut k = 0;
            while k < a.1 && self.t[a.0 + k] == self.t[b.0 + k] {
                k += 1;
            }
            k == a.1
        }
    }
    fn white(&mut self) {
        while matches!(self.at(0), b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    /// white space and comments
    fn blank(&mut self) {
        self.white();
        while self.sees(b"<!--") {
            self.i += 4;
            while self.i < self.t.len() && !self.sees(b"--") {
                self.i += 1;
            }
            // (two hyphens only ever end a comment)
            ck!(self.sees(b"-->"));
            self.i += 3;
            self.white();
        }
    }
    fn word(&mut self) -> Span {
        let s = self.i;
        while matches!(self.at(0), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'-' | b'.' | b':') {
            self.i += 1;
        }
        Span(s, self.i - s)
    }
    /// after the `<`
    fn tag(&mut self) -> Tag {
        let w = self.word();
        let el = if self.is(w, b"target") {
            El::Target
        } else if self.is(w, b"architecture") {
            El::Arch
        } else if self.is(w, b"feature") {
            El::Feature
        } else if self.is(w, b"reg") {
            El::Reg
        } else if self.is(w, b"vector") {
            El::Vector
        } else if self.is(w, b"union") {
            El::Union
        } else if self.is(w, b"flags") {
            El::Flags
        } else {
            ck!(self.is(w, b"field"));
            El::Field
        };
        let mut a = [None; 11];
        loop {
            let before = self.i;
            self.white();
            if self.at(0) == b'>' {
                self.i += 1;
                return Tag { el, a, empty: false };
            }
            if self.at(0) == b'/' {
                ck!(self.at(1) == b'>');
                self.i += 2;
                return Tag { el, a, empty: true };
            }
            ck!(self.i > before);
            let n = self.word();
            ck!(self.at(0) == b'=' && self.at(1) == b'"');
            self.i += 2;
            let s = self.i;
            while !matches!(self.at(0), 0 | b'"' | b'<' | b'&') {
                self.i += 1;
            }
            ck!(self.at(0) == b'"');
            let v = Span(s, self.i - s);
            self.i += 1;
            let mut k = 0;
            while k < 11 && !self.is(n, ATTRS[k]) {
                k += 1;
            }
            // every attribute is known, and given once
            ck!(k < 11 && a[k].is_none());
            a[k] = Some(v);
        }
    }
    fn end(&mut self, w: &[u8]) {
        ck!(self.at(0) == b'<' && self.at(1) == b'/');
        self.i += 2;
        ck!(self.sees(w));
        self.i += w.len();
        self.white();
        ck!(self.at(0) == b'>');
        self.i += 1;
    }
    fn open(&mut self) -> Option<Tag> {
        self.blank();
        if self.at(0) == b'<' && self.at(1) == b'/' {
            return None;
        }
        ck!(self.at(0) == b'<');
        self.i += 1;
        Some(self.tag())
    }
    fn num(&self, s: Option<Span>) -> usize {
        let s = match s {
            Some(s) => s,
            None => { fail!(); panic!() } // opt: never
        };
        ck!(s.1 > 0);
        let mut v = 0;
        let mut k = 0;
        while k < s.1 {
            let c = self.t[s.0 + k];
            ck!(c >= b'0' && c <= b'9');
            v = v * 10 + (c - b'0') as usize;
            k += 1;
        }
        v
    }
    /// the size of a type: predefined, or defined before in this feature
    fn typed(&self, s: Option<Span>) -> usize {
        let s = match s {
            Some(s) => s,
            None => return 0,
        };
        let mut k = 0;
        while k < PREDEF.len() {
            if self.is(s, PREDEF[k]) {
                return WIDTH[k];
            }
            k += 1;
        }
        let mut k = 0;
        while k < self.nty {
            if self.same(self.ty[k].0, s) {
                return self.ty[k].1;
            }
            k += 1;
        }
        fail!(); panic!() // opt: never
    }
    fn define(&mut self, id: Option<Span>, bits: usize) {
        let id = match id {
            Some(s) => s,
            None => { fail!(); panic!() } // opt: never
        };
        let mut k = 0;
        while k < self.nty {
            ck!(!self.same(self.ty[k].0, id)); // opt: not every description has two
            k += 1;
        }
        self.ty[self.nty] = (id, bits);
        self.nty += 1;
    }
    fn feature(&mut self) {
        self.nty = 0;
        while let Some(t) = self.open() {
            match t.el {
                El::Reg => {
                    ck!(t.empty);
                    let bits = self.num(t.a[3]);
                    ck!(bits > 0);
                    let w = self.typed(t.a[2]);
                    ck!(w == 0 || w == bits);
                    if t.a[4].is_some() {
                        self.next = self.num(t.a[4]);
                    }
                    match t.a[0] {
                        Some(name) => {
                            ck!(name.1 > 0);
                            let mut h = 0;
                            let mut k = 0;
                            while k < name.1 {
                                h = (h * 31 + self.t[name.0 + k] as usize) % 4093;
                                k += 1;
                            }
                            while self.seen[h] != 0 {
                                ck!(!self.same(self.reg[self.seen[h] as usize - 1].name, name)); // opt: different names that meet here
                                h = (h + 1) % 4093;
                            }
                            ck!(self.nreg < NREG);
                            self.seen[h] = self.nreg as u16 + 1;
                            self.reg[self.nreg] = Reg { name, num: self.next, bits, feature: self.nfeat as u8 };
                            self.nreg += 1;
                            self.next += 1;
                        }
                        None => { fail!(); panic!() } // opt: never
                    }
                }
                El::Vector => {
                    ck!(t.empty); // opt: in some
                    let w = self.typed(t.a[2]);
                    let n = self.num(t.a[8]);
                    ck!(w > 0 && n > 0); // opt: in some
                    self.define(t.a[1], w * n);
                }
                El::Union => {
                    ck!(!t.empty); // opt: in some
                    let mut bits = 0;
                    while let Some(f) = self.open() {
                        ck!(f.el == El::Field && f.empty && f.a[0].is_some() && f.a[2].is_some()); // opt: in some
                        let w = self.typed(f.a[2]);
                        ck!(w > 0 && (bits == 0 || bits == w)); // opt: in some
                        bits = w;
                    }
                    self.end(b"union");
                    self.define(t.a[1], bits);
                }
                El::Flags => {
                    ck!(!t.empty); // opt: in some
                    let size = self.num(t.a[5]) * 8;
                    let mut used = 0u64;
                    while let Some(f) = self.open() {
                        ck!(f.el == El::Field && f.empty && f.a[0].is_some()); // opt: in some
                        let (a, b) = (self.num(f.a[6]), self.num(f.a[7]));
                        ck!(a <= b && b < size); // opt: in some
                        let m = ((1u64 << (b - a + 1)) - 1) << a;
                        ck!(used & m == 0); // opt: in some
                        used |= m;
                    }
                    self.end(b"flags");
                    self.define(t.a[1], size);
                }
                _ => fail!(), // opt: never
            }
        }
        self.end(b"feature");
    }
    fn read(t: &'static str) -> Doc {
        let mut d = Doc {
            t: t.as_bytes(),
            i: 0,
            arch: Span(0, 0),
            feat: [Span(0, 0); 8],
            nfeat: 0,
            reg: [Reg { name: Span(0, 0), num: 0, bits: 0, feature: 0 }; NREG],
            nreg: 0,
            ty: [(Span(0, 0), 0); NTY],
            nty: 0,
            seen: [0; 4093],
            next: 0,
        };
        if d.sees(b"<?xml version=\"1.0\"?>") {
            d.i += 21;
        }
        d.blank();
        if d.sees(b"<!DOCTYPE") {
            ck!(d.sees(b"<!DOCTYPE target SYSTEM \"gdb-target.dtd\">")); // opt: some have none
            d.i += 41;
            d.blank();
        }
        // a client ignores anything else than one target
        match d.open() {
            Some(t) => {
                ck!(t.el == El::Target && !t.empty);
                ck!(t.a[9].is_none() || d.num1(t.a[9]));
            }
            None => { fail!(); panic!() } // opt: never
        }
        let mut archs = 0;
        while let Some(t) = d.open() {
            match t.el {
                El::Arch => {
                    ck!(!t.empty && d.nfeat == 0);
                    archs += 1;
                    d.arch = d.word();
                    d.end(b"architecture");
                }
                El::Feature => {
                    let name = match t.a[0] {
                        Some(n) => n,
                        None => { fail!(); panic!() } // opt: never
                    };
                    let mut k = 0;
                    while k < d.nfeat {
                        ck!(!d.same(d.feat[k], name)); // opt: not every description has two
                        k += 1;
                    }
                    ck!(d.nfeat < 8); // opt: some have none
                    d.feat[d.nfeat] = name;
                    if !t.empty {
                        d.feature();
                    }
                    d.nfeat += 1;
                }
                _ => fail!(), // opt: never
            }
        }
        d.end(b"target");
        d.blank();
        ck!(d.i == d.t.len());
        ck!(archs == 1);
        d
    }
    fn num1(&self, s: Option<Span>) -> bool {
        match s {
            Some(s) => self.is(s, b"1.0"),
            None => true,
        }
    }
}
fn described<A: Arch>(arch: &str, features: &[&str]) -> Doc {
    let d = match A::target_description_xml() {
        Some(t) => Doc::read(t),
        None => { fail!(); panic!() } // opt: never
    };
    ck!(d.is(d.arch, arch.as_bytes()));
    ck!(d.nfeat == features.len());
    let mut k = 0;
    while k < d.nfeat {
        ck!(d.is(d.feat[k], features[k].as_bytes())); // opt: some have none
        k += 1;
    }
    d
}
/// those that leave the registers to the client
fn brief() {
    let d = match pick(8) {
        0 => described::<ga::msp430::Msp430>("msp430", &[]),
        1 => described::<ga::msp430::Msp430X>("msp430x", &[]),
        2 => described::<ga::mips::Mips>("mips", &[]),
        3 => described::<ga::mips::MipsWithDsp>("mips", &["org.gnu.gdb.mips.dsp"]),
        4 => described::<ga::x86::X86_64_SSE>("i386:x86-64", &["org.gnu.gdb.i386.sse"]),
        5 => described::<ga::x86::X86_SSE>("i386:intel", &["org.gnu.gdb.i386.sse"]),
        6 => described::<ga::ppc::PowerPcAltivec32<()>>("powerpc:common", &["org.gnu.gdb.power.core", "org.gnu.gdb.power.fpu", "org.gnu.gdb.power.altivec"]),
        _ => described::<ga::arm::Armv4t>("armv4t", &[]),
    };
    ck!(d.nreg == 0);
    ck!(ga::mips::Mips64::target_description_xml().is_none());
    ck!(ga::mips::Mips64WithDsp::target_description_xml().is_none());
}
/// a number the description gives to a register is that register's, and its
/// size there is the size the stub insists on
fn sized<A: Arch>(d: &Doc, but: &[usize]) -> (usize, Option<A::RegId>) {
    let n = any64() as usize;
    let mut bits = 0;
    let mut mixed = false;
    let mut k = 0;
    while k < d.nreg {
        let hit = d.reg[k].num == n;
        mixed |= hit & (bits != 0) & (bits != d.reg[k].bits);
        bits = if hit { d.reg[k].bits } else { bits };
        k += 1;
    }
    ck!(!mixed);
    let x = A::RegId::from_raw_id(n);
    for b in but {
        if n == *b {
            bits = 0;
        }
    }
    if bits == 0 {
        return (n, None);
    }
    match x {
        Some((id, size)) => {
            ck!(size.map(NonZeroUsize::get).unwrap_or(0) * 8 == bits);
            (n, Some(id))
        }
        None => { fail!(); panic!() } // opt: never
    }
}
/// where in the block the registers described start
fn placed<R: Registers>(d: &Doc, upto: usize) {
    let mut n = 0;
    R::default().gdb_serialize(|_| n += 1);
    let mut at = 0;
    let mut k = 0;
    while k < d.nreg && d.reg[k].num < upto {
        ck!(d.reg[k].num == k);
        at += d.reg[k].bits / 8;
        k += 1;
    }
    ck!(k == upto && at == n);
}
const RV: [&str; 33] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "fp", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8",
    "s9", "s10", "s11", "t3", "t4", "t5", "t6", "pc",
];
fn riscv<A: Arch>(arch: &str, bits: usize) -> (usize, Option<A::RegId>) {
    let d = described::<A>(arch, &["org.gnu.gdb.riscv.cpu"]);
    ck!(d.nreg == 33);
    let mut k = 0;
    while k < 33 {
        ck!(d.is(d.reg[k].name, RV[k].as_bytes()) && d.reg[k].bits == bits);
        k += 1;
    }
    placed::<A::Registers>(&d, 33);
    sized::<A>(&d, &[])
}
macro_rules! rv { ($f:ident, $a:ident, $u:ty, $s:expr, $b:expr) => { fn $f() {
    use ga::riscv::reg::id::RiscvRegId as R;
    let (n, id) = riscv::<ga::riscv::$a>($s, $b);
    ck!(id.is_some() == (n <= 32));
    ck!(match id {
        Some(R::<$u>::Gpr(k)) => k as usize == n && n < 32,
        Some(R::<$u>::Pc) => n == 32,
        x => x.is_none(),
    });
} } }
rv!(rv32, Riscv32, u32, "riscv:rv32", 32);
rv!(rv64, Riscv64, u64, "riscv:rv64", 64);
fn number(d: &Doc, s: Span, from: usize) -> usize {
    let mut v = 0;
    let mut k = from;
    while k < s.1 {
        v = v * 10 + (d.t[s.0 + k].wrapping_sub(b'0')) as usize;
        k += 1;
    }
    v
}
fn a64() {
    use crate::sysregs::SYS;
    use ga::aarch64::reg::id::AArch64RegId as R;
    let d = described::<ga::aarch64::AArch64>("aarch64", &["org.gnu.gdb.aarch64.core", "org.gnu.gdb.aarch64.fpu", "org.rust.gdb.arm.sys.regs"]);
    ck!(d.nreg == 68 + SYS.len());
    let mut k = 0;
    while k < 68 {
        let s = d.reg[k].name;
        let w: &[u8] = match k {
            0..=30 => b"x",
            31 => b"sp",
            32 => b"pc",
            33 => b"cpsr",
            34..=65 => b"v",
            66 => b"fpsr",
            _ => b"fpcr",
        };
        ck!(d.reg[k].num == k);
        ck!(d.reg[k].feature == if k < 34 { 0 } else { 1 });
        match w.len() {
            1 => {
                let n = if k < 31 { k } else { k - 34 };
                ck!(d.t[s.0] == w[0] && s.1 == if n < 10 { 2 } else { 3 } && number(&d, s, 1) == n);
            }
            _ => ck!(d.is(s, w)),
        }
        k += 1;
    }
    while k < d.nreg {
        let (name, num, id) = &SYS[k - 68];
        ck!(d.is(d.reg[k].name, name.as_bytes()));
        ck!(d.reg[k].num == *num as usize && d.reg[k].bits == 64 && d.reg[k].feature == 2);
        ck!(*id == R::System(*num));
        k += 1;
    }
    placed::<ga::aarch64::reg::AArch64CoreRegs>(&d, 68);
    // (the size of 66 and 67 is a known finding of C29)
    let (n, id) = sized::<ga::aarch64::AArch64>(&d, &[66, 67]);
    ck!(match id {
        Some(R::X(k)) => k as usize == n && n < 31,
        Some(R::Sp) => n == 31,
        Some(R::Pc) => n == 32,
        Some(R::Pstate) => n == 33,
        Some(R::V(k)) => k as usize + 34 == n && n < 66,
        Some(R::System(k)) => k as usize == n && n >= 0x8000,
        x => x.is_none(),
    });
}
harness! {
fn xd_brief() { brief() }
fn xd_rv32() { rv32() }
fn xd_rv64() { rv64() }
fn xd_a64() { a64() }
}
