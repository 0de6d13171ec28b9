//! Feature negotiation, and what is answered to commands the target does not support.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 800_000;
const MC: u64 = FULL | MULTI;

/// the capabilities the reply to qSupported depends on, in groups
pub const G: [u64; 7] = [
    MULTI | RESUME | RCONT | RSTEP,
    NOACK | EXT | ASLR | ENV,
    SHELL | CWD | CURPID | BRK,
    SWB | HWB | HWW | CATCH,
    TP | TPSRC | USEXML | ARCHXML,
    XMLOV | MMAP | EXECF | AUXV,
    LIBS | MON | SREG | HIO | STEP | RLE,
];
/// every subset of `g` on top of `base`
pub fn subset(base: u64, g: u64) -> u64 {
    let mut c = base;
    let mut i = 0;
    while i < 64 {
        if g >> i & 1 == 1 {
            c = if pick(2) == 1 { c | 1 << i } else { c & !(1 << i) };
        }
        i += 1;
    }
    c
}
/// the reply called for by the current capabilities
fn expected(e: &mut Bs, size: u64) {
    e.s("PacketSize=").num(size).s(";vContSupported+;multiprocess+");
    if has(NOACK) {
        e.s(";QStartNoAckMode+");
    }
    if has(RESUME | RCONT) {
        e.s(";ReverseContinue+");
    }
    if has(RESUME | RSTEP) {
        e.s(";ReverseStep+");
    }
    if has(EXT | ASLR) {
        e.s(";QDisableRandomization+");
    }
    if has(EXT | ENV) {
        e.s(";QEnvironmentHexEncoded+;QEnvironmentUnset+;QEnvironmentReset+");
    }
    if has(EXT | SHELL) {
        e.s(";QStartupWithShell+");
    }
    if has(EXT | CWD) {
        e.s(";QSetWorkingDir+");
    }
    if has(BRK | SWB) {
        e.s(";swbreak+");
    }
    if has(BRK | HWB) || has(BRK | HWW) {
        e.s(";hwbreak+");
    }
    if has(TP) {
        e.s(";QTBuffer:size+");
    }
    if has(TP | TPSRC) {
        e.s(";TracepointSource+");
    }
    if has(CATCH) {
        e.s(";QCatchSyscalls+");
    }
    if has(USEXML | ARCHXML) || has(USEXML | XMLOV) {
        e.s(";qXfer:features:read+");
    }
    if has(MMAP) {
        e.s(";qXfer:memory-map:read+");
    }
    if has(EXECF) {
        e.s(";qXfer:exec-file:read+");
    }
    if has(AUXV) {
        e.s(";qXfer:auxv:read+");
    }
    if has(LIBS) {
        e.s(";qXfer:libraries-svr4:read+");
    }
}
/// the same features: `;`-separated items of the reply, in any order
fn same_features(s: &S<u32>, e: &Bs) -> bool {
    let o = &r().out;
    let (a, b) = (s.mark, r().nout);
    // (no acknowledgement once they are off)
    let a = if s.na { a } else { a + 1 };
    if b > NOUT || b < a + 4 || !s.na && o[a - 1] != b'+' || o[a] != b'$' || o[b - 3] != b'#' || r().flushed != b {
        return false;
    }
    let (a, b) = (a + 1, b - 3);
    let mut sum = 0u8;
    let mut i = a;
    while i < b {
        sum = sum.wrapping_add(o[i]);
        i += 1;
    }
    if o[b + 1] != hx(sum >> 4) || o[b + 2] != hx(sum & 15) || b - a != e.n {
        return false;
    }
    // each expected item occurs; the lengths agree, so there is nothing else
    let mut p = 0;
    while p < e.n {
        let mut q = p;
        while q < e.n && e.d[q] != b';' {
            q += 1;
        }
        let mut found = false;
        let mut i = a;
        while i < b && !found {
            let mut j = i;
            while j < b && o[j] != b';' {
                j += 1;
            }
            if j - i == q - p {
                let mut k = 0;
                while k < q - p && o[i + k] == e.d[p + k] {
                    k += 1;
                }
                found = k == q - p;
            }
            i = j + 1;
        }
        if !found {
            return false;
        }
        p = q + 1;
    }
    true
}
fn reply(base: u64, g: u64) {
    let caps = subset(base, g);
    r().xml = "<t/>";
    let mut s = S::<u32>::new(caps, 96);
    s.sends("qSupported:multiprocess+;hwbreak+");
    let mut e = Bs::new();
    expected(&mut e, 96);
    ck!(s.idle());
    ck!(same_features(&s, &e));
    ck!(s.ops() == 0);
}
/// every buffer size
fn reply_size() {
    let n = 40 + any_below(250) as usize;
    let n = 40 + conc((n - 40) as u8) as usize;
    let mut s = S::<u32>::new(BARE, n);
    s.sends("qSupported:a");
    let mut e = Bs::new();
    expected(&mut e, n as u64);
    ck!(s.idle());
    ck!(same_features(&s, &e));
}
/// what the client's features do: arbitrary names change nothing, the last
/// multiprocess counts
fn client(items: u8) {
    let mut s = S::<u32>::new(if pick(2) == 0 { MC } else { FULL }, 140);
    r().threads = [0x12, 3, 4, 5];
    r().nthreads = 1;
    r().num[1] = 7;
    let mut mp = false;
    let mut rounds = pick(2) + 1;
    while rounds > 0 {
        let mut c = Bs::of("qSupported:");
        let n = if rounds == 1 { pick(items) + 1 } else { 1 };
        let mut i = 0;
        while i < n {
            if i > 0 {
                c.b(b';');
            }
            match pick(7) {
                0 => {
                    c.s("multiprocess+");
                    mp = true;
                }
                1 => {
                    c.s("multiprocess-");
                    mp = false;
                }
                2 => {
                    c.s("multiprocess?");
                }
                3 => {
                    c.s("xmultiprocess+");
                }
                4 => {
                    c.s("multiprocess");
                    // any other tail: a name the stub does not know
                    let (x, y) = (any(), any());
                    assume((x != b'#') & (y != b'#') & (x != b';') & (y != b';'));
                    c.b(x).b(y);
                }
                5 => {
                    c.s("xmlRegisters=i386");
                }
                _ => {
                    let (x, y) = (any(), any());
                    assume((x != b'#') & (y != b'#') & (x != b';') & (y != b';'));
                    c.b(x).b(y);
                }
            }
            i += 1;
        }
        s.send(c.sl());
        ck!(s.idle());
        ck!(s.ops() == 0);
        let mut e = Bs::new();
        expected(&mut e, 140);
        ck!(same_features(&s, &e));
        rounds -= 1;
    }
    s.sends("qfThreadInfo");
    let mut e = Bs::of("m");
    tid_str(&mut e, mp, 7, if has(MULTI) { 0x12 } else { 1 });
    ck!(s.replied(&e));
}
/// one arbitrary client feature of up to `n` bytes
fn client_any(n: u8) {
    let mut s = S::<u32>::new(FULL, 140);
    let mut c = Bs::of("qSupported:");
    let k = pick(n) + 1;
    for _ in 0..k {
        let x = any();
        assume((x != b'#') & (x != b';'));
        c.b(x);
    }
    s.send(c.sl());
    ck!(s.idle());
    let m = b"qSupported:multiprocess+";
    let mut mp = c.n == m.len();
    let mut i = 0;
    while i < m.len() && i < c.n {
        mp &= c.d[i] == m[i];
        i += 1;
    }
    let mp = conc(mp as u8) == 1;
    r().num[1] = 1;
    s.sends("qfThreadInfo");
    let mut e = Bs::of("m");
    tid_str(&mut e, mp, 1, 1);
    ck!(s.replied(&e));
}
/// negotiating leaves selections, the ack mode and everything else alone
fn nothing_else() {
    let mut s = S::<u32>::new(MC, 140);
    if pick(2) == 1 {
        s.sends("QStartNoAckMode");
        s.na = true;
    }
    s.sends("Hg5");
    s.sends("Hc6");
    s.sends("qSupported:multiprocess+;QStartNoAckMode+;no-resumed+");
    ck!(s.idle());
    if pick(2) == 0 {
        sym_src(4);
        s.sends("g");
        ck!(s.one(O_RREGS, 5, 0, 0, 0));
        let mut e = Bs::new();
        e.hexs(&r().src[..4]);
        ck!(s.replied(&e));
    } else {
        s.sends("c");
        ck!(s.ops() == 3);
        ck!(s.op_is(1, O_SETC, 6, NONE, 0, 0));
    }
}
/// is `name` in the reply just sent?
fn advertised(name: &str) -> bool {
    let n = name.as_bytes();
    let o = &r().out;
    let mut i = 0;
    while i + n.len() <= r().nout && i + n.len() <= NOUT {
        let mut k = 0;
        while k < n.len() && o[i + k] == n[k] {
            k += 1;
        }
        if k == n.len() {
            return true;
        }
        i += 1;
    }
    false
}
/// an advertised feature is not answered with the empty response when used
fn used(base: u64, g: u64) {
    let caps = subset(base, g);
    r().xml = "<t/>";
    r().num = [1; 13];
    let mut s = S::<u32>::new(caps, 140);
    s.sends("qSupported:a");
    let t: [(&str, &str, bool); 20] = [
        ("QStartNoAckMode+", "QStartNoAckMode", false),
        ("ReverseContinue+", "bc", true),
        ("ReverseStep+", "bs", true),
        ("QDisableRandomization+", "QDisableRandomization:1", false),
        ("QEnvironmentHexEncoded+", "QEnvironmentHexEncoded:613d62", false),
        ("QEnvironmentUnset+", "QEnvironmentUnset:61", false),
        ("QEnvironmentReset+", "QEnvironmentReset", false),
        ("QStartupWithShell+", "QStartupWithShell:0", false),
        ("QSetWorkingDir+", "QSetWorkingDir:61", false),
        ("swbreak+", "Z0,1,1", false),
        ("hwbreak+", "Z1,1,1", false),
        ("QTBuffer:size+", "QTBuffer:size:5", false),
        ("TracepointSource+", "QTDPsrc:1:5:at:0:1:61", false),
        ("QCatchSyscalls+", "QCatchSyscalls:1", false),
        ("qXfer:features:read+", "qXfer:features:read:target.xml:0,4", false),
        ("qXfer:memory-map:read+", "qXfer:memory-map:read::0,4", false),
        ("qXfer:exec-file:read+", "qXfer:exec-file:read:1:0,4", false),
        ("qXfer:auxv:read+", "qXfer:auxv:read::0,4", false),
        ("qXfer:libraries-svr4:read+", "qXfer:libraries-svr4:read::0,4", false),
        ("multiprocess+", "Hgp1.1", false),
    ];
    let k = pick(20) as usize;
    let (name, cmd, runs) = t[k];
    if !advertised(name) {
        return;
    }
    let start = r().nout;
    let mut c = Bs::of(cmd);
    if name == "hwbreak+" && !has(HWB) {
        c = Bs::of("Z2,1,1");
    }
    s.send(c.sl());
    if runs {
        ck!(s.st() == St::Running);
        ck!(s.ops() == 1);
    } else {
        ck!(s.idle());
        // more than "+$#00"
        ck!(r().nout > start + 5);
    }
}
/// the reply is the same whatever happened before
fn again(lo: u8, hi: u8) {
    let c = crate::err::caps(pick(3));
    let k = (lo + pick(hi - lo)) as usize;
    let mut s = S::<u32>::new(c, 160);
    crate::err::script();
    if pick(2) == 1 {
        s.sends("QStartNoAckMode");
        s.na = true;
    }
    let cmd = crate::err::CMDS[k];
    s.sends(cmd);
    if cmd == "QStartNoAckMode" {
        s.na = true;
    }
    if s.st() != St::Idle {
        return;
    }
    s.begin();
    s.sends("qSupported:multiprocess+");
    let mut e = Bs::new();
    expected(&mut e, 160);
    ck!(s.idle());
    ck!(same_features(&s, &e));
    ck!(s.ops() == 0);
}
harness! {
fn f_again_a() { again(0, 30) }
fn f_again_b() { again(30, 60) }
fn f_again_c() { again(60, crate::err::N) }
fn f_rep01() { reply(if pick(2) == 0 { BARE } else { MC | ARCHXML }, G[0] | G[1]) }
fn f_rep12() { reply(if pick(2) == 0 { BARE } else { MC | ARCHXML }, G[1] | G[2]) }
fn f_rep23() { reply(if pick(2) == 0 { BARE } else { MC | ARCHXML }, G[2] | G[3]) }
fn f_rep34() { reply(if pick(2) == 0 { BARE } else { MC | ARCHXML }, G[3] | G[4]) }
fn f_rep45() { reply(if pick(2) == 0 { BARE } else { MC | ARCHXML }, G[4] | G[5]) }
fn f_rep56() { reply(if pick(2) == 0 { BARE } else { MC | ARCHXML }, G[5] | G[6]) }
fn f_rep0123() { reply(BARE | EXT | BRK, G[0] | G[1] | G[2] | G[3] & !(EXT | BRK)) }
fn f_rep3456() { reply(BARE | TP, (G[3] | G[4] | G[5] | G[6]) & !TP) }
fn f_size() { reply_size() }
fn f_client() { client(2) }
fn f_client3() { client(3) }
fn f_client_any() { client_any(3) }
fn f_client_deep() { client_any(14) }
fn f_else() { nothing_else() }
fn f_used0() { used(BARE | RESUME, MULTI | RCONT | RSTEP | NOACK) }
fn f_used1() { used(BARE | EXT, ASLR | ENV | SHELL | CWD) }
fn f_used2() { used(BARE | BRK, SWB | HWB | HWW | CATCH) }
fn f_used3() { used(BARE, TP | TPSRC | USEXML | ARCHXML | XMLOV) }
fn f_used4() { used(BARE, MMAP | EXECF | AUXV | LIBS) }
fn f_used5() { used(MC, MULTI | ARCHXML | XMLOV) }
}

// ---- unsupported -----------------------------------------------------------------
/// a well-formed command and the capabilities it needs
const CMDS: [(&str, u64); 66] = [
    ("c", RESUME),
    ("s", RESUME),
    ("vCont;c", RESUME),
    ("vCont?", RESUME),
    ("X10,1:a", XUP),
    ("QStartNoAckMode", NOACK),
    ("p1", SREG),
    ("P1=00000000", SREG),
    ("!", EXT),
    ("qC", EXT),
    ("QDisableRandomization:1", EXT | ASLR),
    ("QEnvironmentHexEncoded:613d62", EXT | ENV),
    ("QEnvironmentReset", EXT | ENV),
    ("QEnvironmentUnset:61", EXT | ENV),
    ("QSetWorkingDir:61", EXT | CWD),
    ("QStartupWithShell:1", EXT | SHELL),
    ("R00", EXT),
    ("vAttach;1", EXT),
    ("vRun;61;62", EXT),
    ("qRcmd,61", MON),
    ("qOffsets", OFFS),
    ("bc", RESUME | RCONT),
    ("bs", RESUME | RSTEP),
    ("qXfer:memory-map:read::0,10", MMAP),
    ("qXfer:auxv:read::0,10", AUXV),
    ("qXfer:exec-file:read:1:0,10", EXECF),
    ("qXfer:libraries-svr4:read::0,10", LIBS),
    ("qXfer:features:read:target.xml:0,10", USEXML),
    ("vFile:open:61,0,0", HIO | HOPEN),
    ("vFile:close:1", HIO | HCLOSE),
    ("vFile:pread:1,2,3", HIO | HPREAD),
    ("vFile:pwrite:1,2,a", HIO | HPWRITE),
    ("vFile:fstat:1", HIO | HFSTAT),
    ("vFile:unlink:61", HIO | HUNLINK),
    ("vFile:readlink:61", HIO | HREADLINK),
    ("vFile:setfs:1", HIO | HSETFS),
    ("QCatchSyscalls:1", CATCH),
    ("qThreadExtraInfo,1", MULTI | EXTRA),
    ("qRegisterInfo1", LLDB | USELLDB),
    ("QTDPsrc:1:5:at:0:1:61", TP | TPSRC),
    ("QTDP:1:5:E:1:1", TP),
    ("QTinit", TP),
    ("QTBuffer:size:5", TP),
    ("QTStart", TP),
    ("QTStop", TP),
    ("QTFrame:1", TP),
    ("qTBuffer:0,4", TP),
    ("qTStatus", TP),
    ("qTP:1:5", TP),
    ("qTfP", TP),
    ("qTsP", TP),
    ("qTfV", TP),
    ("qTsV", TP),
    ("Z0,1,1", BRK | SWB),
    ("z0,1,1", BRK | SWB),
    ("Z1,1,1", BRK | HWB),
    ("z1,1,1", BRK | HWB),
    ("Z2,1,1", BRK | HWW),
    ("z3,1,1", BRK | HWW),
    ("Z4,1,1", BRK | HWW),
    ("vCont;s", RESUME),
    ("R", EXT),
    ("qRegisterInfoffff", LLDB | USELLDB),
    ("vRun;", EXT),
    ("X,:", XUP),
    ("QTDP:-1:5:S", TP),
];
fn is_resume(c: u8) -> bool {
    c == b'c' || c == b'C' || c == b's' || c == b'S'
}
/// the answer to a resume command the target cannot carry out
fn resume_stub(s: &S<u32>) -> bool {
    let mut o = Bs::of("O");
    o.hexs(b"target has not implemented `support_resume()`\n");
    s.tail(!s.na, &[&o, &Bs::of("S05")])
}
/// a command of an extension the target lacks: everything else on, or off
fn lacking(running: bool) {
    let (cmd, need) = CMDS[pick(66) as usize];
    let mut lack = 0u64;
    let mut i = 0;
    // the lacking capability: any one of those it needs
    while i < 64 {
        if need >> i & 1 == 1 && (lack == 0 || pick(2) == 0) {
            lack = 1 << i;
        }
        i += 1;
    }
    // 0: everything else on; 1: nothing but what the command needs
    let mut caps = if pick(2) == 0 { FULL | EXTRA | MULTI } else { BARE | need };
    caps &= !lack;
    if lack == USELLDB {
        // (the architecture describes registers too)
        r().sel = 2;
    }
    if running {
        caps |= RESUME | GUARD;
        assume(lack & RESUME == 0);
    } else if pick(2) == 0 {
        caps = if caps & RSTUB == 0 { caps | RSTUB } else { caps & !RSTUB };
    }
    let mut s = S::<u32>::new(caps, 200);
    if running {
        s.sends("vCont;c");
    }
    s.sends(cmd);
    if caps & (RESUME | RSTUB) == RSTUB && is_resume(cmd.as_bytes()[0]) {
        ck!(resume_stub(&s)); // opt:
    } else {
        ck!(s.replied_s(""));
    }
    ck!(s.ops() == 0);
    ck!(s.st() == if running { St::Running } else { St::Idle });
    if !running {
        s.sends("qsThreadInfo");
        ck!(s.replied_s("l")); // opt:
    }
}
const PREFIXES: [&str; 67] = [
    "?", "D", "g", "G", "H", "k", "m", "M", "qAttached", "qfThreadInfo", "qsThreadInfo", "qSupported", "T", "vKill",
    "qXfer:features:read", "c", "s", "vCont", "X", "QStartNoAckMode", "p", "P", "!", "qC", "QDisableRandomization",
    "QEnvironmentHexEncoded", "QEnvironmentReset", "QEnvironmentUnset", "QSetWorkingDir", "QStartupWithShell", "R",
    "vAttach", "vRun", "qRcmd", "qOffsets", "bc", "bs", "qXfer:memory-map:read", "qXfer:auxv:read",
    "qXfer:exec-file:read", "vFile:open", "vFile:close", "vFile:pread", "vFile:pwrite", "vFile:fstat", "vFile:unlink",
    "vFile:readlink", "vFile:setfs", "QCatchSyscalls", "qThreadExtraInfo", "qRegisterInfo", "qXfer:libraries-svr4:read",
    "QTDPsrc", "QTDP", "QTinit", "QTBuffer", "QTStart", "QTStop", "QTFrame", "qTBuffer", "qTStatus", "qTP", "qTfP",
    "qTsP", "qTfV", "qTsV", "z",
];
/// no command starts like this
fn unknown(c: &Bs) -> bool {
    let mut ok = c.n == 0 || c.d[0] != b'Z';
    for p in PREFIXES.iter() {
        let p = p.as_bytes();
        if c.n >= p.len() {
            let mut eq = true;
            let mut i = 0;
            while i < p.len() {
                eq &= c.d[i] == p[i];
                i += 1;
            }
            ok &= !eq;
        }
    }
    ok
}
/// packets that are no known command: an opening, then up to `n` arbitrary bytes
fn no_command(caps: u64, open: &[&str], n: u8) {
    let mut s = S::<u32>::new(caps, 128);
    let running = has(RESUME) && pick(2) == 1;
    if running {
        s.sends("vCont;c");
    }
    let mut c = Bs::of(open[pick(open.len() as u8) as usize]);
    let k = pick(n + 1);
    for _ in 0..k {
        let x = any();
        assume(x != b'#');
        c.b(x);
    }
    assume(unknown(&c));
    s.send(c.sl());
    ck!(s.replied_s(""));
    ck!(s.ops() == 0);
    ck!(s.st() == if running { St::Running } else { St::Idle });
}
/// names that differ in one character from those of commands
fn typo(caps: u64, full: bool) {
    let mut s = S::<u32>::new(caps, 160);
    let k = pick(crate::err::N) as usize;
    crate::err::script();
    let running = full && pick(2) == 1;
    if running {
        s.sends("vCont;c");
    }
    let cmd = crate::err::CMDS[k].as_bytes();
    let mut n = 0;
    while n < cmd.len() && !matches!(cmd[n], b':' | b';' | b',') {
        n += 1;
    }
    if n < 2 {
        return;
    }
    let p = pick(n as u8) as usize;
    let x = if full {
        any()
    } else {
        cmd[p] ^ 0x20
    };
    assume(x != b'#');
    let mut c = Bs::new();
    let mut i = 0;
    while i < cmd.len() {
        c.b(if i == p { x } else { cmd[i] });
        i += 1;
    }
    assume(unknown(&c));
    s.send(c.sl());
    ck!(s.replied_s(""));
    ck!(s.ops() == 0);
    ck!(s.st() == if running { St::Running } else { St::Idle });
}
/// resume commands for a target that cannot resume
fn cannot_resume() {
    let mut s = S::<u32>::new(if pick(2) == 0 { FULL & !RESUME } else { BARE | RSTUB | MULTI }, 128);
    if has(NOACK) && pick(2) == 1 {
        s.sends("QStartNoAckMode");
        s.na = true;
    }
    let mut c = Bs::new();
    c.b([b'c', b'C', b's', b'S'][pick(4) as usize]);
    let k = pick(4);
    for _ in 0..k {
        let x = any();
        assume(x != b'#');
        c.b(x);
    }
    s.send(c.sl());
    ck!(s.idle());
    ck!(resume_stub(&s));
    ck!(s.ops() == 0);
    s.sends("qsThreadInfo");
    ck!(s.replied_s("l"));
}
harness! {
fn u_lack() { lacking(false) }
fn u_lack_run() { lacking(true) }
fn u_any_full() { no_command(MC, &[""], 3) }
fn u_any_bare() { no_command(BARE, &[""], 3) }
fn u_any_deep() { no_command(MC, &[""], 6) }
fn u_tail() { no_command(MC, &["q", "Q", "v", "qX", "qXfer:", "vFile:", "qT", "QT", "QTD", "b", "qR", "C", "S", "QEnvironment", "vC", "vR", "qXfer:features:", "qXfer:auxv:write", "jThreads", "qf", "qs", "n", "u", "y", "0", "3"], 2) }
fn u_typo() { typo(MC, true) }
fn u_typo_b() { typo(BARE, false) }
fn u_stub() { cannot_resume() }
}
