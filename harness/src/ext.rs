//! Extended mode.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::thr::*;
use crate::*;
const FILE_ID: u32 = 1_100_000;
const MC: u64 = FULL | MULTI;
fn caps(need: u64) -> u64 {
    match pick(4) {
        0 => FULL,
        1 => FULL | MULTI,
        2 => BARE | EXT | need,
        _ => BARE | RESUME | MULTI | EXT | need,
    }
}
fn bytes(c: &mut Bs, p: &mut [u8; 8], max: u8) -> usize {
    let n = pick(max + 1) as usize;
    for o in &mut p[..n] {
        *o = sym_hex(c, 2) as u8;
    }
    n
}
fn hexd(x: u8) -> bool {
    (x >= b'0') & (x <= b'9') | (x | 0x20 >= b'a') & (x | 0x20 <= b'f')
}
fn stop(mp: bool, pid: u64) -> Bs {
    let mut e = Bs::of("T05thread:");
    tid_str(&mut e, mp, pid, if has(MULTI) { r().threads[0] as u64 } else { 1 });
    e.b(b';');
    e
}
/// run a program: up to `na` arguments of up to `nb` bytes
fn run(nf: u8, na: u8, nb: u8, full: bool) {
    let mut s;
    let (mut mp, mut pid) = (false, 1);
    if full {
        let q = named::<u32>(if pick(2) == 0 { FULL } else { MC });
        s = q.0;
        mp = q.1;
        pid = q.2;
        assume(has(EXT));
        sym_threads(2, true);
        assume(r().nthreads > 0);
    } else {
        s = S::<u32>::new(caps(0), 160);
        history(&mut s);
        r().calls = 0;
    }
    r().num[0] = 1 + any16() as u64;
    let mut c = Bs::of("vRun;");
    let mut f = [0u8; 8];
    let n = bytes(&mut c, &mut f, nf);
    let mut a = [[0u8; 8]; 4];
    let mut l = [0usize; 4];
    let k = pick(na + 1) as usize;
    for i in 0..k {
        c.b(b';');
        l[i] = bytes(&mut c, &mut a[i], nb);
    }
    s.send(c.sl());
    ck!(s.ops() == 1 + k);
    ck!(s.op_is(0, O_RUN, (n > 0) as u64, 0, 0, 0));
    ck!(s.op_data(0, &f[..n]));
    for i in 0..k {
        ck!(s.op_is(1 + i, O_ARG, 0, 0, 0, 0));
        ck!(s.op_data(1 + i, &a[i][..l[i]]));
    }
    ck!(s.idle());
    if full {
        ck!(s.replied(&stop(mp, pid)));
    }
}
/// a program line that is not hexadecimal
fn run_bad() {
    let mut s = S::<u32>::new(caps(0), 160);
    let x = any();
    assume(!hexd(x) & (x != b';') & (x != b'#') & (x | 0x20 != b'x'));
    let mut c = Bs::of("vRun");
    match pick(6) {
        0 => {
            c.b(b';').b(x).s("1");
        }
        1 => {
            c.s(";6").b(x);
        }
        2 => {
            c.s(";;").b(x);
        }
        3 => {
            c.s(";61;62;6").b(x);
        }
        4 => {
            c.s(";61;62").b(x).s(";63");
        }
        _ => {}
    }
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(s.ops() == 0);
}
fn attach() {
    let (mut s, mp, pid) = named::<u32>(if pick(2) == 0 { FULL } else { MC });
    assume(has(EXT));
    sym_threads(2, true);
    assume(r().nthreads > 0);
    let mut c = Bs::of("vAttach;");
    let v = sym_long(&mut c);
    s.send(c.sl());
    if v != 0 {
        ck!(s.one(O_ATTACH, v, 0, 0, 0));
        ck!(s.idle());
        ck!(s.replied(&stop(mp, pid)));
    } else {
        ck!(s.ops() == 0);
        ck!(s.protocol_error());
    }
}
fn attach_hist() {
    let mut s = S::<u32>::new(caps(CURPID), 160);
    history(&mut s);
    r().calls = 0;
    let mut c = Bs::of("vAttach;");
    let v = sym_hex(&mut c, 2);
    assume(v != 0);
    s.send(c.sl());
    ck!(s.one(O_ATTACH, v, 0, 0, 0));
    ck!(s.idle());
}
/// process ids that are none
fn pid_bad() {
    let mut s = S::<u32>::new(FULL, 160);
    let x = any();
    assume(!hexd(x) & (x != b'#') & (x | 0x20 != b'x'));
    let mut c = Bs::of(["vAttach;", "qAttached:"][pick(2) as usize]);
    match pick(4) {
        0 => {
            c.b(x);
        }
        1 => {
            c.s("1").b(x);
        }
        2 => {
            let d = sym_digit(&mut c);
            assume(d != 0);
            c.s("0000000000000000");
        }
        _ => {
            c.s("000");
        }
    }
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(s.ops() == 0);
}
fn attached() {
    let c0 = caps(0);
    let ext = pick(2) == 1;
    let mut s = S::<u32>::new(if ext { c0 } else { c0 & !EXT }, 160);
    let h = pick(2) == 1;
    if h {
        history(&mut s);
        r().calls = 0;
    }
    r().flag = any_bool();
    let mut c = Bs::of("qAttached");
    let mut v = NONE;
    if pick(2) == 1 {
        c.b(b':');
        v = if h { sym_hex(&mut c, 1) } else { sym_long(&mut c) };
        assume(v != 0);
    }
    s.send(c.sl());
    ck!(s.idle());
    if ext && v != NONE {
        ck!(s.one(O_QATT, v, 0, 0, 0));
        ck!(s.replied_s(if r().flag { "1" } else { "0" }));
    } else {
        ck!(s.ops() == 0);
        ck!(s.replied_s("1"));
    }
}
fn switches() {
    let k = pick(2) as usize;
    let mut s = S::<u32>::new(caps([ASLR, SHELL][k]), 160);
    history(&mut s);
    r().calls = 0;
    let mut c = Bs::of(["QDisableRandomization:", "QStartupWithShell:"][k]);
    let v = pick(2) as u64;
    c.b(b'0' + v as u8);
    s.send(c.sl());
    // the first asks for randomisation to be *disabled*
    if k == 0 {
        ck!(s.one(O_ASLR, 1 - v, 0, 0, 0));
    } else {
        ck!(s.one(O_SHELL, v, 0, 0, 0));
    }
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
fn switches_bad() {
    let k = pick(2) as usize;
    let mut s = S::<u32>::new(FULL, 160);
    let mut c = Bs::of(["QDisableRandomization", "QStartupWithShell"][k]);
    let n = pick(4) as usize;
    let at = c.n;
    for _ in 0..n {
        let x = any();
        assume(x != b'#');
        c.b(x);
    }
    assume(n != 2 || (c.d[at] != b':') | (c.d[at + 1] != b'0') & (c.d[at + 1] != b'1'));
    s.send(c.sl());
    ck!(s.ops() == 0);
    ck!(s.protocol_error());
}
/// name and value of an environment variable
fn setenv(hist: bool, nk: u8, nv: u8) {
    let mut s = S::<u32>::new(caps(ENV), 160);
    if hist {
        history(&mut s);
        r().calls = 0;
    }
    let mut c = Bs::of("QEnvironmentHexEncoded:");
    let (mut k, mut v) = ([0u8; 8], [0u8; 8]);
    let n = bytes(&mut c, &mut k, nk);
    for x in &k[..n] {
        assume(*x != b'=');
    }
    c.b(b'3').b(if any_bool() { b'd' } else { b'D' });
    let m = bytes(&mut c, &mut v, nv);
    s.send(c.sl());
    ck!(s.op_is(0, O_SETENV, (m > 0) as u64, 0, 0, 0));
    ck!(s.op_data(0, &k[..n]));
    if m > 0 {
        ck!(s.ops() == 2);
        ck!(s.op_data(1, &v[..m]));
    } else {
        ck!(s.ops() == 1);
    }
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
fn others(hist: bool, n: u8) {
    let k = pick(3);
    let mut s = S::<u32>::new(caps([ENV, ENV, CWD][k as usize]), 160);
    if hist {
        history(&mut s);
        r().calls = 0;
    }
    let mut p = [0u8; 8];
    match k {
        0 => {
            let mut c = Bs::of("QEnvironmentUnset:");
            let n = bytes(&mut c, &mut p, n);
            s.send(c.sl());
            ck!(s.one(O_REMENV, 0, 0, 0, 0));
            ck!(s.op_data(0, &p[..n]));
        }
        1 => {
            s.sends("QEnvironmentReset");
            ck!(s.one(O_RSTENV, 0, 0, 0, 0));
        }
        _ => {
            let mut c = Bs::of("QSetWorkingDir:");
            let n = bytes(&mut c, &mut p, n);
            s.send(c.sl());
            ck!(s.one(O_CWD, (n > 0) as u64, 0, 0, 0));
            ck!(s.op_data(0, &p[..n]));
        }
    }
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
fn env_bad() {
    let mut s = S::<u32>::new(FULL, 160);
    let x = any();
    assume(!hexd(x) & (x != b'#') & (x | 0x20 != b'x'));
    let mut c = Bs::of(["QEnvironmentHexEncoded", "QEnvironmentUnset", "QSetWorkingDir", "QEnvironmentReset"][pick(4) as usize]);
    match pick(4) {
        0 => {
            c.s(":6").b(x);
        }
        1 => {
            c.s(":").b(x).s("1");
        }
        2 => {
            // no colon
            let y = any();
            assume((y != b':') & (y != b'#'));
            c.b(y).s("61");
        }
        _ => {
            // no value
            assume(c.d[12] == b'H');
            c.b(b':');
            let n = pick(3);
            for _ in 0..n {
                let v = sym_hex(&mut c, 2);
                assume(v != b'=' as u64);
            }
        }
    }
    s.send(c.sl());
    ck!(s.ops() == 0);
    ck!(s.protocol_error());
}
/// two settings in a row, then the program
fn sequence() {
    let mut s = S::<u32>::new(if pick(2) == 0 { FULL } else { MC }, 160);
    let x = any();
    r().num[0] = 7;
    for i in 0..3 {
        let mut c = Bs::new();
        let k = pick(8);
        c.s(["QStartupWithShell:1", "QDisableRandomization:0", "QEnvironmentHexEncoded:613D", "QEnvironmentUnset:", "QSetWorkingDir:2f", "vRun;;", "vRun;", "!"][k as usize]);
        if k >= 2 && k < 7 {
            c.h8(x);
        }
        s.send(c.sl());
        let d = [x];
        let o = match k {
            0 => s.one(O_SHELL, 1, 0, 0, 0),
            1 => s.one(O_ASLR, 1, 0, 0, 0),
            2 => (s.ops() == 2) & s.op_is(0, O_SETENV, 1, 0, 0, 0) & s.op_data(0, b"a") & s.op_data(1, &d),
            3 => s.one(O_REMENV, 0, 0, 0, 0) & s.op_data(0, &d),
            4 => s.one(O_CWD, 1, 0, 0, 0) & s.op_data(0, &[b'/', x]),
            5 => (s.ops() == 2) & s.op_is(0, O_RUN, 0, 0, 0, 0) & s.op_is(1, O_ARG, 0, 0, 0, 0) & s.op_data(1, &d),
            6 => s.one(O_RUN, 1, 0, 0, 0) & s.op_data(0, &d),
            _ => s.one(O_ONSTART, 0, 0, 0, 0),
        };
        ck!(o);
        ck!(s.idle());
        ck!(k == 5 || k == 6 || s.replied_s("OK"));
        ck!(k != 5 && k != 6 || s.replied_s("T05thread:01;"));
    }
}
/// switching extended mode on, and restarting
fn start_restart() {
    let mut s = S::<u32>::new(caps(0), 160);
    history(&mut s);
    r().calls = 0;
    let fail = pick(2) == 1;
    if fail {
        r().fail_at = 0;
        r().code = any();
    }
    match pick(3) {
        0 => {
            s.sends("!");
            ck!(s.one(O_ONSTART, 0, 0, 0, 0));
            if !fail {
                ck!(s.idle());
                ck!(s.replied_s("OK"));
            }
        }
        1 => {
            let mut c = Bs::of("R");
            sym_hex(&mut c, 2);
            s.send(c.sl());
            ck!(s.one(O_RESTART, 0, 0, 0, 0));
            ck!(fail || s.idle());
        }
        _ => {
            let mut c = Bs::of("R");
            let n = pick(4);
            assume(n != 2);
            for _ in 0..n {
                sym_hex(&mut c, 1);
            }
            s.send(c.sl());
            ck!(s.ops() == 0);
            ck!(s.protocol_error());
            return;
        }
    }
    if fail {
        ck!(s.err == Some(Err::Target(r().code)));
    }
}
/// a failure is reported, and nothing else
fn fails() {
    let mut s = S::<u32>::new(if pick(2) == 0 { FULL } else { MC }, 160);
    let k = pick(9) as usize;
    let f = sym_fail();
    r().num[0] = 7;
    s.sends(["vRun;61", "vAttach;1", "qAttached:1", "QDisableRandomization:1", "QStartupWithShell:0", "QEnvironmentHexEncoded:613d", "QEnvironmentUnset:61", "QEnvironmentReset", "QSetWorkingDir:2f"][k]);
    ck!(s.ops() == 1);
    ck!(s.failed(f));
}
/// attaching is refused where the current process cannot be named
fn attach_nopid() {
    let mut s = S::<u32>::new(if pick(2) == 0 { FULL & !CURPID } else { MC & !CURPID }, 160);
    let mut c = Bs::of("vAttach;");
    let v = sym_num(&mut c, 3);
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(s.ops() == 0);
}
harness! {
fn e_run_args() { run(1, 2, 1, false) }
fn e_run_three() { run(1, 3, 1, true) }
fn e_run_name() { run(3, 1, 2, true) }
fn e_run_deep() { run(3, 4, 3, true) }
fn e_run_bad() { run_bad() }
fn e_attach() { attach() }
fn e_attach_hist() { attach_hist() }
fn e_attach_nopid() { attach_nopid() }
fn e_pid_bad() { pid_bad() }
fn e_attached() { attached() }
fn e_switch() { switches() }
fn e_switch_bad() { switches_bad() }
fn e_env() { setenv(false, 3, 3) }
fn e_env_hist() { setenv(true, 1, 1) }
fn e_other() { others(false, 3) }
fn e_other_hist() { others(true, 1) }
fn e_env_bad() { env_bad() }
fn e_seq() { sequence() }
fn e_start() { start_restart() }
fn e_fail() { fails() }
}
