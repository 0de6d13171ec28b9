//! Trace experiments, buffers, frames and uploads.
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 1_300_000;
fn hist<U: AddrW>(s: &mut S<U>, on: bool) {
    if on {
        history(s);
        r().calls = 0;
    }
}
fn addr<U: AddrW>(c: &mut Bs, wide: bool) -> u64 {
    if !wide {
        sym_hex(c, 2)
    } else if core::mem::size_of::<U>() == 8 {
        sym_long(c)
    } else {
        sym_addr::<U>(c)
    }
}
/// a value of up to 64 bits the target reports: its length is decided
fn val(i: usize) -> u64 {
    let v = match pick(5) {
        0 => 0,
        1 => any() as u64,
        2 => any16() as u64,
        3 => any() as u64 | (any() as u64) << 24,
        _ => any() as u64 | (any16() as u64) << 48,
    };
    r().num[i] = v;
    let mut k = 0u8;
    let mut x = v;
    while x != 0 {
        x >>= 8;
        k += 1;
    }
    conc(k);
    v
}
fn small(i: usize) -> u64 {
    let v = any() as u64;
    r().num[i] = v;
    v
}
/// starting, stopping, clearing
fn simple() {
    let mut s = S::<u32>::new(if pick(2) == 1 { FULL } else { FULL | MULTI }, 160);
    history(&mut s);
    r().calls = 0;
    let k = pick(3) as usize;
    let f = if pick(2) == 1 { Some(sym_fail()) } else { None };
    s.sends(["QTinit", "QTStart", "QTStop"][k]);
    ck!(s.one([O_TPINIT, O_TXSTART, O_TXSTOP][k], 0, 0, 0, 0));
    match f {
        Some(f) => {
            ck!(s.failed(f));
        }
        None => {
            ck!(s.idle());
            ck!(s.replied_s("OK"));
        }
    }
}
/// the buffer's shape and size
fn config(h: bool) {
    let mut s = S::<u32>::new(FULL, 160);
    hist(&mut s, h);
    match pick(4) {
        0 => {
            s.sends("QTBuffer:circular:1");
            ck!(s.one(O_TBCFG, 0, 0, 0, 0));
        }
        1 => {
            s.sends("QTBuffer:circular:0");
            ck!(s.one(O_TBCFG, 1, 0, 0, 0));
        }
        2 => {
            s.sends("QTBuffer:size:-1");
            ck!(s.one(O_TBCFG, 2, NONE, 0, 0));
        }
        _ => {
            let mut c = Bs::of("QTBuffer:size:");
            let v = if h { sym_hex(&mut c, 2) } else { sym_long(&mut c) };
            s.send(c.sl());
            ck!(s.one(O_TBCFG, 2, v, 0, 0));
        }
    }
    ck!(s.idle());
    ck!(s.replied_s("OK"));
}
/// reading the buffer
fn buffer(k: u8) {
    let mut s = S::<u32>::new(FULL, 160);
    hist(&mut s, k == 0);
    let mut c = Bs::of("qTBuffer:");
    let off = if k == 1 { sym_long(&mut c) } else { sym_hex(&mut c, 1) };
    c.b(b',');
    let len = if k == 2 { sym_long(&mut c) } else { sym_hex(&mut c, 2) };
    // in how many pieces the target hands its data over
    let p = if k == 3 { pick(3) } else { pick(2) };
    r().sel = p;
    let n = if p == 0 { 0 } else { p as usize - 1 + if k == 3 { 1 + pick(4) as usize } else { 2 } };
    sym_src(n);
    s.send(c.sl());
    ck!(s.one(O_TBREQ, off, len, 0, 0));
    ck!(s.idle());
    let mut e = Bs::new();
    if p == 0 {
        e.b(b'l');
    } else {
        e.hexs(&r().src[..n]);
    }
    ck!(s.replied(&e));
}
/// selecting frames
fn frame<U: AddrW>(wide: bool, h: bool) {
    let mut s = S::<U>::new(FULL, 160);
    hist(&mut s, h);
    let k = pick(5);
    let mut c = Bs::of("QTFrame:");
    let (mut a, mut b) = (0, 0);
    match k {
        0 => a = if wide { sym_long(&mut c) } else { sym_hex(&mut c, 1) },
        1 => {
            c.s("pc:");
            a = addr::<U>(&mut c, wide);
        }
        2 => {
            c.s("tdp:");
            a = if wide { sym_long(&mut c) } else { sym_hex(&mut c, 1) };
        }
        _ => {
            c.s(if k == 3 { "range:" } else { "outside:" });
            let w = pick(2) == 0;
            a = addr::<U>(&mut c, wide && w);
            c.b(b':');
            b = addr::<U>(&mut c, wide && !w);
        }
    }
    r().sel = [0, 1, 3][pick(3) as usize];
    let (n, t);
    if wide || h {
        n = small(0);
        t = small(1);
    } else {
        n = val(0);
        t = if r().sel == 3 { val(1) } else { small(1) };
    }
    s.send(c.sl());
    ck!(s.one(O_TFRAME, k as u64, a, b, 0));
    ck!(s.idle());
    let mut e = Bs::new();
    if r().sel == 0 {
        e.s("F-1");
    } else {
        e.s("F").num(n);
        if r().sel == 3 {
            e.s("T").num(t);
        }
    }
    ck!(s.replied(&e));
}
/// the state of one tracepoint
fn point<U: AddrW>(k: u8) {
    let mut s = S::<U>::new(FULL, 160);
    hist(&mut s, k == 0);
    let mut c = Bs::of("qTP:");
    let n = if k == 1 { sym_long(&mut c) } else { sym_hex(&mut c, 1) };
    c.b(b':');
    let a = addr::<U>(&mut c, k == 2);
    let (h, b) = if k == 3 { (val(0), val(1)) } else { (small(0), small(1)) };
    s.send(c.sl());
    ck!(s.one(O_TPSTAT, n, a, 0, 0));
    ck!(s.idle());
    let mut e = Bs::of("V");
    e.num(h).b(b':').num(b);
    ck!(s.replied(&e));
}
/// the state of the experiment
fn status(info: bool, h: bool) {
    let mut s = S::<u32>::new(FULL, 160);
    hist(&mut s, h);
    let k = if info { [0u8, 3][pick(2) as usize] } else { pick(12) };
    assume(!h || k != 4 && k != 8 && k != 7);
    r().sel = k;
    let text = k == 4 || k == 8;
    let n = if text { pick(4) as usize } else { 0 };
    sym_src(n);
    let t = if k == 7 || k == 8 { val(0) } else { 0 };
    let m = if info { pick(128) } else { 0 };
    r().num[1] = m as u64;
    let f = any_bool();
    r().flag = f;
    // one value of any width, if all are given
    let which = if m == 127 { pick(5) as usize } else { 4 };
    let mut v = [0u64; 4];
    for i in 0..4 {
        v[i] = if i == which {
            val(2 + i)
        } else {
            r().num[2 + i] = 0x90 + i as u64;
            0x90 + i as u64
        };
    }
    s.sends("qTStatus");
    let mut e = Bs::new();
    match k {
        0 => {
            e.s("T1");
        }
        1 => {
            e.s("T0");
        }
        2 => {
            e.s("T0;tnotrun:0");
        }
        3 => {
            e.s("T0;tstop:0");
        }
        4 => {
            e.s("T0;tstop:").hexs(&r().src[..n]).s(":0");
        }
        5 | 10 => {
            e.s("T0;tfull:0");
        }
        6 => {
            e.s("T0;tdisconnected:0");
        }
        7 => {
            e.s("T0;tpasscount:").num(t);
        }
        8 => {
            e.s("T0;terror:").hexs(&r().src[..n]).s(":").num(t);
        }
        9 => {
            e.s("T0;tunknown:0");
        }
        _ => {}
    }
    const N: [&str; 4] = [";tframes:", ";tcreated:", ";tsize:", ";tfree:"];
    for i in 0..4 {
        if m >> i & 1 == 1 {
            e.s(N[i]).num(v[i]);
        }
    }
    if m & 16 != 0 {
        e.s(";circular:").num(f as u64);
    }
    if m & 32 != 0 {
        e.s(";disconn:").b(b'0' + !f as u8);
    }
    if m & 64 != 0 {
        e.s(";ab");
    }
    ck!(s.op_is(0, O_TXSTAT, 0, 0, 0, 0));
    if k == 11 {
        ck!(s.ops() == 1); // opt: no status, nothing to explain
    } else {
        ck!(s.ops() == 2);
        ck!(s.op_is(1, O_TXINFO, 0, 0, 0, 0));
    }
    ck!(s.idle());
    ck!(s.replied(&e));
}
/// requests that make no sense
fn bad<U: AddrW>() {
    let mut s = S::<U>::new(FULL, 160);
    let mut c = Bs::new();
    let junk = |c: &mut Bs| {
        let x = any();
        assume((x != b'#') & (x < b'0' || x > b'9') & (x | 0x20 < b'a' || x | 0x20 > b'f') & (x | 0x20 != b'x') & (x != b':') & (x != b',') & (x != b'-'));
        c.b(x);
    };
    match pick(9) {
        0 => {
            c.s(["QTinit", "QTStart", "QTStop", "qTStatus", "qTfP", "qTsP", "qTfV", "qTsV"][pick(8) as usize]);
            let x = any();
            assume(x != b'#');
            c.b(x);
        }
        1 => {
            c.s("QTBuffer:circular");
            let n = pick(3);
            let at = c.n;
            for _ in 0..n {
                let x = any();
                assume(x != b'#');
                c.b(x);
            }
            assume(n != 2 || c.d[at] != b':' || (c.d[at + 1] != b'0') & (c.d[at + 1] != b'1'));
        }
        2 => {
            c.s("QTBuffer");
            match pick(5) {
                0 => {
                    c.s(":size:");
                    junk(&mut c);
                }
                1 => {
                    c.s(":size:-");
                    let x = any();
                    assume((x != b'1') & (x != b'#'));
                    c.b(x);
                }
                2 => {
                    c.s(":size:");
                    let d = sym_digit(&mut c);
                    assume(d != 0);
                    c.s("0000000000000000");
                }
                3 => {
                    c.s([":shape:1", "", ":", ":size", ":siz:1", ":circularr:1", "circular:1"][pick(7) as usize]);
                }
                _ => {
                    let x = any();
                    assume((x != b':') & (x != b'#'));
                    c.b(x).s("size:1");
                }
            }
        }
        3 => {
            c.s("qTBuffer:");
            match pick(4) {
                0 => junk(&mut c),
                1 => {
                    c.s("1,");
                    junk(&mut c);
                }
                2 => {
                    c.s("1,");
                    let d = sym_digit(&mut c);
                    assume(d != 0);
                    c.s("0000000000000000");
                }
                _ => {
                    c.s("1");
                }
            }
        }
        4 => {
            c.s("QTFrame:");
            match pick(5) {
                0 => junk(&mut c),
                1 => {
                    c.s(["pc:", "tdp:", "range:", "outside:"][pick(4) as usize]);
                    junk(&mut c);
                }
                2 => {
                    c.s(["range:1:", "outside:1:"][pick(2) as usize]);
                    junk(&mut c);
                }
                3 => {
                    c.s(["pc", "tdp", "range", "outside", "range:1", "outside:1", "pcc:1", "-1"][pick(8) as usize]);
                }
                _ => {
                    let d = sym_digit(&mut c);
                    assume(d != 0);
                    c.s("0000000000000000");
                }
            }
        }
        5 => {
            c.s(["QTFrame:pc:", "QTFrame:range:1:", "QTFrame:outside:", "QTFrame:outside:1:", "QTFrame:range:", "qTP:1:"][pick(6) as usize]);
            big_addr::<U>(&mut c);
            if pick(2) == 1 {
                c.s(":1");
            }
        }
        6 => {
            c.s("qTP:");
            match pick(4) {
                0 => junk(&mut c),
                1 => {
                    c.s("1:");
                    junk(&mut c);
                }
                2 => {
                    c.s("1");
                }
                _ => {
                    let d = sym_digit(&mut c);
                    assume(d != 0);
                    c.s("0000000000000000:1");
                }
            }
        }
        _ => {
            // no colon
            c.s(["qTP", "qTBuffer", "QTFrame"][pick(3) as usize]);
            if pick(2) == 1 {
                let x = any();
                assume((x != b'#') & (x != b':'));
                c.b(x);
                c.s("1,1:1");
            }
        }
    }
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(s.ops() == 0);
}
fn fails() {
    let mut s = S::<u32>::new(FULL, 160);
    let k = pick(6) as usize;
    let f = sym_fail();
    // (a target that fails has reported nothing)
    r().sel = [0, 0, 11, 0, 0, 0][k];
    tps().step = [0; 8];
    s.sends(["QTBuffer:size:5", "qTBuffer:0,10", "qTStatus", "qTP:1:2", "QTFrame:1", "qTfP"][k]);
    ck!(s.ops() == 1);
    ck!(s.failed(f));
}

// ---- uploads ----------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
enum Cur {
    No,
    New(u64, u64),
    Act(u64, u64, u64),
    Src(u64, u64, u64),
}
/// `steps` requests, the target dictating where to go. `names`: numbers and
/// addresses are arbitrary
fn upload(steps: usize, restart: bool, rich: bool) {
    let srcs = pick(2) == 1;
    let mut s = S::<u32>::new(if srcs { FULL } else { FULL & !TPSRC }, 160);
    // what is reported
    for i in [2usize, 3, 4, 5, 6, 7, 8, 9, 10] {
        r().num[i] = 0x21 + i as u64;
    }
    r().num[2] = 0x80 | if steps > 8 { 1 } else { any() as u64 };
    r().num[3] = any() as u64 | 0x8000_0000;
    r().num[4] = 0x12;
    r().flag = !rich;
    sym_src(1);
    let mut cur = Cur::No;
    let mut end = false;
    // more steps than anybody counts: only one of them is a choice
    let long = steps > 8;
    let at = if long { [0, 255, steps - 1][pick(3) as usize] } else { 0 };
    for i in 0..steps {
        let first = i == 0 || restart && pick(2) == 1;
        // the script of this step
        let x = if first || end { cur } else { cur };
        let emit = if rich {
            match cur {
                _ if first => 1,
                Cur::Act(..) if long && i != at => 1 + (i % 4) as u8,
                Cur::Src(..) if long && i != at => 1 + (i % 3) as u8,
                Cur::Act(..) => 1 + pick(4),
                Cur::Src(..) => 1 + pick(3),
                _ => 1,
            }
        } else {
            1
        };
        let go = if long && i != at {
            match i % 310 {
                0..=259 => 1,
                260..=299 => 2,
                _ => 3,
            }
        } else {
            pick(4)
        };
        tps().step[tps().n] = emit << 4 | go;
        tps().tp[tps().n] = 3 + i;
        tps().addr[tps().n] = 0x50 + i as u64;
        let at = tps().n;
        s.sends(if first { "qTfP" } else { "qTsP" });
        let mut e = Bs::new();
        let num = &r().num;
        let mut def = |e: &mut Bs| {
            e.s("T").num(num[2]).s(":").num(num[3]).s(if r().flag { ":E:" } else { ":D:" }).num(num[4]).s(":").num(num[5]);
        };
        let after = match x {
            _ if first => {
                ck!(s.one(O_TPESTART, NONE, 0, 0, 0));
                def(&mut e);
                Cur::New(num[2], num[3])
            }
            Cur::No => {
                // the list is over
                ck!(s.ops() == 0);
                ck!(s.idle());
                ck!(s.replied_s(""));
                if long {
                    return;
                }
                continue;
            }
            Cur::New(t, _) => {
                ck!(s.one(O_TPESTART, t, 0, 0, 0));
                def(&mut e);
                cur
            }
            Cur::Act(t, a, k) => {
                ck!(s.one(O_TPEACT, t, k, 0, 0));
                e.s("A").num(t).s(":").num(a).s(":");
                match emit {
                    1 => {
                        e.s("R").h8(r().src[0]);
                    }
                    2 => {
                        e.s("M").num(num[4]).s(",").num(num[5]).s(",").num(num[6]);
                    }
                    3 => {
                        e.s("X01,").h8(r().src[0]);
                    }
                    _ => {
                        e.s("M-1,").num(num[5]).s(",").num(num[6]);
                    }
                }
                cur
            }
            Cur::Src(t, _, k) => {
                if !srcs {
                    // there is no way to ask for it
                    ck!(s.ops() == 0);
                    ck!(s.protocol_error());
                    return;
                }
                ck!(s.one(O_TPESRC, t, k, 0, 0));
                e.s("Z").num(num[7]).s(":").num(num[8]).s([":at:", ":cond:", ":cmd:"][emit as usize - 1]).num(num[9]).s(":").num(num[10]).s(":").h8(r().src[0]);
                cur
            }
        };
        ck!(s.idle());
        ck!(s.replied(&e));
        cur = match (go, after) {
            (0, _) | (_, Cur::No) => Cur::No,
            (1, Cur::Act(t, a, k)) => Cur::Act(t, a, k + 1),
            (1, Cur::New(t, a)) | (1, Cur::Src(t, a, _)) => Cur::Act(t, a, 0),
            (2, Cur::Src(t, a, k)) => Cur::Src(t, a, k + 1),
            (2, Cur::New(t, a)) | (2, Cur::Act(t, a, _)) => Cur::Src(t, a, 0),
            _ => Cur::New(tps().tp[at] as u64, tps().addr[at]),
        };
        // the recorder's memory is finite
        r().nout = 0;
        r().flushed = 0;
        r().nev = 0;
        r().ndata = 0;
        s.begin();
        if long {
            tps().n = 0;
        }
    }
}
/// numbers and bytes of every width in what is uploaded
fn upload_wide<U: AddrW>() {
    let mut s = S::<U>::new(FULL, 160);
    let k = pick(3);
    for i in [2usize, 3, 4, 5, 6, 7, 8, 9, 10] {
        r().num[i] = 0x21 + i as u64;
    }
    r().flag = true;
    // which of the numbers is arbitrary
    let at = [&[2usize, 3, 4, 5][..], &[4, 5, 6], &[7, 8, 9, 10]][k as usize];
    let i = at[pick(at.len() as u8) as usize];
    let data = pick(2) == 1;
    let w = core::mem::size_of::<U>();
    let isa = i == 3 || i == 8 || k == 1 && i == 5;
    let v = if data { r().num[i] } else { val(i) };
    if isa && w < 8 {
        assume(v >> (8 * w as u32) == 0);
    }
    if i >= 9 {
        assume(v >> 32 == 0);
    }
    let n = if data { pick(4) as usize } else { 1 };
    sym_src(n);
    let emit = if k == 0 { 1 } else { pick(3) + 1 };
    tps().step = [0; 8];
    tps().step[0] = 0x10 | k;
    tps().step[1] = emit << 4;
    s.sends("qTfP");
    let num = &r().num;
    let mut e = Bs::of("T");
    e.num(num[2]).s(":").num(num[3]).s(":E:").num(num[4]).s(":").num(num[5]);
    ck!(s.replied(&e));
    if k == 0 {
        return;
    }
    s.sends("qTsP");
    let mut e = Bs::new();
    if k == 1 {
        e.s("A").num(num[2]).s(":").num(num[3]).s(":");
        match emit {
            1 => {
                e.s("R").hexs(&r().src[..n]);
            }
            2 => {
                e.s("M").num(num[4]).s(",").num(num[5]).s(",").num(num[6]);
            }
            _ => {
                e.s("X").num(n as u64).s(",").hexs(&r().src[..n]);
            }
        }
    } else {
        e.s("Z").num(num[7]).s(":").num(num[8]).s([":at:", ":cond:", ":cmd:"][emit as usize - 1]).num(num[9]).s(":").num(num[10]).s(":").hexs(&r().src[..n]);
    }
    ck!(s.replied(&e));
}
/// other requests in between leave an upload alone; there are no variables
fn upload_between() {
    let mut s = S::<u32>::new(FULL, 160);
    r().num[2] = any() as u64;
    r().num[3] = 0x1000;
    r().ret = 1;
    tps().step = [0x11, 0x11, 0x10, 0, 0, 0, 0, 0];
    s.sends("qTfP");
    ck!(s.one(O_TPESTART, NONE, 0, 0, 0));
    for i in 0..2u64 {
        match pick(6) {
            0 => s.sends("qTfV"),
            1 => s.sends("qTsV"),
            2 => s.sends("qTP:1:1000"),
            3 => s.sends("QTDP:9:20:E:0:0"),
            4 => s.sends("QTDPsrc:9:20:at:0:1:61"),
            _ => s.sends("m0,1"),
        }
        ck!(s.idle());
        s.sends("qTsP");
        ck!(s.one(O_TPEACT, r().num[2], i, 0, 0));
    }
    s.sends("qTsP");
    ck!(s.ops() == 0);
    ck!(s.replied_s(""));
    s.sends(if pick(2) == 0 { "qTfV" } else { "qTsV" });
    ck!(s.ops() == 0);
    ck!(s.idle());
    ck!(s.replied_s(""));
}
/// no tracepoints at all
fn upload_none() {
    let mut s = S::<u32>::new(FULL, 160);
    history(&mut s);
    r().calls = 0;
    tps().step = [0; 8];
    tps().step[0] = pick(4);
    s.sends("qTfP");
    ck!(s.one(O_TPESTART, NONE, 0, 0, 0));
    ck!(s.replied_s(""));
    s.sends("qTsP");
    ck!(s.ops() == 0);
    ck!(s.replied_s(""));
}
harness! {
fn tx_up_long() { upload(320, false, true) }
fn tx_simple() { simple() }
fn tx_config() { config(false) }
fn tx_config_h() { config(true) }
fn tx_buf_h() { buffer(0) }
fn tx_buf_off() { buffer(1) }
fn tx_buf_len() { buffer(2) }
fn tx_buf_data() { buffer(3) }
fn tx_frame() { frame::<u32>(false, false) }
fn tx_frame_h() { frame::<u32>(false, true) }
fn tx_frame16() { frame::<u16>(true, false) }
fn tx_frame32() { frame::<u32>(true, false) }
fn tx_frame64() { frame::<u64>(true, false) }
fn tx_point_h() { point::<u32>(0) }
fn tx_point_n() { point::<u32>(1) }
fn tx_point16() { point::<u16>(2) }
fn tx_point32() { point::<u32>(2) }
fn tx_point64() { point::<u64>(2) }
fn tx_point_v() { point::<u32>(3) }
fn tx_status() { status(false, false) }
fn tx_status_h() { status(false, true) }
fn tx_info() { status(true, false) }
fn tx_bad16() { bad::<u16>() }
fn tx_bad64() { bad::<u64>() }
fn tx_fail() { fails() }
fn tx_up3() { upload(3, false, true) }
fn tx_up5() { upload(5, false, false) }
fn tx_up_re() { upload(3, true, false) }
fn tx_up_re4() { upload(4, true, false) }
fn tx_up6() { upload(6, false, true) }
fn tx_wide16() { upload_wide::<u16>() }
fn tx_wide64() { upload_wide::<u64>() }
fn tx_between() { upload_between() }
fn tx_none() { upload_none() }
}
