//! Bulk object reads (qXfer).
use crate::api::*;
use crate::mock::*;
use crate::session::*;
use crate::*;
const FILE_ID: u32 = 900_000;
const OBJ: [(&str, u8); 5] = [
    ("qXfer:memory-map:read:", O_MMAP),
    ("qXfer:auxv:read:", O_AUXV),
    ("qXfer:libraries-svr4:read:", O_LIBS),
    ("qXfer:exec-file:read:", O_EXECF),
    ("qXfer:features:read:", O_XML),
];
/// an annex the object has; its meaning
fn annex(c: &mut Bs, k: usize, long: bool) -> (u64, usize, usize) {
    let at = c.n;
    let mut pid = 0;
    if k == 3 {
        pid = NONE;
        if pick(2) == 1 {
            pid = if long { sym_long(c) } else { sym_hex(c, 1) };
            assume(pid != 0);
        }
    } else if k == 4 {
        let n = if long { pick(4) } else { 2 };
        for _ in 0..n {
            let x = any();
            assume((x != b'#') & (x != b':'));
            c.b(x);
        }
    }
    (pid, at, c.n)
}
/// the request made it to the target as sent
fn asked(s: &S<u64>, c: &Bs, k: usize, a: (u64, usize, usize), off: u64, len: u64) -> bool {
    s.ops() == 1 && s.op_is(0, OBJ[k].1, off, len, a.0, 0) && (k != 4 || s.op_data(0, &c.d[a.1..a.2]))
}
fn answer(n: usize) -> Bs {
    let mut e = Bs::new();
    if n == 0 {
        e.b(b'l');
    } else {
        e.b(b'm');
        let mut i = 0;
        while i < n {
            e.esc(r().src[i]);
            i += 1;
        }
    }
    e
}
/// arbitrary offset and length
fn range(k: usize, both: bool) {
    let mut s = S::<u64>::new(FULL, 128);
    let mut c = Bs::of(OBJ[k].0);
    let a = annex(&mut c, k, false);
    c.b(b':');
    let off = if both { sym_long(&mut c) } else { sym_num(&mut c, 2) };
    c.b(b',');
    let len = if both { sym_num(&mut c, 2) } else { sym_long(&mut c) };
    sym_src(1);
    s.send(c.sl());
    ck!(asked(&s, &c, k, a, off, len));
    ck!(s.idle());
    ck!(s.replied(&answer(r().filled)));
}
/// arbitrary data and annexes, after any kind of exchange
fn data(k: usize, max: u8, hist: bool) {
    let mut s = S::<u64>::new(if pick(2) == 1 { FULL | MULTI } else { FULL }, 128);
    if hist {
        history(&mut s);
        r().calls = 0;
    }
    let mut c = Bs::of(OBJ[k].0);
    let a = annex(&mut c, k, max < 3 && !hist);
    c.s(":3f,30");
    sym_src(pick(max + 1) as usize);
    s.send(c.sl());
    ck!(asked(&s, &c, k, a, 0x3f, 0x30));
    ck!(s.idle());
    ck!(r().filled == r().ret);
    ck!(s.replied(&answer(r().ret)));
}
/// as much data as there is room for, every size of the buffer
fn room() {
    let k = pick(5) as usize;
    let mut s = S::<u64>::new(FULL, 48 + pick(30) as usize);
    let mut c = Bs::of(OBJ[k].0);
    let a = annex(&mut c, k, false);
    c.s(":1000,ffff");
    let x = any();
    let mut i = 0;
    while i < NSRC {
        r().src[i] = if i == 3 { x } else { 0x30 + (i as u8 & 7) };
        i += 1;
    }
    r().ret = NSRC;
    s.send(c.sl());
    ck!(asked(&s, &c, k, a, 0x1000, 0xffff));
    ck!(s.idle());
    ck!(s.replied(&answer(r().filled)));
}
/// a second read gets the second answer
fn twice() {
    let mut s = S::<u64>::new(FULL, 128);
    sym_src(2);
    let k = pick(5) as usize;
    let mut c = Bs::of(OBJ[k].0);
    c.s(":0,8");
    s.send(c.sl());
    ck!(s.replied(&answer(2)));
    let j = pick(5) as usize;
    sym_src(pick(2) as usize);
    let mut c = Bs::of(OBJ[j].0);
    c.s(":2,8");
    s.send(c.sl());
    ck!(asked(&s, &c, j, (if j == 3 { NONE } else { 0 }, c.n, c.n), 2, 8));
    ck!(s.replied(&answer(r().ret)));
}
/// requests that name no object the target has
fn bad() {
    let mut s = S::<u64>::new(FULL, 128);
    let k = pick(5) as usize;
    let mut c = Bs::of(OBJ[k].0);
    match pick(6) {
        0 => {
            // an annex the object does not have
            assume(k < 4);
            let n = pick(3) + 1;
            let mut hex = true;
            let mut zero = true;
            for _ in 0..n {
                let x = any();
                assume((x != b'#') & (x != b':'));
                c.b(x);
                hex &= (x >= b'0') & (x <= b'9') | (x | 0x20 >= b'a') & (x | 0x20 <= b'f') | (x | 0x20 == b'x');
                zero &= x == b'0';
            }
            assume(k != 3 || !hex || zero);
            c.s(":0,10");
        }
        1 => {
            // offsets and lengths of more than 64 bits
            c.b(b':');
            let d = sym_digit(&mut c);
            assume(d != 0);
            c.s("0123456789abcdef,1");
        }
        2 => {
            c.s(":0,");
            let d = sym_digit(&mut c);
            assume(d != 0);
            c.s("0123456789abcdef");
        }
        3 => {
            // not a number
            c.b(b':');
            let x = any();
            assume((x != b'#') & (x < b'0' || x > b'9') & (x | 0x20 < b'a' || x | 0x20 > b'f') & (x | 0x20 != b'x') & (x != b','));
            c.b(x);
            c.s(",1");
        }
        4 => {
            c.s(":1");
        }
        _ => {}
    }
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(s.ops() == 0);
}
fn fails() {
    let mut s = S::<u64>::new(FULL, 128);
    let k = pick(5) as usize;
    sym_src(2);
    let f = sym_fail();
    let mut c = Bs::of(OBJ[k].0);
    c.s(":0,8");
    s.send(c.sl());
    ck!(s.ops() == 1);
    ck!(s.failed(f));
}
harness! {
fn x_range_mmap() { range(0, pick(2) == 1) }
fn x_range_auxv() { range(1, pick(2) == 1) }
fn x_range_libs() { range(2, pick(2) == 1) }
fn x_range_exec() { range(3, pick(2) == 1) }
fn x_range_feat() { range(4, pick(2) == 1) }
fn x_data_mmap() { data(0, 3, false) }
fn x_data_auxv() { data(1, 3, false) }
fn x_data_libs() { data(2, 3, false) }
fn x_data_exec() { data(3, 3, false) }
fn x_data_feat() { data(4, 3, false) }
fn x_annex_exec() { data(3, 0, false) }
fn x_annex_feat() { data(4, 0, false) }
fn x_hist() { data(pick(5) as usize, 1, true) }
fn x_deep() { data(pick(5) as usize, 6, false) }
fn x_room() { room() }
fn x_twice() { twice() }
fn x_bad() { bad() }
fn x_fail() { fails() }
}

// ---- the architecture's description ----------------------------------------------
const TEXTS: [&str; 5] = ["<a#b$c}d*e/>", "  \n<t>xyz</t>\t \n", "", "   ", "<target version=\"1.0\"><architecture>riscv:rv32</architecture></target>"];
fn trimmed(t: &'static [u8]) -> &'static [u8] {
    let mut a = 0;
    let mut b = t.len();
    while a < b && (t[a] == b' ' || t[a] == b'\n' || t[a] == b'\t') {
        a += 1;
    }
    while b > a && (t[b - 1] == b' ' || t[b - 1] == b'\n' || t[b - 1] == b'\t') {
        b -= 1;
    }
    &t[a..b]
}
fn piece(t: &[u8]) -> Bs {
    let mut e = Bs::new();
    if t.is_empty() {
        e.b(b'l');
    } else {
        e.b(b'm');
        for x in t {
            e.esc(*x);
        }
    }
    e
}
/// any offset and length
fn arch_range(wide: bool) {
    r().xml = TEXTS[pick(if wide { 2 } else { 5 }) as usize];
    let t = trimmed(r().xml.as_bytes());
    let mut s = S::<u64>::new(FULL & !XMLOV | ARCHXML, 192);
    let mut c = Bs::of("qXfer:features:read:target.xml:");
    let (off, len);
    if wide {
        if pick(2) == 0 {
            off = if pick(2) == 0 { sym_num(&mut c, 2) } else { sym_ends(&mut c, 16) };
            c.s(",ffffffffffffffff");
            len = u64::MAX;
        } else {
            c.s("3,");
            off = 3;
            len = if pick(2) == 0 { sym_num(&mut c, 2) } else { sym_ends(&mut c, 16) };
        }
    } else {
        off = sym_hex(&mut c, 1);
        c.b(b',');
        len = sym_hex(&mut c, 1);
    }
    s.send(c.sl());
    let a = if off < t.len() as u64 { off as usize } else { t.len() };
    let b = if len < (t.len() - a) as u64 { a + len as usize } else { t.len() };
    let (a, b) = (conc(a as u8) as usize, conc(b as u8) as usize);
    ck!(s.idle());
    ck!(s.ops() == 0);
    ck!(s.replied(&piece(&t[a..b])));
}
/// consecutive pieces, also when the buffer is smaller than what is asked for
fn arch_pieces() {
    r().xml = TEXTS[pick(5) as usize];
    let t = trimmed(r().xml.as_bytes());
    let size = [200usize, 48][pick(2) as usize];
    let mut s = S::<u64>::new(FULL & !XMLOV | ARCHXML, size);
    let ask = [1u64, 2, 3, 7, 16, 0x40, 0xfff][pick(7) as usize];
    let mut got = 0usize;
    let mut rounds = 0;
    loop {
        let mut c = Bs::of("qXfer:features:read:target.xml:");
        c.num(got as u64).b(b',').num(ask);
        s.send(c.sl());
        ck!(s.idle());
        let o = &r().out;
        ck!(o[s.mark] == b'+' && o[s.mark + 1] == b'$');
        if o[s.mark + 2] == b'l' {
            ck!(s.replied_s("l"));
            break;
        }
        ck!(o[s.mark + 2] == b'm');
        // decode
        let mut i = s.mark + 3;
        let mut k = 0;
        while i < r().nout && o[i] != b'#' {
            let mut x = o[i];
            if x == b'}' {
                i += 1;
                x = o[i] ^ 0x20;
            }
            ck!(got + k < t.len() && x == t[got + k]);
            i += 1;
            k += 1;
        }
        ck!(k > 0 && k as u64 <= ask);
        ck!(s.replied(&piece(&t[got..got + k])));
        got += k;
        rounds += 1;
        if rounds > 80 {
            fail!(); // opt:
            return;
        }
        // the recorder's memory is finite
        r().nout = 0;
        r().flushed = 0;
    }
    ck!(got == t.len());
}
/// other annexes
fn arch_annex(n: u8) {
    let mut s = S::<u64>::new(FULL & !XMLOV | ARCHXML, 128);
    let mut c = Bs::of("qXfer:features:read:");
    match pick(3) {
        0 => {
            let k = pick(n);
            for _ in 0..k {
                let x = any();
                assume((x != b'#') & (x != b':'));
                c.b(x);
            }
        }
        1 => {
            // one byte of target.xml changed
            let j = pick(10) as usize;
            let x = any();
            assume((x != b'#') & (x != b':'));
            let at = c.n;
            c.s("target.xml");
            assume(x != c.d[at + j]);
            c.d[at + j] = x;
        }
        _ => {
            // shortened, or lengthened
            if pick(2) == 0 {
                let k = pick(10) as usize;
                c.s(&"target.xml"[..k]);
            } else {
                c.s("target.xml");
                let x = any();
                assume((x != b'#') & (x != b':'));
                c.b(x);
            }
        }
    }
    c.s(":0,10");
    s.send(c.sl());
    ck!(s.protocol_error());
    ck!(s.ops() == 0);
}
/// the target's own description takes precedence
fn arch_override() {
    let mut s = S::<u64>::new(FULL | ARCHXML, 128);
    sym_src(pick(3) as usize);
    s.sends("qXfer:features:read:target.xml:5,6");
    ck!(s.ops() == 1);
    ck!(s.op_is(0, O_XML, 5, 6, 0, 0));
    ck!(s.op_data(0, b"target.xml"));
    ck!(s.idle());
    ck!(s.replied(&answer(r().ret)));
}
harness! {
fn xa_range() { arch_range(false) }
fn xa_wide() { arch_range(true) }
fn xa_pieces() { arch_pieces() }
fn xa_annex() { arch_annex(4) }
fn xa_override() { arch_override() }
}
