//! Targets, architectures and connections that leave everything optional out:
//! they are served as ones that spell the documented defaults out.
use crate::api::*;
use crate::dynt::{exchange, same, End};
use crate::err::{script, CMDS, N};
use crate::mock::*;
use crate::session::*;
use crate::*;
use gdbstub::arch::Arch;
use gdbstub::common::*;
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::target::ext::auxv::*;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::catch_syscalls::*;
use gdbstub::target::ext::exec_file::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::libraries::*;
use gdbstub::target::ext::lldb_register_info_override::*;
use gdbstub::target::ext::memory_map::*;
use gdbstub::target::ext::monitor_cmd::*;
use gdbstub::target::ext::section_offsets::*;
use gdbstub::target::ext::target_description_xml_override::*;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::{Target, TargetError};
const FILE_ID: u32 = 2_500_000;

type M = Mock<u32>;
type TR<T> = Result<T, TargetError<u8>>;
/// what a target gets that overrides nothing
const DEFAULTS: u64 = NOACK | XUP | RSTUB | RLE | USEXML | USELLDB;

/// an architecture with nothing optional
pub struct Plain;
impl Arch for Plain {
    type Usize = u32;
    type Registers = Regs<u32>;
    type BreakpointKind = BK;
    type RegId = RId;
}

macro_rules! base { ($t:ident $(, $resume:item)*) => {
    impl SingleThreadBase for $t {
        fn read_registers(&mut self, regs: &mut Regs<u32>) -> TR<()> {
            <M as SingleThreadBase>::read_registers(&mut self.0, regs)
        }
        fn write_registers(&mut self, regs: &Regs<u32>) -> TR<()> {
            <M as SingleThreadBase>::write_registers(&mut self.0, regs)
        }
        fn read_addrs(&mut self, a: u32, d: &mut [u8]) -> TR<usize> {
            <M as SingleThreadBase>::read_addrs(&mut self.0, a, d)
        }
        fn write_addrs(&mut self, a: u32, d: &[u8]) -> TR<()> {
            <M as SingleThreadBase>::write_addrs(&mut self.0, a, d)
        }
        base!(@ $t, SingleThreadResumeOps);
    }
    impl MultiThreadBase for $t {
        fn read_registers(&mut self, regs: &mut Regs<u32>, t: Tid) -> TR<()> {
            <M as MultiThreadBase>::read_registers(&mut self.0, regs, t)
        }
        fn write_registers(&mut self, regs: &Regs<u32>, t: Tid) -> TR<()> {
            <M as MultiThreadBase>::write_registers(&mut self.0, regs, t)
        }
        fn read_addrs(&mut self, a: u32, d: &mut [u8], t: Tid) -> TR<usize> {
            <M as MultiThreadBase>::read_addrs(&mut self.0, a, d, t)
        }
        fn write_addrs(&mut self, a: u32, d: &[u8], t: Tid) -> TR<()> {
            <M as MultiThreadBase>::write_addrs(&mut self.0, a, d, t)
        }
        fn list_active_threads(&mut self, f: &mut dyn FnMut(Tid)) -> Result<(), u8> {
            self.0.list_active_threads(f)
        }
        base!(@ $t, MultiThreadResumeOps);
    }
};
(@ Given, $o:ident) => { fn support_resume(&mut self) -> Option<$o<'_, Self>> { Some(self) } };
(@ $t:ident, $o:ident) => {};
}
fn ops<T: SingleThreadBase + MultiThreadBase>(t: &mut T) -> BaseOps<'_, T::Arch, T::Error> {
    if has(MULTI) {
        BaseOps::MultiThread(t)
    } else {
        BaseOps::SingleThread(t)
    }
}

/// nothing but the base operations, over such an architecture
pub struct Bare(M);
impl Target for Bare {
    type Arch = Plain;
    type Error = u8;
    fn base_ops(&mut self) -> BaseOps<'_, Plain, u8> {
        ops(self)
    }
}
base!(Bare);
/// the same, opted in to breakpoints made by writing memory
pub struct Lone(M);
impl Target for Lone {
    type Arch = Plain;
    type Error = u8;
    fn base_ops(&mut self) -> BaseOps<'_, Plain, u8> {
        ops(self)
    }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool {
        true
    }
}
base!(Lone);
/// threads are asked about directly
pub struct Alive(M);
impl Target for Alive {
    type Arch = Plain;
    type Error = u8;
    fn base_ops(&mut self) -> BaseOps<'_, Plain, u8> {
        BaseOps::MultiThread(self)
    }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool {
        true
    }
}
impl MultiThreadBase for Alive {
    fn read_registers(&mut self, regs: &mut Regs<u32>, t: Tid) -> TR<()> {
        <M as MultiThreadBase>::read_registers(&mut self.0, regs, t)
    }
    fn write_registers(&mut self, regs: &Regs<u32>, t: Tid) -> TR<()> {
        <M as MultiThreadBase>::write_registers(&mut self.0, regs, t)
    }
    fn read_addrs(&mut self, a: u32, d: &mut [u8], t: Tid) -> TR<usize> {
        <M as MultiThreadBase>::read_addrs(&mut self.0, a, d, t)
    }
    fn write_addrs(&mut self, a: u32, d: &[u8], t: Tid) -> TR<()> {
        <M as MultiThreadBase>::write_addrs(&mut self.0, a, d, t)
    }
    fn list_active_threads(&mut self, f: &mut dyn FnMut(Tid)) -> Result<(), u8> {
        self.0.list_active_threads(f)
    }
    fn is_thread_alive(&mut self, t: Tid) -> Result<bool, u8> {
        ev(O_LIST, t.get() as u64, 0, 0, 0);
        if r().lfail {
            return Err(r().code);
        }
        Ok(r().flag)
    }
}

/// every extension, none of the parts an extension may leave out
pub struct Given(M);
impl Target for Given {
    type Arch = Ar<u32>;
    type Error = u8;
    fn base_ops(&mut self) -> BaseOps<'_, Ar<u32>, u8> {
        ops(self)
    }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool {
        true
    }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> {
        Some(self)
    }
    fn support_monitor_cmd(&mut self) -> Option<MonitorCmdOps<'_, Self>> {
        Some(self)
    }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> {
        Some(self)
    }
    fn support_section_offsets(&mut self) -> Option<SectionOffsetsOps<'_, Self>> {
        Some(self)
    }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> {
        Some(self)
    }
    fn support_target_description_xml_override(&mut self) -> Option<TargetDescriptionXmlOverrideOps<'_, Self>> {
        Some(self)
    }
    fn support_lldb_register_info_override(&mut self) -> Option<LldbRegisterInfoOverrideOps<'_, Self>> {
        Some(self)
    }
    fn support_memory_map(&mut self) -> Option<MemoryMapOps<'_, Self>> {
        Some(self)
    }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> {
        Some(self)
    }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> {
        Some(self)
    }
    fn support_exec_file(&mut self) -> Option<ExecFileOps<'_, Self>> {
        Some(self)
    }
    fn support_auxv(&mut self) -> Option<AuxvOps<'_, Self>> {
        Some(self)
    }
    fn support_libraries_svr4(&mut self) -> Option<LibrariesSvr4Ops<'_, Self>> {
        Some(self)
    }
}
const GIVEN: u64 = DEFAULTS | GUARD | RESUME | BRK | MON | EXT | OFFS | TP | XMLOV | LLDB | MMAP | CATCH | HIO | EXECF | AUXV | LIBS | QSTART | ARCHXML;
base!(Given);
impl SingleThreadResume for Given {
    fn resume(&mut self, s: Option<Signal>) -> Result<(), u8> {
        <M as SingleThreadResume>::resume(&mut self.0, s)
    }
}
impl MultiThreadResume for Given {
    fn resume(&mut self) -> Result<(), u8> {
        <M as MultiThreadResume>::resume(&mut self.0)
    }
    fn clear_resume_actions(&mut self) -> Result<(), u8> {
        self.0.clear_resume_actions()
    }
    fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), u8> {
        self.0.set_resume_action_continue(t, s)
    }
}
impl Breakpoints for Given {}
impl HostIo for Given {}
impl MonitorCmd for Given {
    fn handle_monitor_cmd(&mut self, cmd: &[u8], out: ConsoleOutput<'_>) -> Result<(), u8> {
        self.0.handle_monitor_cmd(cmd, out)
    }
}
impl ExtendedMode for Given {
    fn run(&mut self, f: Option<&[u8]>, a: Args<'_, '_>) -> TR<Pid> {
        self.0.run(f, a)
    }
    fn attach(&mut self, p: Pid) -> TR<()> {
        self.0.attach(p)
    }
    fn query_if_attached(&mut self, p: Pid) -> TR<AttachKind> {
        self.0.query_if_attached(p)
    }
    fn kill(&mut self, p: Option<Pid>) -> TR<ShouldTerminate> {
        self.0.kill(p)
    }
    fn restart(&mut self) -> Result<(), u8> {
        self.0.restart()
    }
}
impl SectionOffsets for Given {
    fn get_section_offsets(&mut self) -> Result<Offsets<u32>, u8> {
        self.0.get_section_offsets()
    }
}
impl TargetDescriptionXmlOverride for Given {
    fn target_description_xml(&self, annex: &[u8], off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        self.0.target_description_xml(annex, off, len, buf)
    }
}
impl MemoryMap for Given {
    fn memory_map_xml(&self, off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        self.0.memory_map_xml(off, len, buf)
    }
}
impl ExecFile for Given {
    fn get_exec_file(&self, p: Option<Pid>, off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        self.0.get_exec_file(p, off, len, buf)
    }
}
impl Auxv for Given {
    fn get_auxv(&self, off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        self.0.get_auxv(off, len, buf)
    }
}
impl LibrariesSvr4 for Given {
    fn get_libraries_svr4(&self, off: u64, len: usize, buf: &mut [u8]) -> TR<usize> {
        self.0.get_libraries_svr4(off, len, buf)
    }
}
impl LldbRegisterInfoOverride for Given {
    fn lldb_register_info<'a>(&mut self, id: usize, cb: Callback<'a>) -> Result<CallbackToken<'a>, u8> {
        self.0.lldb_register_info(id, cb)
    }
}
impl CatchSyscalls for Given {
    fn enable_catch_syscalls(&mut self, f: Option<SyscallNumbers<'_, u32>>) -> TR<()> {
        self.0.enable_catch_syscalls(f)
    }
    fn disable_catch_syscalls(&mut self) -> TR<()> {
        self.0.disable_catch_syscalls()
    }
}
impl Tracepoints for Given {
    fn tracepoints_init(&mut self) -> TR<()> {
        self.0.tracepoints_init()
    }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<u32>) -> TR<()> {
        self.0.tracepoint_create_begin(t)
    }
    fn tracepoint_create_continue(&mut self, t: Tracepoint, a: &TracepointAction<'_, u32>) -> TR<()> {
        self.0.tracepoint_create_continue(t, a)
    }
    fn tracepoint_create_complete(&mut self, t: Tracepoint) -> TR<()> {
        self.0.tracepoint_create_complete(t)
    }
    fn tracepoint_status(&self, t: Tracepoint, a: u32) -> TR<TracepointStatus> {
        self.0.tracepoint_status(t, a)
    }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<u32> {
        self.0.tracepoint_enumerate_state()
    }
    fn tracepoint_enumerate_start(&mut self, t: Option<Tracepoint>, f: &mut dyn FnMut(&NewTracepoint<u32>)) -> TR<TracepointEnumerateStep<u32>> {
        self.0.tracepoint_enumerate_start(t, f)
    }
    fn tracepoint_enumerate_action(&mut self, t: Tracepoint, s: u64, f: &mut dyn FnMut(&TracepointAction<'_, u32>)) -> TR<TracepointEnumerateStep<u32>> {
        self.0.tracepoint_enumerate_action(t, s, f)
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TR<()> {
        self.0.trace_buffer_configure(c)
    }
    fn trace_buffer_request(&mut self, o: u64, l: usize, f: &mut dyn FnMut(&mut [u8])) -> TR<()> {
        self.0.trace_buffer_request(o, l, f)
    }
    fn trace_experiment_status(&self, f: &mut dyn FnMut(ExperimentStatus<'_>)) -> TR<()> {
        self.0.trace_experiment_status(f)
    }
    fn trace_experiment_info(&self, f: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TR<()> {
        self.0.trace_experiment_info(f)
    }
    fn trace_experiment_start(&mut self) -> TR<()> {
        self.0.trace_experiment_start()
    }
    fn trace_experiment_stop(&mut self) -> TR<()> {
        self.0.trace_experiment_stop()
    }
    fn select_frame(&mut self, q: FrameRequest<u32>, f: &mut dyn FnMut(FrameDescription)) -> TR<()> {
        self.0.select_frame(q, f)
    }
}

fn answers() {
    script();
    r().threads = [1, 2, 3, 4];
    for i in 0..2 {
        r().src[i] = any();
        assume(r().src[i] < 128);
    }
}
/// one command, and what a client sends before it
fn lone(what: &[&[u8]]) {
    r().caps = DEFAULTS | GUARD | if pick(2) == 1 { MULTI } else { 0 };
    // an architecture that describes no registers to LLDB
    r().sel = 0;
    same(|| exchange(M::new(), Conn, what), || exchange(Lone(M::new()), Conn, what));
}
fn given(what: &[&[u8]]) {
    r().caps = GIVEN | if pick(2) == 1 { MULTI } else { 0 };
    same(|| exchange(M::new(), Conn, what), || exchange(Given(M::new()), Conn, what));
}
fn each(all: bool, lo: u8, hi: u8) {
    let c = CMDS[(lo + pick(hi - lo)) as usize].as_bytes();
    answers();
    match pick(2) {
        0 if all => given(&[c]),
        0 => lone(&[c]),
        _ if all => given(&[b"QStartNoAckMode", c]),
        _ => lone(&[b"QStartNoAckMode", c]),
    }
}
fn resuming(all: bool) {
    const W: [[&[u8]; 2]; 10] = [
        [b"vCont;c", b"?"],
        [b"vCont;c:1", b"m20,4"],
        [b"vCont;s:1", b"g"],
        [b"vCont;s", b"m20,4"],
        [b"vCont;r10,20:1", b"?"],
        [b"c", b"m20,4"],
        [b"s", b"m20,4"],
        [b"bc", b"m20,4"],
        [b"bs", b"m20,4"],
        [b"vCont;C05:1", b"m20,4"],
    ];
    let w = W[pick(10) as usize];
    answers();
    if all {
        given(&w)
    } else {
        lone(&w)
    }
}
/// what is said to a client about a target with all or nothing, literally
fn told() {
    let all = pick(2) == 1;
    answers();
    r().caps = if all { GIVEN } else { DEFAULTS | GUARD };
    r().sel = 0;
    let e = if all { exchange(Given(M::new()), Conn, &[b"qSupported:multiprocess+"]) } else { exchange(Lone(M::new()), Conn, &[b"qSupported:multiprocess+"]) };
    ck!(e == End { st: St::Idle, err: None });
    // run-length encoding is on: decoded here
    let o = decoded();
    let has = |x: &[u8]| {
        let mut i = 0;
        let mut f = false;
        while i + x.len() <= o.n {
            let mut k = 0;
            while k < x.len() && o.b[i + k] == x[k] {
                k += 1;
            }
            f |= k == x.len() && (i + k == o.n || o.b[i + k] == b';');
            i += 1;
        }
        f
    };
    ck!(has(b"QStartNoAckMode+"));
    ck!(has(b"vContSupported+"));
    ck!(has(b"multiprocess+"));
    ck!(has(b"swbreak+") == false);
    ck!(has(b"hwbreak+") == false);
    ck!(has(b"ReverseContinue+") == false);
    ck!(has(b"ReverseStep+") == false);
    ck!(has(b"QDisableRandomization+") == false);
    ck!(has(b"QEnvironmentHexEncoded+") == false);
    ck!(has(b"QStartupWithShell+") == false);
    ck!(has(b"QSetWorkingDir+") == false);
    ck!(has(b"TracepointSource+") == false);
    for x in [&b"qXfer:features:read+"[..], b"qXfer:memory-map:read+", b"qXfer:auxv:read+", b"qXfer:exec-file:read+", b"qXfer:libraries-svr4:read+", b"QCatchSyscalls+"] {
        ck!(has(x) == all);
    }
}
struct Out {
    b: [u8; 600],
    n: usize,
}
/// the body of the only reply, without run-length encoding
fn decoded() -> Out {
    let mut o = Out { b: [0; 600], n: 0 };
    let mut i = 0;
    while i < r().nout && r().out[i] != b'$' {
        i += 1;
    }
    i += 1;
    while i < r().nout && r().out[i] != b'#' {
        let c = r().out[i];
        if c == b'*' {
            let mut k = r().out[i + 1].wrapping_sub(29);
            i += 1;
            while k > 0 && o.n < 600 {
                o.b[o.n] = o.b[o.n - 1];
                o.n += 1;
                k -= 1;
            }
        } else if o.n < 600 {
            o.b[o.n] = c;
            o.n += 1;
        }
        i += 1;
    }
    o
}
/// without opting in, nothing starts
fn refused() {
    answers();
    r().caps = if pick(2) == 1 { MULTI } else { 0 };
    let e = exchange(Bare(M::new()), Conn, &[b"?"]);
    ck!(e == End { st: St::Dead, err: Some(Err::Other) });
    ck!(r().nout == 0 && r().starts == 0 && r().nev == 0 && r().nflush == 0);
}
/// a thread is alive if the target says so, and only it is asked about
fn asked() {
    answers();
    r().caps = MULTI;
    r().flag = pick(2) == 1;
    r().lfail = pick(2) == 1;
    r().code = any();
    r().nthreads = pick(4) as usize;
    let t = any16();
    assume(t != 0);
    let mut b = Bs::new();
    b.s("Tp1.");
    hex_num(&mut b, t as u64);
    let e = exchange(Alive(M::new()), Conn, &[b.sl()]);
    ck!(r().nev == 1 && r().ev[0].op == O_LIST && r().ev[0].a == t as u64);
    if r().lfail {
        ck!(e == End { st: St::Dead, err: Some(Err::Target(r().code)) });
        return;
    }
    ck!(e == End { st: St::Idle, err: None });
    let w: &[u8] = if r().flag { b"+$OK#9a" } else { b"+$E01#a6" };
    ck!(r().nout == w.len());
    let mut ok = true;
    for i in 0..w.len() {
        ok &= r().out[i] == w[i];
    }
    ck!(ok);
    ck!(r().flushed == r().nout);
}
/// asked about a thread, with nothing but the list
fn listed() {
    answers();
    r().caps = DEFAULTS | GUARD | MULTI;
    r().nthreads = pick(5) as usize;
    for i in 0..4 {
        r().threads[i] = any16() as usize;
        assume(r().threads[i] != 0);
    }
    r().lfail = pick(2) == 1;
    r().code = any();
    let t = any16();
    assume(t != 0);
    let mut there = false;
    for i in 0..4 {
        there |= i < r().nthreads && r().threads[i] == t as usize;
    }
    let mut b = Bs::new();
    b.s("Tp1.");
    hex_num(&mut b, t as u64);
    let e = exchange(Lone(M::new()), Conn, &[b.sl()]);
    if r().lfail {
        ck!(e == End { st: St::Dead, err: Some(Err::Target(r().code)) });
        return;
    }
    ck!(e == End { st: St::Idle, err: None });
    let n = r().nout;
    ck!(n == if there { 7 } else { 8 });
    ck!(r().out[2] == if there { b'O' } else { b'E' });
}
fn hex_num(b: &mut Bs, v: u64) {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        b.b(hx((v >> (4 * i)) as u8 & 15));
    }
}

/// a connection with nothing optional
struct Narrow;
impl Connection for Narrow {
    type Error = u8;
    fn write(&mut self, b: u8) -> Result<(), u8> {
        Conn.write(b)
    }
    fn flush(&mut self) -> Result<(), u8> {
        Conn.flush()
    }
}
impl ConnectionExt for Narrow {
    fn read(&mut self) -> Result<u8, u8> {
        Conn.read()
    }
    fn peek(&mut self) -> Result<Option<u8>, u8> {
        Conn.peek()
    }
}
/// many bytes at once are those bytes one by one, up to the first that fails
fn bytes() {
    let n = pick(7) as usize;
    let mut b = [0u8; 6];
    for x in b.iter_mut() {
        *x = any();
    }
    r().code = any();
    r().cfail_at = pick(8) as usize;
    let at = r().cfail_at;
    let e = Narrow.write_all(&b[..n]);
    if at < n {
        ck!(e == Err(r().code));
        ck!(r().nout == at && r().natt == at + 1 && r().after == 0);
    } else {
        ck!(e == Ok(()));
        ck!(r().nout == n && r().natt == n);
    }
    let mut ok = true;
    let mut i = 0;
    while i < r().nout {
        ok &= r().out[i] == b[i];
        i += 1;
    }
    ck!(ok);
    ck!(r().nflush == 0);
    ck!(r().nev == 0);
    let natt = r().natt;
    ck!(Narrow.on_session_start() == Ok(()));
    ck!(r().natt == natt && r().starts == 0);
}
/// and a session over it sends what one over any other connection sends
fn session() {
    let k = pick(N) as usize;
    answers();
    r().caps = crate::err::caps(pick(2));
    if pick(2) == 1 {
        r().wfail_at = any() as usize;
        r().code = any();
    }
    r().starts = 0;
    same(
        || exchange(M::new(), Conn, &[CMDS[k].as_bytes()]),
        || {
            let e = exchange(M::new(), Narrow, &[CMDS[k].as_bytes()]);
            // (the other one counts how often it is told of the start)
            ck!(r().starts == 0);
            r().starts = 1;
            e
        },
    );
}
harness! {
fn df_lone_a() { each(false, 0, 43) }
fn df_lone_b() { each(false, 43, N) }
fn df_given_a() { each(true, 0, 43) }
fn df_given_b() { each(true, 43, N) }
fn df_run_l() { resuming(false) }
fn df_run_g() { resuming(true) }
fn df_told() { told() }
fn df_refused() { refused() }
fn df_asked() { asked() }
fn df_listed() { listed() }
fn df_bytes() { bytes() }
fn df_session() { session() }
}
