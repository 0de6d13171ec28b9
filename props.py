#!/usr/bin/env python3
"""The properties, and the generator of properties.jsonl and MANIFEST.json.

    props.py            rewrite both files from this one and specs.py
"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
ALL = []


def P(id, title, statement, over, q, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    ALL.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": q}, "why_tests_cant": why,
        "anchors": {"files": files.split(), "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": ["Connection::write", "Target method calls", "returned Result"],
                    "hook_needed": None}})


CI = "src/stub/core_impl/"
PC = "src/protocol/commands/"

P("C01", "No bytes from a client can crash the stub or make it loop",
  "Whatever bytes a client sends, split however it likes and in whatever session state they arrive, delivering them never panics, overflows, reads or writes out of bounds, or fails to terminate: each byte is absorbed, answered, or turned into an error value handed to the embedding program. The same holds whatever byte counts, thread lists and values the target reports within its documented contract.",
  "inputs histories configurations", "every byte string (bounded length) after each command prefix and as a raw stream; idle, running; every extension on or off; 16/32/64-bit targets; packet buffers of every small size",
  "the unit tests feed a few dozen well-formed packets; nothing feeds malformed bodies, and no test drives a whole session at all",
  "src/protocol/commands.rs src/protocol/packet.rs src/protocol/recv_packet.rs src/protocol/common/hex.rs src/protocol/common/lists.rs src/protocol/common/thread_id.rs src/stub/core_impl.rs",
  [("every parser is total", "src/protocol/commands.rs commands!"), ("receive state machine", "src/protocol/recv_packet.rs pump"), ("unsafe buffer views", "src/protocol/packet.rs")])

P("C02", "A command is acted on once, when complete, independent of leftovers",
  "A command in a well-formed packet is acted on only once its last byte has arrived, exactly once, and what it does and answers depends only on its own bytes and on the documented session state, never on bytes left in the packet buffer by earlier packets or on an earlier command having failed. A packet that fits the packet buffer is taken in byte for byte; one that does not fit is rejected with an error, never truncated and acted on.",
  "inputs histories configurations", "histories of up to 3 exchanges of 9 kinds before any of 14 commands; arbitrary prior contents of the whole packet buffer; every split point; buffer sizes around the packet's length",
  "commands are parsed in place inside a reused buffer; tests parse each packet in a fresh one",
  "src/protocol/recv_packet.rs src/protocol/packet.rs src/protocol/commands.rs src/stub/state_machine.rs",
  [("RecvPacketStateMachine", "src/protocol/recv_packet.rs"), ("PacketBuf ranges", "src/protocol/packet.rs PacketBuf::new")],
  [("packet_buffer", "reused across packets", "src/stub/state_machine.rs")])

P("C03", "A packet with a wrong checksum is never acted on",
  "A packet takes effect only if the two characters after '#' are the hexadecimal digits, of either case, of the sum modulo 256 of the bytes between '$' and '#'. With any other two characters no target operation happens, nothing is sent, and the session ends with an error that blames neither target nor connection.",
  "inputs", "every pair of checksum characters (except the 'x' digit, left open) after bodies with arbitrary bytes, short and long, idle and running",
  "two literal packets are checksummed in the tests",
  "src/protocol/packet.rs src/protocol/recv_packet.rs src/protocol/common/hex.rs",
  [("checksum comparison", "src/protocol/packet.rs PacketBuf::new")])

P("C04", "Responses are framed correctly and run-length encoding loses nothing",
  "Every packet the stub sends is '$', a body, '#' and two lowercase hexadecimal digits of the sum modulo 256 of exactly the body bytes sent, and is flushed in full. When the target turns run-length encoding on, the body decodes to exactly what is sent with it off, and no repeat count is '#', '$' or above 126.",
  "inputs configurations", "replies with arbitrary data; runs of every length up to 160 characters between arbitrary neighbours; binary data",
  "the encoder's few unit tests use fixed runs; the special-cased run lengths and their neighbours are not all among them",
  "src/protocol/response_writer.rs", [("ResponseWriter::write run-length buffer", "src/protocol/response_writer.rs write"), ("ResponseWriter::flush", "src/protocol/response_writer.rs flush")])

P("C05", "One acknowledgement and one response per command",
  "While acknowledgements are on, each command is answered with exactly one '+' followed by exactly one response packet (a resume command gets its response when the stop is reported); after the client turns them off - itself acknowledged and answered OK - no '+' is ever sent, and a target that does not offer the mode keeps acknowledging. A '+' from the client is ignored; a '-' ends the session with an error and nothing is sent.",
  "inputs histories configurations", "sequences of up to 4 exchanges of 6 kinds (including failing commands and resumptions), both modes",
  "no test runs a session",
  "src/stub/core_impl.rs src/stub/core_impl/no_ack_mode.rs src/stub/state_machine.rs",
  [("ack before dispatch", "src/stub/core_impl.rs handle_packet"), ("QStartNoAckMode", "src/stub/core_impl/no_ack_mode.rs")],
  [("no_ack flag", "set by QStartNoAckMode", "src/stub/core_impl.rs ProtocolFeatures")])

P("C06", "Memory reads return exactly the target's bytes for the asked range",
  "A read of n bytes at address a makes the target read addresses starting at a, for the thread selected for memory access, never more than n bytes in total, and answers with the lowercase hexadecimal of the bytes the target provided, in order, cut at the first byte it could not provide. A read too long for the packet buffer is served piecewise with the same result, as far as the end of the address space; an address wider than the target's is rejected without touching the target.",
  "inputs histories configurations", "all addresses of 16/32/64-bit targets in every digit count; lengths up to 40 and, piecewise, 80; every short count; arbitrary contents; failures at any piece",
  "one literal m packet is parsed in tests; the handler loop is not run at all",
  CI + "base.rs " + PC + "_m.rs src/internal/be_bytes.rs", [("chunk loop", CI + "base.rs Base::m")])

P("C07", "Memory writes store exactly the bytes sent, at the address sent",
  "A memory write, in the hexadecimal or the escaped binary form, makes the target write exactly the decoded payload at exactly the given address for the thread selected for memory access, once, and is answered OK only after the target accepted it. A write the target refuses is answered with its error, and an address wider than the target's is rejected without touching the target.",
  "inputs histories configurations", "all addresses of 16/32/64-bit targets in every digit count; payloads of up to 16 arbitrary bytes (9 in binary) and up to 64 with one arbitrary byte; every escape",
  "hex and escape decoding happen in place in the packet buffer; tests decode a handful of strings",
  CI + "base.rs " + CI + "x_upcase_packet.rs " + PC + "_m_upcase.rs " + PC + "_x_upcase.rs src/protocol/common/hex.rs",
  [("in-place decode", "src/protocol/common/hex.rs decode_hex_buf, decode_bin_buf")])

P("C08", "Whole-register-file reads and writes are faithful",
  "Reading all registers asks the target once, for the selected thread, and answers with every byte of its register block in order as two lowercase hexadecimal digits, or 'xx' for each byte it declares unavailable. Writing all registers hands the target, for the selected thread, exactly the block sent, and answers OK; a block the architecture cannot decode is rejected with an error without touching the target.",
  "inputs histories configurations", "register blocks of up to 16 arbitrary bytes with arbitrary unavailable bytes; written blocks shorter and longer than the architecture's; single- and multi-threaded",
  "no test calls the handlers", CI + "base.rs " + PC + "_g_upcase.rs", [("g/G handlers", CI + "base.rs")])

P("C09", "Single-register reads and writes reach exactly the named register",
  "Reading register n asks the target for that register of the selected thread only, and answers with exactly the bytes it provides, in hexadecimal, or with 'xx' for every byte of a known-size register it declares unavailable; a provided size different from the register's is an error. Writing register n hands the target exactly the decoded value and answers OK; a register number the architecture does not know gets the empty response and does not reach the target.",
  "inputs histories configurations", "every register number of up to 16 digits; values up to 6 bytes; sizes fixed and variable; every length the target may report",
  "no test calls the handlers", CI + "single_register_access.rs " + PC + "_p.rs " + PC + "_p_upcase.rs",
  [("p/P handlers", CI + "single_register_access.rs inner")])

P("C10", "Breakpoint packets reach the right operation with the right arguments",
  "Inserting or removing a breakpoint of type 0 (software), 1 (hardware) or 2/3/4 (write/read/access watchpoint) calls exactly that operation once, with the address and kind or length sent, and answers OK if the target accepts, E16 if it declines, or its error. Types the target does not support or the protocol does not define get the empty response and reach nothing; addresses wider than the target's and kinds the architecture does not know are rejected with an error without reaching the target.",
  "inputs configurations", "all types 0..ff, all addresses of 16/32/64-bit targets in every digit count, all kinds; trailing condition lists; every subset of supported types",
  "two literal packets parsed; no handler test", CI + "breakpoints.rs " + PC + "breakpoint.rs",
  [("type dispatch", CI + "breakpoints.rs handle_breakpoint_common")])

P("C11", "Resume commands set exactly the requested actions, then resume once",
  "A resume request makes the target forget earlier actions, then set one action per listed thread with exactly the kind (continue, step, range step), signal and range sent, in order, and resume exactly once; with a single thread it makes exactly the one corresponding call. A request naming an action the target does not offer, a malformed action, or a default step for all threads ends in an error without the target being resumed, and the query for supported actions lists step and range step exactly when offered.",
  "inputs histories configurations", "lists of up to 3 actions of every kind with arbitrary signals, addresses and thread ids; legacy c/s with the thread selected for resumption; every subset of offered actions",
  "vCont parsing has one test; nothing exercises the target calls",
  CI + "resume.rs " + PC + "_vCont.rs " + PC + "_c.rs " + PC + "_s.rs", [("action loop", CI + "resume.rs do_vcont_multi_thread"), ("single-thread dispatch", CI + "resume.rs do_vcont_single_thread")])

P("C12", "Reverse execution reaches only targets that support it",
  "Reverse continue and reverse step, where the target offers them, each make exactly one call - reverse step for the thread selected for resumption - and leave the session running without a response until the stop is reported. Where the target does not offer them the client gets the empty response and nothing is executed; a reverse step while 'all threads' are selected is an error.",
  "inputs histories configurations", "every subset of reverse support; arbitrary selected threads; single- and multi-threaded; target failures",
  "untested", CI + "reverse_exec.rs " + PC + "_bc.rs " + PC + "_bs.rs", [("ReverseContOps/ReverseStepOps", CI + "reverse_exec.rs")])

P("C13", "Stop replies report exactly the stop the target reported",
  "Each stop reason handed to the stub produces the one stop reply the protocol defines for it - signal, thread, breakpoint kind, watch kind and address, system call number and direction, replay-log end, exit code or terminating signal - and nothing else. A reason that names a thread makes it the thread that later register, memory and default resume operations act on; a reason the target's declared support does not cover is an error and sends no packet.",
  "inputs configurations histories", "every stop reason with arbitrary signal, thread, address and number, single- and multi-threaded forms, 16/32/64-bit, multiprocess on and off, every subset of the support it depends on",
  "untested", CI + "resume.rs src/stub/stop_reason.rs", [("finish_exec", CI + "resume.rs"), ("single-thread conversion", "src/stub/stop_reason.rs")],
  [("current threads", "thread of the last stop", "src/stub/core_impl.rs current_mem_tid, current_resume_tid")])

P("C14", "The session state follows the protocol, and interrupts are never lost",
  "A session starts idle, runs exactly from an accepted resume command to the stop report, and ends exactly on detach, kill, or a reported exit, whose reason it hands out; other commands while running are answered and leave it running. An interrupt byte always surfaces to the embedding program; a stop reason given for one received while idle is reported as soon as the client next resumes, a reason given while running is reported at once, and giving none leaves the session where it was.",
  "histories inputs", "sequences of up to 5 events (commands, interrupt bytes, stop reports, interrupt outcomes, return to idle) in every order",
  "no test drives the state machine", "src/stub/state_machine.rs src/stub/core_impl.rs",
  [("state transitions", "src/stub/state_machine.rs incoming_data, report_stop, interrupt_handled, return_to_idle")],
  [("deferred_ctrlc_stop_reason", "reason to report on next resume", "src/stub/state_machine.rs state::Idle")])

P("C15", "Thread selection affects exactly the operations it names",
  "After the client selects thread t for register and memory access, every such operation acts on t and legacy resumption is unaffected, and vice versa when it selects t for resumption; selecting 'any' picks the first thread the target lists, or reports an error if there is none. Selections last until the next selection or stop report and have no effect on single-threaded targets' calls.",
  "inputs histories configurations", "sequences of up to 3 selections of both kinds with arbitrary thread ids (with and without process ids), followed by any of 6 operations",
  "untested beyond parsing", CI + "base.rs " + PC + "_h_upcase.rs src/protocol/common/thread_id.rs", [("Base::H", CI + "base.rs")],
  [("current_mem_tid/current_resume_tid", "selected threads", "src/stub/core_impl.rs")])

P("C16", "Thread queries answer from the target's own thread list",
  "Listing threads reports every active thread exactly once, in the target's order, with the current process id when multiprocess ids were negotiated, and ends the list; asking whether a thread is alive answers OK or E01 as the target says for exactly that thread; extra thread information is the hexadecimal of what the target wrote for exactly that thread. The initial stop query names the first active thread, and the current-thread query names the thread selected for memory access or, before any selection, the first active one.",
  "inputs configurations", "up to 3 threads with arbitrary ids; arbitrary queried ids with and without process ids; multiprocess on and off; arbitrary process ids; target failures",
  "untested", CI + "base.rs " + CI + "thread_extra_info.rs " + CI + "extended_mode.rs src/protocol/response_writer.rs",
  [("qfThreadInfo/T/?", CI + "base.rs"), ("thread id rendering", "src/protocol/response_writer.rs write_specific_thread_id")])

P("C17", "Advertised features are exactly those the target supports",
  "The reply to the feature negotiation lists the packet buffer's size, vCont and multiprocess support, and each optional feature exactly when the target supports it, each once; the client's multiprocess+ or multiprocess- switches thread-id rendering accordingly, unknown client features are ignored, and negotiating changes nothing else. Every optional feature so advertised gets a non-empty answer when used.",
  "configurations inputs", "every combination of the target's optional extensions (symbolic capability set); arbitrary client feature names",
  "untested", CI + "base.rs " + PC + "_qSupported.rs", [("qSupported", CI + "base.rs"), ("feature parsing", PC + "_qSupported.rs")])

P("C18", "Unsupported or unknown commands get the empty response and do nothing",
  "A command that belongs to an extension the target does not offer, and any packet that is no known command, is answered with the empty packet and causes no target operation, leaving the session as it was. A resume command for a target that cannot resume is, if the target left that default on, answered with an explanatory console message and a stop reply instead.",
  "inputs configurations", "every extension command against targets without the extension (or without that sub-feature); arbitrary packets starting with unknown characters",
  "untested", "src/protocol/commands.rs src/stub/core_impl.rs", [("commands! extension gating", "src/protocol/commands.rs"), ("Command::Unknown", "src/stub/core_impl.rs")])

P("C19", "Target failures reach the client, or the caller, unchanged",
  "When a target operation fails before reporting any of its result, a non-fatal error is answered E79, an error number is answered with exactly that number, an I/O error with its OS error number (E79 if it has none), and the session goes on with its settings as they were before the command; a fatal error (including a failing resume, thread list or process id) sends no complete response and is handed to the embedding program unchanged. OK is never sent for an operation that failed. (Host file requests answer failures in their own form, see C21.)",
  "inputs fault_sequences configurations", "every kind of failure with every code, at each of the first calls of 86 commands of every extension, in resumption, listing and naming, single- and multi-threaded",
  "no test has a failing target", "src/stub/error.rs src/stub/core_impl.rs " + CI + "target_result_ext.rs src/target/mod.rs",
  [("TargetResultExt::handle_error", "src/stub/core_impl/target_result_ext.rs"), ("NonFatalError reply", "src/stub/core_impl.rs handle_packet")])

P("C20", "Bulk object reads pass offset and length through and escape data",
  "A bulk read (target description, memory map, executable name, auxiliary vector, libraries) asks the target for exactly the offset and length sent, and answers 'l' if it provided nothing or 'm' followed by exactly the bytes it provided, escaped so that a client decodes them exactly and no '#', '$' or '*' appears raw. The architecture's built-in description is served so that reading consecutive pieces reproduces its whole text (but for white space around it) and then ends; annexes the object does not have are rejected with an error.",
  "inputs configurations histories", "arbitrary 64-bit offsets and lengths, up to 6 arbitrary data bytes, every object, description texts read in pieces of every size",
  "offset/length parsing has no test; serving is untested", CI + "target_xml.rs " + CI + "memory_map.rs " + CI + "auxv.rs " + CI + "exec_file.rs " + CI + "libraries.rs src/protocol/common/qxfer.rs src/protocol/response_writer.rs",
  [("qXfer parsing", "src/protocol/common/qxfer.rs"), ("write_binary", "src/protocol/response_writer.rs")])

P("C21", "Host file requests carry their arguments and results exactly",
  "Each file request calls exactly the named operation once with exactly the path, descriptor, flags, mode, offset, count and data sent, and its result is rendered as the protocol defines: the value in hexadecimal, data escaped, a file's status as the 64-byte big-endian structure, an error as -1 and the error number. Flags or modes the protocol does not define are rejected without reaching the target.",
  "inputs configurations", "arbitrary descriptors, flags, modes, offsets, counts, paths and data (bounded length), every result and error number",
  "untested beyond a parse", CI + "host_io.rs " + PC + "_vFile_open.rs " + PC + "_vFile_pread.rs " + PC + "_vFile_pwrite.rs src/target/ext/host_io.rs", [("host_io handlers", CI + "host_io.rs")])

P("C22", "Extended-mode requests carry their arguments exactly",
  "Run, attach, restart, the 'is attached' query, and the settings for environment, working directory, address randomisation and startup shell each call exactly the corresponding operation once with exactly the decoded program name, arguments, process id, name, value, directory or switch, and are answered as the protocol defines. An absent program name, value or directory is passed on as absent, not as empty, and a malformed request does not reach the target.",
  "inputs configurations", "up to 3 arguments of arbitrary bytes, arbitrary ids and names, both switch values, with and without each sub-extension",
  "one parse test each for some", CI + "extended_mode.rs " + PC + "_vRun.rs " + PC + "_vAttach.rs " + PC + "_QEnvironmentHexEncoded.rs " + PC + "_QSetWorkingDir.rs", [("extended_mode handlers", CI + "extended_mode.rs"), ("Args iterator", PC + "_vRun.rs")])

P("C23", "Tracepoint definitions reach the target exactly as sent",
  "Defining a tracepoint hands the target exactly the number, address, enablement, step and pass count sent, and each action of a continuation, in order, with exactly its register mask or expression bytes, and completes the definition exactly when the client says no more follow. Source strings are handed over with exactly their kind, offset, length and bytes. A malformed definition or source string does not reach the target; a continuation that is malformed, or uses actions the library does not implement (memory ranges, while-stepping), is refused and never completes the definition.",
  "inputs configurations", "arbitrary numbers, 16/32/64-bit addresses and counts, up to 2 actions of every kind per packet with arbitrary bytes",
  "untested", CI + "tracepoints.rs " + PC + "_QTDP.rs " + PC + "_QTDPsrc.rs", [("QTDP parsing", CI + "tracepoints.rs"), ("QTDPsrc", PC + "_QTDPsrc.rs")])

P("C24", "Trace status, frames, buffers and uploads are reported exactly",
  "Starting, stopping and clearing trace experiments, configuring and reading the trace buffer, selecting frames and querying status each call exactly the corresponding operation with exactly the arguments sent and render exactly what the target reports. Uploading tracepoints enumerates them in the order the target's stepping dictates, each definition, action and source string rendered exactly once, and then ends the list.",
  "inputs configurations histories", "arbitrary arguments and reported values; upload sequences of up to 5 steps in every order the target may dictate",
  "untested", CI + "tracepoints.rs src/target/ext/tracepoints.rs", [("tracepoint handlers", CI + "tracepoints.rs")],
  [("TracepointEnumerateState", "cursor of the upload", "src/target/ext/tracepoints.rs")])

P("C25", "Monitor commands and their output pass through byte for byte",
  "A monitor command reaches the target exactly once with exactly the decoded bytes, and every byte the target prints arrives at the client, in order and unaltered, in console-output packets sent before the final OK. A client never sees an empty console packet, and a malformed command does not reach the target.",
  "inputs configurations", "commands of up to 8 arbitrary bytes; output of up to 8 arbitrary bytes in pieces with flushes anywhere; with and without heap allocation",
  "untested", CI + "monitor_cmd.rs src/protocol/console_output.rs " + PC + "_qRcmd.rs", [("ConsoleOutput buffering and Drop", "src/protocol/console_output.rs")])

P("C26", "System-call catching is configured exactly as asked",
  "Turning syscall catching on hands the target exactly the listed numbers, in order, or 'all' when the list is absent; turning it off calls the off operation; each is answered OK once the target accepted it. A malformed request does not reach the target.",
  "inputs configurations", "lists of up to 3 arbitrary numbers of the target's width; both switch values; arbitrary malformed bodies",
  "untested", CI + "catch_syscalls.rs " + PC + "_QCatchSyscalls.rs", [("SyscallNumbers", "src/target/ext/catch_syscalls.rs")])

P("C27", "Section offsets and the process identity are reported exactly",
  "The section-offset query reports exactly the text, data and bss (defaulting to data) offsets or the text and data segment addresses the target gives, in hexadecimal without loss. The attach query answers 1 unless an extended-mode target says it started that process itself.",
  "inputs configurations", "arbitrary 16/32/64-bit offsets, all four shapes; arbitrary process ids", "untested", CI + "section_offsets.rs " + CI + "base.rs", [("qOffsets", CI + "section_offsets.rs"), ("qAttached", CI + "base.rs"), ("write_num", "src/protocol/response_writer.rs")])

P("C28", "Register blocks of the supplied architectures round-trip",
  "For every register file type supplied with the library, writing a register file out and reading it back gives the same register file, the written block has the architecture's fixed size with every register at its place in the order GDB documents, little-endian (PowerPC: big-endian), and reading a block that is too short is an error, never a panic.",
  "inputs", "arbitrary contents of every register of every supplied architecture; blocks of every shorter length; trailing bytes",
  "the round-trip tests use one random sample for some x86 and ppc types", "gdbstub_arch/src/x86/reg/core64.rs gdbstub_arch/src/x86/reg/core32.rs gdbstub_arch/src/arm/reg/arm_core.rs gdbstub_arch/src/aarch64/reg/aarch64_core.rs gdbstub_arch/src/riscv/reg/riscv.rs gdbstub_arch/src/mips/reg/mips.rs gdbstub_arch/src/msp430/reg/msp430.rs gdbstub_arch/src/ppc/reg/common.rs",
  [("gdb_serialize/gdb_deserialize", "gdbstub_arch/src/*/reg/*.rs")])

P("C29", "Register numbers and sizes agree with the register block layout",
  "For every architecture supplied with the library that has register numbers, the numbers of the registers in its whole-register block denote them in block order, each with exactly the number of bytes that register occupies there; numbers beyond the block are known exactly where the architecture defines further registers (RISC-V floating point and control registers, AArch64 system registers), and any other number is unknown. Numbers and sizes agree with the built-in target description. Breakpoint kinds map to exactly the instruction sets they stand for.",
  "inputs", "every register number (symbolic, full width) of every supplied architecture", "some x86 and riscv tables have a consistency test, others have none",
  "gdbstub_arch/src/x86/reg/id.rs gdbstub_arch/src/arm/reg/id.rs gdbstub_arch/src/aarch64/reg/id.rs gdbstub_arch/src/riscv/reg/id.rs gdbstub_arch/src/mips/reg/id.rs gdbstub_arch/src/msp430/reg/id.rs",
  [("RegId::from_raw_id", "gdbstub_arch/src/*/reg/id.rs")])

P("C30", "LLDB register descriptions render every field exactly",
  "A register-info query for register n asks for exactly register n and renders every field the target describes - names, size, offset, encoding, format, set, numbering, generic role, containers and invalidations - each exactly once with its value, omitting absent ones; the end of the register list is reported as E45.",
  "inputs configurations", "arbitrary register numbers, sizes, offsets and numbers, every encoding, format, role and subset of optional fields; override and architecture-provided",
  "untested", CI + "lldb_register_info.rs " + PC + "_qRegisterInfo.rs src/arch.rs", [("qRegisterInfo", CI + "lldb_register_info.rs")])

P("C31", "A session can only be set up with a usable buffer and target",
  "Building a stub over a borrowed packet buffer, or the requested number of its first bytes, uses exactly those bytes and advertises exactly that size; asking for more than the buffer has fails with an error, as does building without a buffer where there is no heap. With a heap the stub allocates a buffer of the requested size (4096 by default) and advertises that size. Starting a session calls the connection's session-start hook exactly once, reports its failure as a connection error, and refuses a target that implicitly lacks software breakpoints unless it opted out.",
  "configurations inputs", "every buffer size up to 300 and arbitrary larger; every build order; failing hooks", "untested", "src/stub/builder.rs src/stub/mod.rs",
  [("GdbStubBuilder::build", "src/stub/builder.rs"), ("run_state_machine", "src/stub/mod.rs")])

P("C32", "Detach, kill and exit end the session with the right reason",
  "A detach is answered OK and ends the session as a detach; a kill ends it as a kill, without a response on targets outside extended mode, and in extended mode calls the target's kill once, with the process id sent if any, and ends the session only if the target says so. A reported exit or terminating signal ends the session with exactly that code or signal; a finished session can be returned to idle and used again.",
  "inputs configurations histories", "arbitrary process ids, exit codes and signals; both kill forms; both answers; idle and running", "untested", CI + "base.rs src/stub/state_machine.rs src/stub/stop_reason.rs",
  [("D/k/vKill", CI + "base.rs"), ("DisconnectReason", "src/stub/mod.rs")])

P("C33", "The blocking loop delivers every byte and event exactly once",
  "The blocking loop reads one byte at a time from the connection while the target is stopped, asks the embedding program for the next event while it runs, hands each byte and stop reason on exactly once and in order, calls the interrupt hook once per interrupt, and returns exactly when the session ends, with its reason. A failing read, event wait, interrupt hook or target error ends the loop with exactly that error.",
  "histories fault_sequences inputs", "scripts of up to 4 commands and events of every kind; every failure position", "untested", "src/stub/mod.rs src/stub/state_machine.rs",
  [("GdbStub::run_blocking", "src/stub/mod.rs")])

P("C34", "A failing connection ends the session with that error",
  "If writing or flushing fails at any point of any response, the session ends with a connection error that carries the connection's own error value and says that writing failed, and nothing more is written or flushed. No target operation follows the failed write.",
  "fault_sequences inputs", "failure at every write and flush position (symbolic), in acknowledgements and responses of 86 commands of every extension, stop replies, console output, trace uploads, while idle and running, with and without run-length encoding and acknowledgements", "no test has a failing connection",
  "src/protocol/response_writer.rs src/stub/error.rs src/stub/core_impl.rs", [("error conversion", "src/stub/error.rs"), ("inner_write", "src/protocol/response_writer.rs")])

P("C35", "Integer byte conversions are exact or refuse",
  "Converting a number to big- or little-endian bytes and back is the identity for every width; decoding a shorter sequence zero-extends it, and decoding a longer one succeeds exactly when the excess high-order bytes are zero. Encoding into a buffer that is too small is refused.",
  "inputs", "every value of every supported integer width; byte strings of length 0 to 12", "two examples in tests", "src/internal/be_bytes.rs src/internal/le_bytes.rs",
  [("BeBytes", "src/internal/be_bytes.rs"), ("LeBytes", "src/internal/le_bytes.rs")])

P("C36", "A boxed or borrowed target behaves exactly like the target itself",
  "A session over a target passed by mutable reference or in a box makes exactly the same target calls and sends exactly the same bytes as a session over the target itself, for every capability and default the target overrides. The same holds for a boxed or borrowed connection.",
  "configurations inputs", "every capability (symbolic set) in negotiation; one command of every extension", "untested", "src/target/mod.rs src/conn/impls/mod.rs src/conn/impls/boxed.rs",
  [("impl_dyn_target!", "src/target/mod.rs"), ("Connection for &mut/Box", "src/conn/impls")])

P("C37", "Socket connections carry every byte once, in order, or fail",
  "Over TCP and Unix sockets, every byte written reaches the socket exactly once and in order, and a write returns only when all of it has been taken or the socket has failed, however the kernel splits or interrupts transfers and also right after a peek. read() returns the stream's bytes one by one; peek() never waits and never consumes, and returns the next byte exactly when there is one. The end of the stream is an error, never a byte; errors are the kernel's own. TCP sessions start with TCP_NODELAY.",
  "inputs fault_sequences schedules", "3 (thorough: 4) uses of a connection of 6 kinds; up to 3 arbitrary bytes arriving at any point, end of stream, interruptions, partial transfers of every size, failure of any of the first 8 system calls with any error", "no test uses a socket",
  "src/conn/impls/tcpstream.rs src/conn/impls/unixstream.rs src/conn/mod.rs", [("TcpStream", "src/conn/impls/tcpstream.rs"), ("UnixStream", "src/conn/impls/unixstream.rs")])

P("C38", "Built-in target descriptions are ones a client can use",
  "Every target description that comes with gdbstub is well-formed XML with one target element that names the architecture and contains the features, so that a client takes it as a description. The registers it lists are those of the architecture's register ids and register block: each number once, with the name, size and type that belong to it.",
  "inputs configurations", "all built-in descriptions in full", "no test reads a description; a client silently ignores one it cannot use",
  "gdbstub_arch/src/riscv/rv32i.xml gdbstub_arch/src/riscv/rv64i.xml gdbstub_arch/src/aarch64/core.xml gdbstub_arch/src/aarch64/fpu.xml gdbstub_arch/src/aarch64/sysregs.xml gdbstub_arch/src/aarch64/mod.rs gdbstub_arch/src/riscv/mod.rs gdbstub_arch/src/x86/mod.rs gdbstub_arch/src/mips/mod.rs gdbstub_arch/src/msp430/mod.rs gdbstub_arch/src/ppc/mod.rs gdbstub_arch/src/arm/mod.rs",
  [("Arch::target_description_xml", "gdbstub_arch/src/*/mod.rs")])

P("C39", "What a target leaves out gets the documented default",
  "A target, architecture or connection that does not override a provided method behaves exactly as one that overrides it with its documented default: negotiation, every command's answer, the calls made and the bytes sent are the same. A thread counts as alive exactly if the target's own liveness hook says so or, without one, if it is in the list of active threads. A connection that writes single bytes sends a packet's bytes once each, in order, and stops at the first error.",
  "configurations inputs fault_sequences", "commands of every extension, idle and running, against targets, architectures and connections that override nothing", "the examples override nearly everything, and no test compares",
  "src/target/mod.rs src/target/ext/base/mod.rs src/target/ext/base/multithread.rs src/arch.rs src/conn/mod.rs",
  [("Target defaults", "src/target/mod.rs"), ("MultiThreadBase::is_thread_alive", "src/target/ext/base/multithread.rs"), ("Connection::write_all", "src/conn/mod.rs")])

P("C40", "Named signals, file flags and errno values are the protocol's",
  "Every named signal has the number and the name that GDB gives it, a number without a name is shown as such, and conversion between numbers and signals is the identity. The named open flags, file modes and error numbers of host file I/O have exactly the values the remote protocol defines, and unknown bits or numbers are not mistaken for known ones.",
  "inputs", "every 8-bit signal number; every flag, mode and errno constant", "untested", "src/common/signal.rs src/target/ext/host_io.rs",
  [("Signal", "src/common/signal.rs"), ("HostIoOpenFlags, HostIoOpenMode, HostIoErrno", "src/target/ext/host_io.rs")])

P("C41", "An error tells whose failure it was, and what failed",
  "A session error is a target error exactly if the target failed, a connection error exactly if the connection failed, and carries that error and, for a connection, the kind of operation that failed. Its text contains the underlying error's text. Failures that differ in kind have different texts; this includes the errors of setting up a session.",
  "fault_sequences inputs", "a failure of every kind of call, protocol errors of every kind, every builder error", "no test looks at an error", "src/stub/error.rs src/stub/builder.rs src/stub/mod.rs",
  [("GdbStubError", "src/stub/error.rs"), ("GdbStubBuilderError", "src/stub/builder.rs")])


def manifest():
    import specs
    checks, na = [], []
    for p in ALL:
        i = p["id"]
        if i in specs.PROPS:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": "symbolic execution of the compiled LLVM IR with z3 deciding branches and assertions, counterexamples replayed natively",
                           "level": "model_checking", "level_note": "bounded: holds for every input within " + specs.PROPS[i]["bounds"]})
        else:
            na.append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "check not built yet")})
    return {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
            "notes": "No hooks: harnesses drive the public API. Repairs of genuine defects are the commits starting with fix: in /repo; see known_findings.txt."}


if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in ALL:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
