From e8f050edf7a947be3f7f7ede6b1c22f2c178af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 01/21] fix: don't corrupt (or panic on) memory reads that span
 several chunks

When an 'm' request didn't fit the free space of the packet buffer, a
chunk the target could only partially read left a hole in the reply, a
failing chunk appended an error code to data that was already sent, and
running off the end of the address space overflowed. Report a partial
read instead.
---
 src/stub/core_impl/base.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index b42e1f0..f6e97da 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -293,17 +293,29 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 while n != 0 {
                     let chunk_size = n.min(buf.len());
 
+                    use num_traits::CheckedAdd;
                     use num_traits::NumCast;
 
-                    let addr = addr + NumCast::from(i).ok_or(Error::TargetMismatch)?;
+                    // the request may extend past the end of the address space
+                    let chunk_addr = match NumCast::from(i).and_then(|i| addr.checked_add(&i)) {
+                        Some(chunk_addr) => chunk_addr,
+                        None => break,
+                    };
                     let data = &mut buf[..chunk_size];
                     let data_len = match target.base_ops() {
-                        BaseOps::SingleThread(ops) => ops.read_addrs(addr, data),
+                        BaseOps::SingleThread(ops) => ops.read_addrs(chunk_addr, data),
                         BaseOps::MultiThread(ops) => {
-                            ops.read_addrs(addr, data, self.current_mem_tid)
+                            ops.read_addrs(chunk_addr, data, self.current_mem_tid)
                         }
                     }
-                    .handle_error()?;
+                    .handle_error();
+
+                    let data_len = match data_len {
+                        Ok(data_len) => data_len,
+                        // some data has already been sent, so report a partial read
+                        Err(Error::NonFatalError(_)) if i != 0 => break,
+                        Err(e) => return Err(e),
+                    };
 
                     n -= chunk_size;
                     i += chunk_size;
@@ -311,6 +323,12 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     // TODO: add more specific error variant?
                     let data = data.get(..data_len).ok_or(Error::PacketBufferOverflow)?;
                     res.write_hex_buf(data)?;
+
+                    // don't leave a hole in the reply if the target couldn't
+                    // read the entire chunk
+                    if data_len != chunk_size {
+                        break;
+                    }
                 }
                 HandlerStatus::Handled
             }
-- 
2.43.0


From bf70be29a9446b5c691a3a533c38162bcf396dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 02/21] fix: don't emit '$' as a run-length repeat count

---
 src/protocol/response_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/response_writer.rs b/src/protocol/response_writer.rs
index 42c2a20..1967c98 100644
--- a/src/protocol/response_writer.rs
+++ b/src/protocol/response_writer.rs
@@ -135,7 +135,7 @@ impl<'a, C: Connection + 'a> ResponseWriter<'a, C> {
                         }
                     }
                     // RLE would output an invalid char ('#' or '$')
-                    6 | 7 => {
+                    7 | 8 => {
                         self.inner_write(self.rle_char)?;
                         self.rle_repeat -= 1;
                         continue;
-- 
2.43.0


From c4120cee7474001d1fa1afed19453ee16b1a8bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 03/21] fix: don't drop a deferred stop reason on a later
 interrupt

---
 src/stub/state_machine.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/stub/state_machine.rs b/src/stub/state_machine.rs
index 4a41aaf..cc59bde 100644
--- a/src/stub/state_machine.rs
+++ b/src/stub/state_machine.rs
@@ -44,6 +44,7 @@ use crate::protocol::ResponseWriter;
 use crate::stub::error::GdbStubError;
 use crate::stub::error::InternalError;
 use crate::stub::stop_reason::IntoStopReason;
+use crate::stub::stop_reason::MultiThreadStopReason;
 use crate::target::Target;
 use managed::ManagedSlice;
 
@@ -169,6 +170,8 @@ struct GdbStubStateMachineReallyInner<'a, T: Target, C: Connection> {
     packet_buffer: ManagedSlice<'a, u8>,
     recv_packet: RecvPacketStateMachine,
     inner: GdbStubImpl<T, C>,
+    // stop reason that was already deferred when the current Ctrl-C interrupt was received
+    prev_deferred_stop_reason: Option<MultiThreadStopReason<<T::Arch as Arch>::Usize>>,
 }
 
 /// Core state machine implementation that is parameterized by various
@@ -200,6 +203,7 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                 packet_buffer: stub.packet_buffer,
                 recv_packet: RecvPacketStateMachine::new(),
                 inner: stub.inner,
+                prev_deferred_stop_reason: None,
             },
             state: state::Idle {
                 deferred_ctrlc_stop_reason: None,
@@ -239,9 +243,11 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::Idle<T>,
                     None => self.transition(state::Running {}).into(),
                 }
             }
-            State::CtrlCInterrupt => self
-                .transition(state::CtrlCInterrupt { from_idle: true })
-                .into(),
+            State::CtrlCInterrupt => {
+                self.i.prev_deferred_stop_reason = self.state.deferred_ctrlc_stop_reason;
+                self.transition(state::CtrlCInterrupt { from_idle: true })
+                    .into()
+            }
         })
     }
 }
@@ -326,15 +332,16 @@ impl<'a, T: Target, C: Connection> GdbStubStateMachineInner<'a, state::CtrlCInte
     ///   should send one of the stop reply packets (see Stop Reply Packets) to
     ///   GDB as a result of successfully stopping the program
     pub fn interrupt_handled(
-        self,
+        mut self,
         target: &mut T,
         stop_reason: Option<impl IntoStopReason<T>>,
     ) -> Result<GdbStubStateMachine<'a, T, C>, GdbStubError<T::Error, C::Error>> {
         if self.state.from_idle {
             // target is stopped - we cannot report the stop reason yet
+            let prev = self.i.prev_deferred_stop_reason.take();
             Ok(self
                 .transition(state::Idle {
-                    deferred_ctrlc_stop_reason: stop_reason.map(Into::into),
+                    deferred_ctrlc_stop_reason: stop_reason.map(Into::into).or(prev),
                 })
                 .into())
         } else {
-- 
2.43.0


From bc4aad8f20cdaa4750121e81eeafdeb5d3fc30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 04/21] fix: pass empty program arguments on in vRun

---
 src/protocol/commands/_QCatchSyscalls.rs |  4 +++-
 src/protocol/commands/_vRun.rs           |  2 +-
 src/protocol/common/lists.rs             | 14 +++++++++-----
 src/stub/core_impl/catch_syscalls.rs     |  1 +
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/protocol/commands/_QCatchSyscalls.rs b/src/protocol/commands/_QCatchSyscalls.rs
index 0991117..ce4bc3a 100644
--- a/src/protocol/commands/_QCatchSyscalls.rs
+++ b/src/protocol/commands/_QCatchSyscalls.rs
@@ -16,7 +16,9 @@ impl<'a> ParseCommand<'a> for QCatchSyscalls<'a> {
         match body {
             [b':', b'0'] => Some(QCatchSyscalls::Disable),
             [b':', b'1', b';', sysno @ ..] => {
-                Some(QCatchSyscalls::Enable(ArgListHex::from_packet(sysno)?))
+                Some(QCatchSyscalls::Enable(ArgListHex::from_packet(Some(
+                    sysno,
+                ))?))
             }
             [b':', b'1'] => Some(QCatchSyscalls::EnableAll),
             _ => None,
diff --git a/src/protocol/commands/_vRun.rs b/src/protocol/commands/_vRun.rs
index a4b619d..e20bc2f 100644
--- a/src/protocol/commands/_vRun.rs
+++ b/src/protocol/commands/_vRun.rs
@@ -19,7 +19,7 @@ impl<'a> ParseCommand<'a> for vRun<'a> {
             [] => None,
             s => Some(s as &[u8]),
         };
-        let args = body.next().unwrap_or(&mut []); // args are optional
+        let args = body.next(); // args are optional
 
         Some(vRun {
             filename,
diff --git a/src/protocol/common/lists.rs b/src/protocol/common/lists.rs
index 1f2bc88..08011c3 100644
--- a/src/protocol/common/lists.rs
+++ b/src/protocol/common/lists.rs
@@ -2,14 +2,18 @@ use crate::protocol::common::hex::decode_hex_buf;
 use crate::protocol::common::hex::is_hex;
 
 /// A wrapper type around a list of hex encoded arguments separated by `;`.
+///
+/// `None` is a list without arguments, which is not the same as a list with a
+/// single, empty argument.
 #[derive(Debug)]
-pub struct ArgListHex<'a>(&'a mut [u8]);
+pub struct ArgListHex<'a>(Option<&'a mut [u8]>);
 
 impl<'a> ArgListHex<'a> {
-    pub fn from_packet(args: &'a mut [u8]) -> Option<Self> {
+    pub fn from_packet(args: Option<&'a mut [u8]>) -> Option<Self> {
         // validate that args have valid hex encoding (with ';' delimiters).
         // this removes all the error handling from the lazy `Args` iterator.
-        if args.iter().any(|b| !(is_hex(*b) || *b == b';')) {
+        let is_valid = |b: &u8| is_hex(*b) || *b == b';';
+        if !args.iter().flat_map(|args| args.iter()).all(is_valid) {
             return None;
         }
         Some(Self(args))
@@ -17,11 +21,11 @@ impl<'a> ArgListHex<'a> {
 
     pub fn into_iter(self) -> impl Iterator<Item = &'a [u8]> + 'a {
         self.0
-            .split_mut(|b| *b == b';')
+            .into_iter()
+            .flat_map(|args| args.split_mut(|b| *b == b';'))
             // the `from_packet` method guarantees that the args are valid hex ascii, so this should
             // method should never fail.
             .map(|raw| decode_hex_buf(raw).unwrap_or(&mut []))
             .map(|s| s as &[u8])
-            .filter(|s| !s.is_empty())
     }
 }
diff --git a/src/stub/core_impl/catch_syscalls.rs b/src/stub/core_impl/catch_syscalls.rs
index 7f38222..7656754 100644
--- a/src/stub/core_impl/catch_syscalls.rs
+++ b/src/stub/core_impl/catch_syscalls.rs
@@ -26,6 +26,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let mut error = false;
                         let mut filter = sysno
                             .into_iter()
+                            .filter(|sysno| !sysno.is_empty())
                             .map(<T::Arch as Arch>::Usize::from_be_bytes)
                             .take_while(|x| {
                                 error = x.is_none();
-- 
2.43.0


From b8204116c93f86e73c7b3ca7b649d91370327a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 05/21] fix: QDisableRandomization:1 disables address space
 randomization

---
 src/stub/core_impl/extended_mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl/extended_mode.rs b/src/stub/core_impl/extended_mode.rs
index 703b3f8..08b58bb 100644
--- a/src/stub/core_impl/extended_mode.rs
+++ b/src/stub/core_impl/extended_mode.rs
@@ -93,7 +93,8 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             // --------- ASLR --------- //
             ExtendedMode::QDisableRandomization(cmd) if ops.support_configure_aslr().is_some() => {
                 let ops = ops.support_configure_aslr().unwrap();
-                ops.cfg_aslr(cmd.value).handle_error()?;
+                // the packet asks for randomization to be _disabled_
+                ops.cfg_aslr(!cmd.value).handle_error()?;
                 HandlerStatus::NeedsOk
             }
             // --------- Environment --------- //
-- 
2.43.0


From 17e9acfc3c693ca2bc169d4d2fe63725ef4f2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 06/21] fix: don't overflow on the length of a tracepoint
 expression

---
 src/stub/core_impl/tracepoints.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 1637698..c4e9452 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -161,10 +161,11 @@ impl<'a, U: BeBytes> ExtendTracepoint<'a, U> {
                     );
                     let len: usize =
                         decode_hex(len_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
-                    if rem.len() < len * 2 {
-                        return Err(Error::PacketParse(MalformedCommand));
-                    }
-                    let (expr_bytes, next_bytes) = rem.split_at_mut(len * 2);
+                    let expr_len = len
+                        .checked_mul(2)
+                        .filter(|expr_len| *expr_len <= rem.len())
+                        .ok_or(Error::PacketParse(MalformedCommand))?;
+                    let (expr_bytes, next_bytes) = rem.split_at_mut(expr_len);
                     let expr =
                         decode_hex_buf(expr_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
                     (f)(&TracepointAction::Expression {
-- 
2.43.0


From 7d53c0cb862f39745992afe03067a5a859c01e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 07/21] fix: don't hand the target a truncated list of syscalls
 to catch

---
 src/protocol/common/lists.rs         |  9 +++++++++
 src/stub/core_impl/catch_syscalls.rs | 21 +++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/protocol/common/lists.rs b/src/protocol/common/lists.rs
index 08011c3..9865a13 100644
--- a/src/protocol/common/lists.rs
+++ b/src/protocol/common/lists.rs
@@ -1,5 +1,6 @@
 use crate::protocol::common::hex::decode_hex_buf;
 use crate::protocol::common::hex::is_hex;
+use crate::protocol::common::hex::HexString;
 
 /// A wrapper type around a list of hex encoded arguments separated by `;`.
 ///
@@ -19,6 +20,14 @@ impl<'a> ArgListHex<'a> {
         Some(Self(args))
     }
 
+    /// The arguments as they were sent, i.e: without decoding them.
+    pub fn iter_hex(&self) -> impl Iterator<Item = HexString<'_>> {
+        self.0
+            .iter()
+            .flat_map(|args| args.split(|b| *b == b';'))
+            .map(HexString)
+    }
+
     pub fn into_iter(self) -> impl Iterator<Item = &'a [u8]> + 'a {
         self.0
             .into_iter()
diff --git a/src/stub/core_impl/catch_syscalls.rs b/src/stub/core_impl/catch_syscalls.rs
index 7656754..fb8cd37 100644
--- a/src/stub/core_impl/catch_syscalls.rs
+++ b/src/stub/core_impl/catch_syscalls.rs
@@ -23,21 +23,22 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 match cmd {
                     QCatchSyscalls::Disable => ops.disable_catch_syscalls().handle_error()?,
                     QCatchSyscalls::Enable(sysno) => {
-                        let mut error = false;
+                        // check every number up-front, so that the target is
+                        // never handed a truncated list.
+                        if sysno
+                            .iter_hex()
+                            .filter(|sysno| !sysno.0.is_empty())
+                            .any(|sysno| sysno.decode::<<T::Arch as Arch>::Usize>().is_err())
+                        {
+                            return Err(Error::TargetMismatch);
+                        }
+
                         let mut filter = sysno
                             .into_iter()
                             .filter(|sysno| !sysno.is_empty())
-                            .map(<T::Arch as Arch>::Usize::from_be_bytes)
-                            .take_while(|x| {
-                                error = x.is_none();
-                                !error
-                            })
-                            .flatten();
+                            .filter_map(<T::Arch as Arch>::Usize::from_be_bytes);
                         ops.enable_catch_syscalls(Some(SyscallNumbers { inner: &mut filter }))
                             .handle_error()?;
-                        if error {
-                            return Err(Error::TargetMismatch);
-                        }
                     }
                     QCatchSyscalls::EnableAll => ops.enable_catch_syscalls(None).handle_error()?,
                 }
-- 
2.43.0


From a39cba6c1f2de367a4a1c5419cddb8c14ad5e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 08/21] fix: don't send empty console packets when alloc is
 disabled

---
 src/protocol/console_output.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol/console_output.rs b/src/protocol/console_output.rs
index 0cc6d1c..ee8ec39 100644
--- a/src/protocol/console_output.rs
+++ b/src/protocol/console_output.rs
@@ -46,7 +46,9 @@ impl<'a> ConsoleOutput<'a> {
             if #[cfg(feature = "alloc")] {
                 self.buf.extend_from_slice(bytes);
             } else {
-                (self.callback)(bytes);
+                if !bytes.is_empty() {
+                    (self.callback)(bytes);
+                }
             }
         }
     }
-- 
2.43.0


From 8b3cf5bd77c30278cf62cd7ed24b2b77545d4e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 09/21] fix: stop sending monitor output once the connection
 failed

---
 src/stub/core_impl/monitor_cmd.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stub/core_impl/monitor_cmd.rs b/src/stub/core_impl/monitor_cmd.rs
index e4cfc1e..c2aab7b 100644
--- a/src/stub/core_impl/monitor_cmd.rs
+++ b/src/stub/core_impl/monitor_cmd.rs
@@ -22,6 +22,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
 
                 let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                 let mut callback = |msg: &[u8]| {
+                    // the connection is gone: nothing more can be sent.
+                    if err.is_err() {
+                        return;
+                    }
+
                     // TODO: replace this with a try block (once stabilized)
                     let e = (|| {
                         let mut res = ResponseWriter::new(res.as_conn(), use_rle);
-- 
2.43.0


From 7c3f54c88c2fe7384b523d9825a931094e9ffaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 10/21] fix: don't write on after the connection failed in the
 middle of a response

---
 src/stub/core_impl/base.rs               |  6 ++++++
 src/stub/core_impl/lldb_register_info.rs |  3 +++
 src/stub/core_impl/tracepoints.rs        | 12 +++++++++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index f6e97da..136ed51 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -259,6 +259,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
 
                 let mut err = Ok(());
                 regs.gdb_serialize(|val| {
+                    if err.is_err() {
+                        return;
+                    }
                     let res = match val {
                         Some(b) => res.write_hex_buf(&[b]),
                         None => res.write_str("xx"),
@@ -424,6 +427,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                         let mut first = true;
                         ops.list_active_threads(&mut |tid| {
+                            if err.is_err() {
+                                return;
+                            }
                             // TODO: replace this with a try block (once stabilized)
                             let e = (|| {
                                 if !first {
diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 676991d..5382589 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -22,6 +22,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             LldbRegisterInfo::qRegisterInfo(cmd) => {
                 let mut err = Ok(());
                 let cb = &mut |reg: Option<Register<'_>>| {
+                    if err.is_err() {
+                        return;
+                    }
                     let res = match reg {
                         // TODO: replace this with a try block (once stabilized)
                         Some(reg) => (|| {
diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index c4e9452..36fddc5 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -398,7 +398,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     // If the target implementation calls us multiple times, then
                     // we would erroneously serialize an invalid response. Guard
                     // against it in the simplest way.
-                    if has_status {
+                    if has_status || err.is_some() {
                         return;
                     }
                     if let Err(e) = status.write(res) {
@@ -411,6 +411,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 if has_status {
                     // Only bother trying to get info if we also have a status
                     ops.trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
+                        if err.is_some() {
+                            return;
+                        }
                         if let Err(e) = res
                             .write_str(";")
                             .map_err(|e| e.into())
@@ -503,6 +506,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let qTBuffer { offset, length } = buf;
                 let mut wrote: Result<bool, Error<T::Error, C::Error>> = Ok(false);
                 ops.trace_buffer_request(offset, length, &mut |data| {
+                    if wrote.is_err() {
+                        return;
+                    }
                     if let Err(e) = res.write_hex_buf(data) {
                         wrote = Err(e.into())
                     } else {
@@ -536,6 +542,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                 let mut any_results = false;
                 ops.select_frame(parsed_req, &mut |desc| {
+                    if err.is_err() {
+                        return;
+                    }
                     let e = (|| -> Result<_, _> {
                         match desc {
                             FrameDescription::FrameNumber(n) => {
@@ -555,6 +564,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     }
                 })
                 .handle_error()?;
+                err?;
                 if !any_results {
                     res.write_str("F-1")?;
                 }
-- 
2.43.0


From 85ab35c3c54f5ddefc52ded3ba1e11cccb86e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 11/21] fix: stop at the first tracepoint action the target
 refuses

---
 src/stub/core_impl/tracepoints.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 36fddc5..21881ee 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -465,6 +465,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let tp = extend_tracepoint.number;
                         let mut err: Option<Error<T::Error, C::Error>> = None;
                         let more = extend_tracepoint.actions(|action| {
+                            if err.is_some() {
+                                return;
+                            }
                             if let Err(e) =
                                 ops.tracepoint_create_continue(tp, action).handle_error()
                             {
-- 
2.43.0


From 4cc94c5ea7fa718ab6a7e812162331be398cf058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 12/21] fix: report a failed write of an architecture's LLDB
 register description

---
 src/stub/core_impl/lldb_register_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 5382589..5a61a60 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -129,13 +129,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         },
                     )
                     .map_err(Error::TargetError)?;
-                    err?;
                 } else if let Some(reg) = T::Arch::lldb_register_info(cmd.reg_id) {
                     match reg {
                         LLDBRegisterInfo::Register(reg) => cb(Some(reg)),
                         LLDBRegisterInfo::Done => cb(None),
                     };
                 }
+                err?;
                 HandlerStatus::Handled
             }
         };
-- 
2.43.0


From 4b6f061de2ca6694fad8dd97a6106835593a6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 13/21] fix: don't panic on an empty list of LLDB container or
 invalidated registers

---
 src/stub/core_impl/lldb_register_info.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 5a61a60..504c19a 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -90,17 +90,19 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             }
                             if let Some(c_regs) = reg.container_regs {
                                 res.write_str(";container-regs:")?;
-                                res.write_num(c_regs[0])?;
-                                for reg in c_regs.iter().skip(1) {
-                                    res.write_str(",")?;
+                                for (i, reg) in c_regs.iter().enumerate() {
+                                    if i != 0 {
+                                        res.write_str(",")?;
+                                    }
                                     res.write_num(*reg)?;
                                 }
                             }
                             if let Some(i_regs) = reg.invalidate_regs {
                                 res.write_str(";invalidate-regs:")?;
-                                res.write_num(i_regs[0])?;
-                                for reg in i_regs.iter().skip(1) {
-                                    res.write_str(",")?;
+                                for (i, reg) in i_regs.iter().enumerate() {
+                                    if i != 0 {
+                                        res.write_str(",")?;
+                                    }
                                     res.write_num(*reg)?;
                                 }
                             }
-- 
2.43.0


From 88859875b722251647d3c545460a4004b547d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 14/21] fix: AArch64: FPSR precedes FPCR in the register block

As in the target description (fpu.xml) and in AArch64RegId.
---
 gdbstub_arch/src/aarch64/reg/aarch64_core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
index e72f596..abe4a62 100644
--- a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
+++ b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
@@ -48,8 +48,8 @@ impl Registers for AArch64CoreRegs {
         for reg in self.v.iter() {
             write_bytes!(reg);
         }
-        write_bytes!(self.fpcr);
         write_bytes!(self.fpsr);
+        write_bytes!(self.fpcr);
     }
 
     fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
@@ -90,8 +90,8 @@ impl Registers for AArch64CoreRegs {
             .chunks_exact(core::mem::size_of::<u32>())
             .map(|c| u32::from_le_bytes(c.try_into().unwrap()));
 
-        self.fpcr = regs.next().ok_or(())?;
         self.fpsr = regs.next().ok_or(())?;
+        self.fpcr = regs.next().ok_or(())?;
 
         Ok(())
     }
-- 
2.43.0


From 9ea131a46701aeba783c9f830107483c6452264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 15/21] fix: ARM: the FPA registers F0-F7 are 12 bytes wide

---
 gdbstub_arch/src/arm/reg/id.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/arm/reg/id.rs b/gdbstub_arch/src/arm/reg/id.rs
index 10f7c26..08a4675 100644
--- a/gdbstub_arch/src/arm/reg/id.rs
+++ b/gdbstub_arch/src/arm/reg/id.rs
@@ -23,16 +23,20 @@ pub enum ArmCoreRegId {
 
 impl RegId for ArmCoreRegId {
     fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
+        let mut size = 4;
         let reg = match id {
             0..=12 => Self::Gpr(id as u8),
             13 => Self::Sp,
             14 => Self::Lr,
             15 => Self::Pc,
-            16..=23 => Self::Fpr((id as u8) - 16),
+            16..=23 => {
+                size = 12;
+                Self::Fpr((id as u8) - 16)
+            }
             24 => Self::Fps,
             25 => Self::Cpsr,
             _ => return None,
         };
-        Some((reg, Some(NonZeroUsize::new(4)?)))
+        Some((reg, Some(NonZeroUsize::new(size)?)))
     }
 }
-- 
2.43.0


From cea8c39a34de14f5a1438829eeac13ca9b10c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 16/21] fix: LeBytes::from_le_bytes: the excess bytes of a long
 buffer are the last ones

---
 src/internal/le_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/le_bytes.rs b/src/internal/le_bytes.rs
index fa12499..cfb1fb9 100644
--- a/src/internal/le_bytes.rs
+++ b/src/internal/le_bytes.rs
@@ -28,7 +28,7 @@ macro_rules! impl_to_le_bytes {
                     let len = core::mem::size_of::<$num>();
 
                     let buf = if buf.len() > len {
-                        let (extra, buf) = buf.split_at(buf.len() - len);
+                        let (buf, extra) = buf.split_at(len);
                         if extra.iter().any(|&b| b != 0) {
                             return None
                         }
-- 
2.43.0


From 3bff05c9cba8d08a02786817353bbda9a7b85025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 17/21] fix: delegate support_libraries_svr4 for boxed and
 borrowed targets

---
 src/target/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/target/mod.rs b/src/target/mod.rs
index f7a5b51..b6ae5a9 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -745,6 +745,8 @@ macro_rules! impl_dyn_target {
             __delegate_support!(exec_file);
             __delegate_support!(auxv);
             __delegate_support!(tracepoints);
+
+            __delegate!(fn support_libraries_svr4(&mut self) -> Option<ext::libraries::LibrariesSvr4Ops<'_, Self>>);
         }
     };
 }
-- 
2.43.0


From 74c818697d91266905e3fa9db4a38d59c5df2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 18/21] fix: conn: put the socket back into blocking mode after
 peek

---
 src/conn/impls/tcpstream.rs  | 6 +++++-
 src/conn/impls/unixstream.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/conn/impls/tcpstream.rs b/src/conn/impls/tcpstream.rs
index 512a15d..a30fcaf 100644
--- a/src/conn/impls/tcpstream.rs
+++ b/src/conn/impls/tcpstream.rs
@@ -46,7 +46,11 @@ impl ConnectionExt for TcpStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match Self::peek(self, &mut buf) {
+        let res = Self::peek(self, &mut buf);
+        // writes must keep blocking until complete
+        self.set_nonblocking(false)?;
+
+        match res {
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
diff --git a/src/conn/impls/unixstream.rs b/src/conn/impls/unixstream.rs
index 575cc4e..a86ac03 100644
--- a/src/conn/impls/unixstream.rs
+++ b/src/conn/impls/unixstream.rs
@@ -93,7 +93,11 @@ impl ConnectionExt for UnixStream {
         self.set_nonblocking(true)?;
 
         let mut buf = [0u8];
-        match PeekExt::peek(self, &mut buf) {
+        let res = PeekExt::peek(self, &mut buf);
+        // writes must keep blocking until complete
+        self.set_nonblocking(false)?;
+
+        match res {
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
-- 
2.43.0


From bcd81b8be6fbbe084562176ddd29ee691fbf8b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 19/21] fix: conn: report the end of the stream from peek
 instead of a byte nobody sent

---
 src/conn/impls/tcpstream.rs  | 1 +
 src/conn/impls/unixstream.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/conn/impls/tcpstream.rs b/src/conn/impls/tcpstream.rs
index a30fcaf..5f1171b 100644
--- a/src/conn/impls/tcpstream.rs
+++ b/src/conn/impls/tcpstream.rs
@@ -51,6 +51,7 @@ impl ConnectionExt for TcpStream {
         self.set_nonblocking(false)?;
 
         match res {
+            Ok(0) => Err(std::io::ErrorKind::UnexpectedEof.into()),
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
diff --git a/src/conn/impls/unixstream.rs b/src/conn/impls/unixstream.rs
index a86ac03..ef7f011 100644
--- a/src/conn/impls/unixstream.rs
+++ b/src/conn/impls/unixstream.rs
@@ -98,6 +98,7 @@ impl ConnectionExt for UnixStream {
         self.set_nonblocking(false)?;
 
         match res {
+            Ok(0) => Err(std::io::ErrorKind::UnexpectedEof.into()),
             Ok(_) => Ok(Some(buf[0])),
             Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
             Err(e) => Err(e),
-- 
2.43.0


From 56830c07a7b96dac32762ea6bcaca74ec2faec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 20/21] fix: riscv: wrap the target descriptions in a target
 element

A bare feature element is not a target description: GDB ignores it
without a word, and the architecture was not named.
---
 gdbstub_arch/src/riscv/rv32i.xml | 5 ++++-
 gdbstub_arch/src/riscv/rv64i.xml | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/riscv/rv32i.xml b/gdbstub_arch/src/riscv/rv32i.xml
index dc948c7..efbe004 100644
--- a/gdbstub_arch/src/riscv/rv32i.xml
+++ b/gdbstub_arch/src/riscv/rv32i.xml
@@ -9,7 +9,9 @@
      compatibility with older versions of tools that didn't use xml
      register descriptions.  -->
 
-<!DOCTYPE feature SYSTEM "gdb-target.dtd">
+<!DOCTYPE target SYSTEM "gdb-target.dtd">
+<target version="1.0">
+<architecture>riscv:rv32</architecture>
 <feature name="org.gnu.gdb.riscv.cpu">
   <reg name="zero" bitsize="32" type="int" regnum="0"/>
   <reg name="ra" bitsize="32" type="code_ptr"/>
@@ -45,3 +47,4 @@
   <reg name="t6" bitsize="32" type="int"/>
   <reg name="pc" bitsize="32" type="code_ptr"/>
 </feature>
+</target>
diff --git a/gdbstub_arch/src/riscv/rv64i.xml b/gdbstub_arch/src/riscv/rv64i.xml
index 60f42f2..a6e8a84 100644
--- a/gdbstub_arch/src/riscv/rv64i.xml
+++ b/gdbstub_arch/src/riscv/rv64i.xml
@@ -9,7 +9,9 @@
      compatibility with older versions of tools that didn't use xml
      register descriptions.  -->
 
-<!DOCTYPE feature SYSTEM "gdb-target.dtd">
+<!DOCTYPE target SYSTEM "gdb-target.dtd">
+<target version="1.0">
+<architecture>riscv:rv64</architecture>
 <feature name="org.gnu.gdb.riscv.cpu">
   <reg name="zero" bitsize="64" type="int" regnum="0"/>
   <reg name="ra" bitsize="64" type="code_ptr"/>
@@ -45,3 +47,4 @@
   <reg name="t6" bitsize="64" type="int"/>
   <reg name="pc" bitsize="64" type="code_ptr"/>
 </feature>
+</target>
-- 
2.43.0


From 1cc72eef7ae8ecd67f34a9969ed8c816ccd428df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 21/21] fix: aarch64: give BRBCR_EL2 its own encoding

It had that of BRBCR_EL1, so the EL1 register was read and written
under its name.
---
 gdbstub_arch/src/aarch64/reg/id.rs   | 2 +-
 gdbstub_arch/src/aarch64/sysregs.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/id.rs b/gdbstub_arch/src/aarch64/reg/id.rs
index c10e6ce..1c1f2bf 100644
--- a/gdbstub_arch/src/aarch64/reg/id.rs
+++ b/gdbstub_arch/src/aarch64/reg/id.rs
@@ -1806,7 +1806,7 @@ impl AArch64RegId {
     /// Branch Record Buffer Control Register (EL1)
     pub const BRBCR_EL1: Self = Self::System(0b10_001_1001_0000_000);
     /// Branch Record Buffer Control Register (EL2)
-    pub const BRBCR_EL2: Self = Self::System(0b10_001_1001_0000_000);
+    pub const BRBCR_EL2: Self = Self::System(0b10_100_1001_0000_000);
     /// Branch Record Buffer Function Control Register
     pub const BRBFCR_EL1: Self = Self::System(0b10_001_1001_0000_001);
     /// Branch Record Buffer Timestamp Register
diff --git a/gdbstub_arch/src/aarch64/sysregs.xml b/gdbstub_arch/src/aarch64/sysregs.xml
index bd643ee..e5538bd 100644
--- a/gdbstub_arch/src/aarch64/sysregs.xml
+++ b/gdbstub_arch/src/aarch64/sysregs.xml
@@ -350,7 +350,7 @@
   <reg name="BRBSRC31_EL1" bitsize="64" regnum="35965" group="system"/>
   <reg name="BRBTGT31_EL1" bitsize="64" regnum="35966" group="system"/>
   <reg name="BRBCR_EL1" bitsize="64" regnum="35968" group="system"/>
-  <reg name="BRBCR_EL2" bitsize="64" regnum="35968" group="system"/>
+  <reg name="BRBCR_EL2" bitsize="64" regnum="42112" group="system"/>
   <reg name="BRBFCR_EL1" bitsize="64" regnum="35969" group="system"/>
   <reg name="BRBTS_EL1" bitsize="64" regnum="35970" group="system"/>
   <reg name="BRBINFINJ_EL1" bitsize="64" regnum="35976" group="system"/>
-- 
2.43.0

