#![allow(clippy::all, unused, static_mut_refs)]
#[macro_use]
pub mod api;
pub mod mock;
pub mod session;
pub mod mem;
pub mod frame;
pub mod regs;
pub mod brk;
pub mod run;
pub mod state;
pub mod thr;
pub mod feat;
pub mod xfer;
pub mod hio;
pub mod ext;
pub mod tp;
pub mod tx;
pub mod misc;
pub mod lldb;
pub mod err;
pub mod arch;
pub mod set;
pub mod dynt;
pub mod blk;
pub mod rob;
pub mod pers;
pub mod big;
pub mod many;
pub mod dflt;
pub mod text;
pub mod sysregs;
pub mod xml;
#[cfg(feature = "std")]
pub mod sock;
