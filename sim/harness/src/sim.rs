//! Bindings to the simulation kernel (see ../../kernel/kernel.h).
#![allow(dead_code)]
use std::os::raw::c_int;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct SimParams {
    pub seed: u64,
    pub strategy: u32,
    pub preempt_gap: u32,
    pub pct_depth: u32,
    pub pct_span: u32,
    pub slice: u32,
    pub tick_ns: u32,
    pub late_max_us: u32,
    pub p_spurious: u32,
    pub p_eintr: u32,
    pub p_partial: u32,
    pub p_wouldblock: u32,
    pub p_epoll_subset: u32,
    pub lat_min_us: u32,
    pub lat_max_us: u32,
    pub sockbuf: u32,
    pub p_udp_drop: u32,
    pub p_udp_dup: u32,
    pub p_udp_delay: u32,
    pub p_rst: u32,
    pub p_connfail: u32,
    pub p_bindfail: u32,
    pub p_stall: u32,
    pub stall_max_us: u32,
    pub _pad: u32,
    pub max_steps: u64,
    pub max_time_ns: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Decision {
    pub tid: u16,
    pub kind: u16,
    pub ctr: u32,
    pub val: u32,
}
pub const KIND_NAMES: [&str; 32] = [
    "preempt", "next", "wake", "spurious_wakeup", "eintr", "short_io", "would_block", "epoll_subset", "latency",
    "udp_loss", "udp_duplicate", "conn_reset_on_send", "connect_failure", "bind_in_use", "thread_stall",
    "late_timer", "epoll_order", "udp_reorder", "", "", "", "", "", "", "partition", "conn_reset", "process_crash",
    "host_crash", "restart", "clock_jump", "alloc_failure", "garbage_bytes",
];
pub const MAXDEC: usize = 1 << 20;
#[repr(C)]
pub struct Shared {
    pub outcome: u32,
    pub msglen: u32,
    pub steps: u64,
    pub switches: u64,
    pub virt_ns: u64,
    pub hash: u64,
    pub state_hash: u64,
    pub faults: [u64; 32],
    pub counters: [u64; 32],
    pub threads: u32,
    pub ndec: u32,
    pub dec_overflow: u32,
    pub tracelen: u32,
    pub npanics: u32,
    pub _r: u32,
    pub panics: [u8; 8192],
    pub msg: [u8; 8192],
    pub trace: [u8; 262144],
    pub dec: [Decision; MAXDEC],
}
pub const OK: u32 = 1;
pub const VIOLATION: u32 = 2;
pub const DEADLOCK: u32 = 3;
pub const STEPS: u32 = 4;
pub const TIME: u32 = 5;
pub const INTERNAL: u32 = 6;
pub const PANIC: u32 = 7;
pub const SKIP: u32 = 8;

unsafe extern "C" {
    pub fn sim_start(p: *const SimParams, sh: *mut Shared, rd: *const Decision, n: usize, replay: c_int, rec: c_int);
    pub fn sim_finish(oc: u32, m: *const u8, l: usize) -> !;
    fn sim_active() -> c_int;
    fn sim_now() -> u64;
    fn sim_step() -> u64;
    fn sim_tid() -> c_int;
    fn sim_set_node(n: c_int);
    fn sim_crash_node(n: c_int, mode: c_int);
    fn sim_revive_node(n: c_int);
    fn sim_partition(a: c_int, b: c_int, on: c_int);
    fn sim_partition_oneway(a: c_int, b: c_int, on: c_int);
    fn sim_reset_conns(a: c_int, b: c_int);
    fn sim_set_param(w: c_int, v: u32);
    fn sim_quiet();
    fn sim_clock_jump(ns: i64);
    fn sim_trace(s: *const u8, l: usize);
    fn sim_fault_note(k: c_int);
    fn sim_state(h: u64);
    fn sim_open_conns(n: c_int) -> u64;
    fn sim_nopreempt(d: c_int);
    fn sim_runnable_others() -> c_int;
    fn sim_points(n: c_int);
    fn sim_panic(s: *const u8, l: usize);
    fn sim_get_node() -> c_int;
}
/// Virtual nanoseconds since the start of the run.
pub fn now() -> u64 { unsafe { sim_now() } }
pub fn step() -> u64 { unsafe { sim_step() } }
pub fn tid() -> i32 { unsafe { sim_tid() } }
pub fn active() -> bool { unsafe { sim_active() != 0 } }
pub fn set_node(n: i32) { unsafe { sim_set_node(n) } }
pub fn crash_node(n: i32, host: bool) { unsafe { sim_crash_node(n, host as c_int) } }
pub fn revive_node(n: i32) { unsafe { sim_revive_node(n) } }
pub fn partition(a: i32, b: i32, on: bool) { unsafe { sim_partition(a, b, on as c_int) } }
pub fn partition_oneway(a: i32, b: i32, on: bool) { unsafe { sim_partition_oneway(a, b, on as c_int) } }
pub fn reset_conns(a: i32, b: i32) { unsafe { sim_reset_conns(a, b) } }
pub fn set_param(w: i32, v: u32) { unsafe { sim_set_param(w, v) } }
pub fn quiet() { unsafe { sim_quiet() } }
pub fn clock_jump(ns: i64) { unsafe { sim_clock_jump(ns) } }
pub fn trace(s: &str) { unsafe { sim_trace(s.as_ptr(), s.len()) } }
pub fn fault_note(k: usize) { unsafe { sim_fault_note(k as c_int) } }
pub fn state(h: u64) { unsafe { sim_state(h) } }
pub fn open_conns(n: i32) -> u64 { unsafe { sim_open_conns(n) } }
pub fn nopreempt(d: i32) { unsafe { sim_nopreempt(d) } }
pub fn runnable_others() -> usize { unsafe { sim_runnable_others() as usize } }
pub fn finish(oc: u32, m: &str) -> ! { unsafe { sim_finish(oc, m.as_ptr(), m.len()) } }

pub fn points(n: usize) { unsafe { sim_points(n as c_int) } }
pub fn note_panic(s: &str) { unsafe { sim_panic(s.as_ptr(), s.len()) } }
pub fn node() -> i32 { unsafe { sim_get_node() } }
