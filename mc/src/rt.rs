//! Bindings to rt.c.
#![allow(dead_code)]
use std::ffi::{c_char, c_int, CStr, CString};

pub const MAXP: usize = 80000;
pub const MAXDEV: usize = 128;
pub const LOGSZ: usize = 1 << 20;
pub const K_SCHED: u8 = 1;
pub const K_SWITCH: u8 = 2;
pub const K_TIME: u8 = 3;
pub const K_FAULT: u8 = 4;
pub const K_CHOOSE: u8 = 5;
pub const ST_OK: u32 = 1;
pub const ST_FAIL: u32 = 2;
pub const ST_DEADLOCK: u32 = 3;
pub const ST_LIVELOCK: u32 = 4;
pub const ST_DIVERGE: u32 = 5;
pub const ST_INTERNAL: u32 = 6;
pub const ST_CUT: u32 = 7;
/// Set by the explorer, not by the run-time: the process died or hung.
pub const ST_CRASH: u32 = 8;
pub const ST_HANG: u32 = 9;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Point { pub obj: u64, pub kind: u8, pub tid: u8, pub nalt: u8, pub chosen: u8, pub wr: u8, pub br: u8, pub what: u16 }
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Dev { pub pt: u32, pub alt: u32 }
#[repr(C)]
pub struct Slot {
    pub ndev: u32, pub want_log: u32, pub plain: u32, pub _p1: u32,
    pub expect_hash: u64,
    pub devs: [Dev; MAXDEV],
    pub status: u32, pub npoints: u32, pub nthreads: u32, pub hash_at_last_valid: u32,
    pub hash_at_last: u64, pub hash_full: u64, pub outcome: u64, pub vtime: u64, pub steps: u64, pub switches: u64, pub syscalls: u64,
    pub counters: [u64; 16],
    pub msg: [u8; 4096],
    pub loglen: u32, pub _p2: u32,
    pub log: [u8; LOGSZ],
    pub pts: [Point; MAXP],
}
impl Slot {
    pub fn msg(&self) -> String { unsafe { CStr::from_ptr(self.msg.as_ptr() as *const c_char) }.to_string_lossy().into_owned() }
    pub fn log(&self) -> String { String::from_utf8_lossy(&self.log[..self.loglen as usize]).into_owned() }
}

extern "C" {
    pub fn mc_child_start(s: *mut Slot);
    fn mc_fail(m: *const c_char) -> !;
    fn mc_end() -> !;
    fn mc_cut() -> !;
    fn mc_controlled() -> c_int;
    fn mc_branch(on: c_int);
    fn mc_choose(n: c_int) -> c_int;
    fn mc_now() -> u64;
    fn mc_advance(t: u64);
    fn mc_add_instant(t: u64);
    fn mc_quiesce(mode: c_int);
    fn mc_note(v: u64);
    fn mc_horizon(t: u64);
    fn mc_limits(spin: u64, steps: u64);
    fn mc_time_points(on: c_int);
    fn mc_tcp(g: c_int);
    fn mc_tid() -> c_int;
    fn mc_deviated() -> c_int;
    fn mc_steps() -> u64;
    fn mc_stat(i: c_int) -> u64;
    fn mc_registered(fd: c_int) -> c_int;
    fn mc_reg_events(fd: c_int) -> u32;
    fn mc_epfd(fd: c_int) -> c_int;
    fn mc_count_registered() -> c_int;
    fn mc_blocked(t: c_int) -> c_int;
    fn mc_blocked_on(t: c_int) -> *const c_char;
    fn mc_log(s: *const c_char);
    fn mc_yield();
    fn mc_touch(p: *const u8, wr: c_int);
    fn mc_kdirty();
    fn mc_kop();
    fn mc_evseq() -> u64;
    fn mc_reported(fd: c_int, dir: c_int) -> u64;
    fn mc_next_deadline() -> u64;
    fn mc_fault_set(cls: c_int, errs: *const c_int, n: c_int);
    fn mc_fault_clear();
    fn mc_nfaults() -> u64;
    fn mc_last_fault() -> c_int;
    fn mc_connect_hook(h: Option<extern "C" fn(c_int, *const libc::sockaddr, libc::socklen_t) -> c_int>);
    fn mc_sockerr_hook(h: Option<extern "C" fn(c_int) -> c_int>);
    fn mc_peer_hook(h: Option<extern "C" fn(c_int, *mut libc::sockaddr, *mut libc::socklen_t) -> c_int>);
    fn mc_raw_connect(fd: c_int, a: *const libc::sockaddr, l: libc::socklen_t) -> i64;
}
pub const PASS: c_int = 1_000_000;
pub const FC_ADD: c_int = 0;
pub const FC_MOD: c_int = 1;
pub const FC_DEL: c_int = 2;
pub const FC_WAIT: c_int = 3;
pub const FC_SOCKET: c_int = 4;
pub const FC_CONNECT: c_int = 5;
pub const FC_ACCEPT: c_int = 6;
pub const FC_IOCTL: c_int = 7;
pub const FC_GETSOCKOPT: c_int = 8;
pub const FC_IO: c_int = 9;
pub const FC_NOTIFY: c_int = 10;

fn cs(s: &str) -> CString { CString::new(s.replace('\0', "?")).unwrap() }
pub fn fail(m: &str) -> ! { unsafe { mc_fail(cs(m).as_ptr()) } }
pub fn end() -> ! { unsafe { mc_end() } }
pub fn cut() -> ! { unsafe { mc_cut() } }
pub fn controlled() -> bool { unsafe { mc_controlled() != 0 } }
/// From here on the explorer may deviate from the default schedule.
pub fn branch(on: bool) { unsafe { mc_branch(on as _) } }
pub fn choose(n: usize) -> usize { unsafe { mc_choose(n as _) as usize } }
pub fn now() -> u64 { unsafe { mc_now() } }
pub fn advance(t: u64) { unsafe { mc_advance(t) } }
pub fn add_instant(t: u64) { unsafe { mc_add_instant(t) } }
/// Runs the other threads until none can run; time stands still.
pub fn settle() { unsafe { mc_quiesce(0) } }
/// Runs the other threads until none can run and no deadline is pending.
pub fn quiesce() { unsafe { mc_quiesce(1) } }
pub fn note(v: u64) { unsafe { mc_note(v) } }
pub fn horizon(t: u64) { unsafe { mc_horizon(t) } }
pub fn limits(spin: u64, steps: u64) { unsafe { mc_limits(spin, steps) } }
pub fn time_points(on: bool) { unsafe { mc_time_points(on as _) } }
pub fn tcp(g: i32) { unsafe { mc_tcp(g) } }
/// True once this execution has left the default schedule.
pub fn deviated() -> bool { unsafe { mc_deviated() > 0 } }
pub fn tid() -> i32 { unsafe { mc_tid() } }
pub fn steps() -> u64 { unsafe { mc_steps() } }
pub fn stat(i: i32) -> u64 { unsafe { mc_stat(i) } }
pub fn registered(fd: i32) -> bool { unsafe { mc_registered(fd) != 0 } }
pub fn reg_events(fd: i32) -> u32 { unsafe { mc_reg_events(fd) } }
pub fn epfd(fd: i32) -> i32 { unsafe { mc_epfd(fd) } }
pub fn count_registered() -> i32 { unsafe { mc_count_registered() } }
pub fn blocked(t: i32) -> bool { unsafe { mc_blocked(t) != 0 } }
pub fn blocked_on(t: i32) -> String { unsafe { CStr::from_ptr(mc_blocked_on(t)).to_string_lossy().into_owned() } }
pub fn log(s: &str) { unsafe { mc_log(cs(s).as_ptr()) } }
pub fn yield_() { unsafe { mc_yield() } }
pub fn touch<T>(p: &T, wr: bool) { unsafe { mc_touch(p as *const T as *const u8, wr as _) } }
pub fn evseq() -> u64 { unsafe { mc_evseq() } }
/// Sequence number of the last poll that reported the descriptor ready in this direction.
pub fn reported(fd: i32, dir: usize) -> u64 { unsafe { mc_reported(fd, dir as _) } }
/// A scheduling point at which the environment is about to change something in the kernel.
pub fn kop() { unsafe { mc_kop() } }
pub fn kdirty() { unsafe { mc_kdirty() } }
pub fn next_deadline() -> u64 { unsafe { mc_next_deadline() } }
pub fn fault_set(cls: i32, errs: &[i32]) { unsafe { mc_fault_set(cls, errs.as_ptr(), errs.len() as _) } }
pub fn fault_clear() { unsafe { mc_fault_clear() } }
/// The error injected last.
pub fn last_fault() -> i32 { unsafe { mc_last_fault() } }
pub fn nfaults() -> u64 { unsafe { mc_nfaults() } }
pub fn connect_hook(h: extern "C" fn(c_int, *const libc::sockaddr, libc::socklen_t) -> c_int) { unsafe { mc_connect_hook(Some(h)) } }
pub fn sockerr_hook(h: extern "C" fn(c_int) -> c_int) { unsafe { mc_sockerr_hook(Some(h)) } }
pub fn peer_hook(h: extern "C" fn(c_int, *mut libc::sockaddr, *mut libc::socklen_t) -> c_int) { unsafe { mc_peer_hook(Some(h)) } }
pub unsafe fn raw_connect(fd: i32, a: *const libc::sockaddr, l: libc::socklen_t) -> i64 { mc_raw_connect(fd, a, l) }
