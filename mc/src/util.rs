//! What scenarios are made of.
#![allow(dead_code)]
use crate::rt;
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// Harness state shared by controlled threads.  Only one of them runs at a time and hand-overs
/// synchronise, so plain accesses are fine; they are no scheduling points.
pub struct Sh<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Sh<T> {}
unsafe impl<T> Send for Sh<T> {}
impl<T> Sh<T> {
    pub const fn new(t: T) -> Self { Sh(UnsafeCell::new(t)) }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T { unsafe { &mut *self.0.get() } }
}
pub fn leak<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }

/// A waker that counts.
pub struct W {
    pub wakes: Sh<u64>,
    pub refs: Sh<i64>,
    pub at: Sh<u64>,
    pub by: Sh<i32>,
    pub log: Sh<Vec<u64>>,
    pub cb: Sh<Option<Box<dyn Fn()>>>,
    pub panics: Sh<bool>,
    pub name: &'static str,
    /// Called when the last reference goes.
    pub free: Sh<Option<Box<dyn FnOnce()>>>,
    /// Other wakers to wake (a wake of this one is passed on).
    pub fwd: Sh<Option<Waker>>,
}
unsafe fn clone(p: *const ()) -> RawWaker { *(*(p as *const W)).refs.get() += 1; RawWaker::new(p, &VT) }
unsafe fn wake(p: *const ()) {
    struct D(*const ());
    impl Drop for D { fn drop(&mut self) { unsafe { drop_(self.0) } } }
    let _d = D(p);
    wake_ref(p);
}
unsafe fn wake_ref(p: *const ()) {
    let w = &*(p as *const W);
    *w.wakes.get() += 1;
    *w.at.get() = rt::now();
    *w.by.get() = rt::tid();
    w.log.get().push(rt::now());
    rt::log(&format!("wake {}", w.name));
    if let Some(f) = w.cb.get() { f() }
    if let Some(f) = w.fwd.get() { f.wake_by_ref() }
    if *w.panics.get() { boom() }
}
unsafe fn drop_(p: *const ()) { let w = &*(p as *const W); *w.refs.get() -= 1; if *w.refs.get() == 0 { if let Some(f) = w.free.get().take() { rt::log(&format!("free {}", w.name)); f() } } }
static VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake_ref, drop_);

pub struct Intentional;
pub fn boom() -> ! { std::panic::panic_any(Intentional) }

impl W {
    pub fn new(name: &'static str) -> &'static W {
        leak(W { wakes: Sh::new(0), refs: Sh::new(0), at: Sh::new(0), by: Sh::new(-1), log: Sh::new(vec![]), cb: Sh::new(None), panics: Sh::new(false), name, fwd: Sh::new(None), free: Sh::new(None) })
    }
    pub fn waker(&'static self) -> Waker { *self.refs.get() += 1; unsafe { Waker::from_raw(RawWaker::new(self as *const W as *const (), &VT)) } }
    pub fn n(&self) -> u64 { *self.wakes.get() }
    pub fn refs(&self) -> i64 { *self.refs.get() }
    pub fn on_free(&self, f: impl FnOnce() + 'static) { *self.free.get() = Some(Box::new(f)) }
    pub fn on_wake(&self, f: impl Fn() + 'static) { *self.cb.get() = Some(Box::new(f)) }
}
pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>, w: &'static W) -> Poll<F::Output> {
    let k = w.waker();
    let r = f.poll(&mut Context::from_waker(&k));
    drop(k);
    r
}
pub fn poll_fn_with<T>(w: &'static W, f: impl FnOnce(&mut Context<'_>) -> T) -> T {
    let k = w.waker();
    let r = f(&mut Context::from_waker(&k));
    drop(k);
    r
}

/// What poll(2) says about a descriptor, without going through the controlled run-time.
pub fn ready(fd: i32, dir: usize) -> bool {
    let mut p = libc::pollfd { fd, events: if dir == 0 { libc::POLLIN | libc::POLLRDHUP } else { libc::POLLOUT }, revents: 0 };
    let z = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw(libc::SYS_ppoll, [&mut p as *mut _ as i64, 1, &z as *const _ as i64, 0, 0, 0]) > 0 && p.revents != 0 }
}
/// A system call that is invisible to the run-time.
pub unsafe fn raw(nr: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") nr => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    r
}
pub fn fd_open(fd: i32) -> bool { unsafe { raw(libc::SYS_fcntl, [fd as i64, libc::F_GETFD as i64, 0, 0, 0, 0]) >= 0 } }
pub fn fd_nonblocking(fd: i32) -> bool { let r = unsafe { raw(libc::SYS_fcntl, [fd as i64, libc::F_GETFL as i64, 0, 0, 0, 0]) }; r >= 0 && r & libc::O_NONBLOCK as i64 != 0 }
/// A loopback address of this process's own: executions do not compete for ports.
pub fn lo() -> std::net::SocketAddr { let p = std::process::id(); ([127, 1, (p >> 8) as u8, p as u8], 0).into() }
/// Number of open descriptors.
pub fn count_fds() -> usize { (0..256).filter(|&f| fd_open(f)).count() }

macro_rules! check { ($c:expr, $($a:tt)*) => { if !$c { $crate::rt::fail(&format!($($a)*)) } } }
pub(crate) use check;

pub const MS: u64 = 1_000_000;
pub const US: u64 = 1_000;

/// Brings the library up (reactor, helper thread) under the default schedule and lets it settle.
pub fn boot() {
    boot_quiet();
    rt::branch(true);
}
pub fn boot_quiet() {
    let w = W::new("boot");
    let mut t = async_io::Timer::after(std::time::Duration::from_secs(3600));
    let _ = poll(Pin::new(&mut t), w);
    drop(t);
    rt::settle();
}
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> { std::thread::spawn(f) }

use std::time::{Duration, Instant};
/// The relation between the virtual clock and Instant, taken once.
#[derive(Clone, Copy)]
pub struct Clock { base: Instant, ns: u64 }
impl Clock {
    pub fn new() -> Clock { let ns = rt::now(); Clock { base: Instant::now(), ns } }
    /// The instant at which the virtual clock shows t.
    pub fn at(&self, t: u64) -> Instant { if t >= self.ns { self.base + Duration::from_nanos(t - self.ns) } else { self.base - Duration::from_nanos(self.ns - t) } }
    pub fn ns(&self, i: Instant) -> u64 { if i >= self.base { self.ns + (i - self.base).as_nanos() as u64 } else { self.ns - (self.base - i).as_nanos() as u64 } }
}
/// Lets time pass up to t, stopping at every deadline on the way so that threads run on time.
pub fn pass_to(t: u64) {
    loop {
        rt::settle();
        let d = rt::next_deadline();
        if d >= t { break }
        rt::advance(d);
    }
    rt::advance(t);
}

/// Thorough tier: longer histories.
pub fn deep() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
pub fn depth(quick: usize, thorough: usize) -> usize { if deep() { thorough } else { quick } }

/// Keeps the helper thread inside a waker until it is released.
#[derive(Clone, Copy)]
pub struct Hold { go: &'static Sh<bool>, th: &'static Sh<Option<std::thread::Thread>> }
impl Hold {
    pub fn new() -> Hold {
        let h = Hold { go: leak(Sh::new(false)), th: leak(Sh::new(None)) };
        let w = W::new("hold");
        w.on_wake(move || { *h.th.get() = Some(std::thread::current()); while !*h.go.get() { std::thread::park() } });
        let mut t = async_io::Timer::after(Duration::from_millis(1));
        check!(poll(Pin::new(&mut t), w).is_pending(), "ready");
        pass_to(rt::now() + 2 * MS);
        rt::settle();
        check!(h.th.get().is_some(), "a timer has not fired");
        h
    }
    pub fn release(&self) { *self.go.get() = true; self.th.get().as_ref().unwrap().unpark() }
}
