//! Nothing piles up: histories repeated many times, the number of live allocations compared.
use crate::io_hist::fill;
use crate::rt;
use crate::util::*;
use async_io::{block_on, Async, Timer};
use std::alloc::{GlobalAlloc, Layout, System};
use std::future::Future;
use std::os::unix::io::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;

/// Counts live blocks.  The counter is meaningful while only one thread runs at a time.
pub struct Counting;
static LIVE: Sh<i64> = Sh::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { *LIVE.get() += 1; System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { *LIVE.get() -= 1; System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { *LIVE.get() += 1; System.alloc_zeroed(l) }
}

/// Repeats a history; what is live afterwards must not grow with the number of repetitions.
fn steady(what: &str, mut f: impl FnMut()) {
    for _ in 0..40 { f() }
    rt::settle();
    let (a, fds, reg) = (*LIVE.get(), count_fds(), rt::count_registered());
    for _ in 0..90 { f() }
    rt::settle();
    let b = *LIVE.get();
    check!(count_fds() == fds, "{what}: descriptors pile up");
    check!(rt::count_registered() == reg, "{what}: registrations pile up");
    check!(b - a < 25, "{what}: repeated 90 times it leaves {} allocations behind", b - a);
}
fn quiet() -> &'static W { let w = W::new("leak"); w.on_wake(|| { w_reset() }); w }
fn w_reset() {}

/// Handles: created, refused, waited for, dropped, unwrapped, in 12 kinds of histories.
pub fn leak_handles() {
    boot();
    rt::time_points(false);
    rt::limits(1 << 22, 1 << 24);
    let w = quiet();
    let (a, b) = UnixStream::pair().unwrap();
    let (x, _y) = UnixStream::pair().unwrap();
    let held = Arc::new(Async::new(x).unwrap());
    let mut fd: Option<OwnedFd> = Some(a.into());
    let what = ["create and unwrap", "create and drop", "a kind of descriptor that cannot be registered", "a descriptor that is registered already", "a failing deregistration", "unwrapping fails",
        "dropped with a poll method waiting", "dropped with events in flight", "readiness futures", "owned futures", "both directions", "recreated with waits"];
    let k = rt::choose(what.len());
    rt::branch(false);
    steady(what[k], || {
        let own = |fd: &Option<OwnedFd>| fd.as_ref().unwrap().try_clone().unwrap();
        match k {
            0 => { let h = Async::new(fd.take().unwrap()).unwrap(); fd = Some(h.into_inner().unwrap()) }
            1 => drop(Async::new(own(&fd)).unwrap()),
            2 => { let _ = Async::new_nonblocking(std::fs::File::open("/etc/passwd").unwrap()).err(); }
            3 => { let d = unsafe { std::os::unix::io::BorrowedFd::borrow_raw(held.as_raw_fd()) }; check!(Async::new_nonblocking(d).is_err(), "registered twice") }
            4 | 5 => {
                let (p, q) = UnixStream::pair().unwrap();
                let (n, _m) = UnixStream::pair().unwrap();
                let h = Async::new(p).unwrap();
                check!(poll_fn_with(w, |cx| h.poll_readable(cx)).is_pending(), "ready");
                // the descriptor is something else now, which is not registered
                unsafe { libc::dup2(n.as_raw_fd(), h.as_raw_fd()) };
                drop((n, q));
                if k == 4 { drop(h) } else { let _ = h.into_inner(); }
            }
            6 => { let h = Async::new(own(&fd)).unwrap(); check!(poll_fn_with(w, |cx| h.poll_readable(cx)).is_pending(), "ready"); }
            7 => {
                let (p, q) = UnixStream::pair().unwrap();
                let h = Async::new(p).unwrap();
                check!(poll_fn_with(w, |cx| h.poll_readable(cx)).is_pending(), "ready");
                std::io::Write::write_all(&mut &q, b"x").unwrap();
                drop(h);
            }
            8 => { for _ in 0..2 { let mut f: Pin<Box<dyn Future<Output = std::io::Result<()>> + '_>> = Box::pin(held.readable()); check!(poll(f.as_mut(), w).is_pending(), "ready"); } }
            9 => { let mut f = Box::pin(held.clone().readable_owned()); check!(poll(f.as_mut(), w).is_pending(), "ready"); }
            10 => {
                let h = Async::new(own(&fd)).unwrap();
                let mut f = Box::pin(h.writable());
                let _ = poll(f.as_mut(), w);
                let mut g = Box::pin(h.readable());
                let _ = poll(g.as_mut(), w);
            }
            _ => {
                let h = Arc::new(Async::new(own(&fd)).unwrap());
                let mut f = Box::pin(h.clone().readable_owned());
                check!(poll(f.as_mut(), w).is_pending(), "ready");
                let mut g = Box::pin(h.clone().readable_owned());
                check!(poll(g.as_mut(), w).is_pending(), "ready");
                drop(h);
            }
        }
        w.log.get().clear();
        if k >= 6 { rt::settle() }
    });
    let _ = (&b, fill);
}
/// Timers and block_on calls.
pub fn leak_timers() {
    boot();
    rt::time_points(false);
    rt::limits(1 << 22, 1 << 24);
    let w = quiet();
    let v = W::new("other");
    let what = ["polled and dropped", "polled, reset and dropped", "fired", "polled by two tasks", "interval", "set to never", "block_on", "nested block_on", "block_on with a timer"];
    let k = rt::choose(what.len());
    rt::branch(false);
    steady(what[k], || {
        let far = || Timer::after(Duration::from_secs(900));
        match k {
            0 => { let mut t = far(); let _ = poll(Pin::new(&mut t), w); }
            1 => { let mut t = far(); let _ = poll(Pin::new(&mut t), w); t.set_after(Duration::from_secs(1000)); let _ = poll(Pin::new(&mut t), w); t.set_interval(Duration::from_secs(800)); }
            2 => { let mut t = Timer::after(Duration::from_micros(10)); let _ = poll(Pin::new(&mut t), w); pass_to(rt::now() + 20 * US); let _ = poll(Pin::new(&mut t), w); }
            3 => { let mut t = far(); let _ = poll(Pin::new(&mut t), w); let _ = poll(Pin::new(&mut t), v); }
            4 => { let mut t = Timer::interval(Duration::from_micros(10)); for _ in 0..2 { let _ = poll_fn_with(w, |cx| futures_lite::Stream::poll_next(Pin::new(&mut t), cx)); } pass_to(rt::now() + 11 * US); let _ = poll_fn_with(w, |cx| futures_lite::Stream::poll_next(Pin::new(&mut t), cx)); }
            5 => { let mut t = far(); let _ = poll(Pin::new(&mut t), w); t.set_after(Duration::MAX); let _ = poll(Pin::new(&mut t), w); t.set_after(Duration::from_secs(700)) }
            6 => block_on(async {}),
            7 => block_on(async { block_on(async { futures_lite::future::yield_now().await }) }),
            _ => block_on(async { Timer::after(Duration::from_micros(3)).await; }),
        }
        w.log.get().clear(); v.log.get().clear();
        if k < 6 { rt::settle() }
    });
    if k < 6 { check!(w.refs() == 0 && v.refs() == 0, "{}: wakers of dropped timers are kept", what[k]) }
    unsafe { drop(OwnedFd::from_raw_fd(libc::dup(0))) }
}
