//! block_on: wake-ups, isolation, hand-over of the reactor.
use crate::rt;
use crate::util::*;
use async_io::{block_on, Async, Timer};
use std::cell::Cell;
use std::future::Future;
use std::io::{Read, Write};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

/// A one-shot event: a flag and the waker of the last poll.
pub struct Ev { set: Sh<bool>, w: Sh<Option<Waker>>, polls: Sh<u64>, taken: Sh<u64>, key: std::sync::atomic::AtomicUsize }
impl Ev {
    pub fn new() -> &'static Ev { leak(Ev { set: Sh::new(false), w: Sh::new(None), polls: Sh::new(0), taken: Sh::new(0), key: 0.into() }) }
    /// Sets the flag and wakes the waiter, if there is one.
    pub fn fire(&self) {
        self.point();
        *self.set.get() = true;
        let w = self.w.get().take();
        self.point();
        if let Some(w) = w { w.wake() }
    }
    pub fn point(&self) { rt::touch(&self.key, true) }
    pub fn is_set(&self) -> bool { *self.set.get() }
    pub fn polls(&self) -> u64 { *self.polls.get() }
    pub fn waiting(&self) -> Option<Waker> { self.w.get().clone() }
}
pub struct Wait(pub &'static Ev);
impl Future for Wait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let e = self.0;
        check!(*e.taken.get() == 0, "polled again after it was ready");
        *e.polls.get() += 1;
        // no scheduling point (no atomic operation) between the test and the registration
        let mut w = Some(cx.waker().clone());
        e.point();
        if *e.set.get() { *e.taken.get() += 1; return Poll::Ready(()) }
        std::mem::swap(&mut w, e.w.get());
        e.point();
        drop(w);
        Poll::Pending
    }
}
/// Wakes itself n times while pending, then completes; optionally wakes once more when ready.
pub struct Own { left: u32, again: bool, done: bool, pub polls: Rc<Cell<u32>> }
impl Own { fn new(left: u32, again: bool) -> Own { Own { left, again, done: false, polls: Rc::default() } } }
impl Future for Own {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        check!(!self.done, "polled again after it was ready");
        self.polls.set(self.polls.get() + 1);
        if self.left == 0 { self.done = true; if self.again { cx.waker().wake_by_ref() } return Poll::Ready(7) }
        self.left -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn sleep(us: u64) { std::thread::sleep(Duration::from_micros(us)) }

/// Called within block_on: makes the helper thread leave the reactor to this thread.  The helper
/// waits for events before the first block_on starts; a timer that is set and dropped makes it look
/// up, and then it sleeps in its back-off because a block_on is active.
pub fn prime() {
    rt::branch(false);
    let w = W::new("prime");
    let mut t = Timer::after(Duration::from_secs(3000));
    let _ = poll(Pin::new(&mut t), w);
    rt::settle();
    drop(t);
    rt::branch(true);
}
/// block_on with the calling thread driving the reactor when it waits.
fn primed<T>(f: impl Future<Output = T>) -> T { block_on(async { prime(); f.await }) }

/// The same, sometimes with a timer that is due in an hour: nothing may wait for it.
fn primed_far<T>(f: impl Future<Output = T>) -> T {
    let far = rt::choose(2) == 1;
    let t0 = rt::now();
    let r = block_on(async {
        prime();
        if far { let mut t = Timer::after(Duration::from_secs(3600)); let _ = poll(Pin::new(&mut t), W::new("far")); std::mem::forget(t); }
        f.await
    });
    check!(rt::now() - t0 <= 1000 * MS, "block_on waited {} s for something else", (rt::now() - t0) / MS / 1000);
    r
}

/// One waiter that drives the reactor, one waker thread.
pub fn dr_wake() {
    boot(); rt::time_points(false);
    let e = Ev::new();
    let h = primed_far(async { let h = spawn(move || e.fire()); Wait(e).await; h });
    rt::note(e.polls());
    h.join().unwrap();
}
/// The same with several waits.
pub fn dr_wake_twice() {
    boot(); rt::time_points(false);
    let (a, b) = (Ev::new(), Ev::new());
    let h = primed_far(async { let h = spawn(move || { a.fire(); b.fire() }); Wait(a).await; Wait(b).await; h });
    rt::note(a.polls() * 10 + b.polls());
    h.join().unwrap();
}
/// Two threads wake the one that drives.
pub fn dr_two_wakers() {
    boot(); rt::time_points(false);
    let (a, b) = (Ev::new(), Ev::new());
    let (h, g) = primed_far(async {
        let h = spawn(move || a.fire());
        let g = spawn(move || b.fire());
        futures_lite::future::zip(Wait(a), Wait(b)).await;
        (h, g)
    });
    rt::note(a.polls() * 10 + b.polls());
    h.join().unwrap(); g.join().unwrap();
}
/// A wake from a thread and I/O, for the thread that drives.
pub fn dr_io_and_wake() {
    let (a, mut b) = UnixStream::pair().unwrap();
    boot(); rt::time_points(false);
    let e = Ev::new();
    let (h, g) = primed_far(async {
        let a = Async::new(a).unwrap();
        let h = spawn(move || { b.write_all(b"z").unwrap(); b });
        let g = spawn(move || e.fire());
        futures_lite::future::zip(async { a.readable().await.unwrap() }, Wait(e)).await;
        (h, g)
    });
    rt::note(e.polls());
    h.join().unwrap(); g.join().unwrap();
}
/// The waker of the driving thread is called by another waker that the reactor calls on that same
/// thread, by one it calls on the helper thread, or by a thread that is inside block_on itself.
pub fn dr_chain() {
    boot();
    let e = Ev::new();
    let ck = Clock::new();
    let w = W::new("timer");
    w.on_wake(move || e.fire());
    let n = rt::choose(2);
    let mut t = Timer::at(ck.at(rt::now() + [200 * US, 900 * US][n]));
    rt::time_points(false);
    let h = primed_far(async {
        let h = if rt::choose(2) == 1 { let f = Ev::new(); Some(spawn(move || { block_on(async { f.fire(); Wait(f).await }); })) } else { None };
        check!(poll(Pin::new(&mut t), w).is_pending(), "too early");
        Wait(e).await;
        h
    });
    check!(w.n() == 1, "timer woke {} times", w.n());
    if let Some(h) = h { h.join().unwrap() }
}
/// The future wakes itself; the thread looks at the reactor on the way, and does not wait in it.
pub fn dr_self() {
    boot(); rt::time_points(false);
    let n = rt::choose(4) as u32;
    let e = Ev::new();
    let h = primed_far(async { let h = spawn(move || e.fire()); check!(Own::new(n, false).await == 7, "wrong value"); Wait(e).await; h });
    h.join().unwrap();
    rt::note(e.polls());
}
/// What a thread did inside block_on does not keep it from waking another one later.
/// k: how its block_on went.
fn past_driver(k: usize) {
    let a = Ev::new();
    match k {
        // woken by another thread while it drives
        0 => { let h = primed(async { let h = spawn(move || { rt::settle(); a.fire() }); Wait(a).await; h }); h.join().unwrap() }
        // woken by itself; looks at the reactor on the way
        1 => { primed(Own::new(2, false)); }
        // woken by the reactor while it drives
        2 => { let mut t = Timer::after(Duration::from_micros(100)); primed(async { Pin::new(&mut t).await; }); }
        // nested
        3 => { primed(async { let h = spawn(move || { rt::settle(); a.fire() }); block_on(Wait(a)); h }).join().unwrap() }
        // I/O driven by itself
        _ => {
            let (x, mut y) = UnixStream::pair().unwrap();
            primed(async { let x = Async::new(x).unwrap(); y.write_all(b"x").unwrap(); x.readable().await.unwrap() });
        }
    }
}
pub fn dr_after() {
    boot(); rt::time_points(false);
    rt::branch(false);
    past_driver(rt::choose(5));
    rt::branch(true);
    let b = Ev::new();
    let go = Ev::new();
    let inside = rt::choose(2) == 1;
    let late = rt::choose(2) == 1;
    let h = spawn(move || primed_far(async { go.fire(); Wait(b).await }));
    block_on(Wait(go));
    if late { rt::branch(false); rt::settle(); rt::branch(true) }
    if inside { block_on(async { b.fire(); Own::new(1, false).await; }) } else { b.fire() }
    h.join().unwrap();
    rt::note(b.polls() * 10 + go.polls());
    check!(b.polls() <= 3, "polled {} times", b.polls());
}
/// Two threads that wake each other; either of them drives.
pub fn dr_ping() {
    boot(); rt::time_points(false);
    let (a, b, c) = (Ev::new(), Ev::new(), Ev::new());
    let h = primed_far(async {
        let h = spawn(move || block_on(async { Wait(a).await; b.fire(); Wait(c).await }));
        a.fire(); Wait(b).await; c.fire();
        h
    });
    h.join().unwrap();
    rt::note(b.polls() * 10 + c.polls());
}
/// Nested: the thread drives in the inner call, or in the outer one while the inner one is over.
pub fn dr_nested() {
    boot(); rt::time_points(false);
    let (a, b, c) = (Ev::new(), Ev::new(), Ev::new());
    let h = primed_far(async {
        let h = spawn(move || { a.fire(); b.fire(); c.fire() });
        futures_lite::future::zip(Wait(a), async { block_on(Wait(b)); check!(b.polls() <= 2, "inner polled {} times", b.polls()); Wait(c).await }).await;
        h
    });
    h.join().unwrap();
    rt::note(a.polls() * 100 + b.polls() * 10 + c.polls());
}

/// One waiter, one waker thread.
pub fn bo_wake() {
    boot(); rt::time_points(false);
    let e = Ev::new();
    let h = spawn(move || e.fire());
    block_on(Wait(e));
    check!(e.is_set(), "completed before the event");
    rt::note(e.polls());
    h.join().unwrap();
}
/// As bo_wake, with several wakes and the second part of the future waiting again.
pub fn bo_wake_twice() {
    boot(); rt::time_points(false);
    let (a, b) = (Ev::new(), Ev::new());
    let h = spawn(move || { a.fire(); b.fire() });
    block_on(async { Wait(a).await; Wait(b).await });
    rt::note(a.polls() * 10 + b.polls());
    h.join().unwrap();
}
/// Two threads wake one block_on for two events it needs both of.
pub fn bo_two_wakers() {
    boot(); rt::time_points(false);
    let (a, b) = (Ev::new(), Ev::new());
    let h = spawn(move || a.fire());
    let g = spawn(move || b.fire());
    block_on(async { futures_lite::future::zip(Wait(a), Wait(b)).await; });
    rt::note(a.polls() * 10 + b.polls());
    h.join().unwrap(); g.join().unwrap();
}
/// The future is woken from its own poll.
pub fn bo_self() {
    boot(); rt::time_points(false);
    let n = rt::choose(4) as u32;
    let again = rt::choose(2) == 1;
    let f = Own::new(n, again);
    let p = f.polls.clone();
    check!(block_on(f) == 7, "wrong value");
    check!(p.get() >= n + 1, "polled {} times", p.get());
    // whatever was left over does not disturb the next call
    let e = Ev::new();
    let h = spawn(move || e.fire());
    block_on(Wait(e));
    check!(e.polls() <= 2, "polled {} times: a left-over wake", e.polls());
    h.join().unwrap();
}
/// The waker is called while the reactor wakes it (I/O and a flag set by another task's waker).
pub fn bo_io() {
    let (a, mut b) = UnixStream::pair().unwrap();
    boot(); rt::time_points(false);
    let h = spawn(move || { b.write_all(b"z").unwrap(); b });
    let r = block_on(async { let a = Async::new(a).unwrap(); let mut v = [0u8; 4]; let n = a.read_with(|mut s| s.read(&mut v)).await.unwrap(); (n, v[0]) });
    check!(r == (1, b'z'), "read {:?}", r);
    h.join().unwrap();
}
/// I/O and a wake from another thread for one block_on.
pub fn bo_io_and_wake() {
    let (a, mut b) = UnixStream::pair().unwrap();
    boot(); rt::time_points(false);
    let e = Ev::new();
    let h = spawn(move || { b.write_all(b"z").unwrap(); b });
    let g = spawn(move || e.fire());
    block_on(async {
        let a = Async::new(a).unwrap();
        futures_lite::future::zip(async { a.readable().await.unwrap() }, Wait(e)).await;
    });
    rt::note(e.polls());
    h.join().unwrap(); g.join().unwrap();
}
/// Two threads inside block_on that wake each other in turn.
pub fn bo_ping() {
    boot(); rt::time_points(false);
    let (a, b, c) = (Ev::new(), Ev::new(), Ev::new());
    let h = spawn(move || block_on(async { Wait(a).await; b.fire(); Wait(c).await }));
    block_on(async { a.fire(); Wait(b).await; c.fire() });
    h.join().unwrap();
    check!(c.polls() <= 3 && b.polls() <= 3, "spurious polls: {} {}", b.polls(), c.polls());
    rt::note(b.polls() * 10 + c.polls());
}
/// Two block_on threads, both waiting for I/O; a third thread causes both events.
pub fn bo_two_io() {
    let (a, mut b) = UnixStream::pair().unwrap();
    let (c, mut d) = UnixStream::pair().unwrap();
    boot(); rt::time_points(false);
    let t0 = rt::now();
    let h = spawn(move || block_on(async { Async::new(a).unwrap().readable().await.unwrap() }));
    let g = spawn(move || { b.write_all(b"x").unwrap(); d.write_all(b"x").unwrap(); (b, d) });
    block_on(async { Async::new(c).unwrap().readable().await.unwrap() });
    let t1 = rt::now();
    h.join().unwrap();
    let k = g.join().unwrap(); drop(k);
    check!(t1 - t0 <= 50 * MS && rt::now() - t0 <= 50 * MS, "I/O of a block_on call took {} ms", (rt::now() - t0) / MS);
    rt::note((rt::now() - t0) / MS);
}
/// block_on with timers on two threads and a wake.
pub fn bo_timer_mix() {
    boot();
    let e = Ev::new();
    let ck = Clock::new();
    let t0 = rt::now();
    let h = spawn(move || { block_on(async { let i = Timer::at(ck.at(t0 + MS)).await; check!(ck.ns(i) == t0 + MS, "wrong instant"); e.fire() }) });
    block_on(async { futures_lite::future::zip(Wait(e), Timer::at(ck.at(t0 + 2 * MS))).await; });
    check!(rt::now() >= t0 + 2 * MS, "too early");
    h.join().unwrap();
}

// ------------------------------------------------------------------ isolation (C11)

/// Nested block_on calls with wakes of the outer and of the inner future at every position.
pub fn bo_nested() {
    boot(); rt::time_points(false);
    let wake_outer_before = rt::choose(2) == 1;
    let wake_outer_inside = rt::choose(2) == 1;
    let inner_n = rt::choose(3) as u32;
    let depth = 1 + rt::choose(2);
    let outer_after = rt::choose(2) == 1;
    let inner_ev = rt::choose(2) == 1;
    let polls = Rc::new(Cell::new(0u32));
    let p2 = polls.clone();
    let e = Ev::new();
    let x = Ev::new();
    let h = spawn(move || { e.fire(); x.fire() });
    let mut first = true;
    block_on(std::future::poll_fn(|cx| {
        p2.set(p2.get() + 1);
        if first {
            first = false;
            if wake_outer_before { cx.waker().wake_by_ref() }
            let outer = cx.waker().clone();
            let mut inner = Own::new(inner_n, false);
            fn nest(depth: usize, f: &mut Own, w: &dyn Fn()) -> u32 {
                if depth > 1 { return block_on(async { w(); nest(depth - 1, f, w) }) }
                block_on(async { w(); Pin::new(f).await })
            }
            let ip = inner.polls.clone();
            check!(nest(depth, &mut inner, &|| if wake_outer_inside { outer.wake_by_ref() }) == 7, "inner value");
            check!(ip.get() == inner_n + 1, "inner future polled {} times for {} wakes: the wake of the outer future reached it", ip.get(), inner_n);
            if inner_ev { block_on(Wait(e)); check!(e.polls() <= 2, "inner future polled {} times", e.polls()); }
            if outer_after { cx.waker().wake_by_ref() }
            if !(wake_outer_before || wake_outer_inside || outer_after) { return Poll::Ready(()) }
            return Poll::Pending;
        }
        Poll::Ready(())
    }));
    rt::note(polls.get() as u64);
    // the thread's own block_on is as good as new
    block_on(Wait(x));
    check!(x.polls() <= 2, "polled {} times", x.polls());
    h.join().unwrap();
    // a future that is never woken until much later is polled once
    let y = Ev::new();
    let g = spawn(move || { sleep(40_000); y.fire() });
    block_on(Wait(y));
    check!(y.polls() == 2, "a future woken once was polled {} times", y.polls());
    g.join().unwrap();
}
/// A nested call that waits while the outer future is woken from another thread.
pub fn bo_nested_cross() {
    boot(); rt::time_points(false);
    let (outer, inner) = (Ev::new(), Ev::new());
    let order = rt::choose(2);
    let h = spawn(move || if order == 0 { outer.fire(); inner.fire() } else { inner.fire(); outer.fire() });
    let mut f = Wait(outer);
    let mut nested = false;
    block_on(std::future::poll_fn(move |cx| {
        let r = Pin::new(&mut f).poll(cx);
        if r.is_pending() && !nested { nested = true; block_on(Wait(inner)); check!(inner.polls() <= 2, "inner polled {} times", inner.polls()); }
        r
    }));
    check!(outer.polls() <= 3, "outer polled {} times", outer.polls());
    rt::note(outer.polls() * 10 + inner.polls());
    h.join().unwrap();
}
/// Consecutive calls on one thread; wakes from the past must not carry over, nor be lost.
pub fn bo_consecutive() {
    boot(); rt::time_points(false);
    let k = rt::choose(3);
    let a = Ev::new();
    let b = Ev::new();
    match k {
        // woken while ready
        0 => { block_on(async { let f = Own::new(1, true); f.await }); }
        // a waker kept and called after the call has ended wakes at most the next call once
        1 => { let mut kept = None; block_on(std::future::poll_fn(|cx| { kept = Some(cx.waker().clone()); Poll::Ready(()) })); drop(kept); }
        // another thread wakes at the moment the future completes
        _ => { let h = spawn(move || a.fire()); block_on(futures_lite::future::or(Wait(a), Own2(2))); h.join().unwrap(); }
    }
    let h = spawn(move || { sleep(30_000); b.fire() });
    block_on(Wait(b));
    check!(b.polls() <= 2 + (k == 2) as u64, "the next call polled its future {} times for one wake", b.polls());
    h.join().unwrap();
}
struct Own2(u32);
impl Future for Own2 { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 == 0 { return Poll::Ready(()) } self.0 -= 1; cx.waker().wake_by_ref(); Poll::Pending } }

/// Two concurrent calls; only one of them is woken.
pub fn bo_separate() {
    boot(); rt::time_points(false);
    let (a, b) = (Ev::new(), Ev::new());
    let h = spawn(move || block_on(Wait(b)));
    let g = spawn(move || { a.fire(); sleep(25_000); check!(b.polls() <= 1, "waking one block_on call made another one poll"); b.fire() });
    block_on(Wait(a));
    check!(a.polls() <= 2 && b.polls() <= 1, "polls {} {}", a.polls(), b.polls());
    h.join().unwrap(); g.join().unwrap();
    check!(b.polls() <= 2, "polls {}", b.polls());
}

// ------------------------------------------------------------------ somebody drives I/O and timers (C10)

/// A task outside block_on waits for I/O and a timer, while other threads enter and leave block_on.
struct Outside { a: Arc<Async<UnixStream>>, peer: Sh<Option<UnixStream>>, io: &'static W, tm: &'static W, f: Sh<Option<Pin<Box<dyn Future<Output = std::io::Result<()>>>>>>, t: Sh<Option<Timer>>, ready_at: Sh<u64>, due: Sh<u64>, ck: Clock }
impl Outside {
    fn new() -> &'static Outside {
        let (a, b) = UnixStream::pair().unwrap();
        leak(Outside { a: Arc::new(Async::new(a).unwrap()), peer: Sh::new(Some(b)), io: W::new("io"), tm: W::new("timer"), f: Sh::new(None), t: Sh::new(None), ready_at: Sh::new(0), due: Sh::new(0), ck: Clock::new() })
    }
    fn wait_io(&self) { let mut f: Pin<Box<dyn Future<Output = std::io::Result<()>>>> = Box::pin(self.a.clone().readable_owned()); if poll(f.as_mut(), self.io).is_pending() { *self.f.get() = Some(f) } }
    fn event(&self) { *self.ready_at.get() = rt::now(); self.peer.get().as_mut().unwrap().write_all(b"x").unwrap() }
    fn wait_timer(&self, at: u64) { *self.due.get() = at; let mut t = Timer::at(self.ck.at(at)); if poll(Pin::new(&mut t), self.tm).is_pending() { *self.t.get() = Some(t) } else { self.tm.log.get().push(rt::now()); *self.tm.wakes.get() += 1 } }
    fn check(&self, slack: u64) {
        rt::quiesce();
        if *self.ready_at.get() > 0 {
            check!(self.io.n() >= 1, "a task waiting for I/O outside block_on was never woken");
            let l = self.io.log.get()[0].saturating_sub(*self.ready_at.get());
            check!(l <= slack, "a task waiting for I/O outside block_on was woken {} us late", l / 1000);
            rt::note(l / MS);
        }
        if *self.due.get() > 0 {
            check!(self.tm.n() >= 1, "a task waiting for a timer outside block_on was never woken");
            let l = self.tm.log.get()[0].saturating_sub(*self.due.get());
            check!(l <= slack, "a task waiting for a timer outside block_on was woken {} us late", l / 1000);
            rt::note(l / MS);
        }
    }
}
const SLACK: u64 = 50 * MS;

/// A block_on thread that is driving the reactor finishes.
pub fn drive_leave() {
    boot();
    rt::time_points(false);
    let o = Outside::new();
    let e = Ev::new();
    let h = spawn(move || block_on(Wait(e)));
    o.wait_io();
    let g = spawn(move || e.fire());
    o.event();
    o.wait_timer(rt::now() + MS);
    o.check(SLACK);
    h.join().unwrap(); g.join().unwrap();
}
/// The driving thread leaves long before the event; nobody else is in block_on.
pub fn drive_left() {
    boot();
    rt::time_points(false);
    let o = Outside::new();
    let e = Ev::new();
    let k = rt::choose(3);
    let h = spawn(move || block_on(Wait(e)));
    o.wait_io();
    o.wait_timer(rt::now() + [200 * US, 30 * MS, 300 * MS][k]);
    // long enough for the helper thread to be backed off to different degrees
    sleep([0, 5_000, 200_000][rt::choose(3)]);
    e.fire();
    o.event();
    o.check(SLACK);
    h.join().unwrap();
}
/// A block_on thread computes for a long time inside poll; another sleeps waiting for something else.
pub fn drive_busy() {
    boot();
    rt::time_points(false);
    let o = Outside::new();
    let e = Ev::new();
    let second = rt::choose(2) == 1;
    // in its first poll, after waking itself, after driving the reactor
    let how = rt::choose(4);
    let h = spawn(move || block_on(async move {
        if how >= 2 { prime() }
        if how == 1 || how == 3 { for _ in 0..2 { futures_lite::future::yield_now().await } }
        if how == 2 { Timer::after(Duration::from_millis(1)).await; }
        sleep(400_000)
    }));
    let g = if second { Some(spawn(move || block_on(Wait(e)))) } else { None };
    o.wait_io();
    sleep([0, 3_000, 100_000][rt::choose(3)]);
    o.event();
    o.wait_timer(rt::now() + [MS, 40 * MS][rt::choose(2)]);
    if second { sleep(150_000); e.fire() }
    o.check(SLACK);
    h.join().unwrap();
    if let Some(g) = g { g.join().unwrap() }
}
/// Two block_on threads: one drives, the other sleeps; the driver leaves, the sleeper stays asleep.
pub fn drive_handover() {
    boot();
    rt::time_points(false);
    let o = Outside::new();
    let (a, b) = (Ev::new(), Ev::new());
    let h = spawn(move || block_on(Wait(a)));
    let g = spawn(move || block_on(Wait(b)));
    o.wait_io();
    let order = rt::choose(2);
    let gap = [0, 2_000, 120_000][rt::choose(3)];
    sleep(gap);
    if order == 0 { a.fire() } else { b.fire() }
    o.event();
    o.wait_timer(rt::now() + 100 * US);
    sleep(300_000);
    check!(o.io.n() >= 1 && o.tm.n() >= 1, "events were not delivered while a block_on call was asleep");
    if order == 0 { b.fire() } else { a.fire() }
    o.check(SLACK);
    h.join().unwrap(); g.join().unwrap();
}
/// The driver stops hogging the reactor after 500 us and goes to sleep itself.
pub fn drive_hog() {
    boot();
    let o = Outside::new();
    let q = Outside::new();
    let e = Ev::new();
    rt::time_points(false);
    let h = spawn(move || block_on(Wait(e)));
    o.wait_timer(rt::now() + 600 * US);
    q.wait_timer(rt::now() + [700 * US, 601 * US, 20 * MS, 500 * MS][rt::choose(4)]);
    o.wait_io();
    sleep([650, 5_000, 250_000][rt::choose(3)]);
    q.wait_io();
    o.event();
    q.event();
    o.check(SLACK); q.check(SLACK);
    e.fire();
    h.join().unwrap();
}
/// block_on calls in quick succession while a task outside waits.
pub fn drive_succession() {
    boot();
    rt::time_points(false);
    let o = Outside::new();
    o.wait_io();
    let h = spawn(move || { for _ in 0..2 { block_on(Own::new(1, false)); } });
    block_on(async { futures_lite::future::yield_now().await });
    o.event();
    o.wait_timer(rt::now() + MS);
    h.join().unwrap();
    o.check(SLACK);
}
/// With time passing at any clock read: only that everything is delivered in the end.
pub fn drive_time() {
    boot();
    let o = Outside::new();
    let e = Ev::new();
    let h = spawn(move || block_on(Wait(e)));
    o.wait_timer(rt::now() + MS);
    o.wait_io();
    let g = spawn(move || { o.event(); e.fire() });
    h.join().unwrap(); g.join().unwrap();
    o.check(u64::MAX);
}
/// A driving thread that is kept busy by events for long, so that the helper sees progress all the
/// time; then it computes (or sleeps for something else), and an event comes for somebody outside.
pub fn drive_active() {
    let (a, mut b) = UnixStream::pair().unwrap();
    boot();
    rt::time_points(false);
    rt::branch(false);
    let o = Outside::new();
    let e = Ev::new();
    let gap = [300, 1_000, 4_000][rt::choose(3)];
    let then = rt::choose(3);
    let n = 60_000 / gap;
    let g = spawn(move || { for _ in 0..n { sleep(gap); b.write_all(b"x").unwrap() } b });
    let h = spawn(move || {
        primed(async {
            let a = Async::new(a).unwrap();
            for _ in 0..n { let mut v = [0u8; 1]; a.read_with(|mut s| s.read(&mut v)).await.unwrap(); }
            rt::branch(true);
            match then { 0 => sleep(400_000), 1 => Wait(e).await, _ => {} }
        })
    });
    o.wait_io();
    sleep(75_000);
    o.wait_timer(rt::now() + [100 * US, 30 * MS][rt::choose(2)]);
    o.event();
    o.check(SLACK);
    e.fire();
    h.join().unwrap(); g.join().unwrap();
}
/// The thread that drives stops hogging the reactor and sleeps for something else.
pub fn drive_hog_driver() {
    boot();
    let o = Outside::new();
    let q = Outside::new();
    let e = Ev::new();
    rt::time_points(false);
    let h = spawn(move || primed(async { o.wait_timer(rt::now() + 600 * US); Wait(e).await }));
    sleep([100, 650, 15_000, 250_000][rt::choose(4)]);
    q.wait_timer(rt::now() + [50 * US, 700 * US, 20 * MS][rt::choose(3)]);
    o.wait_io();
    q.wait_io();
    o.event();
    q.event();
    o.check(SLACK); q.check(SLACK);
    e.fire();
    h.join().unwrap();
}
/// I/O of a block_on call while its thread is not the one that drives the reactor.
pub fn drive_second() {
    let (a, mut b) = UnixStream::pair().unwrap();
    boot();
    rt::time_points(false);
    let e = Ev::new();
    let at = Sh::new(0u64); let at = leak(at);
    let h = spawn(move || block_on(Wait(e)));
    let g = spawn(move || { block_on(async { Async::new(a).unwrap().readable().await.unwrap() }); *at.get() = rt::now(); e.fire() });
    sleep([0, 1_000, 60_000][rt::choose(3)]);
    let t0 = rt::now();
    b.write_all(b"x").unwrap();
    g.join().unwrap(); h.join().unwrap();
    check!(*at.get() - t0 <= SLACK, "I/O of a block_on call completed {} us late", (*at.get() - t0) / 1000);
    let _ = b.as_raw_fd();
    rt::note((*at.get() - t0) / MS);
}
