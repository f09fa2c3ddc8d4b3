//! Waits on handles from several threads while events are delivered.
use crate::rt;
use crate::util::*;
use async_io::Async;
use std::future::Future;
use std::io::{self, Read, Write};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::task::Poll;

type H = &'static Async<UnixStream>;
type Fut = Pin<Box<dyn Future<Output = io::Result<()>>>>;

pub fn pair() -> (Async<UnixStream>, UnixStream) {
    let (a, b) = UnixStream::pair().unwrap();
    let z: i32 = 0;
    unsafe { raw(libc::SYS_setsockopt, [a.as_raw_fd() as i64, libc::SOL_SOCKET as i64, libc::SO_SNDBUF as i64, &z as *const _ as i64, 4, 0]); }
    b.set_nonblocking(true).unwrap();
    (Async::new(a).unwrap(), b)
}
/// A task that waits with a readiness future (kind 0, 1: readable, writable) or a poll method (2, 3).
pub struct Task { pub w: &'static W, f: Sh<Option<Fut>>, h: Sh<Option<H>>, kind: usize, fd: Sh<i32>, start: Sh<u64>, n0: Sh<u64>, polled_at: Sh<u64>, state: Sh<u8> }
const IDLE: u8 = 0; const PENDING: u8 = 1; const DONE: u8 = 2;
impl Task {
    pub fn new(name: &'static str, kind: usize) -> &'static Task { leak(Task { w: W::new(name), f: Sh::new(None), h: Sh::new(None), kind, fd: Sh::new(-1), start: Sh::new(0), n0: Sh::new(0), polled_at: Sh::new(0), state: Sh::new(IDLE) }) }
    fn d(&self) -> usize { self.kind & 1 }
    pub fn poll_with(&'static self, w: &'static W) -> bool {
        let h = self.h.get().unwrap();
        *self.n0.get() = w.n();
        let r = match self.kind {
            2 => poll_fn_with(w, |cx| h.poll_readable(cx)),
            3 => poll_fn_with(w, |cx| h.poll_writable(cx)),
            _ => poll(self.f.get().as_mut().unwrap().as_mut(), w),
        };
        rt::log(&format!("{} polled: {:?}", w.name, r));
        match r {
            Poll::Pending => { *self.polled_at.get() = rt::evseq(); *self.state.get() = PENDING; false }
            Poll::Ready(r) => {
                check!(r.is_ok(), "{} failed: {r:?}", w.name);
                check!(rt::reported(*self.fd.get(), self.d()) > *self.start.get(), "{} ready although the OS has reported nothing since the wait began", w.name);
                *self.state.get() = DONE; *self.f.get() = None; true
            }
        }
    }
    pub fn poll(&'static self) -> bool { self.poll_with(self.w) }
    pub fn start(&'static self, h: H) {
        *self.h.get() = Some(h); *self.fd.get() = h.as_raw_fd(); *self.start.get() = rt::evseq();
        *self.f.get() = match self.kind { 0 => Some(Box::pin(h.readable())), 1 => Some(Box::pin(h.writable())), _ => None };
        check!(!self.poll(), "{} ready at its first poll", self.w.name);
    }
    pub fn cancel(&'static self) { *self.f.get() = None; *self.state.get() = IDLE }
    pub fn pending(&self) -> bool { *self.state.get() == PENDING }
    pub fn done(&self) -> bool { *self.state.get() == DONE }
    pub fn woken(&self) -> bool { self.w.n() > *self.n0.get() }
    pub fn check(&self) {
        if self.pending() && !self.woken() {
            check!(!ready(*self.fd.get(), self.d()), "{} not woken although its handle is ready", self.w.name);
            check!(rt::reported(*self.fd.get(), self.d()) <= *self.polled_at.get(), "{} not woken although the OS reported an event for it", self.w.name);
        }
    }
}
/// Lets everything come to rest and lets woken tasks poll again; `must`: those that have to complete.
pub fn finish(tasks: &[&'static Task], must: &[&'static Task], timed: bool) {
    let rest = || if timed { rt::quiesce() } else { rt::settle() };
    rest();
    for t in tasks { t.check() }
    for _ in 0..4 {
        let mut any = false;
        for t in tasks { if t.pending() && t.woken() { t.poll(); any = true; } }
        rest();
        for t in tasks { t.check() }
        if !any { break }
    }
    for t in must { check!(t.done(), "{} does not complete although its handle is ready", t.w.name) }
    check!(rt::stat(1) == 0, "a thread blocked in I/O on a descriptor");
    for t in tasks { rt::note(t.w.n().min(4)) }
}
fn start() { boot(); rt::time_points(false); }
fn peer_write(mut p: &UnixStream) { let _ = p.write(b"x").unwrap(); }
fn drain_peer(p: &UnixStream) { rt::kop(); crate::io_hist::drain(p.as_raw_fd()) }

/// Two tasks on one handle, in the same or in different directions and by either kind of wait.
pub fn conc_same() {
    start();
    let (h, p) = pair(); let h = leak(h);
    let (ka, kb) = [(0, 0), (0, 1), (1, 1), (0, 3), (2, 1), (2, 3), (2, 0), (1, 3)][rt::choose(8)];
    let (x, y) = (Task::new("x", ka), Task::new("y", kb));
    crate::io_hist::fill(h.as_raw_fd());
    let p = leak(p);
    let g = spawn(move || { peer_write(p); drain_peer(p) });
    let t = spawn(move || y.start(h));
    x.start(h);
    t.join().unwrap(); g.join().unwrap();
    finish(&[x, y], &[x, y], false);
}
/// One event only; the wait in the other direction stays armed and completes with its own event.
pub fn conc_other() {
    start();
    let (h, p) = pair(); let h = leak(h);
    let (ka, kb) = [(0, 1), (0, 3), (2, 1), (2, 3)][rt::choose(4)];
    let first = rt::choose(2);
    let (x, y) = (Task::new("r", ka), Task::new("w", kb));
    crate::io_hist::fill(h.as_raw_fd());
    let p = leak(p);
    let g = spawn(move || if first == 0 { peer_write(p) } else { drain_peer(p) });
    let t = spawn(move || y.start(h));
    x.start(h);
    t.join().unwrap(); g.join().unwrap();
    let (a, b) = if first == 0 { (x, y) } else { (y, x) };
    finish(&[x, y], &[a], false);
    check!(!b.done(), "completed by an event of the other direction");
    if first == 0 { drain_peer(p) } else { peer_write(p) }
    finish(&[x, y], &[a, b], false);
}
/// Two handles, two tasks, two events.
pub fn conc_two() {
    start();
    let ((a, p), (b, q)) = (pair(), pair());
    let (a, b) = (leak(a), leak(b));
    let (x, y) = (Task::new("x", 0), Task::new("y", [0, 2][rt::choose(2)]));
    let g = spawn(move || { peer_write(&p); peer_write(&q); (p, q) });
    let t = spawn(move || y.start(b));
    x.start(a);
    t.join().unwrap(); let _k = g.join().unwrap();
    finish(&[x, y], &[x, y], false);
}
/// Handles come and go while an event for another handle is being delivered.
pub fn conc_churn() {
    start();
    let ((a, p), (b, _q)) = (pair(), pair());
    let a = leak(a);
    let (x, y) = (Task::new("x", 0), Task::new("y", 0));
    let k = rt::choose(3);
    let (c, r) = UnixStream::pair().unwrap();
    let g = spawn(move || { peer_write(&p); p });
    let t = spawn(move || {
        match k {
            0 => { drop(b); let c = Async::new(c).unwrap(); let c = leak(c); y.start(c) }
            1 => { let c = Async::new(c).unwrap(); drop(b); let c = leak(c); y.start(c) }
            _ => { let i = b.into_inner().unwrap(); let c = leak(Async::new(c).unwrap()); y.start(c); let i = Async::new(i).unwrap(); check!(rt::registered(i.as_raw_fd()), "not registered"); drop(i) }
        }
    });
    x.start(a);
    t.join().unwrap(); let _k = g.join().unwrap();
    finish(&[x, y], &[x], false);
    check!(!y.done() && y.w.n() == 0, "a handle that is not ready");
    peer_write(&r);
    finish(&[x, y], &[x, y], false);
    check!(rt::stat(2) == 0 && rt::stat(9) == 0, "descriptor closed while registered, or twice");
}
/// A handle with an event in flight is dropped and replaced by a new one with the same number and slot.
pub fn conc_reuse() {
    start();
    let (a, p) = pair();
    let fd = a.as_raw_fd();
    let (ka, kb) = [(0, 0), (2, 0), (0, 2), (2, 2)][rt::choose(4)];
    let unwrap = rt::choose(2) == 1;
    let x = Task::new("old", ka);
    let a = Box::into_raw(Box::new(a));
    x.start(unsafe { &*a });
    peer_write(&p);
    x.cancel();
    let a = unsafe { Box::from_raw(a) };
    if unwrap { drop(a.into_inner().unwrap()) } else { drop(a) }
    let (b, q) = pair(); let b = leak(b);
    check!(b.as_raw_fd() == fd, "harness: descriptor number not reused");
    let y = Task::new("new", kb);
    y.start(b);
    let n = x.w.n();
    finish(&[y], &[], false);
    check!(!y.done(), "completed by an event of another handle");
    check!(x.w.refs() == 0, "the waker of a dropped handle is still held");
    peer_write(&q);
    finish(&[y], &[y], false);
    check!(x.w.n() <= n + 1, "woken after the handle was dropped");
    check!(rt::stat(2) == 0 && rt::stat(9) == 0, "descriptor closed while registered, or twice");
}
/// A handle goes away while another thread makes one, waits on it, and an event for the first comes.
pub fn conc_remove() {
    start();
    let (a, p) = pair();
    let (ka, kb) = [(0, 0), (2, 0), (0, 2), (2, 2)][rt::choose(4)];
    let unwrap = rt::choose(2) == 1;
    let x = Task::new("old", ka);
    let a = Box::into_raw(Box::new(a));
    x.start(unsafe { &*a });
    x.cancel();
    let fd = p.as_raw_fd();
    let y = Task::new("new", kb);
    let send = move || { rt::kop(); unsafe { raw(libc::SYS_sendto, [fd as i64, b"x".as_ptr() as i64, 1, libc::MSG_NOSIGNAL as i64, 0, 0]) }; rt::kdirty() };
    // the event comes last, or it is there already but nobody collects it for the time being
    let hold = if rt::choose(2) == 1 { rt::branch(false); let h = Hold::new(); send(); rt::branch(true); Some(h) } else { None };
    let g = spawn(move || {
        let (b, q) = pair();
        y.start(leak(b));
        match hold { Some(h) => h.release(), None => send() }
        q
    });
    let a = unsafe { Box::from_raw(a) };
    let mut kept = None;
    if unwrap { kept = Some(a.into_inner().unwrap()) } else { drop(a) }
    let q = g.join().unwrap();
    finish(&[y], &[], false);
    check!(!y.done(), "completed by an event of another handle");
    check!(x.w.refs() == 0, "the waker of a dropped handle is still held");
    peer_write(&q);
    finish(&[y], &[y], false);
    check!(rt::stat(2) == 0 && rt::stat(9) == 0, "descriptor closed while registered, or twice");
    drop((kept, p));
}
/// Owned futures; the last owner of the handle, an event and another task race.
pub fn conc_owned() {
    start();
    let (a, p) = pair();
    let fd = a.as_raw_fd();
    let a = std::sync::Arc::new(a);
    let what = rt::choose(3);
    type Owned = Pin<Box<dyn Future<Output = io::Result<()>> + Send>>;
    let (w, v) = (W::new("first"), W::new("second"));
    let mut f: Owned = Box::pin(a.clone().readable_owned());
    check!(poll(f.as_mut(), w).is_pending(), "ready without an event");
    let mut g: Option<Owned> = if what == 2 { let mut g: Owned = Box::pin(a.clone().readable_owned()); check!(poll(g.as_mut(), v).is_pending(), "ready without an event"); Some(g) } else { None };
    let p = leak(p);
    let t = spawn(move || { rt::kop(); unsafe { raw(libc::SYS_sendto, [p.as_raw_fd() as i64, b"x".as_ptr() as i64, 1, libc::MSG_NOSIGNAL as i64, 0, 0]) }; rt::kdirty() });
    // the handle lives in the future only
    let u = spawn(move || { drop(a); if what == 1 { rt::touch(&w.at, true) } });
    u.join().unwrap();
    check!(rt::registered(fd) && fd_open(fd), "closed while an owned future exists");
    match what {
        // waits for it
        0 => {
            t.join().unwrap();
            let mut n = 0;
            let mut seen = 0;
            loop {
                rt::settle();
                check!(w.n() > seen, "the owned future was not woken");
                seen = w.n();
                if poll(f.as_mut(), w).is_ready() { break }
                n += 1;
                check!(n < 4, "the owned future does not complete");
            }
            check!(rt::registered(fd) && fd_open(fd), "closed while an owned future exists");
            drop(f);
        }
        // dropped on another thread while the event is delivered
        1 => { let z = spawn(move || drop(f)); z.join().unwrap(); t.join().unwrap(); }
        // one is dropped, the other one goes on
        _ => {
            let z = spawn(move || drop(f));
            let mut g = g.take().unwrap();
            z.join().unwrap(); t.join().unwrap();
            let mut seen = 0;
            let mut n = 0;
            loop {
                rt::settle();
                check!(v.n() > seen, "the owned future was not woken");
                seen = v.n();
                if poll(g.as_mut(), v).is_ready() { break }
                n += 1;
                check!(n < 4, "the owned future does not complete");
            }
            check!(rt::registered(fd) && fd_open(fd), "closed while an owned future exists");
            drop(g);
        }
    }
    check!(!rt::registered(fd) && !fd_open(fd), "the handle outlives its last owner");
    let n = (w.n(), v.n());
    rt::settle();
    check!(w.refs() == 0 && v.refs() == 0, "a waker is still held");
    if what == 0 { check!(n == (w.n(), v.n()), "woken after it was dropped"); }
    rt::note(n.0 * 4 + n.1);
}
/// One of two waits is cancelled while the event for both is being delivered.
pub fn conc_cancel() {
    start();
    let (h, p) = pair(); let h = leak(h);
    let k = rt::choose(5);
    let (x, y, z) = (Task::new("x", 0), Task::new("y", [0, 0, 0, 0, 1][k]), Task::new("z", 0));
    x.start(h);
    if k > 2 {
        // another wait on the same handle begins meanwhile; the event comes afterwards
        let t = spawn(move || x.cancel());
        y.start(h);
        t.join().unwrap();
        rt::settle();
        check!(x.w.refs() == 0, "the waker of a cancelled wait is still held");
        peer_write(&p);
        finish(&[y], &[y], false);
        check!(x.w.n() == 0, "woken although it was cancelled");
        return;
    }
    if k != 2 { y.start(h); }
    let g = spawn(move || { peer_write(&p); p });
    let t = spawn(move || { x.cancel(); if k == 1 { z.start(h) } });
    if k == 2 { y.start(h) }
    t.join().unwrap(); let _k = g.join().unwrap();
    if k == 1 { finish(&[y, z], &[y, z], false) } else { finish(&[y], &[y], false) }
    check!(x.w.refs() == 0, "the waker of a cancelled wait is still held");
}
/// A wait is polled again with another waker while its event is being delivered.
pub fn conc_waker() {
    start();
    let (h, p) = pair(); let h = leak(h);
    let k = [0, 2][rt::choose(2)];
    let x = Task::new("x", k);
    let w2 = W::new("x'");
    x.start(h);
    let g = spawn(move || { peer_write(&p); p });
    let done = x.poll_with(w2);
    let _k = g.join().unwrap();
    rt::settle();
    if !done {
        check!(w2.n() >= 1, "the waker of the latest poll was not woken");
        let mut ok = false;
        for _ in 0..4 { let n = w2.n(); if x.poll_with(w2) { ok = true; break } rt::settle(); check!(w2.n() > n, "not woken again") }
        check!(ok, "does not complete although its handle is ready");
    }
    if k == 2 { check!(x.w.n() >= 1, "a displaced waiter was not woken") }
    check!(x.w.refs() == 0 && w2.refs() == 0, "wakers are still held");
}
/// Two tasks wait by the poll method of one handle.
pub fn conc_displace() {
    start();
    let (h, p) = pair(); let h = leak(h);
    let k = 2 + rt::choose(2);
    if k == 3 { crate::io_hist::fill(h.as_raw_fd()) }
    let (x, y) = (Task::new("x", k), Task::new("y", k));
    let p = leak(p);
    let event = rt::choose(2) == 1;
    let g = spawn(move || if event { if k == 2 { peer_write(p) } else { drain_peer(p) } });
    // either may come to wait after the event was reported to the other
    let first = |t: &'static Task| { *t.h.get() = Some(h); *t.fd.get() = h.as_raw_fd(); *t.start.get() = 0; t.poll(); };
    let t = spawn(move || { *y.h.get() = Some(h); *y.fd.get() = h.as_raw_fd(); *y.start.get() = 0; y.poll(); });
    first(x);
    t.join().unwrap(); g.join().unwrap();
    rt::settle();
    // a task that was displaced has been woken
    let waiting = [x, y].iter().filter(|t| t.pending() && !t.woken()).count();
    check!(waiting <= 1, "a displaced waiter was not woken");
    if event { check!(waiting == 0, "a waiter was not woken although its handle is ready") }
    rt::note(waiting as u64 + 10 * x.w.n() + 100 * y.w.n());
}
/// A thread in block_on does I/O while other tasks wait outside.
pub fn conc_drive() {
    start();
    let ((a, p), (b, q)) = (pair(), pair());
    let b = leak(b);
    let x = Task::new("x", [0, 2][rt::choose(2)]);
    let g = spawn(move || { peer_write(&q); peer_write(&p); (p, q) });
    let t = spawn(move || async_io::block_on(async { let mut v = [0u8; 4]; check!(a.read_with(|mut s| s.read(&mut v)).await.unwrap() == 1, "read"); }));
    x.start(b);
    t.join().unwrap(); let _k = g.join().unwrap();
    finish(&[x], &[x], true);
}
/// Three threads in block_on, each waiting for a handle of its own or for the same one.
pub fn conc_three() {
    start();
    let ((a, p), (b, q)) = (pair(), pair());
    let (a, b) = (leak(a), leak(b));
    let same = rt::choose(2) == 1;
    let t0 = rt::now();
    let h1 = spawn(move || async_io::block_on(async { a.readable().await.unwrap() }));
    let h2 = spawn(move || async_io::block_on(async { if same { a.readable().await.unwrap() } else { b.readable().await.unwrap() } }));
    peer_write(&p); peer_write(&q);
    async_io::block_on(async { b.readable().await.unwrap() });
    h1.join().unwrap(); h2.join().unwrap();
    check!(rt::now() - t0 <= 50 * MS, "block_on calls with ready handles took {} ms", (rt::now() - t0) / MS);
}
/// A handle is dropped by one thread while another one's wait is delivered and a third registers.
pub fn conc_drop() {
    start();
    let ((a, p), (b, q)) = (pair(), pair());
    let b = leak(b);
    let (x, y) = (Task::new("x", 0), Task::new("y", 1));
    x.start(b);
    peer_write(&p); 
    crate::io_hist::fill(b.as_raw_fd());
    let a = std::sync::Arc::new(a);
    let mut f: Pin<Box<dyn Future<Output = io::Result<()>>>> = Box::pin(a.clone().readable_owned());
    let w = W::new("owned");
    let _ = poll(f.as_mut(), w);
    let f = Sh::new(Some(f));
    let t = spawn(move || { let f = f; *f.get() = None; drop(a) });
    let q = leak(q);
    let g = spawn(move || peer_write(q));
    y.start(b);
    t.join().unwrap(); g.join().unwrap();
    finish(&[x, y], &[x], false);
    drain_peer(q);
    finish(&[x, y], &[x, y], false);
    check!(w.refs() == 0, "the waker of a dropped handle is still held");
    check!(rt::stat(2) == 0 && rt::stat(9) == 0, "descriptor closed while registered, or twice");
}

/// Several waits for one direction; the first task that is woken uses the readiness up at once.
pub fn conc_consume() {
    start();
    let (h, p) = pair(); let h = leak(h);
    let kinds: &[usize] = [&[0, 0, 0][..], &[0, 0, 2], &[0, 2], &[1, 1, 1], &[1, 1, 3], &[0, 0, 1]][rt::choose(6)];
    let late = rt::choose(2) == 1;
    let fd = h.as_raw_fd();
    crate::io_hist::fill(fd);
    let tasks: Vec<&'static Task> = ["x", "y", "z"].iter().zip(kinds).map(|(n, &k)| Task::new(n, k)).collect();
    for t in &tasks {
        let d = t.d();
        t.w.on_wake(move || if d == 0 { crate::io_hist::drain(fd) } else { crate::io_hist::fill(fd) });
    }
    let dir = kinds[0] & 1;
    let must: Vec<&'static Task> = tasks.iter().copied().filter(|t| t.d() == dir).collect();
    let p = leak(p);
    let event = move || if dir == 0 { peer_write(p) } else { drain_peer(p) };
    let last = tasks[must.len() - 1];
    if late {
        // one of the waits begins while the event is coming: it may miss it, the others must not
        for t in &tasks { if !std::ptr::eq(*t, last) { t.start(h) } }
        let g = spawn(move || last.start(h));
        event();
        g.join().unwrap();
        rt::settle();
        for t in &must { if !std::ptr::eq(*t, last) { check!(t.woken(), "{} was not woken by an event of its direction", t.w.name); } }
        last.check();
    } else {
        for t in &tasks { t.start(h) }
        let g = spawn(event);
        g.join().unwrap();
        rt::settle();
        for t in &must { check!(t.woken(), "{} was not woken by an event of its direction", t.w.name); }
    }
    for t in &tasks { if t.d() != dir { check!(!t.done() && t.w.n() == 0, "completed by an event of the other direction") } }
}

/// Many waits for one direction of one handle, some of them cancelled, replaced or handed to other tasks
/// before the event; one wait of the other direction and one by poll method beside them.
pub fn many_waits() {
    start();
    rt::limits(20_000, 4_000_000);
    let (h, p) = pair(); let h = leak(h);
    let n = [2usize, 5, 9, 33, 130][rt::choose(5)];
    let dir = rt::choose(2);
    let act = rt::choose(8);
    let names = ["one", "other"];
    crate::io_hist::fill(h.as_raw_fd());
    rt::kdirty();
    let side = Task::new("side", 1 - dir);
    let meth = Task::new("meth", 2 + dir);
    let mut v: Vec<&'static Task> = (0..n).map(|_| Task::new(names[0], dir)).collect();
    if act % 2 == 0 { side.start(h); meth.start(h) }
    for t in &v { t.start(h) }
    if act % 2 == 1 { side.start(h); meth.start(h) }
    rt::settle();
    let mut gone: Vec<&'static Task> = vec![];
    let mut cancel = |t: &'static Task| { t.cancel(); gone.push(t) };
    match act {
        1 => for t in v.iter().step_by(2) { cancel(t) },
        2 => for t in &v[..n - 1] { cancel(t) },
        3 => for t in &v[1..] { cancel(t) },
        4 => for i in 0..n { if i % 3 == 0 { cancel(v[i]); v[i] = Task::new("new", dir); v[i].start(h) } },
        5 => { for t in &v { cancel(t) } for t in v.iter_mut() { *t = Task::new("new", dir); t.start(h) } }
        6 => for t in &v { check!(!t.poll(), "ready without an event") },
        7 => { for t in v.iter().rev().take(n / 2) { cancel(t) } for _ in 0..n { let t = Task::new("late", dir); t.start(h); v.push(t) } }
        _ => {}
    }
    rt::settle();
    for t in &gone { check!(t.w.refs() == 0, "the task of a cancelled wait is still referenced"); check!(t.w.n() == 0, "a cancelled wait woke its task") }
    rt::branch(false);
    if dir == 0 { peer_write(&p) } else { drain_peer(&p) }
    let live: Vec<&'static Task> = v.iter().copied().filter(|t| t.pending()).collect();
    let mut all = live.clone(); all.push(meth); 
    finish(&all, &all, false);
    check!(side.pending() && side.w.n() == 0, "an event of the other direction woke a wait");
    for t in &gone { check!(t.w.n() == 0, "a cancelled wait woke its task") }
    if dir == 1 { peer_write(&p) } else { drain_peer(&p) }
    finish(&[side], &[side], false);
    for t in &live { check!(t.w.refs() == 0, "the task of a completed wait is still referenced") }
}
