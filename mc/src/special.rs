//! Panicking wakers and futures (C12), wakers that use the library (C20), idle programs (C21),
//! starvation (C22), errors of the OS while waiting (C18).
use crate::block::{Ev, Wait};
use crate::io_hist::{drain, fill};
use crate::rt;
use crate::util::*;
use async_io::{block_on, Async, Timer};
use futures_lite::Stream;
use std::future::Future;
use std::io::{self, Write};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;

type Fut = Pin<Box<dyn Future<Output = io::Result<()>> + Send>>;
fn pair() -> (Async<UnixStream>, UnixStream) { let (a, b) = UnixStream::pair().unwrap(); b.set_nonblocking(true).unwrap(); (Async::new(a).unwrap(), b) }
fn fullpair() -> (Async<UnixStream>, UnixStream) { let (a, b) = UnixStream::pair().unwrap(); b.set_nonblocking(true).unwrap(); fill(a.as_raw_fd()); (Async::new(a).unwrap(), b) }
fn make_ready(peer: &UnixStream, dir: usize) { if dir == 0 { let _ = (&*peer).write(b"x").unwrap(); } else { rt::kop(); drain(peer.as_raw_fd()) } }
const SLACK: u64 = 50 * MS;

/// Something that waits: a future for one direction, a poll-method waiter, or a timer.
enum Src { Fut(Fut, Arc<Async<UnixStream>>, UnixStream, usize), Meth(Arc<Async<UnixStream>>, UnixStream, usize), Timer(Timer, u64), Tick(Timer, u64) }
struct Item { s: Src, w: &'static W, n: u64 }
impl Item {
    fn new(kind: usize, name: &'static str, due: u64) -> Item {
        let w = W::new(name);
        let s = match kind {
            0 | 1 => { let (a, b) = if kind == 0 { pair() } else { fullpair() }; let a = Arc::new(a); let f: Fut = if kind == 0 { Box::pin(a.clone().readable_owned()) } else { Box::pin(a.clone().writable_owned()) }; Src::Fut(f, a, b, kind) }
            2 | 3 => { let (a, b) = if kind == 2 { pair() } else { fullpair() }; Src::Meth(Arc::new(a), b, kind - 2) }
            4 => Src::Timer(Timer::after(Duration::from_nanos(due)), rt::now() + due),
            _ => Src::Tick(Timer::interval(Duration::from_nanos(due)), rt::now() + due),
        };
        let mut i = Item { s, w, n: 0 };
        check!(i.poll().is_pending(), "ready at its first poll");
        i
    }
    fn poll(&mut self) -> Poll<()> {
        self.n = self.w.n();
        match &mut self.s {
            Src::Fut(f, ..) => match poll(f.as_mut(), self.w) { Poll::Ready(r) => { check!(r.is_ok(), "{r:?}"); Poll::Ready(()) } _ => Poll::Pending },
            Src::Meth(a, _, d) => match poll_fn_with(self.w, |cx| if *d == 0 { a.poll_readable(cx) } else { a.poll_writable(cx) }) { Poll::Ready(r) => { check!(r.is_ok(), "{r:?}"); Poll::Ready(()) } _ => Poll::Pending },
            Src::Timer(t, due) => match poll(Pin::new(t), self.w) { Poll::Ready(_) => { check!(rt::now() >= *due, "early"); Poll::Ready(()) } _ => Poll::Pending },
            Src::Tick(t, due) => match poll_fn_with(self.w, |cx| Pin::new(t).poll_next(cx)) { Poll::Ready(r) => { check!(r.is_some() && rt::now() >= *due, "early, or the interval ended"); Poll::Ready(()) } _ => Poll::Pending },
        }
    }
    /// Makes the I/O ready (timers: nothing).
    fn event(&self) { match &self.s { Src::Fut(_, _, b, d) => make_ready(b, *d), Src::Meth(_, b, d) => make_ready(b, *d), _ => {} } }
    fn woken(&self) -> bool { self.w.n() > self.n }
    /// Polls until it completes.
    fn complete(&mut self, what: &str) {
        check!(self.woken(), "{} not woken ({what})", self.w.name);
        for _ in 0..4 {
            if self.poll().is_ready() { return }
            pass_to(rt::now() + SLACK);
            check!(self.woken(), "{} not woken again ({what})", self.w.name);
        }
        rt::fail(&format!("{} does not complete ({what})", self.w.name))
    }
    /// Starts a new wait of the same kind.
    fn again(&mut self) {
        match &mut self.s {
            Src::Fut(f, a, b, d) => { if *d == 0 { drain(a.as_raw_fd()); *f = Box::pin(a.clone().readable_owned()) } else { fill(a.as_raw_fd()); *f = Box::pin(a.clone().writable_owned()) } let _ = b; }
            Src::Meth(a, _, d) => if *d == 0 { drain(a.as_raw_fd()) } else { fill(a.as_raw_fd()) },
            Src::Timer(t, due) => { t.set_after(Duration::from_millis(2)); *due = rt::now() + 2 * MS }
            Src::Tick(t, due) => { t.set_interval(Duration::from_millis(2)); *due = rt::now() + 2 * MS }
        }
        for _ in 0..4 { if self.poll().is_pending() { return } }
        rt::fail(&format!("{} is never pending", self.w.name));
    }
}

/// How delivery happens: by the library's own thread; by a block_on call of another thread; or by
/// block_on of this one.
struct Drive { stop: Option<(&'static Ev, std::thread::JoinHandle<()>)> }
impl Drive {
    fn new(k: usize) -> Drive {
        if k == 0 { return Drive { stop: None } }
        let e = Ev::new();
        let h = spawn(move || block_on(Wait(e)));
        rt::settle();
        Drive { stop: Some((e, h)) }
    }
    fn end(self) { if let Some((e, h)) = self.stop { e.fire(); if h.join().is_err() { rt::fail("block_on panicked although its future did not") } } }
}

// ------------------------------------------------------------------ C12: panics

/// Several waits fall due in the same delivery; the wakers of some panic.
pub fn panic_wakers() {
    boot(); rt::time_points(false);
    let d = Drive::new(rt::choose(2));
    let sets: [[usize; 3]; 4] = [[0, 4, 2], [4, 4, 1], [3, 0, 5], [2, 1, 4]];
    let set = sets[rt::choose(4)];
    let bad = 1 + rt::choose(7);
    let names = ["first", "second", "third"];
    let mut items: Vec<Item> = (0..3).map(|i| Item::new(set[i], names[i], MS)).collect();
    for i in 0..3 { *items[i].w.panics.get() = bad >> i & 1 == 1 }
    rt::settle();
    let t = rt::now() + MS;
    for i in &items { i.event() }
    rt::advance(t);
    rt::settle();
    pass_to(t + SLACK);
    for (i, it) in items.iter_mut().enumerate() { let _ = i; it.complete("in the delivery with a panicking waker") }
    // everything works afterwards
    for i in &mut items { *i.w.panics.get() = false; i.again() }
    rt::settle();
    let t = rt::now() + 3 * MS;
    for i in &items { i.event() }
    pass_to(t + SLACK);
    for i in &mut items { i.complete("after a waker panicked") }
    d.end();
    // also without block_on, and inside it
    let mut x = Item::new(0, "later", 0); rt::settle(); x.event(); pass_to(rt::now() + SLACK); x.complete("later");
    block_on(async { Timer::after(Duration::from_millis(1)).await; });
}
/// A panicking waker that was displaced by another task.
pub fn panic_displaced() {
    boot(); rt::time_points(false);
    let d = Drive::new(rt::choose(2));
    let dir = rt::choose(2);
    let (a, b) = if dir == 0 { pair() } else { fullpair() };
    let (w, v) = (W::new("displaced"), W::new("new"));
    let pollm = |w: &'static W| poll_fn_with(w, |cx| if dir == 0 { a.poll_readable(cx) } else { a.poll_writable(cx) });
    *w.panics.get() = true;
    check!(pollm(w).is_pending(), "ready");
    let r = catch_unwind(AssertUnwindSafe(|| pollm(v)));
    match r { Ok(r) => check!(r.is_pending(), "ready"), Err(_) => rt::fail("the panic of a displaced waker hits the task that displaced it") }
    check!(w.n() == 1, "displaced task not woken");
    rt::settle();
    make_ready(&b, dir);
    pass_to(rt::now() + SLACK);
    check!(v.n() >= 1, "not woken");
    let mut ok = false;
    for _ in 0..4 { match pollm(v) { Poll::Ready(r) => { check!(r.is_ok(), "{r:?}"); ok = true; break } Poll::Pending => pass_to(rt::now() + SLACK) } }
    check!(ok, "does not complete");
    d.end();
}
/// A future that panics inside block_on, alone, nested, and while others use the library.
pub fn panic_future() {
    boot(); rt::time_points(false);
    let when = rt::choose(4); // at once, after a wake, after I/O, after a timer
    let nest = rt::choose(3);
    let other = rt::choose(2) == 1;
    let e = Ev::new();
    let d = Drive::new(other as usize);
    let mut it = Item::new(0, "bystander", 0);
    let mut tm = Item::new(4, "timer", 20 * MS);
    let h = spawn(move || {
        let (a, b) = pair();
        let h2 = if when == 1 { Some(spawn(move || e.fire())) } else { None };
        if when == 2 { let _ = (&b).write(b"x").unwrap(); }
        let bang = async move {
            match when { 0 => {} 1 => Wait(e).await, 2 => a.readable().await.unwrap(), _ => { Timer::after(Duration::from_millis(1)).await; } }
            boom()
        };
        let r: Result<(), _> = match nest {
            0 => catch_unwind(AssertUnwindSafe(|| block_on(bang))),
            // the inner call panics through the outer one
            1 => catch_unwind(AssertUnwindSafe(|| block_on(async { block_on(bang) }))),
            // the outer future survives the panic of the inner call
            _ => {
                let r = block_on(async { let r = catch_unwind(AssertUnwindSafe(|| block_on(bang))); Timer::after(Duration::from_millis(1)).await; r });
                r
            }
        };
        match r { Ok(()) => rt::fail("the panic got lost"), Err(p) => check!(p.is::<Intentional>(), "another panic") }
        if let Some(h) = h2 { h.join().unwrap() }
        // the same thread goes on
        let v = block_on(async { Timer::after(Duration::from_millis(1)).await; 5 });
        check!(v == 5, "value");
        let (a, b) = pair();
        let _ = (&b).write(b"x").unwrap();
        check!(block_on(a.readable()).is_ok(), "error");
    });
    h.join().unwrap();
    // others were not disturbed
    it.event();
    pass_to(rt::now() + 20 * MS + SLACK);
    it.complete("after a future panicked in block_on");
    tm.complete("after a future panicked in block_on");
    d.end();
    let mut x = Item::new(0, "later", 0); let mut y = Item::new(4, "later timer", MS);
    rt::settle(); x.event(); pass_to(rt::now() + MS + SLACK); x.complete("later"); y.complete("later");
    let h = spawn(|| block_on(async { Timer::after(Duration::from_millis(1)).await; }));
    h.join().unwrap();
    // no thread is inside block_on any more: timers are on time again
    pass_to(rt::now() + SLACK);
    let mut v: Vec<Item> = (0..3).map(|i| Item::new(4, "punctual", MS + i * 20 * US)).collect();
    let t0 = rt::now();
    pass_to(t0 + 2 * MS);
    for (i, x) in v.iter_mut().enumerate() { let at = *x.w.at.get(); check!(x.w.n() == 1 && at == t0 + MS + i as u64 * 20 * US, "a timer fired {} us late although no thread is inside block_on", (at as i64 - (t0 + MS) as i64) / 1000 - i as i64 * 20); x.complete("later") }
}
/// A panicking waker while another thread waits for its turn to deliver.
pub fn panic_race() {
    boot(); rt::time_points(false);
    let mut it = Item::new(0, "panics", 0);
    let mut jt = Item::new(0, "innocent", 0);
    *it.w.panics.get() = true;
    let k = rt::choose(2);
    let h = spawn(move || { let (a, b) = pair(); if k == 0 { block_on(async { Timer::after(Duration::from_millis(1)).await; }) } else { let _ = (&b).write(b"x").unwrap(); block_on(a.readable()).unwrap() } });
    it.event(); jt.event();
    h.join().unwrap();
    pass_to(rt::now() + SLACK);
    it.complete("panicking"); jt.complete("beside a panicking waker");
    *it.w.panics.get() = false;
    it.again(); it.event(); pass_to(rt::now() + SLACK); it.complete("afterwards");
}

// ------------------------------------------------------------------ C20: wakers that use the library

struct Toys { timers: Vec<Timer>, made: Vec<Item>, futs: Vec<(Fut, &'static W, u64)>, handles: Vec<(Arc<Async<UnixStream>>, UnixStream)>, extra: Vec<Item>, done: u64 }
const OPS: usize = 16;
fn use_lib(t: &mut Toys, op: usize, it: &mut Item) {
    rt::log(&format!("waker does {op}"));
    match op {
        // create and poll
        0 => t.made.push(Item::new(4, "new timer", MS)),
        1 => { let mut x = Timer::after(Duration::ZERO); let w = W::new("due"); check!(poll(Pin::new(&mut x), w).is_ready(), "a timer that is due is not ready"); }
        2 => { let i = Item::new(0, "new reader", 0); i.event(); t.made.push(i) }
        3 => { let i = Item::new(3, "new writer", 0); i.event(); t.made.push(i) }
        4 => t.made.push(Item::new(5, "new interval", MS)),
        // reset and drop timers
        5 => { for i in &mut t.extra { if let Src::Timer(x, due) = &mut i.s { x.set_after(Duration::from_millis(3)); *due = rt::now() + 3 * MS } } }
        6 => { t.extra.retain(|i| !matches!(i.s, Src::Timer(..))) }
        7 => { t.timers.clear() }
        // handles and futures
        8 => { t.extra.retain(|i| !matches!(i.s, Src::Fut(..) | Src::Meth(..))) }
        9 => { t.futs.clear() }
        10 => { for i in &mut t.extra { if !matches!(i.s, Src::Timer(..) | Src::Tick(..)) && i.poll().is_ready() { i.again() } } }
        11 => { t.handles.clear(); let (a, b) = pair(); let a = a.into_inner().unwrap(); t.handles.push((Arc::new(Async::new(a).unwrap()), b)) }
        // others
        12 => { W::new("other").waker().wake(); let k: Vec<_> = t.extra.iter().map(|i| i.w.waker()).collect(); for k in k { k.wake() } }
        // more timer operations than fit into the internal queue
        13 => { for _ in 0..600 { let mut x = Timer::after(Duration::from_secs(1000)); let w = W::new("x"); check!(poll(Pin::new(&mut x), w).is_pending(), "early"); t.timers.push(x) } t.timers.clear() }
        // the task that is being woken runs at once
        14 => { if it.poll().is_ready() { it.again(); it.event() } }
        // everything of its own is dropped
        _ => { let w = it.w; let other = Item { s: Src::Timer(Timer::never(), 0), w, n: 0 }; drop(std::mem::replace(it, other)); }
    }
    t.done += 1;
}
fn reent(kinds: &[[usize; 2]], ops: &[usize], deliver: usize) {
    rt::time_points(false); rt::limits(3000, 400_000);
    let d = Drive::new(deliver);
    let kind = kinds[rt::choose(kinds.len())];
    let op = [ops[rt::choose(ops.len())], ops[rt::choose(ops.len())]];
    let t: &'static Sh<Toys> = leak(Sh::new(Toys { timers: vec![], made: vec![], futs: vec![], handles: vec![pair2()], extra: vec![], done: 0 }));
    // what the wakers may touch: due in the same delivery, or later
    t.get().extra = vec![Item::new(4, "timer of others", MS), Item::new(0, "reader of others", 0), Item::new(3, "writer of others", 0)];
    for _ in 0..2 { let (a, b) = pair(); let a = Arc::new(a); let w = W::new("fut"); let mut f: Fut = Box::pin(a.clone().readable_owned()); let _ = poll(f.as_mut(), w); t.get().futs.push((f, w, 0)); t.get().handles.push((a, b)); }
    t.get().timers = (0..2).map(|_| { let w = W::new("t"); let mut x = Timer::after(Duration::from_millis(1)); let _ = poll(Pin::new(&mut x), w); x }).collect();
    let items: [&'static Sh<Item>; 2] = [leak(Sh::new(Item::new(kind[0], "a", MS))), leak(Sh::new(Item::new(kind[1], "b", MS)))];
    let bystander = &mut Item::new(2, "bystander", 0);
    let bytimer = &mut Item::new(4, "timer bystander", MS);
    let calls = leak(Sh::new([0u32; 2]));
    for i in 0..2 {
        let it = items[i]; let o = op[i];
        it.get().w.on_wake(move || { let c = &mut calls.get()[i]; *c += 1; if *c == 1 { use_lib(t.get(), o, it.get()) } });
    }
    rt::settle();
    let both = rt::choose(2) == 1;
    rt::branch(false); // wakers may drop what is made ready here
    for i in &items { i.get().event() }
    if both { for i in &t.get().extra { i.event() } }
    bystander.event();
    let due = rt::now() + MS;
    rt::advance(due);
    rt::branch(true);
    rt::settle();
    pass_to(due + SLACK);
    for i in 0..2 { check!(calls.get()[i] >= 1, "{} not woken", items[i].get().w.name) }
    check!(t.get().done == 2, "harness: {} operations", t.get().done);
    bystander.complete("beside re-entrant wakers"); bytimer.complete("beside re-entrant wakers");
    pass_to(rt::now() + 4 * MS + SLACK);
    for m in &mut t.get().made { m.complete("made by a waker") }
    // what is left still works
    for x in &mut t.get().extra { x.event() }
    pass_to(rt::now() + SLACK);
    for x in &mut t.get().extra { x.complete("left alone") }
    let mut l = Item::new(0, "last", 0); rt::settle(); l.event(); pass_to(rt::now() + SLACK); l.complete("in the end");
    d.end();
    rt::note(op[0] as u64 * 16 + op[1] as u64);
}
fn pair2() -> (Arc<Async<UnixStream>>, UnixStream) { let (a, b) = pair(); (Arc::new(a), b) }
const ALL: [usize; OPS] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
pub fn reent_helper() { boot(); reent(&[[0, 4], [4, 2], [4, 4], [3, 1]], &ALL, 0) }
pub fn reent_block_on() { boot(); reent(&[[0, 4], [4, 2], [4, 4], [3, 1]], &ALL, 1) }
/// Fewer operations, all schedules of another thread that uses the library meanwhile.
pub fn reent_race() {
    boot(); rt::time_points(false);
    let op = [0, 2, 5, 6, 8, 9, 10, 11, 14, 15][rt::choose(10)];
    let kind = [0, 2, 4][rt::choose(3)];
    let t: &'static Sh<Toys> = leak(Sh::new(Toys { timers: vec![], made: vec![], futs: vec![], handles: vec![pair2()], extra: vec![Item::new(4, "timer of others", 5 * MS), Item::new(0, "reader of others", 0)], done: 0 }));
    let it: &'static Sh<Item> = leak(Sh::new(Item::new(kind, "a", MS)));
    let n = leak(Sh::new(0));
    it.get().w.on_wake(move || { *n.get() += 1; if *n.get() == 1 { use_lib(t.get(), op, it.get()) } });
    let (c, dd) = pair2();
    let h = spawn(move || {
        let w = W::new("elsewhere");
        let mut f: Fut = Box::pin(c.clone().readable_owned());
        let _ = poll(f.as_mut(), w);
        let mut x = Timer::after(Duration::from_millis(2));
        let _ = poll(Pin::new(&mut x), w);
        let n = w.n();
        let _ = (&dd).write(b"x").unwrap();
        drop(x);
        (f, w, n, c, dd)
    });
    it.get().event();
    let due = rt::now() + MS;
    let (_f, w, n0, _c, _d) = h.join().unwrap();
    pass_to(due + SLACK);
    check!(*n.get() >= 1, "not woken");
    check!(w.n() > n0, "the other thread's task not woken");
    for m in &mut t.get().made { m.complete("made by a waker") }
    rt::note(op as u64);
}
/// A waiter by a poll method is displaced by another task; its waker uses the library, also the same handle.
pub fn reent_displaced() {
    boot(); rt::time_points(false); rt::limits(3000, 400_000);
    let d = Drive::new(rt::choose(2));
    let dir = rt::choose(2);
    let op = rt::choose(OPS + 3);
    let t: &'static Sh<Toys> = leak(Sh::new(Toys { timers: vec![], made: vec![], futs: vec![], handles: vec![pair2()], extra: vec![Item::new(4, "timer of others", MS), Item::new(0, "reader of others", 0)], done: 0 }));
    let it: &'static Sh<Item> = leak(Sh::new(Item::new(2 + dir, "displaced", 0)));
    let (a, b) = match &it.get().s { Src::Meth(a, b, _) => (a.clone(), b.try_clone().unwrap()), _ => unreachable!() };
    // a future on the same handle and direction
    let fw = W::new("future beside");
    let mut fut: Option<Fut> = None;
    let mk = |a: &Arc<Async<UnixStream>>| -> Fut { if dir == 0 { Box::pin(a.clone().readable_owned()) } else { Box::pin(a.clone().writable_owned()) } };
    if rt::choose(2) == 1 || op == OPS + 1 { let mut f = mk(&a); check!(poll(f.as_mut(), fw).is_pending(), "ready"); fut = Some(f) }
    let fut: &'static Sh<Option<Fut>> = leak(Sh::new(fut));
    let made: &'static Sh<Vec<(Fut, &'static W)>> = leak(Sh::new(vec![]));
    let calls = leak(Sh::new(0u32));
    let ar = a.clone();
    it.get().w.on_wake(move || {
        *calls.get() += 1;
        if *calls.get() > 1 { return }
        match op {
            // the other direction of the same handle, by the other method and by a future
            OPS => { let w = W::new("other direction"); let _ = poll_fn_with(w, |cx| if dir == 1 { ar.poll_readable(cx) } else { ar.poll_writable(cx) }); let mut f: Fut = if dir == 1 { Box::pin(ar.clone().readable_owned()) } else { Box::pin(ar.clone().writable_owned()) }; let _ = poll(f.as_mut(), w); t.get().done += 1 }
            // a future on the same handle goes
            17 => { *fut.get() = None; t.get().done += 1 }
            // a future on the same handle starts
            18 => { let w = W::new("future from a waker"); let mut f: Fut = if dir == 0 { Box::pin(ar.clone().readable_owned()) } else { Box::pin(ar.clone().writable_owned()) }; check!(poll(f.as_mut(), w).is_pending(), "ready"); made.get().push((f, w)); t.get().done += 1 }
            o => use_lib(t.get(), o, it.get()),
        }
    });
    rt::settle();
    let v = W::new("displaces");
    let pollv = |w: &'static W| poll_fn_with(w, |cx| if dir == 0 { a.poll_readable(cx) } else { a.poll_writable(cx) });
    let n0 = v.n();
    // operation 14 makes the handle ready when it cannot wait
    check!(pollv(v).is_pending() || op == 14, "ready");
    check!(*calls.get() >= 1, "displaced waiter not woken");
    check!(t.get().done == 1, "harness: {} operations", t.get().done);
    if op == 14 { check!(v.n() > n0, "displaced in turn, and not woken") }
    rt::settle();
    // who waits now
    let last: &'static W = if op == 14 { it.get().w } else { v };
    let n = (last.n(), fw.n());
    make_ready(&b, dir);
    let due = rt::now() + MS;
    pass_to(due + SLACK);
    check!(last.n() > n.0, "{} not woken", last.name);
    let mut ok = false;
    for _ in 0..4 { if pollv(last).is_ready() { ok = true; break } pass_to(rt::now() + SLACK) }
    check!(ok, "does not complete");
    if let Some(f) = fut.get() { check!(fw.n() > n.1, "future beside not woken"); let mut ok = false; for _ in 0..4 { if poll(f.as_mut(), fw).is_ready() { ok = true; break } pass_to(rt::now() + SLACK) } check!(ok, "future beside does not complete") }
    for (f, w) in made.get() { check!(w.n() > 0, "{} not woken", w.name); let mut ok = false; for _ in 0..4 { if poll(f.as_mut(), w).is_ready() { ok = true; break } pass_to(rt::now() + SLACK) } check!(ok, "{} does not complete", w.name) }
    pass_to(rt::now() + 4 * MS + SLACK);
    for m in &mut t.get().made { m.complete("made by a waker") }
    for x in &mut t.get().extra { x.event() }
    pass_to(rt::now() + SLACK);
    for x in &mut t.get().extra { x.complete("left alone") }
    d.end();
    rt::note(op as u64);
}
/// The library gives back the last reference to a task: with it the task's futures, timers and handles go, and
/// it does other things, too.
pub fn reent_release() {
    boot(); rt::time_points(false); rt::limits(3000, 400_000);
    let d = Drive::new(rt::choose(2));
    let way = rt::choose(9);
    let io = matches!(way, 0 | 1 | 5 | 6);
    let op = rt::choose(if io { OPS + 4 } else { OPS });
    let dir = if io { rt::choose(2) } else { 0 };
    let t: &'static Sh<Toys> = leak(Sh::new(Toys { timers: vec![], made: vec![], futs: vec![], handles: vec![pair2()], extra: vec![Item::new(4, "timer of others", MS), Item::new(0, "reader of others", 0)], done: 0 }));
    for _ in 0..2 { let (a, b) = pair(); let a = Arc::new(a); let w = W::new("fut"); let mut f: Fut = Box::pin(a.clone().readable_owned()); let _ = poll(f.as_mut(), w); t.get().futs.push((f, w, 0)); t.get().handles.push((a, b)); }
    t.get().timers = (0..2).map(|_| { let w = W::new("t"); let mut x = Timer::after(Duration::from_millis(1)); let _ = poll(Pin::new(&mut x), w); x }).collect();
    let spare: &'static Sh<Item> = leak(Sh::new(Item::new(4, "spare", MS)));
    // the handle, its waits, and a future of the task that goes, on the same handle
    let (a, b) = if dir == 0 { pair() } else { fullpair() };
    let a = Arc::new(a);
    let mk = |a: &Arc<Async<UnixStream>>| -> Fut { if dir == 0 { Box::pin(a.clone().readable_owned()) } else { Box::pin(a.clone().writable_owned()) } };
    let meth = |w: &'static W| poll_fn_with(w, |cx| if dir == 0 { a.poll_readable(cx) } else { a.poll_writable(cx) });
    let w = W::new("going"); let w2 = W::new("next");
    let bw = W::new("beside");
    let mut beside: Fut = mk(&a);
    if io { check!(poll(beside.as_mut(), bw).is_pending(), "ready"); }
    let own: &'static Sh<Vec<Fut>> = leak(Sh::new(vec![]));
    if op == OPS + 1 { let mut f = mk(&a); let k = W::new("own"); check!(poll(f.as_mut(), k).is_pending(), "ready"); own.get().push(f); }
    let made: &'static Sh<Vec<(Fut, &'static W)>> = leak(Sh::new(vec![]));
    let mut f = mk(&a);
    let mut x = Timer::after(Duration::from_millis(1));
    let due = rt::now() + MS;
    match way {
        0 | 1 | 6 => { check!(poll(f.as_mut(), w).is_pending(), "ready"); }
        4 | 5 => { check!(meth(w).is_pending(), "ready"); }
        _ => { check!(poll(Pin::new(&mut x), w).is_pending(), "early"); }
    }
    let ar = if io { Some(a.clone()) } else { None };
    let freed = leak(Sh::new(false));
    w.on_free(move || {
        *freed.get() = true;
        let a = ar.as_ref();
        let mk = |d: usize| -> Fut { if d == 0 { Box::pin(a.unwrap().clone().readable_owned()) } else { Box::pin(a.unwrap().clone().writable_owned()) } };
        match op {
            o if o < OPS => use_lib(t.get(), o, spare.get()),
            OPS => { let w = W::new("made while going"); let mut f = mk(dir); if poll(f.as_mut(), w).is_pending() { made.get().push((f, w)) } }
            17 => { own.get().clear() }
            18 => { let w = W::new("other direction"); let mut f = mk(1 - dir); let _ = poll(f.as_mut(), w); }
            _ => { let k = W::new("another"); let _ = poll_fn_with(k, |cx| if dir == 0 { a.unwrap().poll_writable(cx) } else { a.unwrap().poll_readable(cx) }); }
        }
    });
    rt::settle();
    let many = || { for _ in 0..600 { let mut x = Timer::after(Duration::from_secs(1000)); let w = W::new("x"); check!(poll(Pin::new(&mut x), w).is_pending(), "early") } };
    match way {
        0 => { check!(poll(f.as_mut(), w2).is_pending(), "ready"); }
        1 => { f = mk(&a); }
        2 => { check!(poll(Pin::new(&mut x), w2).is_pending(), "early"); }
        7 => { check!(poll(Pin::new(&mut x), w2).is_pending(), "early"); many() }
        3 => { x = Timer::never(); }
        8 => { x = Timer::never(); many() }
        4 => { f = Box::pin(std::future::pending()); beside = Box::pin(std::future::pending()); let last = Arc::into_inner(a).unwrap(); drop(last); check!(*freed.get(), "waker kept by a dropped handle"); return rest(d, t, spare, bw, beside, &b, dir, false, op, f, x) }
        5 => { check!(meth(w2).is_pending(), "ready"); }
        _ => { make_ready(&b, dir); }
    }
    rt::settle();
    pass_to(due + SLACK);
    check!(*freed.get(), "waker kept");
    if io && way != 6 { make_ready(&b, dir); pass_to(rt::now() + SLACK) }
    let rounds = |p: &mut dyn FnMut() -> bool, w: &'static W| { check!(w.n() > 0, "{} not woken", w.name); for _ in 0..4 { if p() { return } pass_to(rt::now() + SLACK) } rt::fail(&format!("{} does not complete", w.name)) };
    match way {
        0 => rounds(&mut || poll(f.as_mut(), w2).is_ready(), w2),
        2 | 7 => rounds(&mut || poll(Pin::new(&mut x), w2).is_ready(), w2),
        5 => rounds(&mut || meth(w2).is_ready(), w2),
        _ => {}
    }
    for (f, w) in made.get() { if way != 6 { rounds(&mut || poll(f.as_mut(), w).is_ready(), w) } }
    rest(d, t, spare, bw, beside, &b, dir, io, op, f, x)
}
#[allow(clippy::too_many_arguments)]
fn rest(d: Drive, t: &'static Sh<Toys>, spare: &'static Sh<Item>, bw: &'static W, mut beside: Fut, b: &UnixStream, dir: usize, io: bool, op: usize, f: Fut, x: Timer) {
    if io {
        check!(bw.n() > 0, "future beside not woken");
        let mut ok = false;
        for _ in 0..4 { if poll(beside.as_mut(), bw).is_ready() { ok = true; break } pass_to(rt::now() + SLACK) }
        check!(ok, "future beside does not complete");
    }
    let _ = (b, dir);
    pass_to(rt::now() + 4 * MS + SLACK);
    for m in &mut t.get().made { m.complete("made while a task goes") }
    for x in &mut t.get().extra { x.event() }
    pass_to(rt::now() + SLACK);
    for x in &mut t.get().extra { x.complete("left alone") }
    if op != 14 && op != 15 { spare.get().complete("left alone") }
    let mut l = Item::new(0, "last", 0); rt::settle(); l.event(); pass_to(rt::now() + SLACK); l.complete("in the end");
    drop((f, x));
    d.end();
    rt::note(op as u64);
}

// ------------------------------------------------------------------ C21: idle programs

/// Nothing that is waited for is ready and no timer is due: nobody runs.
pub fn idle() {
    boot(); rt::time_points(false);
    let nb = rt::choose(3); // threads inside block_on
    let hs: Vec<_> = (0..nb).map(|i| { let e = Ev::new(); let h = spawn(move || { if i == 0 { block_on(Wait(e)) } else { block_on(async { let mut t = Timer::after(Duration::from_secs(7200)); let w = Wait(e); futures_lite::future::or(w, async { (&mut t).await; }).await }) } }); (e, h) }).collect();
    let far = rt::choose(2) == 1;
    let mut far_timer = far.then(|| Item::new(4, "far", 3_600_000 * MS));
    let k = rt::choose(18);
    let w = W::new("w");
    let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
    let (a, b) = pair();
    let a = Arc::new(a);
    let fd = a.as_raw_fd();
    match k {
        // readiness that nobody waits for any more
        0 => { let _ = (&b).write(b"x"); }
        1 => { let mut f = a.readable(); let _ = poll(Pin::new(&mut f), w); let _ = (&b).write(b"x"); rt::settle(); drop(f); }
        2 => { let mut f = a.readable(); let _ = poll(Pin::new(&mut f), w); drop(f); let _ = (&b).write(b"x"); }
        3 => { let _ = poll_fn_with(w, |cx| a.poll_readable(cx)); let _ = (&b).write(b"x"); rt::settle(); }
        4 => { let mut f = Box::pin(a.clone().readable_owned()); let _ = poll(f.as_mut(), w); let _ = (&b).write(b"x"); rt::settle(); keep.push(Box::new(f)); }
        // two waits, one cancelled; one direction waited for, the other ready
        5 => { fill(fd); let mut f = Box::pin(a.clone().writable_owned()); let mut g = a.readable(); let _ = poll(f.as_mut(), w); let _ = poll(Pin::new(&mut g), w); drop(g); let _ = (&b).write(b"x"); rt::settle(); keep.push(Box::new(f)); }
        6 => { fill(fd); let mut f = Box::pin(a.clone().writable_owned()); let mut g = Box::pin(a.clone().readable_owned()); let _ = poll(f.as_mut(), w); let _ = poll(g.as_mut(), w); let _ = (&b).write(b"x"); rt::settle(); keep.push(Box::new(f)); keep.push(Box::new(g)); }
        7 => { fill(fd); let _ = poll_fn_with(w, |cx| a.poll_writable(cx)); let _ = (&b).write(b"x"); }
        8 => { let mut f = Box::pin(a.clone().readable_owned()); let _ = poll(f.as_mut(), w); let v = W::new("v"); let mut g = a.writable(); let _ = poll(Pin::new(&mut g), v); rt::settle(); for _ in 0..4 { if poll(Pin::new(&mut g), v).is_ready() { break } rt::settle() } keep.push(Box::new(f)); }
        // hang-ups and errors
        9 => { rt::kop(); drop(b); rt::settle(); keep.push(Box::new(a.clone())); keep_idle(nb, far, &mut far_timer, w, k, 0); return end_idle(hs); }
        10 => { let mut f = Box::pin(a.clone().readable_owned()); let _ = poll(f.as_mut(), w); drop(b); pass_to(rt::now() + SLACK); check!(w.n() > 0, "not woken by the end of the stream"); keep.push(Box::new(f)); keep_idle(nb, far, &mut far_timer, w, k, 0); return end_idle(hs); }
        11 => { let mut f = a.readable(); let _ = poll(Pin::new(&mut f), w); drop(f); drop(b); keep_idle(nb, far, &mut far_timer, w, k, 0); return end_idle(hs); }
        12 => { let s = std::net::UdpSocket::bind(lo()).unwrap(); let t = std::net::UdpSocket::bind(lo()).unwrap(); s.connect(t.local_addr().unwrap()).unwrap(); drop(t); let s = Async::new(s).unwrap(); let _ = s.get_ref().send(b"x"); rt::settle(); keep.push(Box::new(s)); }
        // timers
        13 => { for i in 0..5u64 { let mut t = Timer::after(Duration::from_millis(i)); let _ = poll(Pin::new(&mut t), w); } }
        14 => { let mut t = Timer::after(Duration::from_millis(1)); let _ = poll(Pin::new(&mut t), w); pass_to(rt::now() + 2 * MS + SLACK); keep.push(Box::new(t)); }
        15 => { let mut t = Timer::never(); let _ = poll(Pin::new(&mut t), w); let mut u = Timer::after(Duration::from_secs(60)); let _ = poll(Pin::new(&mut u), w); u.set_after(Duration::MAX); keep.push(Box::new(t)); keep.push(Box::new(u)); }
        16 => { let mut t = Timer::interval(Duration::from_secs(36000)); let _ = poll_fn_with(w, |cx| Pin::new(&mut t).poll_next(cx)); keep.push(Box::new(t)); }
        // a past block_on call with I/O
        _ => { let _ = (&b).write(b"x"); block_on(a.readable()).unwrap(); block_on(async { Timer::after(Duration::from_millis(1)).await; }) }
    }
    keep_idle(nb, far, &mut far_timer, w, k, 0);
    drop(keep); drop(a);
    end_idle(hs)
}
fn keep_idle(nb: usize, far: bool, far_timer: &mut Option<Item>, w: &'static W, k: usize, _x: u32) {
    rt::settle();
    pass_to(rt::now() + 2_000 * MS); // a bounded number of steps to calm down
    let (calls, steps, wakes) = (rt::stat(8), rt::steps(), w.n());
    pass_to(rt::now() + 1_000_000 * MS);
    let (calls, steps) = (rt::stat(8) - calls, rt::steps() - steps);
    rt::note(calls);
    check!(calls <= 6, "idle case {k} with {nb} block_on calls: polled {calls} times in 1000 s");
    check!(steps <= 600, "idle case {k} with {nb} block_on calls: {steps} steps in 1000 s");
    check!(w.n() <= wakes, "woken without cause");
    // nothing is pending: nothing happens, however long it takes
    if nb == 0 && !far && k != 16 {
        let c = rt::stat(8);
        pass_to(rt::now() + 1_000_000_000 * MS);
        check!(rt::stat(8) - c <= 6, "idle case {k}: polled {} times in 1000000 s", rt::stat(8) - c);
    }
    if far { let t = far_timer.as_ref().unwrap(); check!(!t.woken(), "woken early"); }
}
fn end_idle(hs: Vec<(&'static Ev, std::thread::JoinHandle<()>)>) { for (e, h) in hs { e.fire(); h.join().unwrap() } }

// ------------------------------------------------------------------ C22: starvation

/// A handle that is always ready, whose task polls it again at once.
pub fn starve_timers() {
    boot(); rt::time_points(false);
    let d = Drive::new(rt::choose(2));
    let meth = rt::choose(2) == 1;
    let step = [0, 50 * US, 700 * US, 3 * MS][rt::choose(4)];
    let (a, b) = pair();
    let a = Arc::new(a);
    let w = W::new("busy");
    let rounds = leak(Sh::new(0u64));
    let f: &'static Sh<Option<Fut>> = leak(Sh::new(None));
    let aa = a.clone();
    let stop = leak(Sh::new(false));
    let again = move || {
        if *stop.get() { return }
        // the task reads nothing and waits again
        for _ in 0..2 {
            if meth { if poll_fn_with(w, |cx| aa.poll_readable(cx)).is_pending() { break } }
            else { let g = f.get().get_or_insert_with(|| Box::pin(aa.clone().readable_owned())); if poll(g.as_mut(), w).is_pending() { break } *f.get() = None }
        }
    };
    again();
    let due = [rt::now() + MS, rt::now() + MS, rt::now() + 4 * MS];
    let timers: Vec<Item> = (0..3).map(|i| Item::new(4, ["t0", "t1", "t2"][i], due[i] - rt::now())).collect();
    let tw: Vec<&'static W> = timers.iter().map(|t| t.w).collect();
    let late: &'static Sh<[u64; 3]> = leak(Sh::new([0; 3]));
    w.on_wake(move || {
        *rounds.get() += 1;
        for i in 0..3 { if rt::now() >= due[i] && tw[i].n() == 0 { late.get()[i] += 1; check!(late.get()[i] <= 4, "timer {i} is due and not woken, for {} rounds of I/O", late.get()[i]) } }
        if *rounds.get() > 60 { *stop.get() = true }
        // work takes time
        rt::advance(rt::now() + if step == 0 { 100 * US } else { step });
        again();
    });
    rt::settle();
    let _ = (&b).write(b"x").unwrap();
    rt::settle();
    pass_to(rt::now() + 10 * MS + SLACK + 70 * step);
    check!(*rounds.get() > 40, "the busy task is not woken ({} rounds)", rounds.get());
    for t in timers { check!(t.woken(), "{} not woken", t.w.name) }
    *stop.get() = true;
    d.end();
}
/// A future inside block_on that never pauses: it wakes itself, or reads an always ready handle.
pub fn starve_self() {
    boot(); rt::time_points(false);
    let kind = rt::choose(3);
    let pause = [20, 300, 2_000][rt::choose(3)];
    let (a, b) = pair();
    let a = Arc::new(a);
    let prim = rt::choose(2) == 1;
    let mut timers = vec![Item::new(4, "t0", MS), Item::new(4, "t1", 3 * MS)];
    let due = [rt::now() + MS, rt::now() + 3 * MS];
    let mut io = Item::new(rt::choose(4), "reader", 0);
    let (mut rounds, mut late, mut late_io) = (0u64, [0; 2], 0);
    let mut f: Option<Fut> = None;
    let _ = (&b).write(b"x").unwrap();
    let mut done = 0;
    block_on(std::future::poll_fn(|cx| {
        if rounds == 0 && prim { crate::block::prime() }
        rounds += 1;
        if rounds == 10 { io.event() }
        // work takes time, and lets others run
        std::thread::sleep(Duration::from_micros(pause));
        for i in 0..2 { if rt::now() > due[i] && !timers[i].woken() { late[i] += 1; check!(late[i] <= 6, "timer {i} is due and not woken for {} rounds", late[i]) } }
        if rounds > 10 && !io.woken() { late_io += 1; check!(late_io <= 6, "I/O is not delivered for {late_io} rounds") }
        if rounds > 20 && io.woken() && timers.iter().all(|t| t.woken()) { done += 1 }
        if done > 3 { return Poll::Ready(()) }
        check!(rounds < 2000, "the busy future runs alone");
        match kind {
            0 => cx.waker().wake_by_ref(),
            1 => for _ in 0..2 { if a.poll_readable(cx).is_pending() { break } },
            _ => for _ in 0..2 { let g = f.get_or_insert_with(|| Box::pin(a.clone().readable_owned())); if g.as_mut().poll(cx).is_pending() { break } f = None },
        }
        Poll::Pending
    }));
    rt::note(rounds);
    for t in timers.iter_mut() { t.complete("beside a busy future") }
    io.complete("beside a busy future");
}
/// Timers that fall due without a pause.
pub fn starve_io() {
    boot(); rt::time_points(false);
    let d = Drive::new(rt::choose(2));
    let how = rt::choose(3);
    let w = W::new("busy timer");
    let rounds = leak(Sh::new(0u64));
    let late = leak(Sh::new(0u64));
    let t: &'static Sh<Timer> = leak(Sh::new(Timer::after(Duration::from_micros(10))));
    let item = Item::new(rt::choose(4), "reader", 0);
    let iw = item.w;
    let began = leak(Sh::new(false));
    let item: &'static Sh<Item> = leak(Sh::new(item));
    w.on_wake(move || {
        *rounds.get() += 1;
        if *rounds.get() == 3 { item.get().event(); *began.get() = true }
        if *began.get() && iw.n() == 0 { *late.get() += 1; check!(*late.get() <= 5, "I/O is not delivered for {} rounds of timers", late.get()) }
        if *rounds.get() > 40 { return }
        let next = match how { 0 => Duration::from_nanos(1), 1 => Duration::from_nanos(0), _ => Duration::from_micros(5) };
        // the timer is set so that it is due by the time the reactor looks
        if how == 1 { t.get().set_at(std::time::Instant::now() + Duration::from_nanos(1)); } else { t.get().set_after(next); }
        let r = poll(Pin::new(t.get()), w);
        if r.is_ready() { t.get().set_after(Duration::from_nanos(500)); let _ = poll(Pin::new(t.get()), w); }
        rt::advance(rt::now() + 10 * US);
    });
    let _ = poll(Pin::new(t.get()), w);
    rt::settle();
    pass_to(rt::now() + 5 * MS + SLACK);
    check!(*rounds.get() > 30, "timer not woken ({} rounds)", rounds.get());
    item.get().complete("while timers fire all the time");
    d.end();
}
/// Many handles in one round.
pub fn starve_many() {
    boot(); rt::time_points(false); rt::limits(5000, 2_000_000);
    let n = [2, 17, 60, 150][rt::choose(4)];
    let k = rt::choose(2);
    let d = Drive::new(k);
    let mut items: Vec<Item> = (0..n).map(|i| Item::new(i % 4, "one of many", 0)).collect();
    let mut ts: Vec<Item> = (0..n / 2).map(|_| Item::new(4, "one of many timers", MS)).collect();
    rt::settle();
    let round: &'static Sh<Vec<u64>> = leak(Sh::new(vec![]));
    for i in &items { i.w.on_wake(move || { round.get().push(rt::stat(3)) }) }
    // all of it happens before the delivering thread runs
    rt::branch(false);
    rt::advance(rt::now() + MS);
    for i in &items { i.event() }
    rt::branch(true);
    rt::settle();
    pass_to(rt::now() + SLACK);
    check!(round.get().len() >= n, "{} of {n} woken", round.get().len());
    // all of them were ready before the delivering thread ran: they are woken in one round
    check!(round.get()[..n].iter().all(|&x| x == round.get()[0]), "woken in several rounds");
    for i in items.iter_mut().chain(ts.iter_mut()) { i.complete("one of many") }
    d.end();
}

// ------------------------------------------------------------------ C18: errors while waiting

/// The OS fails while the library waits for events.
pub fn fault_wait() {
    boot(); rt::time_points(false);
    rt::fault_set(rt::FC_WAIT, &[libc::EINTR, libc::EBADF, libc::ENOMEM]);
    let k = rt::choose(3);
    let mut items = vec![Item::new(0, "reader", 0), Item::new(3, "writer", 0), Item::new(4, "timer", MS), Item::new(4, "timer 2", MS), Item::new(5, "interval", 2 * MS)];
    let e = Ev::new();
    let h = match k { 0 => None, 1 => Some(spawn(move || block_on(Wait(e)))), _ => Some(spawn(move || { let (a, b) = pair(); let h = spawn(move || { let _ = (&b).write(b"x").unwrap(); b }); block_on(a.readable()).unwrap(); block_on(async { Timer::after(Duration::from_millis(1)).await; }); let _b = h.join().unwrap(); block_on(Wait(e)) })) };
    let t = rt::now() + 2 * MS;
    for i in &items { i.event() }
    pass_to(t + SLACK);
    for i in &mut items { i.complete("with an error of the OS") }
    rt::fault_clear();
    e.fire();
    if let Some(h) = h { h.join().unwrap() }
    for i in &mut items { i.again() }
    rt::settle();
    for i in &items { i.event() }
    pass_to(rt::now() + 4 * MS + SLACK);
    for i in &mut items { i.complete("after an error of the OS") }
}
/// Interest cannot be registered again while several things are delivered.
pub fn fault_rearm() {
    boot(); rt::time_points(false);
    let d = Drive::new(rt::choose(2));
    // both directions of one handle are waited for, only one becomes ready; other handles and timers are due in the same round
    let (a, b) = fullpair();
    let a = Arc::new(a);
    let (w, v) = (W::new("reader"), W::new("writer"));
    let meth = rt::choose(2) == 1;
    let mut f: Fut = Box::pin(a.clone().readable_owned());
    let mut g: Fut = Box::pin(a.clone().writable_owned());
    check!(poll(f.as_mut(), w).is_pending(), "ready");
    let pollw = |g: &mut Fut| if meth { poll_fn_with(v, |cx| a.poll_writable(cx)) } else { poll(g.as_mut(), v) };
    check!(pollw(&mut g).is_pending(), "ready");
    let mut items = vec![Item::new(0, "other reader", 0), Item::new(4, "timer", MS), Item::new(3, "other writer", 0)];
    rt::settle();
    rt::fault_set(rt::FC_MOD, &[libc::ENOMEM, libc::EPERM, libc::ENOENT]);
    let t = rt::now() + MS;
    let nf = rt::nfaults();
    let _ = (&b).write(b"x").unwrap();
    for i in &items { i.event() }
    rt::advance(t);
    pass_to(t + SLACK);
    let faulted = rt::nfaults() > nf;
    rt::fault_clear();
    check!(w.n() > 0, "reader not woken");
    for i in &mut items { i.complete("while interest could not be registered again") }
    // the writer waits on, or is told
    let n = v.n();
    if n > 0 {
        check!(faulted, "woken without cause");
        match pollw(&mut g) { Poll::Pending => {} Poll::Ready(Err(e)) => { let _ = e; g = Box::pin(a.clone().writable_owned()); check!(pollw(&mut g).is_pending(), "ready") } Poll::Ready(Ok(())) => rt::fail("ready although it is not") }
    }
    rt::settle();
    let n = v.n();
    rt::kop(); drain(b.as_raw_fd()); rt::kdirty();
    pass_to(rt::now() + SLACK);
    check!(v.n() > n, "the writer's wait was lost");
    let mut ok = false;
    for _ in 0..4 { match pollw(&mut g) { Poll::Ready(Ok(())) => { ok = true; break } Poll::Ready(Err(e)) => rt::fail(&format!("{e}")), _ => pass_to(rt::now() + SLACK) } }
    check!(ok, "does not complete");
    d.end();
}
/// A handle cannot be deregistered.
pub fn fault_delete() {
    boot(); rt::time_points(false);
    let (a, _b) = pair();
    let fd = a.as_raw_fd();
    let w = W::new("w");
    let waits = rt::choose(2) == 1;
    if waits { let _ = poll_fn_with(w, |cx| a.poll_readable(cx)); }
    let mut it = Item::new(0, "other", 0);
    let mut tm = Item::new(4, "timer", MS);
    rt::settle();
    let fds = count_fds();
    rt::fault_set(rt::FC_DEL, &[libc::ENOMEM, libc::ENOENT]);
    let n = rt::nfaults();
    match rt::choose(3) {
        0 => drop(a),
        1 => match a.into_inner() { Ok(s) => { check!(rt::nfaults() == n, "an error of the OS was swallowed"); drop(s) } Err(e) => check!(rt::nfaults() > n && e.raw_os_error() == Some(rt::last_fault()), "error {e:?}") },
        _ => match std::os::unix::io::OwnedFd::try_from(a) { Ok(s) => { check!(rt::nfaults() == n, "an error of the OS was swallowed"); drop(s) } Err(e) => check!(rt::nfaults() > n && e.raw_os_error() == Some(rt::last_fault()), "error {e:?}") },
    }
    rt::fault_clear();
    check!(!fd_open(fd) && count_fds() == fds - 1, "descriptor leaked");
    rt::settle();
    check!(w.refs() == 0, "waker still held");
    // the number can be used again, and others are not disturbed
    let mut nw = Item::new(0, "new", 0);
    it.event(); nw.event();
    pass_to(rt::now() + MS + SLACK);
    it.complete("after a failed deregistration"); nw.complete("after a failed deregistration"); tm.complete("after a failed deregistration");
}
