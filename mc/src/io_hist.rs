//! Histories of waits, cancellations and events on one or two handles, against an oracle that
//! knows only what the OS reported and what poll(2) says.
use crate::rt;
use crate::util::*;
use async_io::Async;
use std::future::Future;
use std::io;
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;

pub const ERRS: [i32; 2] = [libc::ENOMEM, libc::EPERM];
type Fut = Pin<Box<dyn Future<Output = io::Result<()>>>>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    /// Poll future (dir, number) with its first (false) or second (true) waker; creates it if needed.
    Poll(usize, usize, bool),
    Drop(usize, usize),
    /// poll_readable / poll_writable with the first or second waker
    Method(usize, bool),
    PeerWrite,
    Drain,
    Fill,
    PeerDrain,
    PeerClose,
    Settle,
    /// Replace the handle: drop it (and all waits) and create a new one, which takes its slot.
    Renew,
    /// Drop the handle while owned futures keep it alive.
    Release,
}
use Op::*;

pub struct Wait {
    fut: Option<Fut>,
    started: bool,
    start: u64,
    /// waker of the latest poll and its number of wakes then
    last: Option<(&'static W, u64)>,
    polled_at: u64,
    w: [&'static W; 2],
}
impl Wait {
    fn new(n: [&'static str; 2]) -> Wait { Wait { fut: None, started: false, start: 0, last: None, polled_at: 0, w: [W::new(n[0]), W::new(n[1])] } }
    fn pending(&self) -> bool { self.last.is_some() }
    fn woken(&self) -> bool { self.last.map(|(w, n)| w.n() > n).unwrap_or(false) }
}

pub struct Cx {
    pub h: Option<Arc<Async<UnixStream>>>,
    pub fd: i32,
    peer: Option<UnixStream>,
    waits: [[Wait; 2]; 2],
    meth: [Wait; 2],
    pub owned: bool,
    /// advance time when settling (needed when a block_on call makes the helper thread sleep)
    pub timed: bool,
    filled: bool,
    readable: bool,
    pub ops: usize,
    /// interest may fail to be armed
    pub faulty: bool,
    /// waits that failed and are to be retried: (direction, number or 9 for the poll method)
    failed: Vec<(usize, usize)>,
    /// keep a future that has failed
    keep_failed: bool,
    graveyard: Vec<Fut>,
    displaced: Vec<(&'static W, u64)>,
    bound: u64,
}

fn pair() -> (UnixStream, UnixStream) {
    let (a, b) = UnixStream::pair().unwrap();
    let z: i32 = 0;
    unsafe { raw(libc::SYS_setsockopt, [a.as_raw_fd() as i64, libc::SOL_SOCKET as i64, libc::SO_SNDBUF as i64, &z as *const _ as i64, 4, 0]); }
    b.set_nonblocking(true).unwrap();
    (a, b)
}
pub fn fill(fd: i32) {
    let buf = [7u8; 4096];
    loop { let r = unsafe { raw(libc::SYS_sendto, [fd as i64, buf.as_ptr() as i64, 4096, (libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) as i64, 0, 0]) }; if r <= 0 { break } }
    rt::kdirty();
}
pub fn drain(fd: i32) {
    let mut buf = [0u8; 65536];
    loop { let r = unsafe { raw(libc::SYS_recvfrom, [fd as i64, buf.as_mut_ptr() as i64, 65536, libc::MSG_DONTWAIT as i64, 0, 0]) }; if r <= 0 { break } }
    rt::kdirty();
}


impl Cx {
    pub fn new(owned: bool, timed: bool) -> Cx {
        let (a, b) = pair();
        let fd = a.as_raw_fd();
        Cx {
            h: Some(Arc::new(Async::new(a).unwrap())), fd, peer: Some(b),
            waits: [[Wait::new(["r0", "r0'"]), Wait::new(["r1", "r1'"])], [Wait::new(["w0", "w0'"]), Wait::new(["w1", "w1'"])]],
            meth: [Wait::new(["mr", "mr'"]), Wait::new(["mw", "mw'"])],
            owned, timed, filled: false, readable: false, ops: 0, faulty: false, failed: vec![], keep_failed: false, graveyard: vec![], displaced: vec![], bound: 40,
        }
    }
    pub fn settle(&self) { if self.timed { rt::quiesce() } else { rt::settle() } }
    fn possible(&self, op: Op) -> bool {
        match op {
            Drop(d, i) => self.waits[d][i].fut.is_some(),
            PeerWrite => self.peer.is_some() && !self.readable && fd_open(self.fd),
            Drain => self.readable && fd_open(self.fd),
            Fill => !self.filled && self.peer.is_some() && fd_open(self.fd),
            PeerDrain => self.filled && self.peer.is_some(),
            PeerClose => self.peer.is_some(),
            Method(..) | Renew => self.h.is_some(),
            Poll(d, i, _) => self.h.is_some() || self.waits[d][i].fut.is_some(),
            Release => self.h.is_some() && self.owned && self.waits.iter().flatten().any(|w| w.fut.is_some()),
            Settle => true,
        }
    }
    fn make(&self, d: usize) -> Fut {
        let h = self.h.as_ref().unwrap();
        if self.owned {
            if d == 0 { Box::pin(h.clone().readable_owned()) } else { Box::pin(h.clone().writable_owned()) }
        } else {
            // the futures are dropped before the handle (see drop_all)
            let h: &'static Async<UnixStream> = unsafe { &*(Arc::as_ptr(h)) };
            if d == 0 { Box::pin(h.readable()) } else { Box::pin(h.writable()) }
        }
    }
    fn result(wt: &mut Wait, fd: i32, d: usize, r: Poll<io::Result<()>>, seq0: u64, w: &'static W, n0: u64, what: &str, faults: Option<u64>) -> bool {
        match r {
            Poll::Ready(Err(e)) if faults.map(|f| rt::nfaults() > f).unwrap_or(false) => {
                check!(ERRS.contains(&e.raw_os_error().unwrap_or(0)), "{what} failed with another error than the OS reported: {e:?}");
                wt.started = false; wt.last = None;
                true
            }
            Poll::Pending => { wt.last = Some((w, n0)); wt.polled_at = rt::evseq(); if !wt.started { wt.started = true; wt.start = seq0; } false }
            Poll::Ready(r) => {
                check!(r.is_ok(), "{what} failed: {:?}", r);
                check!(wt.started, "{what} ready at its first poll");
                check!(rt::reported(fd, d) > wt.start, "{what} ready although the OS has reported nothing for this direction since the wait began");
                wt.started = false; wt.last = None;
                true
            }
        }
    }
    pub fn poll_wait(&mut self, d: usize, i: usize, alt: bool) {
        if self.waits[d][i].fut.is_none() { for w in self.waits[d][i].w { self.arm(w) } let f = self.make(d); self.waits[d][i].fut = Some(f); self.waits[d][i].started = false; self.waits[d][i].last = None; }
        let fd = self.fd;
        let wt = &mut self.waits[d][i];
        let w = wt.w[alt as usize];
        let n0 = w.n();
        let seq0 = rt::evseq();
        let nf = if self.faulty { Some(rt::nfaults()) } else { None };
        let r = poll(wt.fut.as_mut().unwrap().as_mut(), w);
        rt::log(&format!("poll {} -> {:?}", w.name, r));
        let name = w.name;
        let failed = matches!(r, Poll::Ready(Err(_)));
        if Self::result(wt, fd, d, r, seq0, w, n0, name, nf) {
            if failed { self.failed.push((d, i)); if self.keep_failed { let f = self.waits[d][i].fut.take().unwrap(); self.graveyard.push(f); return } }
            self.drop_wait(d, i);
        }
    }
    fn drop_wait(&mut self, d: usize, i: usize) {
        let wt = &mut self.waits[d][i];
        wt.fut = None; wt.started = false; wt.last = None;
        let seq = rt::evseq();
        for w in wt.w { let n = w.n(); let base = n; w.on_wake(move || check!(rt::evseq() <= seq, "{} woken for a later event although its wait is gone ({base})", w.name)); }
    }
    fn arm(&self, w: &'static W) { *w.cb.get() = None }
    pub fn method(&mut self, d: usize, alt: bool) {
        let fd = self.fd;
        let h = self.h.clone().unwrap();
        let prev = self.meth[d].last.filter(|_| !self.meth[d].woken());
        let wt = &mut self.meth[d];
        let w = wt.w[alt as usize];
        let n0 = w.n();
        let seq0 = rt::evseq();
        let nf = if self.faulty { Some(rt::nfaults()) } else { None };
        let r = poll_fn_with(w, |cx| if d == 0 { h.poll_readable(cx) } else { h.poll_writable(cx) });
        rt::log(&format!("poll {} -> {:?}", w.name, r));
        if let (Some((p, n)), Poll::Pending) = (prev, &r) {
            if !std::ptr::eq(p, w) {
                // its wake may be in flight on another thread
                check!(p.n() > n || rt::deviated(), "displaced waiter {} not woken", p.name);
                if p.n() <= n { self.displaced.push((p, n)) }
            }
        }
        let failed = matches!(r, Poll::Ready(Err(_)));
        Self::result(wt, fd, d, r, seq0, w, n0, w.name, nf);
        if failed { self.failed.push((d, 9)) }
    }
    fn drop_all(&mut self) {
        self.graveyard.clear();
        for d in 0..2 { for i in 0..2 { if self.waits[d][i].fut.is_some() { self.drop_wait(d, i); } } }
    }
    pub fn step(&mut self, op: Op) {
        rt::log(&format!("op {op:?}"));
        self.ops += 1;
        match op {
            Poll(d, i, a) => { for w in self.waits[d][i].w { self.arm(w) } self.poll_wait(d, i, a) }
            Drop(d, i) => self.drop_wait(d, i),
            Method(d, a) => self.method(d, a),
            PeerWrite => { use std::io::Write; let _ = self.peer.as_ref().unwrap().write(b"x").unwrap(); self.readable = true; }
            Drain => { rt::kop(); drain(self.fd); self.readable = false; }
            Fill => { rt::kop(); fill(self.fd); self.filled = true; }
            PeerDrain => { let p = self.peer.as_ref().unwrap().as_raw_fd(); rt::kop(); drain(p); self.filled = false; }
            PeerClose => { self.peer = None; self.filled = false; }
            Settle => { self.settle(); self.check_settled() }
            Release => { self.h = None; }
            Renew => {
                self.drop_all();
                let h = self.h.take().unwrap();
                let old = self.fd;
                check!(Arc::strong_count(&h) == 1, "somebody still holds the handle");
                drop(h);
                check!(!rt::registered(old), "dropped handle still registered");
                check!(rt::stat(2) == 0, "descriptor closed while still registered");
                for d in 0..2 { self.meth[d].last = None; self.meth[d].started = false; }
                let (a, b) = pair();
                self.fd = a.as_raw_fd();
                self.h = Some(Arc::new(Async::new(a).unwrap()));
                self.peer = Some(b);
                self.filled = false; self.readable = false;
            }
        }
    }
    fn all(&self) -> impl Iterator<Item = (usize, &Wait)> { self.waits.iter().enumerate().flat_map(|(d, v)| v.iter().map(move |w| (d, w))).chain(self.meth.iter().enumerate()) }
    /// Nothing can run any more: every wait that has cause to be woken must have been.
    pub fn check_settled(&self) {
        for (p, n) in &self.displaced { check!(p.n() > *n, "displaced waiter {} not woken", p.name) }
        for (d, wt) in self.all() {
            if let Some((w, _)) = wt.last {
                if !wt.woken() {
                    check!(!ready(self.fd, d), "{} not woken although its handle is ready", w.name);
                    check!(rt::reported(self.fd, d) <= wt.polled_at, "{} not woken although the OS reported an event for it", w.name);
                }
            }
            // wakers of waits that are over are released
            for w in wt.w {
                if wt.last.map(|(x, _)| !std::ptr::eq(x, w)).unwrap_or(true) { check!(w.refs() == 0, "waker {} is still held ({} references)", w.name, w.refs()) }
                else { check!(w.refs() <= 1, "waker {} is held {} times", w.name, w.refs()) }
            }
        }
        check!(rt::stat(1) == 0, "a thread blocked in I/O on a descriptor");
    }
    /// Tasks that were woken poll again until they complete.
    pub fn finish(&mut self) {
        rt::fault_clear();
        let rounds0 = rt::stat(8);
        self.settle(); self.check_settled();
        // what failed is tried again
        for (d, i) in std::mem::take(&mut self.failed) { if self.h.is_some() { if i == 9 { self.method(d, false) } else { self.poll_wait(d, i, false) } } }
        self.settle(); self.check_settled();
        for round in 0..4 {
            let mut any = false;
            for d in 0..2 {
                for i in 0..2 { if self.waits[d][i].pending() && self.waits[d][i].woken() { any = true; let a = std::ptr::eq(self.waits[d][i].last.unwrap().0, self.waits[d][i].w[1]); self.poll_wait(d, i, a) } }
                if self.meth[d].pending() && self.meth[d].woken() { any = true; let a = std::ptr::eq(self.meth[d].last.unwrap().0, self.meth[d].w[1]); self.method(d, a) }
            }
            self.settle(); self.check_settled();
            if !any { break }
            check!(round < 3 || !self.all().any(|(d, w)| w.pending() && ready(self.fd, d)), "a wait does not complete although its handle is ready");
        }
        let rounds = rt::stat(8) - rounds0;
        check!(rounds <= self.bound, "{rounds} polling rounds to bring an idle program to rest");
        let mut o = 0u64;
        for (_, w) in self.all() { for x in w.w { o = o.wrapping_mul(5).wrapping_add(x.n().min(4)) } o = o.wrapping_mul(2).wrapping_add(w.pending() as u64) }
        rt::note(o);
    }
    pub fn teardown(&mut self) {
        self.drop_all();
        let fd = self.fd;
        self.h = None;
        check!(!rt::registered(fd), "handle still registered after its last owner was dropped");
        check!(!fd_open(fd), "descriptor still open after the handle was dropped");
        check!(rt::stat(2) == 0, "descriptor closed while registered");
        check!(rt::stat(9) == 0, "a descriptor was closed twice");
        for d in 0..2 { self.meth[d].last = None }
        self.settle();
        for (_, wt) in self.all() { for w in wt.w { check!(w.refs() == 0, "waker {} is still held after everything was dropped", w.name) } }
    }
    pub fn run(&mut self, alphabet: &[Op], depth: usize) {
        for _ in 0..depth {
            let ok: Vec<Op> = alphabet.iter().copied().filter(|&o| self.possible(o)).collect();
            if ok.is_empty() { break }
            let op = ok[rt::choose(ok.len())];
            rt::note(op_code(op));
            self.step(op);
        }
        self.finish();
        self.teardown();
    }
}
fn op_code(o: Op) -> u64 { let s = format!("{o:?}"); s.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)) }


fn plain(owned: bool, alphabet: &[Op], depth: usize) {
    boot();
    let mut c = Cx::new(owned, false);
    c.run(alphabet, depth);
}
/// One reader: waits, events, cancellation.
pub fn io_one() { plain(false, &[Poll(0, 0, false), PeerWrite, Settle, Drop(0, 0), Drain], depth(5, 6)) }
/// Both directions of one handle.
pub fn io_dirs() { plain(false, &[Poll(0, 0, false), Poll(1, 0, false), Fill, PeerWrite, PeerDrain, Settle], depth(5, 6)) }
/// Several waits for one direction, with changing wakers and cancellation.
pub fn io_multi() { plain(false, &[Poll(0, 0, false), Poll(0, 1, false), Poll(0, 0, true), PeerWrite, Settle, Drop(0, 0)], depth(5, 6)) }
/// The poll method, displaced by another task, mixed with a readiness future.
pub fn io_meth() { plain(false, &[Method(0, false), Method(0, true), Poll(0, 0, false), PeerWrite, Settle, Drain], depth(5, 6)) }
pub fn io_methw() { plain(false, &[Method(1, false), Method(1, true), Poll(1, 0, false), Fill, PeerDrain, Settle], depth(5, 6)) }
/// Poll methods of both directions and futures of both directions.
pub fn io_cross() { plain(false, &[Method(0, false), Method(1, false), Poll(1, 0, false), Fill, PeerWrite, PeerDrain, Drop(1, 0)], depth(5, 6)) }
/// The handle is replaced by a new one in the same slot, with the same descriptor number.
pub fn io_renew() { plain(false, &[Poll(0, 0, false), Method(0, false), PeerWrite, Renew, Settle, Poll(1, 0, false)], depth(5, 6)) }
/// The peer hangs up.
pub fn io_close() { plain(false, &[Poll(0, 0, false), Poll(1, 0, false), Fill, PeerClose, Settle, Drain, Method(0, false)], depth(5, 6)) }
/// Owned futures, which may be the last owners of the handle.
pub fn io_owned() { plain(true, &[Poll(0, 0, false), Poll(1, 0, false), PeerWrite, Release, Drop(0, 0), Settle, Fill], depth(5, 6)) }
pub fn io_owned_multi() { plain(true, &[Poll(0, 0, false), Poll(0, 1, false), Poll(0, 0, true), PeerWrite, Release, Drop(0, 0), Settle], depth(5, 6)) }
/// Everything at once, shorter.
pub fn io_all() { plain(false, &[Poll(0, 0, false), Poll(0, 1, false), Poll(1, 0, false), Poll(0, 0, true), Method(0, false), Method(1, false), Method(0, true), Drop(0, 0), Drop(1, 0), Fill, PeerWrite, PeerDrain, Drain, PeerClose, Settle, Renew], depth(4, 5)) }

/// The same with a thread inside block_on, so that either it or the helper thread drives.
fn driven(alphabet: &[Op], depth: usize) {
    boot();
    rt::time_points(false);
    let e = crate::block::Ev::new();
    let h = spawn(move || async_io::block_on(crate::block::Wait(e)));
    let mut c = Cx::new(false, true);
    c.bound = 400;
    for _ in 0..depth {
        let ok: Vec<Op> = alphabet.iter().copied().filter(|&o| c.possible(o)).collect();
        let op = ok[rt::choose(ok.len())];
        rt::note(op_code(op));
        c.step(op);
    }
    c.finish();
    c.teardown();
    e.fire();
    h.join().unwrap();
}
pub fn io_driven() { driven(&[Poll(0, 0, false), PeerWrite, Settle, Poll(1, 0, false), Fill, PeerDrain], depth(3, 4)) }
pub fn io_driven_meth() { driven(&[Method(0, false), PeerWrite, Settle, Method(0, true), Drain], depth(3, 4)) }

/// Arming or re-arming interest fails.
fn faulty(owned: bool, alphabet: &[Op], depth: usize) {
    boot();
    rt::fault_set(rt::FC_MOD, &ERRS[..1]);
    let mut c = Cx::new(owned, false);
    c.faulty = true;
    c.keep_failed = rt::choose(2) == 1;
    c.run(alphabet, depth);
}
pub fn fault_arm() { faulty(false, &[Poll(0, 0, false), Poll(0, 1, false), Poll(1, 0, false), PeerWrite, Fill, PeerDrain, Settle], depth(4, 5)) }
pub fn fault_arm_meth() { faulty(false, &[Method(0, false), Method(1, false), Poll(0, 0, false), PeerWrite, Fill, PeerDrain, Settle, Method(0, true)], depth(4, 5)) }
pub fn fault_arm_owned() { faulty(true, &[Poll(0, 0, false), Poll(0, 1, false), Poll(1, 0, false), PeerWrite, Fill, PeerDrain, Release, Settle], depth(4, 5)) }
