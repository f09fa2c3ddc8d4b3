//! Creating, dropping and unwrapping handles; modes; the exported descriptor; first use.
use crate::io_hist::{drain, fill};
use crate::rt;
use crate::util::*;
use async_io::{Async, Timer};
use std::io::{self, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, OwnedFd};
use std::os::unix::net::{UnixDatagram, UnixListener, UnixStream};
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;

// ------------------------------------------------------------------ registration (C13)

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Create(usize), Dup(usize), Unwrap(usize), Drop(usize), Wait(usize), Event(usize), Bad, FailCreate(usize), Settle, CloneFd(usize), Kill }
use Op::*;

/// One of two places: a socket that is closed, open by itself, or wrapped in a handle.
struct Place { raw: Option<UnixStream>, h: Option<Async<UnixStream>>, peer: UnixStream, fd: i32, w: &'static W, waits: Option<(u64, u64)>, extra: Option<Async<OwnedFd>>, gone: bool }
impl Place {
    fn new(n: &'static str) -> Place { let (a, b) = UnixStream::pair().unwrap(); b.set_nonblocking(true).unwrap(); let fd = a.as_raw_fd(); Place { raw: Some(a), h: None, peer: b, fd, w: W::new(n), waits: None, extra: None, gone: false } }
}
struct L { p: [Place; 2], failing: bool }
impl L {
    fn possible(&self, op: Op) -> bool {
        match op {
            Create(i) => self.p[i].raw.is_some(),
            FailCreate(i) => self.p[i].raw.is_some(),
            Dup(i) | Unwrap(i) | Wait(i) | Drop(i) => self.p[i].h.is_some(),
            CloneFd(i) => self.p[i].h.is_some() && self.p[i].extra.is_none(),
            Event(i) => !self.p[i].gone && !ready(self.p[i].fd, 0),
            Bad | Settle => true,
            Kill => self.p.iter().any(|p| p.extra.is_some()),
        }
    }
    fn expect(&self) -> i32 { self.p.iter().map(|p| p.h.is_some() as i32 + p.extra.is_some() as i32).sum() }
    fn step(&mut self, op: Op) {
        rt::log(&format!("op {op:?}"));
        let before = count_fds();
        let mut delta = 0i64;
        match op {
            Create(i) => {
                let p = &mut self.p[i];
                let s = p.raw.take().unwrap();
                match Async::new(s) {
                    Ok(h) => { check!(rt::registered(p.fd), "new handle not registered"); check!(h.as_raw_fd() == p.fd && h.get_ref().as_raw_fd() == p.fd, "another descriptor"); check!(fd_nonblocking(p.fd), "new handle in blocking mode"); p.h = Some(h); p.waits = None }
                    Err(e) => rt::fail(&format!("creating a handle failed: {e}")),
                }
            }
            // the OS refuses
            FailCreate(i) => {
                let p = &mut self.p[i];
                let s = p.raw.take().unwrap();
                rt::fault_set(rt::FC_ADD, &[libc::ENOSPC]);
                let n = rt::nfaults();
                let r = Async::new(s);
                rt::fault_clear();
                match r {
                    Ok(h) => { check!(rt::nfaults() == n && rt::registered(p.fd), "created although the OS refused to register it"); p.h = Some(h); p.waits = None }
                    Err(e) => {
                        check!(rt::nfaults() > n && e.raw_os_error() == Some(libc::ENOSPC), "wrong error {e:?}");
                        check!(!fd_open(p.fd), "descriptor leaked by a failed creation"); check!(!rt::registered(p.fd), "still registered");
                        p.gone = true; delta = -1;
                    }
                }
            }
            // a second handle for the same descriptor is refused and harms nothing
            Dup(i) => {
                let p = &self.p[i];
                let fd = unsafe { BorrowedFd::borrow_raw(p.fd) };
                let r = if rt::choose(2) == 0 { Async::new_nonblocking(fd) } else { Async::new(fd) };
                match r { Ok(_) => rt::fail("one descriptor was registered twice"), Err(e) => check!(e.kind() == io::ErrorKind::AlreadyExists, "wrong error {e:?}") }
                check!(rt::registered(p.fd), "a refused registration removed the existing one");
            }
            // another descriptor for the same socket is a handle of its own
            CloneFd(i) => {
                let p = &mut self.p[i];
                let c = p.h.as_ref().unwrap().as_fd().try_clone_to_owned().unwrap();
                let c = Async::new(c);
                match c { Ok(c) => { check!(rt::registered(c.as_raw_fd()), "not registered"); p.extra = Some(c) } Err(e) => rt::fail(&format!("creating a handle failed: {e}")) }
                delta = 1;
            }
            Kill => { for p in &mut self.p { if let Some(x) = p.extra.take() { let fd = x.as_raw_fd(); drop(x); check!(!fd_open(fd) && !rt::registered(fd), "dropped handle open or registered"); delta -= 1; } } }
            Unwrap(i) => {
                let p = &mut self.p[i];
                let h = p.h.take().unwrap();
                let which = rt::choose(2);
                let r: io::Result<UnixStream> = if which == 0 { h.into_inner() } else { OwnedFd::try_from(h).map(|o| o.into()) };
                match r { Ok(s) => { check!(s.as_raw_fd() == p.fd && fd_open(p.fd), "unwrapping returned another or a closed descriptor"); check!(!rt::registered(p.fd), "unwrapped handle still registered"); check!(fd_nonblocking(p.fd), "unwrapping changed the mode"); p.raw = Some(s) }
                    Err(e) => rt::fail(&format!("unwrapping failed: {e}")) }
                self.over(i);
            }
            Drop(i) => {
                let p = &mut self.p[i];
                p.h = None;
                check!(!rt::registered(p.fd) && !fd_open(p.fd), "dropped handle still registered or open");
                p.gone = true; delta = -1;
                self.over(i);
            }
            Wait(i) => {
                let p = &mut self.p[i];
                let n = p.w.n();
                let h = p.h.as_ref().unwrap();
                match poll_fn_with(p.w, |cx| h.poll_readable(cx)) { Poll::Pending => p.waits = Some((n, rt::evseq())), Poll::Ready(r) => { check!(r.is_ok() && rt::reported(p.fd, 0) > 0, "ready without an event, or {r:?}"); p.waits = None } }
            }
            Event(i) => { let _ = (&self.p[i].peer).write(b"x").unwrap(); }
            // a regular file cannot be registered
            Bad => {
                let f = std::fs::File::open("/proc/self/status").or_else(|_| std::fs::File::open("/etc/passwd")).unwrap();
                let f = if rt::choose(2) == 0 { f } else { std::fs::File::open("/etc/passwd").unwrap() };
                let is_reg = f.metadata().map(|m| m.is_file()).unwrap_or(false);
                let fd = f.as_raw_fd();
                if let Err(e) = Async::new(f) { check!(e.raw_os_error() == Some(libc::EPERM), "wrong error {e:?}"); } else { let _ = is_reg; }
                check!(!fd_open(fd) && !rt::registered(fd), "descriptor leaked");
            }
            Settle => { rt::settle(); self.settled() }
        }
        let after = count_fds();
        check!(after as i64 == before as i64 + delta, "{} descriptors, expected {}", after, before as i64 + delta);
        check!(rt::stat(2) == 0, "a descriptor was closed while registered");
        check!(rt::stat(9) == 0, "a descriptor was closed twice");
        for p in &self.p { check!(rt::registered(p.fd) == p.h.is_some(), "descriptor {} registered: {}", p.fd, rt::registered(p.fd)) }
        check!(rt::count_registered() == self.base() + self.expect(), "{} descriptors registered, expected {}", rt::count_registered(), self.base() + self.expect());
    }
    fn base(&self) -> i32 { 2 }
    fn over(&mut self, i: usize) {
        let p = &mut self.p[i];
        p.waits = None;
        check!(p.w.refs() <= 1, "waker held {} times after its handle is gone", p.w.refs());
    }
    fn settled(&self) {
        for p in &self.p {
            if let (Some((n, seq)), true) = (p.waits, p.h.is_some()) {
                check!(p.w.n() > n || !ready(p.fd, 0), "{} not woken although its handle is ready", p.w.name);
                check!(p.w.n() > n || rt::reported(p.fd, 0) <= seq, "{} not woken although the OS reported it", p.w.name);
            }
            if p.h.is_none() { check!(p.w.refs() == 0, "the waker of a handle that is gone is still held") }
        }
        check!(rt::stat(1) == 0, "a thread blocked in I/O");
    }
    fn finish(&mut self) {
        rt::settle(); self.settled();
        // every socket that is left works
        for i in 0..2 {
            if self.p[i].gone { continue }
            if self.p[i].raw.is_some() { self.step(Create(i)) }
            drain(self.p[i].fd);
            let p = &mut self.p[i];
            let h = p.h.as_ref().unwrap();
            let w = W::new("last");
            let mut f = h.readable();
            check!(poll(Pin::new(&mut f), w).is_pending(), "ready at its first poll");
            rt::settle();
            let n = w.n();
            let _ = (&p.peer).write(b"x").unwrap();
            rt::settle();
            check!(w.n() > n, "a handle does not wake its task");
            let mut done = false;
            for _ in 0..4 { if let Poll::Ready(r) = poll(Pin::new(&mut f), w) { check!(r.is_ok(), "{r:?}"); done = true; break } rt::settle() }
            check!(done, "does not complete");
        }
        for i in 0..2 { if self.p[i].h.is_some() { self.step(Drop(i)) } }
        self.step(Kill);
        check!(rt::count_registered() == self.base(), "something stays registered");
        rt::note(self.p[0].w.n() * 5 + self.p[1].w.n());
    }
}
fn life(alphabet: &[Op], depth: usize, failing: bool) {
    boot(); rt::time_points(false);
    check!(rt::count_registered() == 2, "harness: {} registered", rt::count_registered());
    let mut l = L { p: [Place::new("p"), Place::new("q")], failing };
    let _ = l.failing;
    for _ in 0..depth {
        let ok: Vec<Op> = alphabet.iter().copied().filter(|&o| l.possible(o)).collect();
        if ok.is_empty() { break }
        l.step(ok[rt::choose(ok.len())]);
    }
    l.finish();
}
pub fn life_two() { life(&[Create(0), Create(1), Drop(0), Unwrap(0), Wait(0), Wait(1), Event(0), Drop(1)], depth(5, 7), false) }
pub fn life_dup() { life(&[Create(0), Dup(0), Unwrap(0), Wait(0), Event(0), CloneFd(0), Kill, Settle], depth(6, 7), false) }
pub fn life_fail() { life(&[Create(0), FailCreate(0), FailCreate(1), Unwrap(0), Wait(0), Event(0), Bad, Settle], depth(5, 6), true) }
/// Two threads create, use and drop handles at the same time.
pub fn life_race() {
    boot(); rt::time_points(false);
    let k = rt::choose(4);
    let (a, b) = UnixStream::pair().unwrap();
    let fd = a.as_raw_fd();
    let a = Async::new(a).unwrap();
    let w = W::new("w");
    let _ = poll_fn_with(w, |cx| a.poll_readable(cx));
    let (c, d) = UnixStream::pair().unwrap();
    let h = spawn(move || { let c = Async::new(c).unwrap(); let c2 = c.into_inner().unwrap(); let c = Async::new(c2).unwrap(); check!(rt::registered(c.as_raw_fd()), "not registered"); c });
    let g = spawn(move || { let _ = (&b).write(b"x"); b });
    match k {
        0 => drop(a),
        1 => { let s = a.into_inner().unwrap(); check!(s.as_raw_fd() == fd && !rt::registered(fd) && fd_open(fd), "unwrap"); let s = Async::new(s).unwrap(); drop(s) }
        2 => { let x = Async::new_nonblocking(unsafe { BorrowedFd::borrow_raw(fd) }); check!(x.is_err(), "registered twice"); drop(x); check!(rt::registered(fd), "lost its registration"); drop(a) }
        _ => { let o: OwnedFd = a.try_into().unwrap(); check!(o.as_raw_fd() == fd && !rt::registered(fd), "unwrap"); }
    }
    let c = h.join().unwrap(); let _b = g.join().unwrap();
    let x = W::new("x");
    let mut f = c.readable();
    check!(poll(Pin::new(&mut f), x).is_pending(), "ready at its first poll");
    rt::settle();
    // an event of the handle that had the slot before may wake the task, but not complete its wait
    let mut n = 0;
    for _ in 0..3 { if x.n() > n { n = x.n(); check!(poll(Pin::new(&mut f), x).is_pending(), "ready because of another handle's event"); rt::settle() } }
    let n = x.n();
    let _ = (&d).write(b"x").unwrap();
    rt::settle();
    check!(x.n() > n, "the new handle does not wake its task");
    let mut ok = false;
    for _ in 0..3 { if poll(Pin::new(&mut f), x).is_ready() { ok = true; break } rt::settle() }
    check!(ok, "the new handle's wait does not complete");
    check!(rt::stat(2) == 0 && rt::stat(9) == 0, "descriptor closed while registered, or twice");
    check!(w.refs() == 0, "waker of a handle that is gone still held");
    drop(f); drop(c);
    check!(rt::count_registered() == 2, "something stays registered");
}

// ------------------------------------------------------------------ modes (C15)

fn tmp(n: &str) -> std::path::PathBuf { std::path::PathBuf::from(format!("\0mc-{}-{n}", std::process::id())) }
fn scratch(n: &str) -> std::path::PathBuf { let p = std::env::temp_dir().join(format!("mc-{}-{n}", std::process::id())); let _ = std::fs::remove_file(&p); p }
struct Rm(std::path::PathBuf);
impl std::ops::Drop for Rm { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
fn now_or_fail<T>(f: impl std::future::Future<Output = T>, what: &str) -> T {
    let w = W::new("now");
    let mut f = Box::pin(f);
    for _ in 0..6 { if let Poll::Ready(r) = poll(f.as_mut(), w) { return r } rt::quiesce() }
    rt::fail(&format!("{what} does not complete"))
}
/// Every constructor gives a non-blocking handle; whatever state the original was in.
pub fn mode_new() {
    boot(); rt::time_points(false); rt::tcp(3);
    let nb = rt::choose(2) == 1;
    // other flags of the original, which are to stay
    let flags = std::cell::Cell::new(None);
    let getfl = |fd: i32| unsafe { raw(libc::SYS_fcntl, [fd as i64, libc::F_GETFL as i64, 0, 0, 0, 0]) } & !(libc::O_NONBLOCK as i64);
    let m = |fd: i32| { let f = unsafe { raw(libc::SYS_fcntl, [fd as i64, libc::F_GETFL as i64, 0, 0, 0, 0]) }; unsafe { raw(libc::SYS_fcntl, [fd as i64, libc::F_SETFL as i64, libc::O_APPEND as i64 | if nb { f | libc::O_NONBLOCK as i64 } else { f & !(libc::O_NONBLOCK as i64) }, 0, 0, 0]) }; flags.set(Some(getfl(fd))); };
    let lo = lo();
    let k = rt::choose(24);
    let chk = |fd: i32, what: &str| { check!(fd_nonblocking(fd), "{what} gives a blocking handle"); check!(rt::registered(fd), "{what}: not registered"); if let Some(f) = flags.get() { check!(getfl(fd) == f, "{what} changes other flags of the descriptor: {f:o} to {:o}", getfl(fd)) } };
    match k {
        0 => { let (a, _b) = UnixStream::pair().unwrap(); m(a.as_raw_fd()); let a = Async::new(a).unwrap(); chk(a.as_raw_fd(), "new(UnixStream)") }
        1 => { let a = UdpSocket::bind(lo).unwrap(); m(a.as_raw_fd()); let a = Async::new(a).unwrap(); chk(a.as_raw_fd(), "new(UdpSocket)") }
        2 => { let a = Async::<TcpListener>::bind(lo).unwrap(); chk(a.as_raw_fd(), "TcpListener::bind") }
        3 => { let a = Async::<UdpSocket>::bind(lo).unwrap(); chk(a.as_raw_fd(), "UdpSocket::bind") }
        4 => { let a = Async::<UnixListener>::bind(tmp("l")); if let Ok(a) = a { chk(a.as_raw_fd(), "UnixListener::bind") } else { let p = scratch("l"); let _r = Rm(p.clone()); let a = Async::<UnixListener>::bind(&p).unwrap(); chk(a.as_raw_fd(), "UnixListener::bind") } }
        5 => { let p = scratch("d"); let _r = Rm(p.clone()); let a = Async::<UnixDatagram>::bind(&p).unwrap(); chk(a.as_raw_fd(), "UnixDatagram::bind") }
        6 => { let a = Async::<UnixDatagram>::unbound().unwrap(); chk(a.as_raw_fd(), "UnixDatagram::unbound") }
        7 => { let (a, b) = Async::<UnixDatagram>::pair().unwrap(); chk(a.as_raw_fd(), "UnixDatagram::pair"); chk(b.as_raw_fd(), "UnixDatagram::pair") }
        8 => { let (a, b) = Async::<UnixStream>::pair().unwrap(); chk(a.as_raw_fd(), "UnixStream::pair"); chk(b.as_raw_fd(), "UnixStream::pair") }
        9 => { let l = TcpListener::bind(lo).unwrap(); let a = now_or_fail(Async::<TcpStream>::connect(l.local_addr().unwrap()), "connect").unwrap(); chk(a.as_raw_fd(), "TcpStream::connect"); check!(rt::stat(1) == 0, "connect blocked") }
        10 => { let p = scratch("c"); let _r = Rm(p.clone()); let _l = UnixListener::bind(&p).unwrap(); let a = now_or_fail(Async::<UnixStream>::connect(&p), "connect").unwrap(); chk(a.as_raw_fd(), "UnixStream::connect") }
        11 => { let l = Async::<TcpListener>::bind(lo).unwrap(); let _c = TcpStream::connect(l.get_ref().local_addr().unwrap()).unwrap(); rt_reset_blocking(); let (a, _) = now_or_fail(l.accept(), "accept").unwrap(); chk(a.as_raw_fd(), "TcpListener::accept") }
        12 => { let p = scratch("a"); let _r = Rm(p.clone()); let l = Async::<UnixListener>::bind(&p).unwrap(); let _c = UnixStream::connect(&p).unwrap(); rt_reset_blocking(); let (a, _) = now_or_fail(l.accept(), "accept").unwrap(); chk(a.as_raw_fd(), "UnixListener::accept") }
        13 => { let l = Async::<TcpListener>::bind(lo).unwrap(); let _c = TcpStream::connect(l.get_ref().local_addr().unwrap()).unwrap(); rt_reset_blocking(); let mut s = Box::pin(l.incoming()); use futures_lite::StreamExt; let a = now_or_fail(s.next(), "incoming").unwrap().unwrap(); chk(a.as_raw_fd(), "TcpListener::incoming") }
        14 => { let p = scratch("i"); let _r = Rm(p.clone()); let l = Async::<UnixListener>::bind(&p).unwrap(); let _c = UnixStream::connect(&p).unwrap(); rt_reset_blocking(); let mut s = Box::pin(l.incoming()); use futures_lite::StreamExt; let a = now_or_fail(s.next(), "incoming").unwrap().unwrap(); chk(a.as_raw_fd(), "UnixListener::incoming") }
        15 => { let a = TcpListener::bind(lo).unwrap(); m(a.as_raw_fd()); let a: Async<TcpListener> = a.try_into().unwrap(); chk(a.as_raw_fd(), "from TcpListener") }
        16 => { let l = TcpListener::bind(lo).unwrap(); let a = TcpStream::connect(l.local_addr().unwrap()).unwrap(); m(a.as_raw_fd()); let a: Async<TcpStream> = a.try_into().unwrap(); chk(a.as_raw_fd(), "from TcpStream") }
        17 => { let a = UdpSocket::bind(lo).unwrap(); m(a.as_raw_fd()); let a: Async<UdpSocket> = a.try_into().unwrap(); chk(a.as_raw_fd(), "from UdpSocket") }
        18 => { let p = scratch("f"); let _r = Rm(p.clone()); let a = UnixListener::bind(&p).unwrap(); m(a.as_raw_fd()); let a: Async<UnixListener> = a.try_into().unwrap(); chk(a.as_raw_fd(), "from UnixListener") }
        19 => { let (a, _b) = UnixStream::pair().unwrap(); m(a.as_raw_fd()); let a: Async<UnixStream> = a.try_into().unwrap(); chk(a.as_raw_fd(), "from UnixStream") }
        20 => { let (a, _b) = UnixDatagram::pair().unwrap(); m(a.as_raw_fd()); let a: Async<UnixDatagram> = a.try_into().unwrap(); chk(a.as_raw_fd(), "from UnixDatagram") }
        21 => { let (a, _b) = UnixStream::pair().unwrap(); m(a.as_raw_fd()); let o: OwnedFd = a.into(); let fd = o.as_raw_fd(); let a: Async<UnixStream> = o.try_into().unwrap(); check!(a.as_raw_fd() == fd, "another descriptor"); chk(fd, "from OwnedFd") }
        22 => { let mut p = [0i32; 2]; check!(unsafe { libc::pipe(p.as_mut_ptr()) } == 0, "pipe"); m(p[0]); let a = Async::new(unsafe { std::fs::File::from_raw_fd(p[0]) }).unwrap(); let _b = unsafe { OwnedFd::from_raw_fd(p[1]) }; chk(a.as_raw_fd(), "new(File)") }
        _ => { let (a, _b) = UnixStream::pair().unwrap(); m(a.as_raw_fd()); let a = Async::new(a.as_fd()).unwrap(); chk(a.as_raw_fd(), "new(BorrowedFd)") }
    }
    check!(rt::stat(2) == 0 && rt::stat(9) == 0, "closed while registered, or twice");
}
fn rt_reset_blocking() {}
/// new_nonblocking leaves the mode alone, and so do unwrapping and dropping.
pub fn mode_keep() {
    boot(); rt::time_points(false);
    let nb = rt::choose(2) == 1;
    let (a, b) = UnixStream::pair().unwrap();
    a.set_nonblocking(nb).unwrap();
    let fd = a.as_raw_fd();
    let a = Async::new_nonblocking(a).unwrap();
    check!(fd_nonblocking(fd) == nb, "new_nonblocking changed the mode");
    let w = W::new("w");
    match rt::choose(3) {
        0 => {}
        1 => { let _ = poll_fn_with(w, |cx| a.poll_readable(cx)); let _ = (&b).write(b"x"); rt::settle(); check!(w.n() == 1, "not woken") }
        _ => { let mut f = a.writable(); let _ = poll(Pin::new(&mut f), w); rt::settle(); check!(w.n() >= 1, "not woken") }
    }
    check!(fd_nonblocking(fd) == nb, "waiting changed the mode");
    let s: UnixStream = match rt::choose(2) { 0 => a.into_inner().unwrap(), _ => OwnedFd::try_from(a).unwrap().into() };
    check!(fd_nonblocking(fd) == nb, "unwrapping changed the mode");
    let a = Async::new(s).unwrap();
    check!(fd_nonblocking(fd), "new gives a blocking handle");
    let s = a.into_inner().unwrap();
    check!(fd_nonblocking(fd), "unwrapping changed the mode");
    drop(s);
}
/// The OS refuses to change the mode: the error comes back, nothing is registered, the descriptor is closed.
pub fn mode_refused() {
    boot(); rt::time_points(false);
    let (a, _b) = UnixStream::pair().unwrap();
    let fd = a.as_raw_fd();
    rt::fault_set(rt::FC_IOCTL, &[libc::EIO, libc::ENOTTY]);
    let n = rt::nfaults();
    let c0 = rt::stat(4);
    let r = Async::new(a);
    rt::fault_clear();
    match r {
        Ok(a) => { check!(rt::nfaults() == n, "an error of the OS was swallowed"); check!(fd_nonblocking(fd), "blocking"); drop(a) }
        Err(e) => { check!(rt::nfaults() > n && matches!(e.raw_os_error(), Some(libc::EIO) | Some(libc::ENOTTY)), "{e:?}"); check!(rt::stat(4) == c0 || !rt::registered(fd), "stays registered") }
    }
    check!(!fd_open(fd) && !rt::registered(fd), "descriptor left open or registered");
}
/// No operation blocks the thread that polls it, whether it can be carried out at once or not.
pub fn mode_poll() {
    boot(); rt::time_points(false); rt::tcp(2);
    use futures_lite::{AsyncReadExt, AsyncWriteExt};
    let lo = lo();
    let k = rt::choose(19);
    let full = rt::choose(2) == 1;
    let big = vec![3u8; 1 << 20];
    let w = W::new("w");
    let mut buf = [0u8; 16];
    let pr = || { let (a, b) = UnixStream::pair().unwrap(); if full { fill(a.as_raw_fd()); (&b).write_all(b"abc").unwrap(); } (Async::new(a).unwrap(), b) };
    let dg = || { let (a, b) = UnixDatagram::pair().unwrap(); if full { fill(a.as_raw_fd()); b.send(b"abc").unwrap(); } (Async::new(a).unwrap(), b) };
    static N0: Sh<u64> = Sh::new(0); // what the harness's own setting up did
    fn go<T>(f: impl std::future::Future<Output = T>, w: &'static W) { let mut f = Box::pin(f); *N0.get() = rt::stat(1); let r = poll(f.as_mut(), w); rt::note(r.is_ready() as u64); if r.is_pending() { rt::settle(); if w.n() > 0 { let _ = poll(f.as_mut(), w); } } }
    match k {
        0 => { let (mut a, _b) = pr(); go(a.read(&mut buf), w) }
        1 => { let (mut a, _b) = pr(); go(a.write(&big), w) }
        2 => { let (mut a, _b) = pr(); go(a.write_all(&big), w) }
        3 => { let (a, _b) = pr(); go((&a).read(&mut buf), w) }
        4 => { let (a, _b) = pr(); go((&a).write(&big), w) }
        5 => { let (mut a, _b) = pr(); go(a.flush(), w) }
        6 => { let (mut a, _b) = pr(); go(a.close(), w) }
        7 => { let (a, _b) = pr(); go(a.readable(), w) }
        8 => { let (a, _b) = pr(); go(a.writable(), w) }
        9 => { let (a, _b) = dg(); go(a.recv(&mut buf), w) }
        10 => { let (a, _b) = dg(); go(a.send(b"123"), w) }
        11 => { let (a, _b) = dg(); go(a.recv_from(&mut buf), w) }
        12 => { let l = Async::<TcpListener>::bind(lo).unwrap(); let _c = if full { Some(TcpStream::connect(l.get_ref().local_addr().unwrap()).unwrap()) } else { None }; go(l.accept(), w) }
        13 => { let u = Async::<UdpSocket>::bind(lo).unwrap(); if full { u.get_ref().send_to(b"x", u.get_ref().local_addr().unwrap()).unwrap(); } go(u.recv_from(&mut buf), w) }
        14 => { let u = Async::<UdpSocket>::bind(lo).unwrap(); if full { u.get_ref().send_to(b"x", u.get_ref().local_addr().unwrap()).unwrap(); } go(u.peek_from(&mut buf), w) }
        15 => { let u = Async::<UdpSocket>::bind(lo).unwrap(); let a = u.get_ref().local_addr().unwrap(); go(u.send_to(b"x", a), w) }
        16 => { let l = TcpListener::bind(lo).unwrap(); let a = l.local_addr().unwrap(); if !full { drop(l) } go(Async::<TcpStream>::connect(a), w) }
        17 => { let p = scratch("x"); let _r = Rm(p.clone()); let l = UnixListener::bind(&p).unwrap(); if full { unsafe { libc::listen(l.as_raw_fd(), 0); } let _ = UnixStream::connect(&p); }
            // with a full backlog the attempt must fail or wait, not block
            go(Async::<UnixStream>::connect(&p), w) }
        _ => { let (a, _b) = pr(); go(a.read_with(|mut s| std::io::Read::read(&mut s, &mut buf)), w) }
    }
    check!(rt::stat(1) == *N0.get(), "polling blocks the thread on a descriptor");
}

// ------------------------------------------------------------------ the exported descriptor (C24)
pub fn fd_export() {
    boot(); rt::time_points(false);
    let f = async_io::os::unix::reactor_fd();
    check!(f.is_some(), "no descriptor although the backend has one");
    let ep = f.unwrap().as_raw_fd();
    let (a, b) = UnixStream::pair().unwrap();
    let a = Async::new(a).unwrap();
    check!(rt::epfd(a.as_raw_fd()) == ep, "not the event queue in which handles are registered");
    // a second handle becomes ready while the first is being delivered, so nobody is collecting
    let (c, d) = UnixStream::pair().unwrap();
    fill(c.as_raw_fd());
    let c = leak(Async::new(c).unwrap());
    let wc = W::new("c");
    let k = rt::choose(3);
    let (wr, meth) = (rt::choose(2) == 1, rt::choose(2) == 1);
    let wait = move || {
        if meth { let r = poll_fn_with(wc, |cx| if wr { c.poll_writable(cx) } else { c.poll_readable(cx) }); check!(r.is_pending(), "ready") }
        else { let mut f: Pin<Box<dyn std::future::Future<Output = io::Result<()>>>> = if wr { Box::pin(c.writable()) } else { Box::pin(c.readable()) }; check!(poll(f.as_mut(), wc).is_pending(), "ready"); std::mem::forget(f); }
    };
    if k == 0 { wait() }
    let w = W::new("a");
    let d = leak(d);
    let tested = leak(Sh::new(0));
    let event = move || if wr { rt::kop(); drain(d.as_raw_fd()) } else { let _ = (&*d).write(b"x").unwrap(); };
    w.on_wake(move || {
        if *tested.get() > 0 { return }
        *tested.get() += 1;
        if k == 1 { wait() }
        event();
        if k == 2 { wait() }
        check!(ready(ep, 0), "the exported descriptor is not readable although a handle that is waited for is ready");
        check!(async_io::os::unix::reactor_fd().map(|f| f.as_raw_fd()) == Some(ep), "the descriptor changed");
    });
    let mut f = a.readable();
    check!(poll(Pin::new(&mut f), w).is_pending(), "ready");
    let _ = (&b).write(b"y").unwrap();
    rt::settle();
    check!(*tested.get() > 0, "not woken");
    check!(wc.n() >= 1, "the second handle's task was not woken");
    check!(async_io::os::unix::reactor_fd().map(|f| f.as_raw_fd()) == Some(ep) && fd_open(ep), "the descriptor changed");
}
/// The very first call, from several threads.
pub fn fd_first() {
    rt::branch(true); rt::time_points(false);
    let h = spawn(|| async_io::os::unix::reactor_fd().unwrap().as_raw_fd());
    let x = async_io::os::unix::reactor_fd().unwrap().as_raw_fd();
    let y = h.join().unwrap();
    check!(x == y, "two descriptors");
    let (a, _b) = UnixStream::pair().unwrap();
    let a = Async::new(a).unwrap();
    check!(rt::epfd(a.as_raw_fd()) == x, "not the event queue in which handles are registered");
    drop(a);
    rt::settle();
    check!(rt::stat(0) == 1, "{} event queues", rt::stat(0));
}

// ------------------------------------------------------------------ first use (C19)
fn use_it(kind: usize) {
    match kind {
        0 => { let w = W::new("t"); let mut t = Timer::after(Duration::from_millis(1)); check!(poll(Pin::new(&mut t), w).is_pending(), "early"); let d = rt::now() + MS; while w.n() == 0 { if rt::now() > d + 50 * MS { rt::fail("a timer of the first user is not delivered") } std::thread::sleep(Duration::from_micros(300)) } check!(poll(Pin::new(&mut t), w).is_ready(), "not ready") }
        1 => { let (a, b) = UnixStream::pair().unwrap(); let a = Async::new(a).unwrap(); let w = W::new("r"); let mut f = a.readable(); check!(poll(Pin::new(&mut f), w).is_pending(), "early"); let _ = (&b).write(b"x").unwrap(); let d = rt::now(); while w.n() == 0 { if rt::now() > d + 50 * MS { rt::fail("I/O of the first user is not delivered") } std::thread::sleep(Duration::from_micros(300)) } }
        2 => { check!(async_io::block_on(async { 5 }) == 5, "value") }
        3 => { async_io::block_on(async { Timer::after(Duration::from_millis(1)).await; }) }
        4 => { let (a, b) = UnixStream::pair().unwrap(); let _ = (&b).write(b"x").unwrap(); async_io::block_on(async { let a = Async::new(a).unwrap(); a.readable().await.unwrap() }) }
        _ => { let _ = async_io::os::unix::reactor_fd(); }
    }
}
fn first(n: usize, kinds: usize) {
    rt::time_points(false);
    let ks: Vec<usize> = (0..n).map(|_| rt::choose(kinds)).collect();
    rt::branch(true);
    let hs: Vec<_> = ks[1..].iter().map(|&k| spawn(move || use_it(k))).collect();
    use_it(ks[0]);
    for h in hs { h.join().unwrap() }
    rt::settle();
    // whoever did not initialise it yet
    use_it(1);
    rt::quiesce();
    check!(rt::stat(0) == 1, "{} event queues", rt::stat(0));
    check!(rt::stat(7) as usize == n + 1, "{} threads for {} users", rt::stat(7), n);
}
pub fn first_two() { first(2, 6) }
pub fn first_three() { first(3, 5) }
pub fn unused() { let _ = (Timer::never(), IntoRawFd::into_raw_fd as fn(UnixStream) -> i32); }
